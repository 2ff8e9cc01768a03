err01 = {
key01 = Bar
err02 = {
