err01 = {1xx}
err02 = {1xx}

err03 = {1xx}
1xx

err04 = {1xx}

1xx

err05 = {

1xx

err06 = {1xx

    .attr = Value

err07 = {

key08 = Value

err09 = {
