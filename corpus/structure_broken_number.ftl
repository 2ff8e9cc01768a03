err01 = { -2.4.5 }
err02 = { -2.4. }
err03 = { -.4 }
err04 = { -2..4 }
err05 = { 24d }
