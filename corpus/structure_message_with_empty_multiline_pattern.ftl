### BE CAREFUL WHEN EDITING THIS FILE
###
### The last character in this file is the space (" ") on line 14.
### We want to test a message with no value and with no EOL at the
### end of the fie. Most editors automatically add a trailing newline
### at EOF. If you edit this file make sure to turn this behavior off.

key1 =

 

key2 =

 