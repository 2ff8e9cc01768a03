### NOTE: Disable final newline insertion and trimming when editing this file.

key01 = Value 01

key02 = Value 02


key03 =

    Value 03

    Continued

# There are four spaces on the line between "Value 04" and "Continued".
key04 =

    Value 04
    
    Continued

# There are four spaces on the line following "Value 05".
key05 =
    Value 05
    
# There are four spaces on the line following "Value 06".
key06 = Value 06
    