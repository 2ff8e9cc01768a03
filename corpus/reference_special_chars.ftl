## OK

bracket-inline = [Value]
dot-inline = .Value
star-inline = *Value

## ERRORS

bracket-newline =
    [Value]
dot-newline =
    .Value
star-newline =
    *Value
