
key01 = Value 01
key02 =

    Value 02
    Continued

    .title = Title

# ERROR Unclosed StringLiteral
err03 = { "str

# ERROR Missing newline after ->.
err04 = { $sel -> }
