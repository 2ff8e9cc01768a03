err1 =
    { foo.bar ->
        [1] One
       *[2] Two
    }
