key =
    Foo { bar }
    Baz
