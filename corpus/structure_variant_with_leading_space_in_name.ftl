-term = { $sel ->
        *[  one] Foo
    }
