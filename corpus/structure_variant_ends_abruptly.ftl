key = { $foo ->
    *[
# ~ERROR E0013, pos 23
