face-with-tears-of-joy = 😂
tetragram-for-centre = 𝌆

surrogates-in-text = \uD83D\uDE02
surrogates-in-string = {"\uD83D\uDE02"}
surrogates-in-adjacent-strings = {"\uD83D"}{"\uDE02"}

emoji-in-text = A face 😂 with tears of joy.
emoji-in-string = {"A face 😂 with tears of joy."}

# ERROR Invalid identifier
err-😂 = Value

# ERROR Invalid expression
err-invalid-expression = { 😂 }

# ERROR Invalid variant key
err-invalid-variant-key = { $sel ->
    *[😂] Value
}
