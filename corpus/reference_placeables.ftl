nested-placeable = {{{1}}}
padded-placeable = {  1  }
sparse-placeable = { { 1 } }

# ERROR Unmatched opening brace
unmatched-open1 = { 1

# ERROR Unmatched opening brace
unmatched-open2 = {{ 1 }

# ERROR Unmatched closing brace
unmatched-close1 = 1 }

# ERROR Unmatched closing brace
unmatched-close2 = { 1 }}
