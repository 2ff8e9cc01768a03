# Caution, lines 6 and 7 contain white-space-only lines
key =
  first line


  
  


  last line
