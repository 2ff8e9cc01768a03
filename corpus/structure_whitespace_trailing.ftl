#           < whitespace >
key1 = Value              

#              ↓ nbsp
key2 = Value       

key3 = Value              {placeable}.
key4 = Value{"           "}
