key01 = A multiline value
    continued on the next line

    and also down here.

key02 =
    A multiline value starting
    on a new line.

key03 =
    .attr = A multiline attribute value
        continued on the next line

        and also down here.

key04 =
    .attr =
        A multiline attribute value
        staring on a new line

key05 =

 A multiline value with non-standard

     indentation.

key06 =
    A multiline value with {"placeables"}
    {"at"} the beginning and the end
    {"of lines"}{"."}

key07 =
    {"A multiline value"} starting and ending {"with a placeable"}

key08 =     Leading and trailing whitespace.     

key09 = zero
     three
    two
   one
  zero

key10 =
      two
    zero
        four

key11 =


      two
    zero

key12 =
{"."}
    four

key13 =
    four
{"."}
