key =


    Value

key2 =


    .attr = Attribute


key3 =
    Value
    Value2


    Value 4
    Value3



    .attr2 = Attr 2


key5 = Value 5

key6 = { $sel ->

         [one] One

        *[two] Two

    }

key8 =

  {

      $sel

      ->

         *[one] One

    }
