key01 =


    Value

key02 =


    .attr = Attribute


key03 =
    Value
    Continued


    Over multiple
    Lines



    .attr = Attribute


key05 =                     Value

key06 = { 1 ->


         [one] One




        *[two] Two



    }
