------------------------------- MODULE Small -------------------------------
(* Minima and maxima of numbers given as limbs in two's complement, choice, and *)
(* the test for nil.                                                             *)
EXTENDS Ranges
(* shifted by half the range, signed numbers are ordered as unsigned ones *)
Signed(kind) == kind \in {"int", "uint", "int8", "int16", "int32", "int64"}    \* MinUnt and MaxUint take ints
SignBit(kind) == IF kind = "int8" THEN 128 ELSE 32768
Shifted(kind, x) == IF Signed(kind) THEN [x EXCEPT ![1] = IF @ >= SignBit(kind) THEN @ - SignBit(kind) ELSE @ + SignBit(kind)] ELSE x
Least(kind, x, y) == IF Below(Shifted(kind, y), Shifted(kind, x)) THEN y ELSE x
Greatest(kind, x, y) == IF Below(Shifted(kind, x), Shifted(kind, y)) THEN y ELSE x
Choice(first, x, y) == IF first THEN x ELSE y
(* kinds of values that are nil, and that are not *)
Nils == {"nil", "nil pointer", "nil pointer to pointer", "nil map", "nil slice", "nil bytes", "nil channel", "nil object",
         "nil interface", "nil object as interface", "nil pointer to array", "nil raw"}
NotNils == {"pointer", "pointer to nil", "map", "slice", "bytes", "channel", "object", "function", "function value", "array",
            "empty array", "array of pointers", "named array", "pointer to array", "int", "string", "bool", "float",
            "struct", "struct pointer", "curve", "raw"}
=============================================================================
