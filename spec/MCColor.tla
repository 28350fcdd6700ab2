---------------------------------- MODULE MCColor ----------------------------------
(* Laws of the conversions over all 65536 colors and all 8-bit channel values.        *)
EXTENDS Color
VARIABLE v
Init == v \in 0..65535
Next == FALSE /\ v' = v
Exact == /\ PackC(Unpack(v)) = v
         /\ ToA1("bytes", U16(v)) = Unpack(v)
         /\ ConvOk("c8", "int", From5("c8", Unpack(v)), v)           (* widening and narrowing back returns the original *)
         /\ ToA1("a5", From5("a5", Unpack(v))) = Unpack(v)
NarrowIsNearest == v < 256 => Nearest5(Narrow(v), v)
=============================================================================
