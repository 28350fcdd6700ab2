--------------------------------- MODULE MCLayout ---------------------------------
EXTENDS Layout, Json, IOUtils, CSV
VARIABLES kind, e, done
Init == /\ done = FALSE /\ kind \in {"bnbl", "bncl"}
        /\ e \in [x : {0, 1, 255, 4095}, y : {0, 191, 4095}, ha : 0..2, va : 0..2, w : IF kind = "bnbl" THEN {0, 1, 2, 255} ELSE {0},
                  h : IF kind = "bnbl" THEN {0, 3, 254} ELSE {0}, img : IF kind = "bnbl" THEN {Zeros(4)} ELSE {Zeros(4), <<1, 2, 3, 255>>}]
Next == ~done /\ done' = TRUE /\ UNCHANGED <<kind, e>>
ElInverse == ElDecode(kind, ElEncode(kind, e), 0) = e
Size == Len(ElEncode(kind, e)) = ElSize(kind)
(* the corner, size and alignment determine the anchor again *)
Anchor == LET t == TopLeft(e) IN
   /\ e.ha = 0 => t[1] = e.x
   /\ e.ha = 2 => t[1] + e.w = e.x
   /\ e.ha = 1 => t[1] + e.w - e.x \in {e.x - t[1], e.x - t[1] - 1}
Emit == ~done => CSVWrite("%1$s", <<ToJson([kind |-> kind, e |-> e])>>, IOEnv.CASES)
=============================================================================
