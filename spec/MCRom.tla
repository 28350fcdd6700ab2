--------------------------------- MODULE MCRom ---------------------------------
(* Every combination of absent / exact / one-over region sizes: the plan of     *)
(* the writer keeps regions aligned, in order, and apart.                        *)
EXTENDS Rom, TLC, Json, IOUtils, CSV
VARIABLES c, done
Small == {0, 1, 512}
Init == /\ c \in [arm9 : {0, 511, 512}, nov9 : 0..2, arm7 : {0, 512}, nov7 : 0..1, banner : {0, 2112}, debug : {0, 513},
                  f : [1..3 -> Small], rsa : {0, 136}]
        /\ done = FALSE
Next == done = FALSE /\ done' = TRUE /\ UNCHANGED c
Sizes(x) ==
  LET ov9 == SubSeq(x.f, 1, x.nov9)  ov7 == SubSeq(x.f, x.nov9 + 1, MinI(3, x.nov9 + x.nov7))
      rest == SubSeq(x.f, MinI(3, x.nov9 + x.nov7) + 1, 3)
  IN [arm9 |-> x.arm9, ovt9 |-> 32 * Len(ov9), ov9 |-> ov9, arm7 |-> x.arm7, ovt7 |-> 32 * Len(ov7), ov7 |-> ov7,
      fnt |-> 9, fat |-> 24, banner |-> x.banner, debug |-> x.debug, files |-> rest, rsa |-> x.rsa]
Laws ==
  LET s == Sizes(c)
      ps == PlanSeq(s)
      pl == Plan(s)
      n == Len(ps)
  IN /\ \A i \in 1..n : pl.offs[i] % ps[i].a = 0 /\ pl.offs[i] + ps[i].len <= pl.end
     /\ \A i \in 1..(n-1) : pl.offs[i] + ps[i].len <= pl.offs[i+1]
Emit == ~done => CSVWrite("%1$s", <<ToJson(c)>>, IOEnv.CASES)
=============================================================================
