----------------------------------- MODULE MCMinify -----------------------------------
(* Small banks and songs: the reference minifier satisfies the law, minifying again changes nothing. *)
EXTENDS Minify, Json, IOUtils, CSV
CONSTANTS Thorough
VARIABLES bank, song, nw, done
N(w, ar, ty) == [w |-> w, ar |-> ar, p |-> <<60, 1, 2, 3, 4, w>>, type |-> ty]
One(n) == [k |-> 1, first |-> 0, ends |-> <<>>, notes |-> <<n>>, key |-> 0, merge |-> 0]
Rng(f, ns) == [k |-> 16, first |-> f, ends |-> <<>>, notes |-> ns, key |-> 0, merge |-> 0]
Reg(e, ns) == [k |-> 17, first |-> 0, ends |-> e, notes |-> ns, key |-> 0, merge |-> 0]
Pool == {<<>>, <<One(N(1, 0, 1))>>, <<One(N(2, 1, 1))>>, <<One(N(3, 0, 2))>>,
         <<Rng(10, <<N(0, 0, 1), N(2, 0, 1), N(1, 1, 1)>>)>>, <<Rng(11, <<N(2, 0, 3), N(2, 0, 1)>>)>>,
         <<Reg(<<10, 11, 127>>, <<N(1, 0, 1), N(0, 1, 1), N(2, 1, 1)>>)>>, <<Reg(<<10, 127>>, <<N(2, 0, 1), N(1, 0, 3)>>)>>}
Sw(i) == [k |-> 129, a |-> <<0, i>>, raw |-> <<>>]
Nt(p) == [k |-> p, a |-> <<100, 0, 1>>, raw |-> <<>>]
Tracks == {<<Sw(i), Nt(p)>> : i \in 0..1, p \in {10, 11, 12}} \cup {<<Sw(1)>>, <<Sw(0), Nt(11), Sw(1), Nt(12)>>, <<Sw(1), Nt(10), Nt(12)>>}
Songs == {<<t>> : t \in Tracks} \cup (IF Thorough THEN {<<t, u>> : t \in Tracks, u \in Tracks} ELSE {<<<<Sw(0), Nt(10)>>, <<Sw(1), Nt(12)>>>>})
Init == done = FALSE /\ bank \in {[insts |-> <<x, y>>, inacc |-> <<>>, unk |-> 0, wars |-> <<>>] : x \in Pool, y \in Pool} /\ song \in Songs /\ nw \in 0..2
Next == ~done /\ done' = TRUE /\ UNCHANGED <<bank, song, nw>>
Waves == SubSeq(<<<<1, 2, 3>>, <<4, 5, 6>>>>, 1, nw)
Law == done \/ LET W == Waves  r == RefMinify(bank, W, song)  q == RefMinify(r.bank, r.waves, r.song) IN
         MinLaw(bank, W, song, r.bank, r.waves, r.song) = "" /\ q.waves = r.waves /\ q.song = r.song
Emit == ~done => CSVWrite("%1$s", <<ToJson([bank |-> bank, song |-> song, nw |-> nw])>>, IOEnv.CASES)
=============================================================================
