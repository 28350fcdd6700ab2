---------------------------------- MODULE MCSbnk ----------------------------------
EXTENDS Sbnk, Json, IOUtils, CSV
CONSTANTS MaxInst
VARIABLES b, done
N(w, t) == [w |-> w, ar |-> 1, p |-> <<60, 127, 1, 2, 3, 64>>, type |-> t]
I(k, first, ends, notes, key, merge) == [k |-> k, first |-> first, ends |-> ends, notes |-> notes, key |-> key, merge |-> merge]
Pool == {<<>>} \cup {<<I(1, 0, <<>>, <<N(1, t)>>, key, 0)>> : t \in {1, 3}, key \in 0..1}
        \cup {<<I(1, 0, <<>>, <<N(1, 1)>>, 0, 7)>>}
        \cup {<<I(16, 10, <<>>, [i \in 1..n |-> N(i, i)], key, 0)>> : n \in 0..2, key \in 0..1}
        \cup {<<I(17, 0, e, [i \in 1..Len(e) |-> N(300 + i, 1)], 1 - Len(e), 0)>> : e \in {<<0>>, <<127>>, <<0, 5>>, <<20, 127>>}}
Init == done = FALSE /\ b \in {[insts |-> s, inacc |-> <<>>, unk |-> 0, wars |-> <<<<3>>, <<>>, <<0>>>>] : s \in UNION {[1..n -> Pool] : n \in 0..MaxInst}}
Next == ~done /\ done' = TRUE /\ UNCHANGED b
RoundTrip == BankOk(b) /\ SbnkInsts(SbnkEncode(b)) = AsReloaded(b)
Fixpoint == LET e == SbnkEncode(b) IN SbnkEncode([b EXCEPT !.insts = SbnkInsts(e)]) = e
Emit == ~done => CSVWrite("%1$s", <<ToJson(b)>>, IOEnv.CASES)
=============================================================================
