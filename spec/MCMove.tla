----------------------------------- MODULE MCMove -----------------------------------
(* All short event lists, start positions, spans and options: moving in time and looping. *)
EXTENDS Music, Json, IOUtils, CSV
CONSTANTS MaxLen, MaxTime
VARIABLES evs, start, time, mode, cut, app, done
Pool == {[k |-> 60, a |-> <<100, 0, 2>>], [k |-> 61, a |-> <<1, 0, 0>>], [k |-> 128, a |-> <<3>>], [k |-> 128, a |-> <<1>>], [k |-> 199, a |-> <<0>>], [k |-> 199, a |-> <<1>>], [k |-> 192, a |-> <<7>>]}
Lists == UNION {[1..n -> Pool] : n \in 0..MaxLen}
E0(l) == [i \in 1..Len(l) |-> Ev(i, l[i].k, l[i].a, <<>>)]
Init == /\ done = FALSE /\ \E l \in Lists : evs = E0(l)
        /\ start \in 0..2 /\ start <= Len(evs) + 1 /\ time \in 0..MaxTime /\ mode \in {0, 1} /\ cut \in BOOLEAN /\ app \in BOOLEAN
Next == ~done /\ done' = TRUE /\ UNCHANGED <<evs, start, time, mode, cut, app>>
MoveInv == done \/ LET r == Move(evs, start, time, mode, cut, app, -1) IN
  \/ r.refused /\ time > 0 /\ start > Len(evs)
  \/ /\ ~r.refused /\ r.t <= time
     /\ Walk(r.evs, start + 1, r.hi, 0, mode)[1] = r.t
     /\ r.t = time \/ ~app \/ r.hi < Len(evs)
     /\ r.t = time \/ ~cut \/ r.hi = Len(evs) \/ evs[r.hi + 1].k # RestK
     /\ r.t < time /\ r.hi < Len(evs) => r.t + Dur(evs[r.hi + 1], Walk(evs, start + 1, r.hi, 0, mode)[2]) > time
     /\ (cut \/ app) \/ r.evs = evs
     (* splitting changes no time: only appending adds some *)
     /\ Duration(r.evs, mode) >= Duration(evs, mode)
     /\ (~app => Duration(r.evs, mode) = Duration(evs, mode))
LoopInv == done \/ start # 0 \/ mode # 1 \/ ~cut \/ time = 0 \/ \A s \in 0..(time - 1) : LET r == Loop(evs, s, time, app) IN
  r.refused \/ LET p == CHOOSE i \in 1..Len(r.evs) : r.evs[i].k = JumpK  q == At0(r.evs, r.evs[p].ref[1]) IN
     /\ Cardinality({i \in 1..Len(r.evs) : r.evs[i].k = JumpK}) = 1
     /\ q < p /\ Walk(r.evs, 1, q - 1, 0, 1)[1] = s /\ Walk(r.evs, 1, p - 1, 0, 1)[1] = time
     /\ (app => p = Len(r.evs))
Emit == (~done /\ time > 0) => CSVWrite("%1$s", <<ToJson([evs |-> evs, start |-> start, time |-> time, mode |-> mode, cut |-> cut, append |-> app])>>, IOEnv.CASES)
=============================================================================
