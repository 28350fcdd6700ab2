----------------------------------- MODULE Music -----------------------------------
(***************************************************************************)
(* Songs: lists of sequence events seen as time lines and as tracks.        *)
(* Event: [id, k, a, raw, ref]; id identifies the object, k is the event     *)
(* type, ref the identity of the event it leads to (a list of at most one). *)
(* Identities below 0 stand for "some new object".                          *)
(* Modes: 0 poly, 1 mono (notes take time).                                 *)
(***************************************************************************)
EXTENDS Bytes, TLC, FiniteSets
RestK == 128  InstK == 129  BeginK == 147  JumpK == 148  CallK == 149  IfK == 162  MonoK == 199  DefineK == 254  EndK == 255
IsNote(e) == e.k \in 0..127
Timed(e) == IsNote(e) \/ e.k = RestK
Dur(e, m) == IF e.k = RestK THEN e.a[1] ELSE IF IsNote(e) /\ m = 1 THEN e.a[3] ELSE 0
ModeAfter(e, m) == IF e.k = MonoK THEN e.a[1] ELSE m
(* <<time, mode>> after playing events i..j *)
RECURSIVE Walk(_, _, _, _, _)
Walk(evs, i, j, t, m) == IF i > j THEN <<t, m>> ELSE Walk(evs, i + 1, j, t + Dur(evs[i], m), ModeAfter(evs[i], m))
Duration(evs, m) == Walk(evs, 1, Len(evs), 0, m)[1]
Looped(evs) == \E i \in 1..Len(evs) : evs[i].k = JumpK
Ids(evs) == {evs[i].id : i \in 1..Len(evs)}
Ev(i, kk, a, ref) == [id |-> i, k |-> kk, a |-> a, raw |-> <<>>, ref |-> ref]
PutAt(s, p, x) == SubSeq(s, 1, p - 1) \o <<x>> \o SubSeq(s, p, Len(s))   \* x becomes element p
DropAt(s, p) == SubSeq(s, 1, p - 1) \o SubSeq(s, p + 1, Len(s))

(* ---- moving ---- *)
(* first event j > start at whose end at least `time` has passed; 0 if none *)
RECURSIVE Reach(_, _, _, _, _)
Reach(evs, j, time, t, m) == IF j > Len(evs) THEN 0 ELSE IF t + Dur(evs[j], m) >= time THEN j ELSE Reach(evs, j + 1, time, t + Dur(evs[j], m), ModeAfter(evs[j], m))
(* Result: refused, the events afterwards, elapsed time, and the range lo..hi of acceptable stop positions (number of  *)
(* events passed).  The stop is exact unless time could not be reached, in which case the events that take no time    *)
(* just before the obstacle may or may not be passed.                                                                    *)
Move(evs, start, time, m, cut, app, new) ==
  IF time < 0 \/ (time > 0 /\ start > Len(evs)) THEN [refused |-> TRUE, evs |-> evs, t |-> 0, lo |-> start, hi |-> start]
  ELSE IF time = 0 THEN [refused |-> FALSE, evs |-> evs, t |-> 0, lo |-> start, hi |-> start]
  ELSE LET j == Reach(evs, start + 1, time, 0, m) IN
    IF j = 0 THEN
      LET t == Walk(evs, start + 1, Len(evs), 0, m)[1]
          ok == app /\ ~Looped(evs)
      IN IF ok THEN [refused |-> FALSE, evs |-> Append(evs, Ev(new, RestK, <<time - t>>, <<>>)), t |-> time, lo |-> Len(evs) + 1, hi |-> Len(evs) + 1]
         ELSE [refused |-> FALSE, evs |-> evs, t |-> t, lo |-> Len(evs), hi |-> Len(evs)]
    ELSE LET before == Walk(evs, start + 1, j - 1, 0, m)  e == evs[j] IN
      IF before[1] + Dur(e, before[2]) = time THEN [refused |-> FALSE, evs |-> evs, t |-> time, lo |-> j, hi |-> j]
      ELSE IF cut /\ e.k = RestK THEN
        [refused |-> FALSE, t |-> time, lo |-> j, hi |-> j,
         evs |-> PutAt([evs EXCEPT ![j].a = <<time - before[1]>>], j + 1, Ev(new, RestK, <<e.a[1] - (time - before[1])>>, <<>>))]
      ELSE [refused |-> FALSE, evs |-> evs, t |-> before[1], hi |-> j - 1,
            lo |-> CHOOSE i \in start..(j - 1) : /\ \A q \in (i + 1)..(j - 1) : Walk(evs, start + 1, q, 0, m)[1] = before[1]
                                                 /\ Walk(evs, start + 1, i, 0, m)[1] = before[1]
                                                 /\ (i = start \/ Walk(evs, start + 1, i - 1, 0, m)[1] < before[1])]
(* events observed are the wanted ones, new objects being objects not seen before *)
At0(evs, i) == CHOOSE p \in 1..Len(evs) : evs[p].id = i
Matches(want, got, old) ==
  /\ Len(want) = Len(got)
  /\ Cardinality(Ids(got)) = Len(got)
  /\ \A i \in 1..Len(want) : LET w == want[i]  g == got[i] IN
       /\ w.k = g.k /\ w.a = g.a /\ w.raw = g.raw
       /\ IF w.id < 0 THEN g.id \notin old ELSE g.id = w.id
       /\ Len(w.ref) = Len(g.ref)
       /\ w.ref # <<>> => g.ref[1] = (IF w.ref[1] < 0 THEN got[At0(want, w.ref[1])].id ELSE w.ref[1])
MoveLaw(before, e) ==
  LET r == Move(before, e.start, e.time, e.mode, e.cut, e.append, -1) IN
  IF r.refused THEN (IF e.exc = "" THEN "an impossible move was not refused" ELSE IF e.after # before THEN "a refused move changed the events" ELSE "")
  ELSE IF e.exc # "" THEN "moving raised"
  ELSE IF ~Matches(r.evs, e.after, Ids(before)) THEN "the events after moving are wrong"
  ELSE IF e.t # r.t THEN "the time moved is wrong"
  ELSE IF e.idx \notin r.lo..r.hi THEN "the stop position is wrong"
  ELSE IF e.m # Walk(e.after, e.start + 1, e.idx, 0, e.mode)[2] THEN "the mode is wrong"
  ELSE ""

(* ---- looping a track: start < end ---- *)
Loop(evs, s, t, clear) ==
  LET r1 == Move(evs, 0, s, 1, TRUE, TRUE, -1)
      r2 == Move(r1.evs, 0, t, 1, TRUE, TRUE, -2)
      evs2 == PutAt(r2.evs, r2.hi + 1, Ev(-3, JumpK, <<>>, <<r2.evs[r1.hi + 1].id>>))
  IN IF Looped(evs) \/ r1.t # s \/ r2.t # t THEN [refused |-> TRUE, evs |-> evs, mid |-> IF Looped(evs) THEN evs ELSE r1.evs]
     ELSE [refused |-> FALSE, evs |-> IF clear THEN SubSeq(evs2, 1, r2.hi + 1) ELSE evs2, mid |-> evs]
LoopLaw(before, e, after) ==
  LET r == Loop(before, e.start, e.end, e.clear) IN
  IF r.refused THEN (IF e.exc = "" THEN "an impossible loop was not refused"
                     ELSE IF after = before \/ Matches(r.mid, after, Ids(before)) THEN "" ELSE "a refused loop changed the track")
  ELSE IF e.exc # "" THEN "looping raised" ELSE IF ~Matches(r.evs, after, Ids(before)) THEN "the looped track is wrong" ELSE ""

(* ---- batched edits: ops [what, i, x]; positions 0.., negative ones count from the end, all in the original list; insertions before the start happen at the start ---- *)
Place(n, i) == IF i + n < 0 THEN 0 ELSE IF i < 0 THEN n + i ELSE i
Norm(n, i) == IF i < 0 THEN n + i ELSE i
Batch(list, ops) ==
  LET n == Len(list)
      Adds(i) == LET q == SelectSeq(ops, LAMBDA o : o.what = "insert" /\ Place(n, o.i) = i) IN [j \in 1..Len(q) |-> q[j].x]
      Sets(i) == SelectSeq(ops, LAMBDA o : o.what = "set" /\ Norm(n, o.i) = i)
      Dels(i) == \E j \in 1..Len(ops) : ops[j].what = "del" /\ Norm(n, ops[j].i) = i
      Item(i) == IF i = n THEN <<>> ELSE IF Sets(i) # <<>> THEN <<Sets(i)[Len(Sets(i))].x>> ELSE IF Dels(i) THEN <<>> ELSE <<list[i + 1]>>
  IN Cat([q \in 1..(n + 1) |-> Adds(q - 1) \o Item(q - 1)])

(* ---- tracks: a song is a set of [n, evs] ---- *)
Begins(evs) == LET RECURSIVE Run(_)
                   Run(i) == IF i <= Len(evs) /\ evs[i].k = BeginK THEN Run(i + 1) ELSE i - 1
               IN Run(2)                                        \* last index of the run of track starts
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Split(evs) ==
  IF evs = <<>> \/ evs[1].k # DefineK THEN {[n |-> 0, evs |-> evs]}
  ELSE LET b == Begins(evs)
           starts == {evs[i].ref[1] : i \in 2..b}
           Stop(i) == MinOf({q \in (i + 1)..(Len(evs) + 1) : q = Len(evs) + 1 \/ evs[q].id \in starts})
           Seg(i) == SubSeq(evs, i, Stop(i) - 1)
       IN {[n |-> evs[i].a[1], evs |-> Seg(At0(evs, evs[i].ref[1]))] : i \in 2..b}
          \cup (IF 0 \in {evs[1].a[i] : i \in 1..Len(evs[1].a)} THEN {[n |-> 0, evs |-> Seg(b + 1)]} ELSE {})
(* a track may be shown with or without the event that ends it *)
Shown(own, got) == got = own \/ (own # <<>> /\ own[Len(own)].k = EndK /\ got = SubSeq(own, 1, Len(own) - 1))
Hidden(own, got) == IF Len(own) > Len(got) THEN {own[Len(own)].id} ELSE {}
Track(T, n) == (CHOOSE t \in T : t.n = n).evs
Nums(T) == {t.n : t \in T}
OpenOk(T, got) == Nums(T) = Nums(got) /\ Cardinality(T) = Cardinality(Nums(T)) /\ \A n \in Nums(T) : Shown(Track(T, n), Track(got, n))
Terminal(evs) == evs # <<>> /\ (evs[Len(evs)].k = EndK \/ (evs[Len(evs)].k = JumpK /\ ~(Len(evs) > 1 /\ evs[Len(evs) - 1].k = IfK)))
Refs(evs) == UNION {{evs[i].ref[j] : j \in 1..Len(evs[i].ref)} : i \in 1..Len(evs)}
(* tracks T, hidden end events H, the list of events saved *)
JoinLaw(T, H, out) ==
  LET multi == Nums(T) # {0}
      S == Split(out)
      SegOk(e, o) == Terminal(o) /\ (o = e \/ (Len(o) = Len(e) + 1 /\ SubSeq(o, 1, Len(e)) = e /\ o[Len(o)].k = EndK))
      all == UNION {Ids(t.evs) : t \in T}
      refs == UNION {Refs(t.evs) : t \in T}
  IN IF multi /\ (out = <<>> \/ out[1].k # DefineK \/ {out[1].a[i] : i \in 1..Len(out[1].a)} # Nums(T)) THEN "the tracks are not defined"
     ELSE IF multi /\ {out[i].a[1] : i \in 2..Begins(out)} # Nums(T) \ {0} THEN "the track starts are wrong"
     ELSE IF Nums(S) # Nums(T) THEN "tracks are missing"
     ELSE IF \E n \in Nums(T) : ~SegOk(Track(T, n), Track(S, n)) THEN "the events of a track are wrong"
     ELSE IF Cardinality(Ids(out)) # Len(out) THEN "an event appears twice"
     ELSE IF Len(out) # SumTo([i \in 1..Cardinality(S) |-> Len(Track(S, CHOOSE n \in Nums(S) : Cardinality({x \in Nums(S) : x <= n}) = i))], Cardinality(S)) + (IF multi THEN Begins(out) ELSE 0) THEN "there are other events"
     ELSE IF refs \subseteq (all \cup H) /\ ~(refs \subseteq Ids(out)) THEN "a jump leads nowhere"
     ELSE ""
(* the reference way to join *)
RefJoin(T, endId) ==
  LET Order(i) == CHOOSE n \in Nums(T) : Cardinality({x \in Nums(T) : x <= n}) = i
      c == Cardinality(T)
      Seg(n) == LET e == Track(T, n) IN IF Terminal(e) THEN e ELSE Append(e, Ev(endId + n, EndK, <<>>, <<>>))
      sorted == [i \in 1..c |-> Order(i)]
      others == SelectSeq(sorted, LAMBDA n : n # 0)
  IN IF Nums(T) = {0} THEN Seg(0)
     ELSE <<Ev(endId + 100, DefineK, sorted, <<>>)>> \o [i \in 1..Len(others) |-> Ev(endId + 200 + others[i], BeginK, <<others[i]>>, <<Seg(others[i])[1].id>>)]
          \o Cat([i \in 1..c |-> Seg(sorted[i])])
(* programs equal up to identities *)
ByPos(evs) == [i \in 1..Len(evs) |-> [evs[i] EXCEPT !.id = i, !.ref = [j \in 1..Len(evs[i].ref) |-> IF evs[i].ref[j] \in Ids(evs) THEN At0(evs, evs[i].ref[j]) ELSE 0]]]

(* ---- edits of a track ---- *)
(* position of the event of type kk among the events before the first note or rest; 0 if none *)
RECURSIVE FirstOf(_, _, _)
FirstOf(evs, kk, i) == IF i > Len(evs) THEN 0 ELSE IF evs[i].k = kk THEN i ELSE IF Timed(evs[i]) THEN 0 ELSE FirstOf(evs, kk, i + 1)
Lead(evs) == MinOf({i \in 1..(Len(evs) + 1) : i = Len(evs) + 1 \/ Timed(evs[i])})   \* first timed event or one past the end
Initial(evs, kk) == LET p == FirstOf(evs, kk, 1) IN IF p = 0 THEN <<>> ELSE <<evs[p].a>>
(* v: <<>> or <<arguments>> *)
SetLaw(evs, kk, v, after) ==
  LET p == FirstOf(evs, kk, 1) IN
  IF p = 0 /\ v = <<>> THEN after = evs
  ELSE IF p = 0 THEN \E q \in 1..Lead(evs) : Matches(PutAt(evs, q, Ev(-1, kk, v[1], <<>>)), after, Ids(evs))
  ELSE IF v = <<>> THEN after = DropAt(evs, p)
  ELSE after = [evs EXCEPT ![p].a = v[1]]
Clamp(x) == IF x < 0 THEN 0 ELSE IF x > 127 THEN 127 ELSE x
Trunc4(x) == IF x >= 0 THEN x \div 4 ELSE -((-x) \div 4)
NewVelocity(v, o) == IF o.how = "add" THEN v + o.amount ELSE Trunc4(v * o.amount)     \* factors are counted in quarters
Velocities(evs, o) == [i \in 1..Len(evs) |-> IF IsNote(evs[i]) THEN [evs[i] EXCEPT !.a = <<Clamp(NewVelocity(evs[i].a[1], o)), @[2], @[3]>>] ELSE evs[i]]
VelocityRefused(evs, o) == ~o.clamp /\ \E i \in 1..Len(evs) : IsNote(evs[i]) /\ NewVelocity(evs[i].a[1], o) \notin 0..127
Collapse(T) == {[n |-> Cardinality({x \in Nums(T) : x < t.n}), evs |-> t.evs] : t \in T}
=============================================================================
