------------------------------------ MODULE Seq ------------------------------------
(***************************************************************************)
(* Sequence events and sequence programs (SSEQ, SSAR).                      *)
(*                                                                         *)
(* An event is [k, a, ref, raw]:                                            *)
(*   k    opcode; -1 is raw data                                            *)
(*   a    numeric parameters                                                *)
(*   ref  <<>> or <<target>>: the event a jump, call or track start leads   *)
(*        to, as a position in a list of events, or an offset in data       *)
(*   raw  bytes of raw data; leading arguments of a random event            *)
(* A program is a list of events; Data(prog) is its encoding.               *)
(*                                                                         *)
(* The reader cannot see event boundaries in data: it has to follow the     *)
(* control flow.  Must/May bound what it finds: events that are certainly   *)
(* executed have to be found, data that cannot be executed has to be kept   *)
(* as raw data.                                                             *)
(***************************************************************************)
EXTENDS Bytes, TLC

Note == 0..127
RestK == 128  InstK == 129  TrackK == 147  JumpK == 148  CallK == 149  RandK == 160  VarK == 161  IfK == 162
RetK == 253  DefK == 254  EndK == 255
NoArgK == {IfK, 252, RetK, EndK}
ArithK == 176..189
ByteK == (192..214) \cup {224}
WordK == {225, 227}
RefK == {TrackK, JumpK, CallK}
Opcodes == Note \cup {RestK, InstK, RandK, VarK, DefK} \cup RefK \cup NoArgK \cup ArithK \cup ByteK \cup WordK
S16(v) == U16(IF v < 0 THEN v + 65536 ELSE v)
RS16(b, o) == LET v == R16(b, o) IN IF v >= 32768 THEN v - 65536 ELSE v

(* variable-length integers: base 128, most significant digit first *)
RECURSIVE VLHigh(_)
VLHigh(n) == IF n = 0 THEN <<>> ELSE VLHigh(n \div 128) \o <<128 + (n % 128)>>
VarLen(n) == VLHigh(n \div 128) \o <<n % 128>>

LongVar(sub) == sub \in ArithK
(* bytes of leading arguments stored by a random event; -1: not possible *)
RandArgs(sub) == CASE sub \in Note -> 1 [] sub \in ByteK \cup {RestK, InstK} -> 0 [] sub = TrackK -> 3 [] sub \in {JumpK, CallK} -> 2
                   [] sub = RandK -> 5 [] sub = VarK -> 1 [] sub \in ArithK -> 2 [] sub \in WordK \cup {DefK} -> 1 [] OTHER -> -1
RECURSIVE Mask(_)
Mask(ts) == IF ts = <<>> THEN 0 ELSE 2^(Head(ts)) + Mask(Tail(ts))
Tracks(m) == SelectSeq([i \in 1..16 |-> i - 1], LAMBDA i : (m \div (2^i)) % 2 = 1)

Ev(k, a) == [k |-> k, a |-> a, ref |-> <<>>, raw |-> <<>>]
RefEv(k, a, t) == [k |-> k, a |-> a, ref |-> <<t>>, raw |-> <<>>]
RawEv(b) == [k |-> -1, a |-> <<>>, ref |-> <<>>, raw |-> b]

EvEncode(e, t) ==
  LET k == e.k  a == e.a IN
  CASE k = -1 -> e.raw
    [] k \in Note -> <<k, a[1] + 128 * a[2]>> \o VarLen(a[3])
    [] k = RestK -> <<k>> \o VarLen(a[1])
    [] k = InstK -> <<k>> \o VarLen(128 * a[1] + a[2])
    [] k = TrackK -> <<k, a[1]>> \o U24(t)
    [] k \in {JumpK, CallK} -> <<k>> \o U24(t)
    [] k = RandK -> <<k, a[1]>> \o e.raw \o S16(a[2]) \o S16(a[3])
    [] k = VarK -> (IF LongVar(a[1]) THEN <<k, a[1], a[3], a[2]>> ELSE <<k, a[1], a[2]>>)
    [] k \in NoArgK -> <<k>>
    [] k \in ArithK -> <<k, a[1]>> \o S16(a[2])
    [] k \in ByteK -> <<k, a[1]>>
    [] k \in WordK -> <<k>> \o U16(a[1])
    [] k = DefK -> <<k>> \o U16(Mask(a))
EvLen(e) == Len(EvEncode(e, 0))
(* events whose parameters have an encoding *)
EvOk(e) ==
  LET k == e.k  a == e.a IN
  CASE k = -1 -> TRUE
    [] k \in Note -> a[1] \in 0..127 /\ a[2] \in 0..1 /\ a[3] >= 0
    [] k = RestK -> a[1] >= 0
    [] k = InstK -> a[1] >= 0 /\ a[2] \in 0..127
    [] k = TrackK -> a[1] \in Byte
    [] k = RandK -> RandArgs(a[1]) = Len(e.raw) /\ a[2] \in -32768..32767 /\ a[3] \in -32768..32767
    [] k = VarK -> a[2] \in Byte /\ Len(a) = (IF LongVar(a[1]) THEN 3 ELSE 2)
    [] k \in ArithK -> a[1] \in Byte /\ a[2] \in -32768..32767
    [] k \in ByteK -> a[1] \in (IF k = 199 THEN 0..1 ELSE IF k = 204 THEN 0..2 ELSE Byte)
    [] k \in WordK -> a[1] \in 0..65535
    [] k = DefK -> \A i \in 1..Len(a) : a[i] \in 0..15 /\ (i > 1 => a[i - 1] < a[i])
    [] OTHER -> TRUE

(* encoding of a program *)
RECURSIVE Starts(_, _, _)
Starts(prog, i, off) == IF i > Len(prog) THEN <<>> ELSE <<off>> \o Starts(prog, i + 1, off + EvLen(prog[i]))
Offsets(prog) == Starts(prog, 1, 0)
Data(prog) == LET o == Offsets(prog) IN Cat([i \in 1..Len(prog) |-> EvEncode(prog[i], IF prog[i].ref = <<>> THEN 0 ELSE o[prog[i].ref[1]])])

(* ---- decoding one event at an offset ---- *)
No(s) == [st |-> s, ev |-> RawEv(<<>>), len |-> 0]
RECURSIVE VLen(_, _), VVal(_, _, _, _)
VLen(d, o) == IF o >= Len(d) THEN 100 ELSE IF At(d, o) < 128 THEN 1 ELSE 1 + VLen(d, o + 1)
VVal(d, o, n, acc) == IF n = 0 THEN acc ELSE VVal(d, o + 1, n - 1, 128 * acc + (At(d, o) % 128))
(* "bad": not an event; "odd": an encoding outside the scope of the specification *)
DecodeAt(d, off) ==
  IF off < 0 \/ off >= Len(d) THEN No("bad") ELSE
  LET k == At(d, off)   left == Len(d) - off
      Got(e, n) == [st |-> "ok", ev |-> e, len |-> n]
      Fix(n, e) == IF left < n THEN No("bad") ELSE Got(e, n)
      VL(o, F(_)) == LET n == VLen(d, o) IN
                       IF n > 5 THEN No("bad")
                       ELSE IF (n > 1 /\ At(d, o) = 128) \/ (n = 5 /\ At(d, o) >= 136) THEN No("odd")
                       ELSE Got(F(VVal(d, o, n, 0)), o - off + n)
  IN CASE k \in Note -> (IF left < 3 THEN No("bad") ELSE VL(off + 2, LAMBDA v : Ev(k, <<At(d, off + 1) % 128, At(d, off + 1) \div 128, v>>)))
       [] k = RestK -> (IF left < 2 THEN No("bad") ELSE VL(off + 1, LAMBDA v : Ev(k, <<v>>)))
       [] k = InstK -> (IF left < 2 THEN No("bad") ELSE VL(off + 1, LAMBDA v : Ev(k, <<v \div 128, v % 128>>)))
       [] k = TrackK -> (IF left < 5 THEN No("odd") ELSE Got(RefEv(k, <<At(d, off + 1)>>, R24(d, off + 2)), 5))
       [] k \in {JumpK, CallK} -> (IF left < 4 THEN No("odd") ELSE Got(RefEv(k, <<>>, R24(d, off + 1)), 4))
       [] k = RandK ->
            (IF left < 2 THEN No("bad") ELSE
             LET sub == At(d, off + 1)  n == RandArgs(sub) IN
             IF n < 0 \/ left < 6 + n THEN No("bad")
             ELSE Got([k |-> k, a |-> <<sub, RS16(d, off + 2 + n), RS16(d, off + 4 + n)>>, ref |-> <<>>, raw |-> Slice(d, off + 2, n)], 6 + n))
       [] k = VarK ->
            (IF left < 2 THEN No("bad") ELSE
             LET sub == At(d, off + 1) IN
             IF LongVar(sub) THEN (IF left < 4 THEN No("bad") ELSE Got(Ev(k, <<sub, At(d, off + 3), At(d, off + 2)>>), 4))
             ELSE (IF left < 3 THEN No("bad") ELSE Got(Ev(k, <<sub, At(d, off + 2)>>), 3)))
       [] k \in NoArgK -> Got(Ev(k, <<>>), 1)
       [] k \in ArithK -> (IF left < 4 THEN No("bad") ELSE Got(Ev(k, <<At(d, off + 1), RS16(d, off + 2)>>), 4))
       [] k \in ByteK -> (IF left < 2 THEN No("bad") ELSE LET e == Ev(k, <<At(d, off + 1)>>) IN IF EvOk(e) THEN Got(e, 2) ELSE No("bad"))
       [] k \in WordK -> (IF left < 3 THEN No("bad") ELSE Got(Ev(k, <<R16(d, off + 1)>>), 3))
       [] k = DefK -> (IF left < 3 THEN No("bad") ELSE Got(Ev(k, Tracks(R16(d, off + 1))), 3))
       [] OTHER -> No("bad")

(* ---- what execution can reach ---- *)
(* C: offsets known to be events; a byte 162 elsewhere is no "if" *)
AfterIf(d, off, C) == (off - 1) \in C /\ At(d, off - 1) = IfK
Stops(k) == k \in {JumpK, RetK, EndK}
(* possible successors: every conditional may be skipped, every call may return *)
MayNext(d, off, C) ==
  LET x == DecodeAt(d, off) IN
  IF x.st # "ok" THEN {} ELSE (IF x.ev.ref = <<>> THEN {} ELSE {x.ev.ref[1]})
                              \cup (IF Stops(x.ev.k) /\ ~AfterIf(d, off, C) THEN {} ELSE {off + x.len})
RECURSIVE Closure(_, _, _), ClosureIn(_, _, _, _)
Closure(d, S, new) ==
  LET again == {o \in S : (o - 1) \in new}
      n == (UNION {MayNext(d, o, S) : o \in new \cup again}) \ S
  IN IF n = {} THEN S ELSE Closure(d, S \cup n, n)
May(d, starts) == Closure(d, starts, starts)
ClosureIn(d, S, new, C) == LET n == (UNION {MayNext(d, o, C) : o \in new}) \ S IN IF n = {} THEN S ELSE ClosureIn(d, S \cup n, n, C)

(* successors without entering calls or tracks *)
FlatNext(d, off, C) ==
  LET x == DecodeAt(d, off) IN
  IF x.st # "ok" THEN {} ELSE (IF x.ev.k = JumpK THEN {x.ev.ref[1]} ELSE {})
                              \cup (IF Stops(x.ev.k) /\ ~AfterIf(d, off, C) THEN {} ELSE {off + x.len})
RECURSIVE FlatClosure(_, _, _, _)
FlatClosure(d, S, new, C) == LET n == (UNION {FlatNext(d, o, C) : o \in new}) \ S IN IF n = {} THEN S ELSE FlatClosure(d, S \cup n, n, C)
Kind(d, off) == LET x == DecodeAt(d, off) IN IF x.st = "ok" THEN x.ev.k ELSE -2

NoOverlap(d, S) == \A o \in S : LET x == DecodeAt(d, o) IN \A p \in S : ~(o < p /\ p < o + x.len)

(* ---- what execution certainly reaches ---- *)
(* Events following a call are reached if the called routine returns.  That   *)
(* is claimed only for programs whose routines are simple: free of cycles, or *)
(* straight code whose only jumps are conditional.                            *)
Targets(d, S) == {DecodeAt(d, o).ev.ref[1] : o \in {p \in S : Kind(d, p) \in RefK}}
CondJump(d, o, inner, C) == AfterIf(d, o, C) /\ o \notin inner
Cyclic(d, T) == \E o \in T : LET n == MayNext(d, o, T) IN o \in ClosureIn(d, n, n, T)
Routine(d, t, inner) ==
  LET T == May(d, {t}) IN
  \/ ~Cyclic(d, T)
  \/ /\ \A o \in T : Kind(d, o) \notin {CallK, TrackK}
     /\ \A o \in T : o >= t /\ (Kind(d, o) = JumpK => CondJump(d, o, inner, T))
CallTargets(d, S) == {DecodeAt(d, o).ev.ref[1] : o \in {p \in S : Kind(d, p) = CallK}}
SimpleCalls(d, starts) ==
  LET S == May(d, starts)  inner == Targets(d, S) \cup starts IN
  \A t \in CallTargets(d, S) : Routine(d, t, inner)
RECURSIVE Fate(_, _, _, _, _)
Fate(d, off, P, inner, C) ==
  LET x == DecodeAt(d, off) IN
  IF off \in P THEN "loop" ELSE IF x.st # "ok" THEN "bad" ELSE
  LET P2 == P \cup {off}  k == x.ev.k IN
  CASE k = RetK -> "return" [] k = EndK -> "end"
    [] k = JumpK -> (IF CondJump(d, off, inner, C) THEN Fate(d, off + x.len, P2, inner, C) ELSE Fate(d, x.ev.ref[1], P2, inner, C))
    [] k = CallK -> (LET f == Fate(d, x.ev.ref[1], P2, inner, C) IN IF f = "return" THEN Fate(d, off + x.len, P2, inner, C) ELSE f)
    [] OTHER -> Fate(d, off + x.len, P2, inner, C)
MustNext(d, off, simple, inner, C) ==
  LET x == DecodeAt(d, off)  k == x.ev.k IN
  IF x.st # "ok" THEN {} ELSE
  (IF x.ev.ref = <<>> THEN {} ELSE {x.ev.ref[1]}) \cup
  (CASE k \in {RetK, EndK} -> {}
     [] k = JumpK -> (IF CondJump(d, off, inner, C) THEN {off + x.len} ELSE {})
     [] k = CallK -> (IF simple /\ Fate(d, x.ev.ref[1], {}, inner, C) = "return" THEN {off + x.len} ELSE {})
     [] OTHER -> {off + x.len})
RECURSIVE MustClosure(_, _, _, _, _, _)
MustClosure(d, S, new, simple, inner, C) ==
  LET n == (UNION {MustNext(d, o, simple, inner, C) : o \in new}) \ S IN IF n = {} THEN S ELSE MustClosure(d, S \cup n, n, simple, inner, C)
(* Without conditions execution is determined: a call whose routine ends the *)
(* track or never stops does not return, and what follows it is not reached. *)
Determined(d, starts) == MustClosure(d, starts, starts, TRUE, {}, {})
Exact(d, E) == \A o \in E : Kind(d, o) # IfK
Reach(d, starts) == LET E == Determined(d, starts) IN IF Exact(d, E) THEN E ELSE May(d, starts)
FromNowhere(d, starts) ==
  IF Exact(d, Determined(d, starts)) THEN \E o \in starts : Fate(d, o, {}, {}, {}) = "return"
  ELSE \E o \in FlatClosure(d, starts, starts, May(d, starts)) : Kind(d, o) = RetK
(* Data the reader has to accept: whatever can be executed is a sequence of   *)
(* well-formed events that do not overlap, and no track returns from nowhere. *)
(* Outside the scope: non-canonical encodings, overlapping events, tracks     *)
(* that return.                                                               *)
InScope(d, starts) ==
  LET S == Reach(d, starts) IN
  /\ \A o \in S : DecodeAt(d, o).st # "odd"
  /\ NoOverlap(d, S)
  /\ ~FromNowhere(d, starts)
Acceptable(d, starts) == InScope(d, starts) /\ \A o \in Reach(d, starts) : DecodeAt(d, o).st = "ok"
Must(d, starts) ==
  LET E == Determined(d, starts) IN IF Exact(d, E) THEN E ELSE
  LET C == May(d, starts)  simple == SimpleCalls(d, starts)  inner == Targets(d, C) \cup starts
  IN MustClosure(d, starts, starts, simple, inner, C)
(* Strictly: also events behind a conditional end, return or call are reached *)
RECURSIVE StrictClosure(_, _, _)
StrictNext(d, off, C) ==
  LET x == DecodeAt(d, off) IN
  IF x.st = "ok" /\ x.ev.k \in {RetK, EndK, JumpK} /\ AfterIf(d, off, C) THEN {off + x.len} ELSE {}
StrictClosure(d, starts, S) == LET n == UNION {StrictNext(d, o, S) : o \in S} \ S IN IF n = {} THEN S ELSE StrictClosure(d, starts, Must(d, starts \cup S \cup n))
StrictMust(d, starts) == StrictClosure(d, starts, Must(d, starts))

(* ---- laws of reading ---- *)
(* evs: the events read, references as positions in evs (0: not in the list) *)
ReadLaw(d, starts, evs, notable, must) ==
  LET S == {starts[i] : i \in 1..Len(starts)} \cup (IF starts = <<>> /\ d # <<>> THEN {0} ELSE {})
      o == Offsets(evs)
      n == Len(evs)
      pos == {o[i] : i \in {j \in 1..n : evs[j].k # -1}}
  IN CASE \E i \in 1..n : evs[i].ref # <<>> /\ evs[i].ref[1] = 0 -> "an event refers to something outside the list"
       [] \E i \in 1..n : ~EvOk(evs[i]) -> "an event has parameters it cannot have"
       [] (IF n = 0 THEN 0 ELSE o[n] + EvLen(evs[n])) # Len(d) -> "the events do not cover the data"
       [] Data(evs) # d -> "the events do not stand for the data"
       [] \E i \in 1..n : evs[i].k # -1 /\ DecodeAt(d, o[i]).ev # (IF evs[i].ref = <<>> THEN evs[i] ELSE [evs[i] EXCEPT !.ref = <<o[@[1]]>>]) ->
            "an event differs from the data"
       [] ~(must \subseteq pos) -> "an event that is executed was not recognized"
       [] ~(pos \subseteq Reach(d, S)) -> "data that is never executed was taken for an event"
       [] notable # <<>> /\ Len(notable) # Len(starts) -> "wrong number of entry points"
       [] \E i \in 1..Len(notable) : notable[i] = 0 -> "an entry point is outside the list"
       [] \E i \in 1..Len(notable) : o[notable[i]] # starts[i] -> "an entry point is wrong"
       [] OTHER -> ""
=============================================================================
