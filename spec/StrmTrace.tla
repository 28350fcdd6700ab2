-------------------------------- MODULE StrmTrace --------------------------------
(* State: [o |-> stream, par |-> archive parameters]                              *)
EXTENDS TraceBase, Strm
Raised(e) == e.exc # ""
NoStrm == [type |-> 0, looped |-> FALSE, unk03 |-> 0, rate |-> 8000, time |-> 0, loop |-> Zeros(4), spb |-> 0, slb |-> 0,
           unks |-> [i \in 1..8 |-> Zeros(4)], chans |-> <<>>]
Diff(x, y) == CASE x.chans # y.chans -> "channel data" [] x.type # y.type -> "encoding" [] x.looped # y.looped -> "loop flag" [] x.rate # y.rate -> "sample rate"
                [] x.time # y.time -> "timer" [] x.loop # y.loop -> "loop offset" [] x.spb # y.spb \/ x.slb # y.slb -> "sample counts"
                [] x.unk03 # y.unk03 \/ x.unks # y.unks -> "unknown values" [] OTHER -> ""
Cl(p, d) == IF d = "" THEN "" ELSE p \o d
Updated(o, e) == IF e.updTime /\ o.rate > 0 THEN [o EXCEPT !.time = 16756991 \div (32 * o.rate)] ELSE o
Post(s, e) == CASE e.op \in {"load", "set"} -> [o |-> e.obj, par |-> e.par] [] e.op = "save" -> [s EXCEPT !.o = Updated(@, e)] [] OTHER -> s
V(s, e) ==
  CASE e.op = "load" -> (IF Raised(e) THEN "loading raised" ELSE IF e.par # e.parwant THEN "archive parameters wrong"
                         ELSE Cl("loaded stream has wrong ", Diff(e.obj, StrmDecode(e.data))))
    [] e.op = "set" -> (IF Raised(e) THEN "editing raised" ELSE IF e.par # e.parwant THEN "archive parameters wrong" ELSE Cl("edited stream has wrong ", Diff(e.obj, e.want)))
    [] e.op = "save" ->
         (LET o == Updated(s.o, e) IN
          IF ~StrmOk(o) \/ (e.updTime /\ o.rate = 0) THEN (IF Raised(e) THEN "" ELSE "stream that cannot be stored was not refused")
          ELSE IF Raised(e) THEN "saving raised"
          ELSE IF e.out # StrmEncode(o) THEN
             (LET d == StrmDecode(e.out) IN IF Diff(d, o) # "" THEN "saved stream has wrong " \o Diff(d, o) ELSE "sizes or counts in the saved stream wrong")
          ELSE IF e.par # s.par THEN "archive parameters not returned" 
          ELSE Cl("saving changed the ", Diff(e.obj, o)))
TInit == TraceInit(LAMBDA t : [o |-> NoStrm, par |-> <<0, 127, 64, 0, 0>>])
TNext == TraceNext(V, Post)
=============================================================================
