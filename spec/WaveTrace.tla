-------------------------------- MODULE WaveTrace --------------------------------
(* State: [w |-> wave, ws |-> archive].                                           *)
EXTENDS TraceBase, Wave
Raised(e) == e.exc # ""
NoWave == [type |-> 0, looped |-> FALSE, rate |-> 8000, time |-> 0, loop |-> 0, total |-> 0, data |-> <<>>]
DiffW(x, y) == CASE x.data # y.data -> "data" [] x.type # y.type -> "encoding" [] x.looped # y.looped -> "loop flag" [] x.rate # y.rate -> "sample rate"
                 [] x.time # y.time -> "timer" [] x.loop # y.loop -> "loop offset" [] x.total # y.total -> "total length" [] OTHER -> ""
DiffWs(x, y) == IF Len(x) # Len(y) THEN "number of waves"
                ELSE LET d == {i \in 1..Len(x) : x[i] # y[i]} IN IF d = {} THEN "" ELSE DiffW(x[CHOOSE i \in d : TRUE], y[CHOOSE i \in d : TRUE])
Cl(p, d) == IF d = "" THEN "" ELSE p \o d
Updated(w, e) == LET a == IF e.updTime /\ w.rate > 0 THEN [w EXCEPT !.time = 16756991 \div w.rate] ELSE w
                 IN IF e.updTotal THEN [a EXCEPT !.total = Len(w.data) \div 4] ELSE a
Post(s, e) == CASE e.op \in {"wload", "wnew", "wset"} -> [s EXCEPT !.w = e.obj]
                [] e.op = "wsave" -> [s EXCEPT !.w = Updated(@, e)]
                [] e.op \in {"aload", "aset"} -> [s EXCEPT !.ws = e.obj]
                [] OTHER -> s
V(s, e) ==
  CASE e.op = "wload" -> (IF Raised(e) THEN "loading a wave raised" ELSE Cl("loaded wave has wrong ", DiffW(e.obj, SwavDecode(e.data))))
    [] e.op = "wnew" -> (IF Raised(e) THEN "creating a wave raised" ELSE Cl("new wave has wrong ", DiffW(e.obj, e.want)))
    [] e.op = "wset" -> (IF Raised(e) THEN "editing a wave raised" ELSE Cl("edited wave has wrong ", DiffW(e.obj, e.want)))
    [] e.op = "wsave" ->
         (LET w == Updated(s.w, e) IN
          IF ~WaveOk(w) \/ (e.updTime /\ s.w.rate = 0) THEN (IF Raised(e) THEN "" ELSE "wave that cannot be stored was not refused")
          ELSE IF Raised(e) THEN "saving a wave raised"
          ELSE IF ~SwavLayoutOk(e.out) THEN "wave file sizes wrong"
          ELSE IF SwavDecode(e.out) # w THEN Cl("saved wave has wrong ", DiffW(SwavDecode(e.out), w))
          ELSE IF e.prev # <<>> /\ e.prev[1] # e.out THEN "reopening and saving changed the bytes"
          ELSE Cl("saving changed the ", DiffW(e.obj, w)))
    [] e.op = "aload" -> (IF Raised(e) THEN "loading a wave archive raised"
          ELSE IF e.unk02 # e.unk02want THEN "archive parameter wrong" ELSE Cl("loaded archive has wrong ", DiffWs(e.obj, SwarDecode(e.data))))
    [] e.op = "aset" -> (IF Raised(e) THEN "editing an archive raised" ELSE Cl("edited archive has wrong ", DiffWs(e.obj, e.want)))
    [] e.op = "asave" ->
         (IF \E i \in 1..Len(s.ws) : ~WaveOk(s.ws[i]) THEN (IF Raised(e) THEN "" ELSE "archive that cannot be stored was not refused")
          ELSE IF Raised(e) THEN "saving a wave archive raised"
          ELSE IF ~SwarLayoutOk(e.out, s.ws) THEN "archive sizes or offsets wrong"
          ELSE IF SwarDecode(e.out) # s.ws THEN Cl("saved archive has wrong ", DiffWs(SwarDecode(e.out), s.ws))
          ELSE IF e.unk02 # e.unk02want THEN "archive parameter wrong"
          ELSE IF e.prev # <<>> /\ e.prev[1] # e.out THEN "reopening and saving changed the bytes"
          ELSE Cl("saving changed the ", DiffWs(e.obj, s.ws)))
TInit == TraceInit(LAMBDA t : [w |-> NoWave, ws |-> <<>>])
TNext == TraceNext(V, Post)
=============================================================================
