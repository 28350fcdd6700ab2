--------------------------------- MODULE SbnkTrace ---------------------------------
(* State: a bank.  Inaccessible instruments are recognized by guesswork when loading; *)
(* sure = TRUE when the file was written from a bank whose inaccessible instruments   *)
(* cannot be mistaken (single notes of pitch 60 next to single-note instruments).     *)
EXTENDS TraceBase, Sbnk
Raised(e) == e.exc # ""
NoBank == [insts |-> <<>>, inacc |-> <<>>, unk |-> 0, wars |-> <<>>]
Plain(x) == [x EXCEPT !.key = 0, !.merge = 0]
PlainB(s) == [i \in 1..Len(s) |-> IF s[i] = <<>> THEN <<>> ELSE <<Plain(s[i][1])>>]
RECURSIVE Trim(_)
Trim(w) == IF w # <<>> /\ w[Len(w)] = <<>> THEN Trim(SubSeq(w, 1, Len(w) - 1)) ELSE w
Diff(x, y) == CASE Len(x.insts) # Len(y.insts) -> "number of instruments" [] PlainB(x.insts) # PlainB(y.insts) -> "instruments"
                [] x.insts # y.insts -> "order or merge keys" [] x.wars # y.wars -> "wave archive IDs" [] x.unk # y.unk -> "unk02"
                [] x.inacc # y.inacc -> "inaccessible instruments" [] OTHER -> ""
Cl(p, d) == IF d = "" THEN "" ELSE p \o d
PlainInacc(q) == [i \in 1..Len(q) |-> [after |-> q[i].after, insts |-> [j \in 1..Len(q[i].insts) |-> Plain(q[i].insts[j])]]]
Loaded(e) == [insts |-> SbnkInsts(e.data), inacc |-> e.obj.inacc, unk |-> e.unk, wars |-> Trim(e.wars)]
(* what was recognized must be in the file where it claims to be *)
InaccReal(d, q) == \A i \in 1..Len(q) : \A j \in 1..Len(q[i].insts) :
  LET x == q[i].insts[j]  y == RInst(d, x.key, InstType(x)) IN x.key \in 60..Len(d) - 1 /\ x.merge = x.key /\ x = y
Post(s, e) == CASE e.op = "load" -> Loaded(e) [] e.op = "set" -> e.obj [] OTHER -> s
V(s, e) ==
  CASE e.op = "load" ->
        (IF Raised(e) THEN "loading raised"
         ELSE IF Diff(e.obj, Loaded(e)) # "" THEN "loaded bank has wrong " \o Diff(e.obj, Loaded(e))
         ELSE IF ~InaccReal(e.data, e.obj.inacc) THEN "an inaccessible instrument is not in the file"
         ELSE IF e.sure /\ PlainInacc(e.obj.inacc) # PlainInacc(s.inacc) THEN "inaccessible instruments were lost or changed" ELSE "")
    [] e.op = "set" -> (IF Raised(e) THEN "editing raised" ELSE Cl("edited bank has wrong ", Diff(e.obj, e.want)))
    [] e.op = "save" ->
        (IF ~BankOk(s) THEN (IF Raised(e) \/ e.lax THEN "" ELSE "a bank that cannot be stored was not refused")
         ELSE IF Raised(e) THEN "saving raised"
         ELSE IF e.out # SbnkEncode(s) THEN
           (IF PlainB(SbnkInsts(e.out)) # PlainB(s.insts) THEN "saved bank has wrong instruments"
            ELSE IF Len(e.out) # Len(SbnkEncode(s)) THEN "saved bank has the wrong size" ELSE "saved bank has its data in the wrong place")
         ELSE IF e.unk # s.unk \/ e.wars # s.wars THEN "parameters returned with the file are wrong"
         ELSE Cl("saving changed the ", Diff(e.obj, s)))
    [] OTHER -> "unknown step"
TInit == TraceInit(LAMBDA t : NoBank)
TNext == TraceNext(V, Post)
=============================================================================
