-------------------------------- MODULE BmgTrace --------------------------------
(* State: the BMG object.  e.focus selects the part of the contents a trace is    *)
(* about: "msg" (header and messages) or "scr" (script data and section layout).  *)
EXTENDS TraceBase, Bmg
Raised(e) == e.exc # ""
None == [end |-> "<", enc |-> "utf-16", id |-> Zeros(4), unk |-> <<Zeros(4), Zeros(4), Zeros(4)>>, msgs |-> <<>>, insts |-> <<>>, labels |-> <<>>, scripts |-> <<>>]
(* object o is what the file b says *)
Says(b, o, focus) ==
  LET h == HeaderOf(b) IN
  IF h.end # o.end THEN "endianness wrong"
  ELSE IF focus = "msg" THEN
     (IF h.enc # o.enc THEN "encoding wrong" ELSE IF h.unk # o.unk THEN "header values wrong" ELSE IF IdOf(b) # o.id THEN "ID wrong"
      ELSE IF ~MsgsStored(b, o.enc, o.msgs) THEN "messages wrong" ELSE "")
  ELSE (IF InstsOf(b) # o.insts THEN "instructions wrong" ELSE IF LabelsOf(b) # o.labels THEN "labels wrong"
        ELSE IF ScriptsOf(b) # o.scripts THEN "scripts wrong" ELSE "")
Norm(o) == [o EXCEPT !.msgs = [i \in 1..Len(@) |-> NormMsg(@[i])], !.insts = StripInst(@), !.labels = StripLab(@)]
Cl(p, d) == IF d = "" THEN "" ELSE p \o d
Same(o, p, focus) == IF focus = "msg" THEN (IF o.end # p.end THEN "endianness" ELSE IF o.enc # p.enc THEN "encoding" ELSE IF o.unk # p.unk THEN "header values"
                                       ELSE IF o.id # p.id THEN "ID" ELSE IF o.msgs # p.msgs THEN "messages" ELSE "")
                     ELSE (IF o.insts # p.insts THEN "instructions" ELSE IF o.labels # p.labels THEN "labels" ELSE IF o.scripts # p.scripts THEN "scripts" ELSE "")
Post(s, e) == CASE e.op = "assign" -> e.want [] e.op \in {"load", "reload"} -> e.obj [] OTHER -> s
V(s, e) ==
  CASE e.op = "load" -> (IF Raised(e) THEN "loading raised" ELSE Cl("loaded: ", Says(e.data, e.obj, e.focus)))
    [] e.op = "assign" -> (IF Raised(e) THEN "construction raised" ELSE "")
    [] e.op = "save" ->
         (IF ~Storable(s) THEN (IF Raised(e) THEN "" ELSE "file that cannot be stored was not refused")
          ELSE IF Raised(e) THEN "save raised"
          ELSE IF ~MagicOk(e.out) THEN "saved file has no BMG header"
          ELSE IF ~LayoutOk(e.out) THEN "section sizes or counts wrong"
          ELSE IF e.canon /\ e.out # BmgEncode(s) THEN "canonical file not reproduced"
          ELSE IF e.prev # <<>> /\ e.prev[1] # e.out THEN "reopening and saving changed the bytes"
          ELSE Cl("saved: ", Says(e.out, Norm(s), e.focus)))
    [] e.op = "reload" -> (IF Raised(e) THEN "reloading raised" ELSE Cl("reload changed the ", Same(Norm(s), e.obj, e.focus)))
    [] e.op = "fullenc" -> (IF Raised(e) THEN "fullEncoding raised"
          ELSE IF e.out # (IF s.enc = "utf-16" THEN (IF s.end = "<" THEN "utf-16le" ELSE "utf-16be") ELSE s.enc) THEN "fullEncoding wrong" ELSE "")
TInit == TraceInit(LAMBDA t : None)
TNext == TraceNext(V, Post)
=============================================================================
