--------------------------------- MODULE SdatTrace ---------------------------------
(* State: archive a, layout options o, and orig: the bytes it was loaded from if this *)
(* library wrote them and nothing was edited since.                                   *)
(* e.layout = FALSE: contents (C11); TRUE: layout and sharing of files (C12)          *)
EXTENDS TraceBase, Sdat
Raised(e) == e.exc # ""
Empty == [q \in 1..8 |-> <<>>]
Cl(p, d) == IF d = "" THEN "" ELSE p \o d
U16Ok(v) == v \in 0..65535
NameOk(n) == n = <<>> \/ \A i \in 1..Len(n[1]) : n[1][i] \in 1..255
EntryOk(q, e) ==
  LET p == e.p IN
  CASE q = 1 -> U16Ok(p[1]) /\ U16Ok(p[2]) /\ \A i \in 3..6 : p[i] \in Byte
    [] q \in {2, 4} -> U16Ok(p[1])
    [] q = 3 -> Len(p) = 5 /\ U16Ok(p[1]) /\ \A i \in 2..5 : p[i] \in -1..32767
    [] q = 5 -> U16Ok(p[1])
    [] q = 7 -> Len(p) <= 255 /\ \A i \in 1..Len(p) : p[i] \in Byte
    [] q = 8 -> U16Ok(p[1]) /\ \A i \in 2..5 : p[i] \in Byte
    [] OTHER -> TRUE
Storable(a) == \A q \in 1..8 : \A i \in 1..Len(a[q]) :
  NameOk(a[q][i].n) /\ (a[q][i].e # <<>> => EntryOk(q, a[q][i].e[1]) /\ \A j \in 1..Len(a[q][i].e[1].s) : NameOk(a[q][i].e[1].s[j]))
Merges(a) == [q \in 1..8 |-> [i \in 1..Len(a[q]) |-> IF a[q][i].e = <<>> \/ ~HasFile(q) THEN 0 ELSE a[q][i].e[1].m]]
Post(s, e) == CASE e.op = "load" -> [a |-> e.obj, o |-> e.opts, orig |-> IF e.lib THEN <<e.data>> ELSE <<>>]
                [] e.op = "set" -> [a |-> e.want, o |-> e.wopts, orig |-> <<>>]
                [] OTHER -> s
V(s, e) ==
  CASE e.op = "load" ->
        (IF Raised(e) THEN "loading raised"
         ELSE LET d == ArcDiff(e.obj, SdatDecode(e.data)) IN
              IF d # "" THEN "loaded archive differs in " \o d
              ELSE IF e.layout /\ ShareLaw(e.obj, e.data) # "" THEN "not recovered: " \o ShareLaw(e.obj, e.data)
              ELSE IF e.layout /\ e.lib THEN Cl("layout option not recovered: ", RecoverLaw(s.a, s.o, e.data, e.opts)) ELSE "")
    [] e.op = "set" ->
        (IF Raised(e) THEN "editing raised" ELSE
         LET d == ArcDiff(e.obj, e.want) IN
         IF d # "" THEN "edited archive differs in " \o d ELSE IF Merges(e.obj) # Merges(e.want) THEN "merge IDs changed" ELSE IF e.opts # e.wopts THEN "layout options changed" ELSE "")
    [] e.op = "save" ->
        (IF ~Storable(s.a) THEN (IF Raised(e) THEN "" ELSE "an archive that cannot be stored was not refused")
         ELSE IF Raised(e) THEN "saving raised"
         ELSE LET d == ArcDiff(SdatDecode(e.out), s.a)  c == ArcDiff(e.obj, s.a) IN
              IF d # "" THEN "saved archive differs in " \o d
              ELSE IF e.layout THEN LayoutLaw(s.a, s.o, e.out)
              ELSE IF s.orig # <<>> /\ e.out # s.orig[1] THEN "a reopened archive is saved differently"
              ELSE IF c # "" THEN "saving changed " \o c
              ELSE IF e.opts # s.o THEN "saving changed the layout options" ELSE "")
    [] OTHER -> "unknown step"
TInit == TraceInit(LAMBDA t : [a |-> Empty, o |-> DefaultOpts, orig |-> <<>>])
TNext == TraceNext(V, Post)
=============================================================================
