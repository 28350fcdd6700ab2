------------------------------- MODULE CodeTrace -------------------------------
(* st = [m |-> code file, img |-> last uncompressed image, tab |-> overlays]     *)
EXTENDS TraceBase, Code
Raised(e) == e.exc # ""
NoSt == [m |-> [ram |-> 0, cso |-> <<>>, secs |-> <<>>], img |-> <<>>, tab |-> <<>>]
HasId(ids, i) == ids = <<>> \/ \E j \in 1..Len(ids[1]) : ids[1][j] = i
(* expected overlays: table entries of the requested IDs; e.files[i] = decoded data of the i-th entry's file *)
Wanted(e) == SelectSeq(OvTable(e.table), LAMBDA o : HasId(e.ids, o.id))
DiffCode(x, y) == CASE x.ram # y.ram -> "file address" [] x.cso # y.cso -> "settings offset"
   [] Len(x.secs) # Len(y.secs) -> "number of sections"
   [] \E i \in 1..Len(x.secs) : x.secs[i].data # y.secs[i].data -> "section data"
   [] \E i \in 1..Len(x.secs) : x.secs[i].ram # y.secs[i].ram -> "section address"
   [] \E i \in 1..Len(x.secs) : x.secs[i].bss # y.secs[i].bss -> "BSS size"
   [] \E i \in 1..Len(x.secs) : x.secs[i].implicit # y.secs[i].implicit -> "implicit flag" [] OTHER -> ""
Cl(p, d) == IF d = "" THEN "" ELSE p \o d
Post(s, e) == CASE e.op \in {"load", "reload"} -> (IF Raised(e) THEN s ELSE [s EXCEPT !.m = e.obj])
                [] e.op = "assign" -> [s EXCEPT !.m = e.want]
                [] e.op = "save" -> (IF Raised(e) THEN s ELSE [s EXCEPT !.img = e.out])
                [] OTHER -> s
V(s, e) ==
  CASE e.op = "load" -> (IF Raised(e) THEN "loading raised" ELSE Cl("loaded file has wrong ", DiffCode(e.obj, CodeDecode(e.data, e.ram, e.ptr))))
    [] e.op = "assign" -> (IF Raised(e) THEN "editing raised" ELSE "")
    [] e.op = "save" -> (IF Raised(e) THEN "save raised" ELSE IF e.out # CodeEncode(s.m) THEN "saved image is not the one the sections define" ELSE "")
    (* a compressed file that was stored raw may end in zero padding *)
    [] e.op = "reload" -> (IF Raised(e) THEN "reloading raised"
          ELSE IF e.stored /\ s.m.cso = <<>> /\ Len(e.obj.secs) = 1 /\ Len(e.obj.secs[1].data) > Len(e.img)
               THEN (IF Len(e.obj.secs[1].data) <= Len(e.img) + 8 /\ e.obj.secs[1].data = e.img \o Zeros(Len(e.obj.secs[1].data) - Len(e.img))
                     THEN "" ELSE "reloaded file has wrong section data")
          ELSE Cl("reloaded file has wrong ", DiffCode(e.obj, Reopened(s.m, e.img))))
    (* compressed save: e.out saved, pointers visible in its uncompressed prefix *)
    [] e.op = "csave" -> (IF Raised(e) THEN "compressed save raised"
          ELSE IF s.m.cso = <<>> THEN ""
          ELSE LET c == s.m.cso[1] IN
               IF R32(e.out, c + 20) # s.m.ram + Len(e.out) THEN "compression end pointer wrong"
               ELSE IF Slice(e.out, c, 12) # Slice(CodeEncode(s.m), c, 12) THEN "table pointers wrong in the compressed file" ELSE "")
    (* overlays *)
    [] e.op = "ovload" -> (IF Raised(e) THEN "loading overlays raised"
          ELSE LET w == Wanted(e) IN
               IF Len(e.ovs) # Len(w) \/ {e.ovs[i].o.id : i \in 1..Len(e.ovs)} # {w[i].id : i \in 1..Len(w)} THEN "wrong set of overlays"
               ELSE IF \E i \in 1..Len(e.ovs) : \E j \in 1..Len(w) : w[j].id = e.ovs[i].o.id /\ w[j] # e.ovs[i].o THEN "overlay carries the wrong values"
               ELSE IF \E i \in 1..Len(e.ovs) : e.ovs[i].data # e.datas[e.ovs[i].o.file + 1] THEN "overlay carries the wrong data" 
               ELSE IF \E i \in 1..Len(e.ovs) : e.ovs[i].compressed # (e.ovs[i].o.flags % 2 = 1) \/ e.ovs[i].verify # ((e.ovs[i].o.flags \div 2) % 2 = 1)
                    THEN "flag properties wrong" ELSE "")
    [] e.op = "ovsavetable" -> (IF Raised(e) THEN "saving the overlay table raised"
          ELSE IF e.out # Cat(Map(SortById(e.tab), OvEncode)) THEN "saved overlay table wrong" ELSE "")
    [] e.op = "ovsave" -> (IF Raised(e) THEN "saving an overlay raised"
          ELSE IF ~e.compress /\ e.out # e.data THEN "uncompressed overlay data changed"
          ELSE IF e.after # [e.before EXCEPT !.ramSize = Len(e.data), !.csize = Len(e.out), !.flags = (@ \div 2) * 2 + (IF e.compress THEN 1 ELSE 0)]
               THEN "overlay sizes or flags do not describe the saved data"
          ELSE IF e.dataAfter # e.data THEN "saving changed the overlay's data" ELSE "")
    [] e.op = "ovflag" -> (IF Raised(e) THEN "setting a flag raised"
          ELSE LET bit == IF e.which = "compressed" THEN 1 ELSE 2
                   has == (e.before \div bit) % 2 = 1
               IN IF e.after # (IF has = e.value THEN e.before ELSE IF e.value THEN e.before + bit ELSE e.before - bit) THEN "setting a flag changes other bits" ELSE "")
TInit == TraceInit(LAMBDA t : NoSt)
TNext == TraceNext(V, Post)
=============================================================================
