----------------------------------- MODULE Nested -----------------------------------
(***************************************************************************)
(* Files inside files.                                                      *)
(* An item is a leaf [k |-> "leaf", v, kids |-> <<>>], a container          *)
(* [k |-> "box", v, kids], v being what the container itself says (names,   *)
(* header values), or a compressed item [k |-> "lz", v, kids |-> <<item>>]. *)
(* A path is the list of positions from the outside in.                     *)
(* The contents of an item: every leaf and every container value with its   *)
(* path.                                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Contents(_, _)
Contents(t, p) == {[p |-> p, v |-> t.v]} \cup UNION {Contents(t.kids[i], Append(p, i)) : i \in 1..Len(t.kids)}
RECURSIVE PutAt(_, _, _)
PutAt(t, p, v) == IF p = <<>> THEN [t EXCEPT !.v = v] ELSE [t EXCEPT !.kids[Head(p)] = PutAt(@, Tail(p), v)]
RECURSIVE LeafPaths(_, _)
LeafPaths(t, p) == IF t.kids = <<>> THEN (IF t.k = "leaf" THEN {p} ELSE {}) ELSE UNION {LeafPaths(t.kids[i], Append(p, i)) : i \in 1..Len(t.kids)}
(* bytes of an item, as a term: containers concatenate their kids with a directory, compression wraps *)
RECURSIVE Pack(_)
Pack(t) == IF t.k = "leaf" THEN <<"b", t.v>> ELSE <<t.k, t.v>> \o [i \in 1..Len(t.kids) |-> Pack(t.kids[i])]
RECURSIVE Unpack(_)
Unpack(b) == IF b[1] = "b" THEN [k |-> "leaf", v |-> b[2], kids |-> <<>>] ELSE [k |-> b[1], v |-> b[2], kids |-> [i \in 1..(Len(b) - 2) |-> Unpack(b[i + 2])]]
(* replace the piece at a path inside packed bytes, opening and repacking one level at a time *)
RECURSIVE Repack(_, _, _)
Repack(b, p, new) == IF p = <<>> THEN new ELSE LET t == Unpack(b) IN Pack([t EXCEPT !.kids[Head(p)] = Unpack(Repack(b[Head(p) + 2], Tail(p), new))])
------------------------------------------------------------------------------
(* law of an edit: a and b are the contents (sets of [p, v]) before and after, at path p, value v *)
EditLaw(a, e) ==
  LET b == {e.all[i] : i \in 1..Len(e.all)} IN
  IF e.exc # "" THEN "editing or saving raised"
  ELSE IF {x.p : x \in a} # {x.p : x \in b} THEN "an item appeared or disappeared"
  ELSE IF [p |-> e.p, v |-> e.v] \notin b THEN "the edited item is not what it was set to"
  ELSE IF {x \in a : x.p # e.p} # {x \in b : x.p # e.p} THEN "another item changed"
  ELSE ""
StartLaw(e) == IF e.exc # "" THEN "making the files raised" ELSE IF Cardinality({e.all[i].p : i \in 1..Len(e.all)}) # Len(e.all) THEN "two items at one path" ELSE ""
Law(s, e) == CASE e.op = "start" -> StartLaw(e) [] e.op = "edit" -> EditLaw(s, e)
                [] e.op = "again" -> IF e.exc # "" THEN "reopening raised" ELSE IF {e.all[i] : i \in 1..Len(e.all)} # s THEN "reopening and saving changed items" ELSE ""
After(s, e) == {e.all[i] : i \in 1..Len(e.all)}
=============================================================================
