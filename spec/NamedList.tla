--------------------------------- MODULE NamedList ---------------------------------
(* Lists of (name, value) pairs.  [n |-> name, v |-> value]                          *)
EXTENDS Integers, Sequences, TLC
Where(l, n) == {i \in 1..Len(l) : l[i].n = n}
Has(l, n) == Where(l, n) # {}
FirstIx(l, n) == CHOOSE i \in Where(l, n) : \A j \in Where(l, n) : i <= j
SetFirst(l, n, v) == [l EXCEPT ![FirstIx(l, n)] = [n |-> n, v |-> v]]
=============================================================================
