----------------------------------- MODULE Store -----------------------------------
(***************************************************************************)
(* Files of any size.  A file is a numbered list of items (files of an     *)
(* archive, messages, entries, waves, blocks, events ...) and a head (all  *)
(* that is not an item).  An item is known by a digest d of its name,      *)
(* parameters and contents and by its length n, so that a file may hold    *)
(* tens of thousands of items and megabytes of contents.                   *)
(* Editing puts, inserts or deletes one item.  Saving and reopening gives  *)
(* the same items, in the same order, and the same head.  Where the format *)
(* has an allocation table, the extents in it are exactly as long as the   *)
(* items, aligned, one behind another and inside their block.              *)
(***************************************************************************)
EXTENDS Integers, Sequences

Blank == [d |-> <<>>, n |-> <<>>, head |-> <<>>]

WithAt(s, i, x) == [s EXCEPT ![i] = x]
WithNew(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

PutItem(f, i, d, n) == [f EXCEPT !.d = WithAt(@, i, d), !.n = WithAt(@, i, n)]
NewItem(f, i, d, n) == [f EXCEPT !.d = WithNew(@, i, d), !.n = WithNew(@, i, n)]
DelItem(f, i) == [f EXCEPT !.d = Without(@, i), !.n = Without(@, i)]

CanEdit(f, op, i) == IF op = "new" THEN i \in 1..Len(f.d) + 1 ELSE i \in 1..Len(f.d)

(* ext: start and end of each item's extent, in item order *)
ExtentsFit(ext, n, align, lo, hi) ==
    /\ Len(ext) = Len(n)
    /\ \A i \in 1..Len(ext) :
         /\ ext[i][1] >= lo /\ ext[i][2] <= hi
         /\ ext[i][1] % align = 0
         /\ ext[i][2] - ext[i][1] = n[i]
         /\ i > 1 => ext[i][1] >= ext[i - 1][2]
=============================================================================
