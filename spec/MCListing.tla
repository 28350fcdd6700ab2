---------------------------------- MODULE MCListing ----------------------------------
(* All short event lists with jumps and labels: every event has its line, in order, naming the right target; cutting *)
(* or exchanging lines breaks the law.  Names of pitches and alignments are unambiguous.                              *)
EXTENDS Listing, Json, IOUtils, CSV
CONSTANTS MaxEvents, MaxLabels, Names
VARIABLES evs, ls, done
vars == <<evs, ls, done>>
E(k, a, r) == [k |-> k, a |-> a, ref |-> r, raw |-> <<>>]
Kinds(n) == {E(60, <<100, 0, 5>>, <<>>), E(255, <<>>, <<>>)} \cup {E(148, <<>>, <<r>>) : r \in 0..n} \cup {E(147, <<3>>, <<r>>) : r \in {n}}
Init == done = FALSE /\ ls = <<>> /\ \E n \in 0..MaxEvents : evs \in [1..n -> Kinds(n)]
Used == {ls[p].n : p \in 1..Len(ls)}
Next == \/ ~done /\ Len(ls) < MaxLabels /\ \E m \in ({<<>>} \cup {<<x>> : x \in Names}) \ Used, i \in -1..Len(evs) : ls' = Append(ls, [n |-> m, at |-> i]) /\ UNCHANGED <<evs, done>>
        \/ ~done /\ done' = TRUE /\ UNCHANGED <<evs, ls>>
Given0 == [i \in 1..Len(evs) |-> ""]
Good == [i \in 1..Warnings(evs, ls) |-> "  (WARNING: ..."] \o NoEvent(ls, "  ", 1) \o EventLines(evs, Given0, ls, "  ")
Holds == done => SequenceLaw(evs, Given0, ls, "  ", Good) = ""
Swap(q, i) == [x \in 1..Len(q) |-> IF x = i THEN q[i + 1] ELSE IF x = i + 1 THEN q[i] ELSE q[x]]
Sharp == done => LET g == Good  w == Warnings(evs, ls) IN
  /\ (g # <<>> => SequenceLaw(evs, Given0, ls, "  ", Tail(g)) # "")
  /\ (\A i \in (w + 1)..(Len(g) - 1) : g[i] # g[i + 1] => SequenceLaw(evs, Given0, ls, "  ", Swap(g, i)) # "")
  /\ (\A i \in (w + 1)..Len(g) : SequenceLaw(evs, Given0, ls, "  ", [g EXCEPT ![i] = g[i] \o " "]) # "")
NamesDiffer == /\ \A a, b \in 0..127 : a # b => NoteName(a) # NoteName(b)
               /\ \A a, b \in (0..2) \X (0..2) : a # b => AlignName(a[1], a[2]) # AlignName(b[1], b[2])
Known == /\ NoteName(60) = "c'" /\ NoteName(61) = "c~'" /\ NoteName(59) = "b" /\ NoteName(48) = "c" /\ NoteName(47) = "B" /\ NoteName(36) = "C" /\ NoteName(35) = "B_" /\ NoteName(72) = "c''"
ASSUME NamesDiffer /\ Known
Emit == done => CSVWrite("%1$s", <<ToJson([evs |-> evs, ls |-> ls])>>, IOEnv.CASES)
=============================================================================
