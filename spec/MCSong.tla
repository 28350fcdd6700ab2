----------------------------------- MODULE MCSong -----------------------------------
(* All small songs: splitting what was joined gives the tracks back; edits touch only what they should. *)
EXTENDS Music, Json, IOUtils, CSV
CONSTANTS Numbers, Thorough
VARIABLES song, what, val, on, done
L == [empty |-> <<>>, note |-> <<[k |-> 60, a |-> <<5, 0, 3>>]>>, pan |-> <<[k |-> 192, a |-> <<1>>], [k |-> 60, a |-> <<9, 0, 3>>], [k |-> 192, a |-> <<2>>]>>,
      setup |-> <<[k |-> 199, a |-> <<0>>], [k |-> 129, a |-> <<0, 4>>], [k |-> 225, a |-> <<120>>], [k |-> 128, a |-> <<96>>]>>,
      late |-> <<[k |-> 128, a |-> <<1>>], [k |-> 193, a |-> <<100>>]>>, only |-> <<[k |-> 193, a |-> <<3>>]>>,
      loop |-> <<[k |-> 193, a |-> <<3>>], [k |-> 62, a |-> <<127, 1, 4>>], [k |-> 148, a |-> <<>>, to |-> 2]>>,
      cond |-> <<[k |-> 62, a |-> <<127, 1, 4>>], [k |-> 162, a |-> <<>>], [k |-> 148, a |-> <<>>, to |-> 1]>>,
      skip |-> <<[k |-> 162, a |-> <<>>], [k |-> 148, a |-> <<>>, to |-> 4], [k |-> 64, a |-> <<1, 0, 1>>], [k |-> 255, a |-> <<>>]>>]
Mk(n, name) == LET l == L[name] IN [n |-> n, evs |-> [i \in 1..Len(l) |-> Ev(1000 * (n + 1) + i, l[i].k, l[i].a, IF "to" \in DOMAIN l[i] THEN <<1000 * (n + 1) + l[i].to>> ELSE <<>>)]]
Names == IF Thorough THEN DOMAIN L ELSE DOMAIN L
Songs == {{Mk(n, f[n]) : n \in S} : S \in SUBSET (Numbers \cup {0}) \ {{}}, f \in [Numbers \cup {0} -> Names]}
Kinds == {192, 193, 129, 225, 199}
Vals == {"none", "one"}
Arg(kk) == IF kk = 129 THEN <<1, 2>> ELSE <<1>>
Init == song \in Songs /\ what \in (IF Thorough THEN Kinds ELSE {192, 193, 199}) /\ val \in Vals /\ on \in Nums(song) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<song, what, val, on>>
Joined == RefJoin(song, 90000)
JoinInv == done \/ LET j == Joined IN
  /\ JoinLaw(song, {}, j) = ""
  /\ OpenOk(Split(j), song)
  /\ OpenOk(Split(RefJoin(Collapse(song), 90000)), Collapse(song))
  /\ Nums(Collapse(song)) = 0..(Cardinality(song) - 1)
SetInv == done \/ LET t == Track(song, on)
                      v == IF val = "none" THEN <<>> ELSE <<Arg(what)>>
                      p == FirstOf(t, what, 1)
                      after == IF p = 0 THEN (IF v = <<>> THEN t ELSE PutAt(t, 1, Ev(77777, what, v[1], <<>>))) ELSE IF v = <<>> THEN DropAt(t, p) ELSE [t EXCEPT ![p].a = v[1]]
  IN /\ SetLaw(t, what, v, after)
     /\ Initial(after, what) = v
     /\ \A q \in Kinds \ {what} : Initial(after, q) = Initial(t, q)
     /\ Duration(after, 1) = Duration(t, 1) \/ what = 199
Emit == ~done => CSVWrite("%1$s", <<ToJson([evs |-> Joined, what |-> what, val |-> IF val = "none" THEN <<>> ELSE <<Arg(what)>>, on |-> on])>>, IOEnv.CASES)
=============================================================================
