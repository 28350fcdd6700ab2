----------------------------------- MODULE MCObjects -----------------------------------
(* All short interleavings over up to three objects, some loaded from the buffers others were saved to.                  *)
(* Model: an object's observable state is the number of its creation and of its edits; saving gives the state.            *)
EXTENDS Objects, Json, IOUtils, CSV
CONSTANTS N, Max
VARIABLES st, hist
Op(o, i) == [op |-> o, i |-> i]
Init == st = [obs |-> <<>>, buf |-> <<>>, out |-> <<>>] /\ hist = <<>>
Ev(op, i) ==
  LET n == Len(st.obs) IN
  CASE op = "create" -> [op |-> op, exc |-> "", obs |-> Append(st.obs, 10 * (n + 1)), buf |-> st.buf, b |-> 0, given |-> 0, i |-> n + 1]
    [] op = "load" -> [op |-> op, exc |-> "", obs |-> Append(st.obs, st.obs[i]), buf |-> Append(st.buf, st.obs[i]), b |-> Len(st.buf) + 1, given |-> st.obs[i], argsBefore |-> 0, argsAfter |-> 0, i |-> n + 1]
    [] op = "edit" -> [op |-> op, exc |-> "", obs |-> [st.obs EXCEPT ![i] = @ + 1], buf |-> st.buf, i |-> i]
    [] op = "scribble" -> [op |-> op, exc |-> "", obs |-> st.obs, buf |-> [b \in 1..Len(st.buf) |-> 0], i |-> i]
    [] OTHER -> [op |-> op, exc |-> "", obs |-> st.obs, buf |-> st.buf, i |-> i, r |-> IF i \in 1..n THEN st.obs[i] ELSE 0, sure |-> TRUE]
Enabled(op, i) ==
  CASE op = "create" -> i = 1 /\ Len(st.obs) < Max
    [] op = "load" -> i <= Len(st.obs) /\ Len(st.obs) < Max
    [] op = "scribble" -> i = 1 /\ st.buf # <<>>
    [] OTHER -> i <= Len(st.obs)
Next == Len(hist) < N /\ \E op \in {"create", "load", "edit", "scribble", "look", "print", "save"}, i \in 1..Max :
          /\ Enabled(op, i) /\ LET e == Ev(op, i) IN Law(st, e) = "" /\ st' = After(st, e)
          /\ hist' = Append(hist, Op(op, i))
(* the history of the other objects is irrelevant: an object's state is its start plus its own edits *)
Count(j) == LET RECURSIVE C(_)
                C(q) == IF q = 0 THEN 0 ELSE C(q - 1) + (IF hist[q].op = "edit" /\ hist[q].i = j THEN 1 ELSE 0)
            IN C(Len(hist))
Independent == \A j \in 1..Len(st.obs) : st.obs[j] % 10 <= Count(j) + 5 /\ (st.out[j] # <<>> => st.out[j][1] = st.obs[j])
Emit == Len(hist) = N => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.CASES)
=============================================================================
