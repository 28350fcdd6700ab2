----------------------------------- MODULE Objects -----------------------------------
(***************************************************************************)
(* Independent objects.                                                     *)
(* State: obs, the observable state of every object (a token each; equal    *)
(* tokens look the same); buf, the contents of the buffers objects were     *)
(* loaded from; out, what saving each object gave since it last changed     *)
(* (<<>> if it was not saved since).                                        *)
(* Looking, printing and saving change nothing; editing object i changes    *)
(* nothing but object i; loading leaves the buffer alone; changing a buffer *)
(* changes no object.  The values given besides the bytes are left alone     *)
(* too.  "open" loads one file with several items; from then on they are    *)
(* objects like any others.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
Same(a, b, S) == \A i \in S : a[i] = b[i]
Law(s, e) ==
  LET n == Len(s.obs)  m == Len(e.obs) IN
  CASE e.op = "open" -> (IF e.exc # "" THEN "loading raised" ELSE "")
    [] e.op \in {"create", "load"} ->
        (IF e.exc # "" THEN "creating raised" ELSE IF m # n + 1 \/ ~Same(s.obs, e.obs, 1..n) THEN "creating an object changed another"
         ELSE IF SubSeq(e.buf, 1, Len(s.buf)) # s.buf \/ (e.op = "load" /\ (e.given # e.buf[e.b] \/ e.argsBefore # e.argsAfter)) THEN "loading changed its input" ELSE "")
    [] e.op = "edit" -> (IF m # n \/ ~Same(s.obs, e.obs, (1..n) \ {e.i}) THEN "editing an object changed another" ELSE IF e.buf # s.buf THEN "editing changed the data loaded" ELSE "")
    [] e.op = "scribble" -> (IF e.obs # s.obs THEN "an object depends on the data it was loaded from" ELSE "")
    [] e.op = "look" -> (IF e.obs # s.obs THEN "looking changed an object" ELSE IF e.buf # s.buf THEN "looking changed data" ELSE "")
    [] e.op = "print" -> (IF e.exc # "" /\ e.sure THEN "printing raised" ELSE IF e.obs # s.obs THEN "printing changed an object" ELSE "")
    [] e.op = "save" ->
        (IF e.obs # s.obs THEN "saving changed an object" ELSE IF e.buf # s.buf THEN "saving changed data"
         ELSE IF e.exc # "" /\ e.sure THEN "saving raised"
         ELSE IF s.out[e.i] # <<>> /\ s.out[e.i] # <<e.r>> THEN "saving again gave something else" ELSE "")
    [] e.op = "keep" -> (IF e.ok THEN "" ELSE "what was saved changed later")
After(s, e) ==
  CASE e.op = "open" -> [obs |-> e.obs, buf |-> e.buf, out |-> [i \in 1..Len(e.obs) |-> <<>>]]
    [] e.op \in {"create", "load"} -> [obs |-> e.obs, buf |-> e.buf, out |-> Append(s.out, <<>>)]
    [] e.op = "edit" -> [obs |-> e.obs, buf |-> e.buf, out |-> [s.out EXCEPT ![e.i] = <<>>]]
    [] e.op = "save" -> [s EXCEPT !.out[e.i] = <<e.r>>]
    [] e.op = "scribble" -> [s EXCEPT !.buf = e.buf]
    [] OTHER -> s
=============================================================================
