----------------------------------- MODULE MCPrint -----------------------------------
(* Every short byte string over the characters that matter: the printer keeps the law and different bytes print differently. *)
EXTENDS Print, Json, IOUtils, CSV
CONSTANTS Alphabet, MaxLen
VARIABLES d, done
Init == done = FALSE /\ d = <<>>
Next == \/ ~done /\ Len(d) < MaxLen /\ \E b \in Alphabet : d' = Append(d, b) /\ UNCHANGED done
        \/ ~done /\ done' = TRUE /\ UNCHANGED d
Holds == done => BytesLaw(d, PrintBytes(d)) = ""
(* a printer that always uses octal, or does not escape quotes, breaks it *)
Naive(b) == IF b < 8 THEN <<Bsl, 48 + b>> ELSE <<b>>
Sharp == (done /\ Len(d) = 2 /\ d[1] < 8 /\ d[2] \in 48..55) => BytesLaw(d, <<98, Quote>> \o Naive(d[1]) \o Naive(d[2]) \o <<Quote>>) # ""
Emit == done => CSVWrite("%1$s", <<ToJson([d |-> d])>>, IOEnv.CASES)
=============================================================================
