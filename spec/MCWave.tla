---------------------------------- MODULE MCWave ----------------------------------
(* All edit histories (insert / replace / remove) of a small wave archive.           *)
EXTENDS Wave, Json, IOUtils, CSV
CONSTANTS MaxWaves, MaxSteps
VARIABLES ws, hist
Waves == {[type |-> 0, looped |-> FALSE, rate |-> 8000, time |-> 2094, loop |-> 0, total |-> 0, data |-> <<>>],
          [type |-> 1, looped |-> TRUE, rate |-> 32728, time |-> 512, loop |-> 3, total |-> 3, data |-> <<1, 2, 3, 4, 5, 6, 7, 8>>],
          [type |-> 2, looped |-> TRUE, rate |-> 65535, time |-> 65535, loop |-> 65535, total |-> 65537, data |-> <<255, 0, 9>>]}
Init == ws = <<>> /\ hist = <<>>
Ins == Len(ws) < MaxWaves /\ \E i \in 1..(Len(ws) + 1), w \in Waves :
         ws' = SubSeq(ws, 1, i - 1) \o <<w>> \o SubSeq(ws, i, Len(ws)) /\ hist' = Append(hist, [op |-> "ins", at |-> i - 1, w |-> w])
Del == \E i \in 1..Len(ws) : ws' = SubSeq(ws, 1, i - 1) \o SubSeq(ws, i + 1, Len(ws)) /\ hist' = Append(hist, [op |-> "del", at |-> i - 1, w |-> ws[i]])
Put == \E i \in 1..Len(ws), w \in Waves : w # ws[i] /\ ws' = [ws EXCEPT ![i] = w] /\ hist' = Append(hist, [op |-> "put", at |-> i - 1, w |-> w])
Next == Len(hist) < MaxSteps /\ (Ins \/ Del \/ Put)
RoundTrip == LET b == SwarEncode(ws) IN SwarDecode(b) = ws /\ SwarLayoutOk(b, ws)
Single == \A i \in 1..Len(ws) : LET b == SwavEncode(ws[i]) IN SwavDecode(b) = ws[i] /\ SwavLayoutOk(b)
Emit == Len(hist) = MaxSteps => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.CASES)
=============================================================================
