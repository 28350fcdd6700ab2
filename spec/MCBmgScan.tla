----------------------------------- MODULE MCBmgScan -----------------------------------
(* Every short text section: every scan ends (liveness), never moves backwards, and what it found ends before the terminator. *)
EXTENDS BmgScan, Json, IOUtils, CSV, TLC
CONSTANTS MaxLen, Alphabet
VARIABLES d, w, start, s
vars == <<d, w, start, s>>
Init == /\ d \in UNION {[1..n -> Alphabet] : n \in 1..MaxLen} /\ d[1] = 0
        /\ w \in {1, 2} /\ start \in 1..(MaxLen + 1) /\ start <= Len(d) + 1
        /\ s = Scan0(start)
Next == s.res = "" /\ s' = ScanStep(d, w, s) /\ UNCHANGED <<d, w, start>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(s.res # "")
Forward == [][s'.o >= s.o /\ (s'.o > s.o \/ s'.res # "")]_vars
Found == s.res = "ok" => s.o + w <= Len(d) /\ \A i \in 1..Len(s.parts) : s.parts[i].esc \/ \A j \in 1..Len(s.parts[i].text) : s.parts[i].text[j] \notin {0, 26}
Same == s.res # "" => ScanFrom(d, w, Scan0(start)) = s
Emit == s.res # "" => CSVWrite("%1$s", <<ToJson([d |-> d, w |-> w, start |-> start])>>, IOEnv.CASES)
=============================================================================
