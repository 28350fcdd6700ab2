-------------------------------- MODULE MCNamedList --------------------------------
(* every list of up to MaxLen entries, every history of up to MaxOps set operations    *)
EXTENDS NamedList, Json, IOUtils, CSV
CONSTANTS MaxLen, MaxOps
VARIABLES l, l0, ops
Names == {"a", "b", "none", "c"}
Init == ops = <<>> /\ l0 \in UNION {[1..k -> [n : Names \ {"c"}, v : {0}]] : k \in 0..MaxLen} /\ l = l0
Next == /\ Len(ops) < MaxOps
        /\ \E n \in Names : /\ ops' = Append(ops, n) /\ l0' = l0
                            /\ l' = IF Has(l, n) THEN SetFirst(l, n, Len(ops) + 1) ELSE l
(* setting keeps names and length, changes at most one value, and finding returns what was set *)
SetLaw == /\ Len(l) = Len(l0) /\ \A i \in 1..Len(l) : l[i].n = l0[i].n
          /\ \A i \in 1..Len(l) : l[i].v # 0 => FirstIx(l0, l[i].n) = i
          /\ ops # <<>> /\ Has(l, ops[Len(ops)]) => l[FirstIx(l, ops[Len(ops)])].v = Len(ops)
Emit == Len(ops) = MaxOps => CSVWrite("%1$s", <<ToJson([l |-> [i \in 1..Len(l0) |-> l0[i].n], ops |-> ops])>>, IOEnv.CASES)
=============================================================================
