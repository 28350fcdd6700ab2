---------------------------------- MODULE MCStrm ----------------------------------
EXTENDS Strm, Json, IOUtils, CSV
CONSTANTS MaxChans, MaxBlocks, MaxLen
VARIABLES o, done
Init == /\ done = FALSE
        /\ \E t \in 0..2, nc \in 0..MaxChans, n \in 0..MaxBlocks, bl \in 0..MaxLen, ll \in 0..MaxLen :
             /\ nc = 0 => n = 0
             /\ n <= 1 => bl = 0
             /\ n = 0 => ll = 0
             /\ o = [type |-> t, looped |-> (n = 1), unk03 |-> 7, rate |-> 32728, time |-> 16, loop |-> <<1, 0, 0, 128>>, spb |-> 9, slb |-> 4,
                     unks |-> [i \in 1..8 |-> <<i, 0, 0, 200>>],
                     chans |-> [c \in 1..nc |-> [i \in 1..n |-> [j \in 1..(IF i = n THEN ll ELSE bl) |-> 64 * c + 16 * i + j]]]]
Next == ~done /\ done' = TRUE /\ UNCHANGED o
RoundTrip == StrmOk(o) => StrmDecode(StrmEncode(o)) = o
Emit == ~done => CSVWrite("%1$s", <<ToJson(o)>>, IOEnv.CASES)
=============================================================================
