--------------------------------- MODULE MCCode ---------------------------------
EXTENDS Code, Json, IOUtils, CSV
VARIABLES m, done
CONSTANT MaxSecs
S == [data : {<<>>, <<1, 2, 3, 4>>, <<7>>, <<9, 9, 9, 9, 8, 8, 8>>}, bss : {Zeros(4), <<4, 0, 0, 0>>}]
Imp == [data : {Zeros(28) \o Magic, Rep(8, 5) \o Zeros(28) \o Magic \o <<1, 2, 3, 4>>, Zeros(28) \o Magic \o <<6, 6>>}]
Init == /\ done = FALSE
        /\ \E i \in Imp : \E n \in 0..MaxSecs : \E f \in [1..n -> S] :
             m = [ram |-> 33554432, cso |-> IF Len(i.data) < 40 THEN <<0>> ELSE <<8>>,
                  secs |-> <<Sec(i.data, 33554432, Zeros(4), TRUE)>> \o [j \in 1..n |-> Sec(f[j].data, 16777216 * j, f[j].bss, FALSE)]]
Next == ~done /\ done' = TRUE /\ UNCHANGED m
RoundTrip == LET img == CodeEncode(m) IN CodeDecode(img, m.ram, 0) = Reopened(m, img)
FixedPoint == LET img == CodeEncode(m) r == CodeDecode(img, m.ram, 0) IN CodeEncode(r) = img
Emit == ~done => CSVWrite("%1$s", <<ToJson(m)>>, IOEnv.CASES)
=============================================================================
