---------------------------------- MODULE MCSdat ----------------------------------
(* Archives with one kind varied against another; every layout option. *)
EXTENDS Sdat, Json, IOUtils, CSV
CONSTANTS MaxLen, Wide
VARIABLES a, o, done
StdFile(magic, body) == magic \o <<255, 254, 0, 1>> \o U32(16 + Len(body)) \o U16(16) \o U16(1) \o body
DataBlock(x) == <<68, 65, 84, 65>> \o U32(8 + Len(x)) \o x
Sseq(d) == StdFile(<<83, 83, 69, 81>>, <<68, 65, 84, 65>> \o U32(12 + Len(d)) \o U32(28) \o d)
Swar0 == StdFile(<<83, 87, 65, 82>>, DataBlock(Zeros(36)))
Sbnk0 == StdFile(<<83, 66, 78, 75>>, DataBlock(Zeros(36)))
Ssar(n, d) == StdFile(<<83, 83, 65, 82>>, <<68, 65, 84, 65>> \o U32(16 + 12 * n + Len(d)) \o U32(32 + 12 * n) \o U32(n)
                \o Cat([i \in 1..n |-> U32(0) \o U16(i) \o <<127, 64, 50, 3, 0, 0>>]) \o d)
E1(p, f, m) == [p |-> p, f |-> f, m |-> m, s |-> <<>>]
NoName == <<>>   Nm(x) == <<x>>
Names2 == {NoName, Nm(<<65, 66>>)}
It(n, e) == [n |-> n, e |-> e]
Pool(k) ==
  CASE k = 1 -> {<<E1(<<0, 1, 127, 64, 50, 0>>, Sseq(d), m)>> : d \in {<<255>>, <<128, 5, 255, 0>>}, m \in 0..1}
    [] k = 2 -> {<<[p |-> <<7>>, f |-> Ssar(Len(s), <<255>>), m |-> 0, s |-> s]>> : s \in {<<>>, <<NoName>>, <<Nm(<<67>>), NoName>>}}
    [] k = 3 -> {<<E1(<<3, 1, -1, 0, -1>>, Sbnk0, m)>> : m \in 0..1}
    [] k = 4 -> {<<E1(<<m>>, Swar0, 0)>> : m \in 0..1}
    [] k = 5 -> {<<E1(<<1, 32769, 0, 16, 0, 0>>, <<>>, -1)>>}
    [] k = 6 -> {<<E1(<<>>, <<>>, -1)>>, <<E1(<<3, 15, 1, 0, 0, 0, 1, 2, 0, 0, 0, 128>>, <<>>, -1)>>}
    [] k = 7 -> {<<E1(<<>>, <<>>, -1)>>, <<E1(<<4, 5>>, <<>>, -1)>>}
    [] k = 8 -> {}
Items(k) == {It(n, e) : n \in Names2, e \in {<<>>} \cup Pool(k)}
Empty == [k \in 1..8 |-> <<>>]
Lists(k) == UNION {[1..n -> Items(k)] : n \in 0..MaxLen}
Opts == {[first |-> fa, align |-> al, incl |-> i, padEnd |-> p, padSymb |-> s] : fa \in {<<>>, <<512>>}, al \in {1, 4, 32, 128}, i, p, s \in BOOLEAN}
One == {[Empty EXCEPT ![k] = l] : k \in {1}, l \in Lists(1)} \cup UNION {{[Empty EXCEPT ![k] = l] : l \in Lists(k)} : k \in 2..7}
Mixed == {[Empty EXCEPT ![j] = <<x>>, ![k] = <<y>>] : <<j, k, x, y>> \in UNION {{<<j, k, x, y>> : x \in Items(j), y \in Items(k)} : <<j, k>> \in {<<j, k>> \in (1..7) \X (1..7) : j < k}}}
Three == {[Empty EXCEPT ![1] = <<It(Nm(<<65>>), x), It(NoName, y)>>, ![4] = <<It(n, z)>>] : x, y \in Pool(1), z \in (IF Wide THEN Pool(4) ELSE {CHOOSE z \in Pool(4) : TRUE}), n \in (IF Wide THEN Names2 ELSE {NoName})}
Init == done = FALSE /\ \/ o = DefaultOpts /\ a \in One \cup Mixed
                        \/ o \in Opts /\ a \in Three \cup {Empty, [Empty EXCEPT ![1] = <<It(NoName, CHOOSE x \in Pool(1) : TRUE)>>]}
Next == ~done /\ done' = TRUE /\ UNCHANGED <<a, o>>
RoundTrip == done \/ LET b == SdatEncode(a, o) IN ArcDiff(SdatDecode(b), a) = "" /\ LayoutLaw(a, o, b) = "" /\ RecoverLaw(a, o, b, o) = ""
NoSubs(x) == [k \in 1..8 |-> [i \in 1..Len(x[k]) |-> IF x[k][i].e = <<>> THEN x[k][i] ELSE [x[k][i] EXCEPT !.e[1].s = <<>>]]]
Fixpoint == done \/ LET b == SdatEncode(a, o)  r == SdatDecode(b) IN NoSubs(r) = NoSubs(Reloaded(a)) /\ SdatEncode(r, o) = b
Emit == ~done => CSVWrite("%1$s", <<ToJson([a |-> a, o |-> o, b |-> SdatEncode(a, o)])>>, IOEnv.CASES)
=============================================================================
