------------------------------- MODULE LzTrace -------------------------------
(***************************************************************************)
(* Recorded calls of the compression functions, walked item by item by the *)
(* machine of module Lz.  One trace = one call:                            *)
(*   op = "compress"     LZ10 compress(data) = out                         *)
(*   op = "decompress"   LZ10 decompress(stream) = out, stream legal       *)
(*   op = "refuse"       LZ10 decompress(stream), stream is not LZ10       *)
(*   op = "ccompress"    code compress(data, arm9) = out                   *)
(*   op = "cdecompress"  code decompress(stream) = out, any bytes          *)
(*   op = "croundtrip"   code decompress(compress(data)) = out             *)
(***************************************************************************)
EXTENDS Lz, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, phase, w, bad
E == Traces[tid][1]

Arm9Pre(e) == IF e.arm9 THEN MinI(16384, Len(e.data)) ELSE 0
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
SameUpTo(a, b, n) == \A i \in 1..n : a[i] = b[i]
ZerosFrom(b, o) == \A i \in (o+1)..Len(b) : b[i] = 0
RawForm(e) == /\ IsPrefixOf(e.data, e.out) /\ ZerosFrom(e.out, Len(e.data))
              /\ Len(e.out) - Len(e.data) \in 4..7

Param(e) ==
  CASE e.op = "compress" -> [sub |-> 1, n |-> Len(e.data), m |-> Len(e.out) - 4, cmp |-> TRUE]
    [] e.op = "decompress" -> [sub |-> 1, n |-> Lz10Size(e.stream), m |-> Len(e.stream) - 4, cmp |-> e.exc = ""]
    [] e.op = "ccompress" -> LET g == CodeGeo(e.out, 0) IN [sub |-> 3, n |-> CodeOutLen(g), m |-> g.m, cmp |-> TRUE]
    [] e.op = "cdecompress" -> LET g == CodeGeo(e.stream, CodeDetect(e.stream))
                               IN [sub |-> 3, n |-> CodeOutLen(g), m |-> g.m, cmp |-> e.exc = "" /\ Len(e.out) = Len(e.stream) + g.extra]
InByte(e, geo, i) ==
  CASE e.op = "compress" -> e.out[i + 5]
    [] e.op = "decompress" -> e.stream[i + 5]
    [] e.op = "ccompress" -> e.out[geo.pass + geo.m - i]
    [] e.op = "cdecompress" -> e.stream[geo.pass + geo.m - i]
OutByte(e, geo, j) ==
  CASE e.op = "compress" -> e.data[j + 1]
    [] e.op = "decompress" -> e.out[j + 1]
    [] e.op = "ccompress" -> e.data[Len(e.data) - j]
    [] e.op = "cdecompress" -> e.out[geo.end + geo.extra - j]

(* ---- checks before walking: "walk", "" (accept) or the violated clause --- *)
PreCompress(e) ==
  CASE e.exc # "" -> "compress raised"
    [] ~IsLz10(e.out) -> "output lacks the LZ10 header"
    [] Lz10Size(e.out) # Len(e.data) -> "header records the wrong size"
    [] OTHER -> "walk"
PreDecompress(e) == IF e.exc = "" /\ Len(e.out) # Lz10Size(e.stream) THEN "decompressed size differs from header" ELSE "walk"
PreRefuse(e) == IF e.exc = "" THEN "data without LZ10 type byte accepted" ELSE ""
PreCCompress(e) ==
  CASE e.exc # "" -> "compress raised"
    [] RawForm(e) -> ""
    [] ~CodeFooterAt(e.out, 0) -> "output is neither raw nor carries a valid footer"
    [] OTHER -> LET g == CodeGeo(e.out, 0) IN
         CASE g.extra <= 0 -> "footer marks compressed data as uncompressed"
           [] Len(e.out) + g.extra # Len(e.data) -> "footer sizes do not add up to the data size"
           [] g.pass < Arm9Pre(e) -> "protected ARM9 prefix is compressed"
           [] ~SameUpTo(e.out, e.data, g.pass) -> "uncompressed prefix changed"
           [] OTHER -> "walk"
PreCDecompress(e) ==
  LET d == CodeDetect(e.stream) IN
  IF d = -1 THEN (IF e.exc # "" THEN "data without footer refused"
                  ELSE IF e.out # e.stream THEN "data without footer changed" ELSE "")
  ELSE LET g == CodeGeo(e.stream, d) IN
       CASE g.extra = 0 -> (IF e.exc # "" THEN "uncompressed data refused"
                            ELSE IF e.out # e.stream THEN "uncompressed data changed" ELSE "")
         [] g.extra < 0 \/ g.extra > 16777216 -> ""                    \* not a real file
         [] e.exc = "" /\ Len(e.out) # Len(e.stream) + g.extra -> "walk"       \* only right for an illegal stream
         [] e.exc = "" /\ ~SameUpTo(e.out, e.stream, g.pass) -> "passthrough prefix changed"
         [] e.exc = "" /\ d > 0 /\ SubSeq(e.out, Len(e.out) - d + 1, Len(e.out)) # SubSeq(e.stream, g.end + 1, Len(e.stream))
              -> "appended data changed"
         [] OTHER -> "walk"
PreRoundtrip(e) ==
  CASE e.exc # "" -> (IF e.clean THEN "round trip raised" ELSE "")
    [] e.out = e.data -> ""
    [] RawForm(e) \/ ~e.clean -> ""
    [] OTHER -> "round trip changed the data"
Pre(e) == CASE e.op = "compress" -> PreCompress(e) [] e.op = "decompress" -> PreDecompress(e)
            [] e.op = "refuse" -> PreRefuse(e) [] e.op = "ccompress" -> PreCCompress(e)
            [] e.op = "cdecompress" -> PreCDecompress(e) [] e.op = "croundtrip" -> PreRoundtrip(e)

Finish(e, v) ==
  CASE e.op \in {"compress", "ccompress"} ->
         (IF v.err # "" THEN v.err
          ELSE IF e.op = "compress" /\ (Param(e).m - v.ip > 8 \/ ~ZerosFrom(e.out, 4 + v.ip)) THEN "garbage after the stream" ELSE "")
    [] e.op = "decompress" -> (IF v.err # "" THEN v.err ELSE IF e.exc # "" THEN "legal stream refused" ELSE "")
    [] e.op = "cdecompress" -> (IF IllegalErr(v.err) THEN (IF e.legal THEN v.err ELSE "")
                                ELSE IF v.err # "" THEN v.err
                                ELSE IF e.exc # "" THEN "legal stream refused"
                                ELSE IF ~Param(e).cmp THEN "decompressed size wrong" ELSE "")

Verdict(v) == IF v = "" THEN PrintT(<<"OK", tid>>) ELSE PrintT(<<"BAD", tid, 1, v>>)
TInit == tid \in 1..Len(Traces) /\ phase = 0 /\ w = WalkInit /\ bad = ""
Start == /\ phase = 0
         /\ LET r == Pre(E) IN
            IF r = "walk" THEN phase' = 1 /\ bad' = "" ELSE phase' = 2 /\ bad' = r /\ Verdict(r)
         /\ UNCHANGED <<tid, w>>
Walk == /\ phase = 1
        /\ LET e == E
               p == Param(e)
               g == IF e.op = "ccompress" THEN CodeGeo(e.out, 0)
                    ELSE IF e.op = "cdecompress" THEN CodeGeo(e.stream, CodeDetect(e.stream)) ELSE [pass |-> 0]
           IN IF WalkDone(w, p)
              THEN LET r == Finish(e, w) IN phase' = 2 /\ bad' = r /\ Verdict(r) /\ UNCHANGED w
              ELSE /\ w' = WalkStep(w, p, LAMBDA i : InByte(e, g, i), LAMBDA j : OutByte(e, g, j))
                   /\ UNCHANGED <<phase, bad>>
        /\ UNCHANGED tid
TNext == Start \/ Walk
=============================================================================
