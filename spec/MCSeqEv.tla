---------------------------------- MODULE MCSeqEv ----------------------------------
(* Every kind of event with boundary parameters: encoding and decoding agree. *)
EXTENDS Seq, Json, IOUtils, CSV
CONSTANT Wide
VARIABLES e, done
Durs == {0, 1, 127, 128, 129, 255, 256, 16383, 16384, 2097151, 2097152, 268435455, 268435456, 2147483647} \cup (IF Wide THEN 1..600 ELSE {})
Bytes0 == IF Wide THEN Byte ELSE {0, 1, 2, 63, 64, 127, 128, 200, 255}
Sh == {0, 1, -1, 127, 128, -128, 255, 256, -256, 32767, -32768}
Wo == {0, 1, 255, 256, 32767, 32768, 65535} \cup (IF Wide THEN {7 * i : i \in 0..9000} ELSE {})
Subs == {s \in Opcodes : RandArgs(s) >= 0}
Events ==
  {Ev(k, <<v, f, d>>) : k \in {0, 1, 59, 60, 126, 127}, v \in {0, 64, 127}, f \in 0..1, d \in Durs}
  \cup {Ev(k, <<100, 0, 24>>) : k \in Note} \cup {Ev(60, <<v, f, 1>>) : v \in 0..127, f \in 0..1}
  \cup {Ev(RestK, <<d>>) : d \in Durs}
  \cup {Ev(InstK, <<b, i>>) : b \in {0, 1, 2, 127, 128, 255, 16383, 16384}, i \in {0, 1, 64, 127}}
  \cup {RefEv(TrackK, <<t>>, 1) : t \in Bytes0} \cup {RefEv(k, <<>>, 1) : k \in {JumpK, CallK}}
  \cup {[k |-> RandK, a |-> <<s, m, x>>, ref |-> <<>>, raw |-> [i \in 1..RandArgs(s) |-> 20 * i + 3]] : s \in Subs, m \in {-32768, -1, 0, 300}, x \in {32767, 5, -2}}
  \cup {Ev(VarK, IF LongVar(s) THEN <<s, v, 7>> ELSE <<s, v>>) : s \in Opcodes, v \in {0, 5, 31, 127}}
  \cup {Ev(k, <<>>) : k \in NoArgK}
  \cup {Ev(k, <<v, x>>) : k \in ArithK, v \in {0, 15, 31, 127, 128, 255}, x \in Sh}
  \cup {x \in {Ev(k, <<v>>) : k \in ByteK, v \in Bytes0} : EvOk(x)}
  \cup {Ev(k, <<v>>) : k \in WordK, v \in Wo}
  \cup {Ev(DefK, Tracks(m)) : m \in {0, 1, 2, 128, 256, 32768, 65535, 43690} \cup (IF Wide THEN {97 * i : i \in 0..670} ELSE {})}
Init == e \in Events /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED e
D == EvEncode(e, 0)
RoundTrip == LET x == DecodeAt(D \o <<EndK, 1, 2, 3>>, 0) IN
  EvOk(e) /\ x.st = "ok" /\ x.len = Len(D) /\ x.ev = (IF e.ref = <<>> THEN e ELSE [e EXCEPT !.ref = <<0>>])
Bytewise == IsByteString(D)
Emit == ~done => CSVWrite("%1$s", <<ToJson(e)>>, IOEnv.CASES)
=============================================================================
