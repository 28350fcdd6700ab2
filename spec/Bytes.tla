-------------------------------- MODULE Bytes --------------------------------
(* Byte strings are sequences over 0..255; offsets are zero-based.          *)
(* TLC integers are 32-bit signed: offsets and sizes are integers, opaque   *)
(* 32-bit fields are kept as 4-byte strings.                                *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

Byte == 0..255
At(b, o) == b[o + 1]
Slice(b, o, n) == SubSeq(b, o + 1, o + n)
From(b, o) == SubSeq(b, o + 1, Len(b))
Rep(n, x) == [i \in 1..n |-> x]
Zeros(n) == Rep(n, 0)
Pow2(n) == 2^n

U8(v)  == <<v % 256>>
U16(v) == <<v % 256, (v \div 256) % 256>>
U24(v) == <<v % 256, (v \div 256) % 256, (v \div 65536) % 256>>
U32(v) == <<v % 256, (v \div 256) % 256, (v \div 65536) % 256, (v \div 16777216) % 256>>
U16BE(v) == <<(v \div 256) % 256, v % 256>>
U32BE(v) == <<(v \div 16777216) % 256, (v \div 65536) % 256, (v \div 256) % 256, v % 256>>
E16(end, v) == IF end = "<" THEN U16(v) ELSE U16BE(v)
E32(end, v) == IF end = "<" THEN U32(v) ELSE U32BE(v)
(* an opaque 32-bit value kept as little-endian byte string, in either order *)
O32(end, w) == IF end = "<" THEN w ELSE Reverse(w)

R16(b, o) == b[o+1] + 256 * b[o+2]
R24(b, o) == b[o+1] + 256 * b[o+2] + 65536 * b[o+3]
(* -1 stands for "does not fit a TLC integer" (>= 2^31) *)
R32(b, o) == IF b[o+4] >= 128 THEN -1 ELSE b[o+1] + 256 * b[o+2] + 65536 * b[o+3] + 16777216 * b[o+4]
R16BE(b, o) == b[o+2] + 256 * b[o+1]
R32BE(b, o) == IF b[o+1] >= 128 THEN -1 ELSE b[o+4] + 256 * b[o+3] + 65536 * b[o+2] + 16777216 * b[o+1]

AlignUp(n, a) == ((n + a - 1) \div a) * a
PadLen(n, a) == AlignUp(n, a) - n
PadTo(b, a, x) == b \o Rep(PadLen(Len(b), a), x)
Cat(ss) == FlattenSeq(ss)
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
IsByteString(b) == \A i \in 1..Len(b) : b[i] \in 0..255
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
Xor16(a, b) == a ^^ b
(* running total of lengths: offset at which the i-th piece starts *)
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
=============================================================================
