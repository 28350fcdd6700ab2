----------------------------------- MODULE Strm -----------------------------------
(***************************************************************************)
(* Streams (STRM): a sequence of channels, each a sequence of blocks.       *)
(* [type, looped, unk03, rate, time, loop (4 bytes), spb, slb, unks (eight   *)
(*  4-byte values), chans]                                                   *)
(***************************************************************************)
EXTENDS Bytes, TLC

StdHeader(magic, version, size, blocks) == magic \o <<255, 254>> \o U16(version) \o U32(size) \o U16(16) \o U16(blocks)
StrmMagic == <<83, 84, 82, 77>>   HeadMagic == <<72, 69, 65, 68>>   DataMagic == <<68, 65, 84, 65>>
NBlocks(o) == IF o.chans = <<>> THEN 0 ELSE Len(o.chans[1])
BlockLen(o) == IF NBlocks(o) = 0 THEN 0 ELSE Len(o.chans[1][1])
LastLen(o) == IF NBlocks(o) = 0 THEN 0 ELSE Len(o.chans[1][NBlocks(o)])
(* one-block ADPCM streams do not count the 4-byte ADPCM header *)
Adjust(type, n) == IF type = 2 /\ n = 1 THEN 4 ELSE 0
StrmOk(o) ==
  LET n == NBlocks(o) IN
  /\ \A c \in 1..Len(o.chans) : Len(o.chans[c]) = n
  /\ \A c \in 1..Len(o.chans) : \A i \in 1..n : Len(o.chans[c][i]) = (IF i = n THEN LastLen(o) ELSE BlockLen(o))
  /\ BlockLen(o) >= Adjust(o.type, n) /\ Len(o.chans) <= 255
  /\ o.type \in 0..255 /\ o.rate \in 0..65535 /\ o.time \in 0..65535 /\ o.unk03 \in 0..255
Samples(o) == IF NBlocks(o) = 0 THEN 0 ELSE (NBlocks(o) - 1) * o.spb + o.slb
WaveData(o) == Cat([i \in 1..NBlocks(o) |-> PadTo(Cat([c \in 1..Len(o.chans) |-> o.chans[c][i]]), 4, 0)])
StrmEncode(o) ==
  LET w == WaveData(o)  a == Adjust(o.type, NBlocks(o)) IN
  StdHeader(StrmMagic, 256, 104 + Len(w), 2) \o HeadMagic \o U32(80)
  \o <<o.type, IF o.looped THEN 1 ELSE 0, Len(o.chans), o.unk03>> \o U16(o.rate) \o U16(o.time) \o o.loop \o U32(Samples(o)) \o U32(104)
  \o U32(NBlocks(o)) \o U32(BlockLen(o) - a) \o U32(o.spb) \o U32(LastLen(o) - a) \o U32(o.slb) \o Cat(o.unks)
  \o DataMagic \o U32(8 + Len(w)) \o w
StrmDecode(b) ==
  LET d == 16 + R32(b, 20) + 8
      type == At(b, 24)   nc == At(b, 26)   n == R32(b, 44)   a == Adjust(type, n)
      bl == R32(b, 48) + a   ll == R32(b, 56) + a
      stride == AlignUp(nc * bl, 4)
      Blk(c, i) == LET len == IF i = n THEN ll ELSE bl IN Slice(b, d + (i - 1) * stride + (c - 1) * len, len)
  IN [type |-> type, looped |-> At(b, 25) # 0, unk03 |-> At(b, 27), rate |-> R16(b, 28), time |-> R16(b, 30), loop |-> Slice(b, 32, 4),
      spb |-> R32(b, 52), slb |-> R32(b, 60), unks |-> [i \in 1..8 |-> Slice(b, 64 + 4 * (i - 1), 4)],
      chans |-> [c \in 1..nc |-> [i \in 1..n |-> Blk(c, i)]]]
(* streams as they come back: without channels or blocks, the block list is gone *)
=============================================================================
