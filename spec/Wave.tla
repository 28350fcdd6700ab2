----------------------------------- MODULE Wave -----------------------------------
(***************************************************************************)
(* Waves (SWAV) and wave archives (SWAR).                                   *)
(* A wave: [type, looped, rate, time, loop, total, data].                    *)
(***************************************************************************)
EXTENDS Bytes, TLC

StdHeader(magic, version, size, blocks) == magic \o <<255, 254>> \o U16(version) \o U32(size) \o U16(16) \o U16(blocks)
SwavMagic == <<83, 87, 65, 86>>   SwarMagic == <<83, 87, 65, 82>>   DataMagic == <<68, 65, 84, 65>>

WaveOk(w) == /\ w.loop <= w.total /\ w.loop \in 0..65535 /\ w.rate \in 0..65535 /\ w.time \in 0..65535
             /\ w.type \in 0..2 /\ w.total >= 0
WaveInfo(w) == <<w.type, IF w.looped THEN 1 ELSE 0>> \o U16(w.rate) \o U16(w.time) \o U16(w.loop) \o U32(w.total - w.loop)
WaveBody(w) == WaveInfo(w) \o w.data
(* the wave stored in b[o .. end) *)
WaveAt(b, o, end) == [type |-> At(b, o), looped |-> At(b, o + 1) # 0, rate |-> R16(b, o + 2), time |-> R16(b, o + 4),
                      loop |-> R16(b, o + 6), total |-> R16(b, o + 6) + R32(b, o + 8), data |-> Slice(b, o + 12, end - o - 12)]

SwavEncode(w) == StdHeader(SwavMagic, 256, 36 + Len(w.data), 1) \o DataMagic \o U32(20 + Len(w.data)) \o WaveBody(w)
SwavDecode(b) == WaveAt(b, 24, R32(b, 8))

(* ---- archives -------------------------------------------------------------------- *)
SwarCount(b) == R32(b, 56)
SwarOff(b, i) == R32(b, 60 + 4 * (i - 1))
SwarEnd(b, i) == IF i = SwarCount(b) THEN R32(b, 8) ELSE SwarOff(b, i + 1)
SwarDecode(b) == [i \in 1..SwarCount(b) |-> WaveAt(b, SwarOff(b, i), SwarEnd(b, i))]
RECURSIVE SwarOffsets(_, _, _)
SwarOffsets(ws, i, at) == IF i > Len(ws) THEN <<>> ELSE <<at>> \o SwarOffsets(ws, i + 1, at + 12 + Len(ws[i].data))
SwarEncode(ws) ==
  LET offs == SwarOffsets(ws, 1, 60 + 4 * Len(ws))
      body == Cat(Map(offs, U32)) \o Cat(Map(ws, WaveBody))
      n == 60 + Len(body)
  IN StdHeader(SwarMagic, 256, n, 1) \o DataMagic \o U32(n - 16) \o Zeros(32) \o U32(Len(ws)) \o body
(* what a saved archive has to look like *)
SwarLayoutOk(b, ws) ==
  /\ Slice(b, 0, 16) = StdHeader(SwarMagic, 256, Len(b), 1)
  /\ Slice(b, 16, 4) = DataMagic /\ R32(b, 20) = Len(b) - 16
  /\ SwarCount(b) = Len(ws)
  /\ \A i \in 1..Len(ws) : SwarOff(b, i) >= 60 + 4 * Len(ws) /\ SwarEnd(b, i) <= Len(b) /\ SwarOff(b, i) + 12 <= SwarEnd(b, i)
  /\ (\A i \in 1..Len(ws) : Len(ws[i].data) % 4 = 0) => \A i \in 1..Len(ws) : SwarOff(b, i) % 4 = 0
SwavLayoutOk(b) ==
  /\ Slice(b, 0, 16) = StdHeader(SwavMagic, 256, Len(b), 1)
  /\ Slice(b, 16, 4) = DataMagic /\ R32(b, 20) = Len(b) - 16
=============================================================================
