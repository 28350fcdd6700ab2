---------------------------------- MODULE Rom ----------------------------------
(***************************************************************************)
(* Nintendo DS ROM images.  A ROM r holds                                   *)
(*  name idCode devCode (bytes)   h8  the 14 one-byte header values from    *)
(*  0x12 to 0x1F: unitCode, encryptionSeedSelect, deviceCapacity, pad015..  *)
(*  pad01C, region, version, autostart                                      *)
(*  arm9Entry arm9Ram arm7Entry arm7Ram normalCard secureCard arm9Set       *)
(*  arm7Set debugAddr (opaque 32-bit values as 4 bytes)                     *)
(*  secCrc secDelay (16 bit)   secDis pad088 logo pad16C pad200 rsa         *)
(*  arm9 post arm7 ovt9 ovt7 banner debug (bytes)                           *)
(*  names (folder tree), files (sequence of bytes), order (file IDs)        *)
(***************************************************************************)
EXTENDS Fnt

HeaderLen == 512
BannerLen(ver) == CASE ver = 1 -> 2112 [] ver = 2 -> 2368 [] ver = 3 -> 4672 [] ver = 259 -> 9152 [] OTHER -> 2112

(* CRC-16 with polynomial 0xA001 *)
RECURSIVE CrcBits(_, _)
CrcBits(c, n) == IF n = 0 THEN c
                 ELSE CrcBits(IF c % 2 = 1 THEN Xor16(c \div 2, 40961) ELSE c \div 2, n - 1)
CrcStep(c, b) == CrcBits(Xor16(c, b), 8)
Crc16(bs) == FoldLeft(CrcStep, 65535, bs)

(* ---- reading an image -------------------------------------------------------- *)
TailZeros(b) == LET S == {i \in 1..Len(b) : b[i] # 0} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
StripZeros(b) == SubSeq(b, 1, TailZeros(b))
Ext(b, o) == IF Len(b) >= o THEN b ELSE b \o Zeros(o - Len(b))
Clip(b, o, n) == Slice(b, MinI(o, Len(b)), MinI(n, MaxI(0, Len(b) - o)))   \* slices are cut at the end of the image
SigOffset(b) ==
  LET p == IF Len(b) >= 4100 THEN R32(b, 4096) ELSE 0
  IN IF p = 0 /\ Len(b) > R32(b, 128) THEN R32(b, 128) ELSE p
RECURSIVE PostLen(_, _)
PostLen(b, o) == IF Clip(b, o, 4) = <<33, 6, 192, 222>> THEN 12 + PostLen(b, o + 12) ELSE 0
FatLen(b) == R32(b, 76) \div 8
FatStart(b, i) == R32(b, R32(b, 72) + 8 * (i - 1))
FatEnd(b, i) == R32(b, R32(b, 72) + 8 * (i - 1) + 4)
(* file IDs by position; files at the same place (empty ones) by end, then ID *)
OrderOf(b) ==
  LET n == FatLen(b)
      tab == [i \in 1..n |-> <<FatStart(b, i), FatEnd(b, i), i - 1>>]
      Before(x, y) == \/ x[1] < y[1]
                      \/ x[1] = y[1] /\ x[2] < y[2]
                      \/ x[1] = y[1] /\ x[2] = y[2] /\ x[3] < y[3]
  IN Map(SortSeq(tab, Before), LAMBDA x : x[3])
(* any order by position will do *)
OrderOk(b, order) ==
  /\ Len(order) = FatLen(b)
  /\ {order[i] : i \in 1..Len(order)} = 0..(FatLen(b) - 1)
  /\ \A i \in 1..(Len(order) - 1) :
        \/ FatStart(b, order[i] + 1) < FatStart(b, order[i+1] + 1)
        \/ FatStart(b, order[i] + 1) = FatStart(b, order[i+1] + 1) /\ FatEnd(b, order[i] + 1) <= FatEnd(b, order[i+1] + 1)
RomDecode(img) ==
  LET b == Ext(img, HeaderLen)
      a9 == R32(b, 32)  l9 == R32(b, 44)
      sig == SigOffset(b)
      ban == R32(b, 104)
  IN [name |-> StripZeros(Slice(b, 0, 12)), idCode |-> Slice(b, 12, 4), devCode |-> Slice(b, 16, 2), h8 |-> Slice(b, 18, 14),
      arm9Entry |-> Slice(b, 36, 4), arm9Ram |-> Slice(b, 40, 4), arm7Entry |-> Slice(b, 52, 4), arm7Ram |-> Slice(b, 56, 4),
      normalCard |-> Slice(b, 96, 4), secureCard |-> Slice(b, 100, 4), secCrc |-> R16(b, 108), secDelay |-> R16(b, 110),
      arm9Set |-> Slice(b, 112, 4), arm7Set |-> Slice(b, 116, 4), secDis |-> Slice(b, 120, 8), pad088 |-> Slice(b, 136, 56),
      logo |-> Slice(b, 192, 156), debugAddr |-> Slice(b, 360, 4), pad16C |-> Slice(b, 364, 148),
      pad200 |-> Clip(b, 512, MaxI(0, a9 - 512)),
      rsa |-> IF sig = 0 THEN <<>> ELSE Clip(b, sig, 136),
      arm9 |-> Clip(b, a9, l9), post |-> Clip(b, a9 + l9, PostLen(b, a9 + l9)),
      arm7 |-> Clip(b, R32(b, 48), R32(b, 60)),
      ovt9 |-> Clip(b, R32(b, 80), R32(b, 84)), ovt7 |-> Clip(b, R32(b, 88), R32(b, 92)),
      banner |-> IF ban = 0 THEN <<>> ELSE Clip(b, ban, BannerLen(R16(b, ban))),
      debug |-> IF R32(b, 352) = 0 THEN <<>> ELSE Clip(b, R32(b, 352), R32(b, 356)),
      names |-> IF R32(b, 68) = 0 THEN EmptyFolder ELSE FntDecode(Slice(b, R32(b, 64), R32(b, 68))),
      files |-> [i \in 1..FatLen(b) |-> Clip(b, FatStart(b, i), FatEnd(b, i) - FatStart(b, i))],
      order |-> OrderOf(b)]

(* ---- what a reopened ROM holds ------------------------------------------------ *)
(* Some parts have no recorded length: they come back padded to their place.       *)
OvIds(t) == [i \in 1..(Len(t) \div 32) |-> R32(t, 32 * (i - 1) + 24)]
InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x
Norm(r, b) ==
  [r EXCEPT !.name = StripZeros(Slice(@ \o Zeros(12), 0, 12)), !.secDis = Slice(@ \o Zeros(8), 0, 8),
            !.pad200 = LET p == PadTo(Zeros(512) \o @, 16384, 0)
                       IN SubSeq(p, 513, 4096) \o Slice(b, 4096, 4) \o SubSeq(p, 4101, Len(p)),
            !.rsa = Clip(@ \o Zeros(136), 0, MinI(136, Len(b) - R32(b, 4096))),
            !.order = OrderOf(b)]
(* first field in which the ROM s differs from t, "" if none *)
RomDiff(s, t) ==
  CASE s.name # t.name -> "name" [] s.idCode # t.idCode -> "idCode" [] s.devCode # t.devCode -> "developerCode"
    [] s.h8 # t.h8 -> "one-byte header values" [] s.arm9Entry # t.arm9Entry -> "arm9EntryAddress"
    [] s.arm9Ram # t.arm9Ram -> "arm9RamAddress" [] s.arm7Entry # t.arm7Entry -> "arm7EntryAddress"
    [] s.arm7Ram # t.arm7Ram -> "arm7RamAddress" [] s.normalCard # t.normalCard -> "normalCardControlRegisterSettings"
    [] s.secureCard # t.secureCard -> "secureCardControlRegisterSettings" [] s.secCrc # t.secCrc -> "secureAreaChecksum"
    [] s.secDelay # t.secDelay -> "secureTransferDelay" [] s.arm9Set # t.arm9Set -> "arm9CodeSettingsPointerAddress"
    [] s.arm7Set # t.arm7Set -> "arm7CodeSettingsPointerAddress" [] s.secDis # t.secDis -> "secureAreaDisable"
    [] s.pad088 # t.pad088 -> "pad088" [] s.logo # t.logo -> "nintendoLogo" [] s.debugAddr # t.debugAddr -> "debugRomAddress"
    [] s.pad16C # t.pad16C -> "pad16C" [] s.pad200 # t.pad200 -> "pad200" [] s.rsa # t.rsa -> "rsaSignature"
    [] s.arm9 # t.arm9 -> "arm9" [] s.post # t.post -> "arm9PostData" [] s.arm7 # t.arm7 -> "arm7"
    [] s.ovt9 # t.ovt9 -> "arm9OverlayTable" [] s.ovt7 # t.ovt7 -> "arm7OverlayTable" [] s.banner # t.banner -> "iconBanner"
    [] s.debug # t.debug -> "debugRom" [] s.names # t.names -> "filenames" [] s.files # t.files -> "files"
    [] OTHER -> ""

(* ---- layout of a saved image ---------------------------------------------------- *)
(* regions the image describes: [what, off, len, align] *)
Region(w, o, l, a) == [what |-> w, off |-> o, len |-> l, align |-> a]
Regions(b, r) ==
  <<Region("header", 0, 16384, 1), Region("arm9", R32(b, 32), R32(b, 44) + Len(r.post), 16384),
    Region("arm7", R32(b, 48), R32(b, 60), 512),
    Region("filename table", R32(b, 64), R32(b, 68), 512), Region("file allocation table", R32(b, 72), R32(b, 76), 512),
    Region("arm9 overlay table", R32(b, 80), R32(b, 84), 512), Region("arm7 overlay table", R32(b, 88), R32(b, 92), 512),
    Region("banner", R32(b, 104), Len(r.banner), 512), Region("debug code", R32(b, 352), R32(b, 356), 512),
    Region("signature", R32(b, 4096), Len(r.rsa), 32)>>
  \o [i \in 1..Len(r.files) |-> Region("file", FatStart(b, i), FatEnd(b, i) - FatStart(b, i), 512)]
Apart(x, y) == x.len = 0 \/ y.len = 0 \/ x.off + x.len <= y.off \/ y.off + y.len <= x.off
Ascending(b, ids) == \A i \in 1..(Len(ids) - 1) : FatStart(b, ids[i] + 1) <= FatStart(b, ids[i + 1] + 1)
(* order in which the files that are no overlays are stored *)
StoreOrder(r) ==
  LET ov == OvIds(r.ovt9) \o OvIds(r.ovt7)
      first == SelectSeq(r.order, LAMBDA i : i < Len(r.files) /\ ~InSeq(i, ov))
      rest == SelectSeq([i \in 1..Len(r.files) |-> i - 1], LAMBDA i : ~InSeq(i, ov) /\ ~InSeq(i, first))
  IN first \o rest
HeaderFields(b, r) ==
  CASE Slice(b, 0, 12) # Slice(r.name \o Zeros(12), 0, 12) -> "header: name"
    [] Slice(b, 12, 4) # r.idCode -> "header: ID code" [] Slice(b, 16, 2) # r.devCode -> "header: developer code"
    [] Slice(b, 18, 14) # r.h8 -> "header: one-byte values"
    [] Slice(b, 36, 8) # r.arm9Entry \o r.arm9Ram -> "header: ARM9 addresses" [] Slice(b, 52, 8) # r.arm7Entry \o r.arm7Ram -> "header: ARM7 addresses"
    [] Slice(b, 96, 8) # r.normalCard \o r.secureCard -> "header: card control"
    [] R16(b, 108) # r.secCrc \/ R16(b, 110) # r.secDelay -> "header: secure area"
    [] Slice(b, 112, 8) # r.arm9Set \o r.arm7Set -> "header: code settings pointers" [] Slice(b, 120, 8) # Slice(r.secDis \o Zeros(8), 0, 8) -> "header: secure disable"
    [] Slice(b, 136, 56) # r.pad088 -> "header: pad088" [] Slice(b, 192, 156) # r.logo -> "header: logo"
    [] Slice(b, 360, 4) # r.debugAddr -> "header: debug address" [] Slice(b, 364, 148) # r.pad16C -> "header: pad16C"
    [] OTHER -> ""
RomLayout(b, r) ==
  IF Len(b) < 16384 THEN "image too short" ELSE
  LET reg == Regions(b, r)
      n == Len(reg)
      o9 == OvIds(r.ovt9)  o7 == OvIds(r.ovt7)
  IN CASE FatLen(b) # Len(r.files) \/ R32(b, 76) # 8 * Len(r.files) -> "file allocation table size wrong"
       [] R32(b, 72) + R32(b, 76) > Len(b) -> "file allocation table outside the image"
       [] R32(b, 44) # Len(r.arm9) \/ R32(b, 60) # Len(r.arm7) -> "code size wrong"
       [] R32(b, 84) # Len(r.ovt9) \/ R32(b, 92) # Len(r.ovt7) -> "overlay table size wrong"
       [] R32(b, 356) # Len(r.debug) -> "debug code size wrong"
       [] (R32(b, 104) = 0) # (r.banner = <<>>) \/ (R32(b, 352) = 0) # (r.debug = <<>>) -> "absent region has an offset or present one none"
       [] \E i \in 1..n : reg[i].len < 0 \/ reg[i].off < 0 \/ reg[i].off + reg[i].len > Len(b) -> "region outside the image"
       [] \E i \in 1..n : reg[i].off % reg[i].align # 0 -> "region not aligned"
       [] \E i \in 1..n : \E j \in (i+1)..n : ~Apart(reg[i], reg[j]) -> "regions overlap"
       [] Slice(b, R32(b, 32), Len(r.arm9) + Len(r.post)) # r.arm9 \o r.post -> "ARM9 code differs"
       [] Slice(b, R32(b, 48), Len(r.arm7)) # r.arm7 -> "ARM7 code differs"
       [] Slice(b, R32(b, 80), Len(r.ovt9)) # r.ovt9 \/ Slice(b, R32(b, 88), Len(r.ovt7)) # r.ovt7 -> "overlay table differs"
       [] Slice(b, R32(b, 104), Len(r.banner)) # r.banner -> "banner differs"
       [] Slice(b, R32(b, 352), Len(r.debug)) # r.debug -> "debug code differs"
       [] FntDecode(Slice(b, R32(b, 64), R32(b, 68))) # r.names -> "filename table differs"
       [] \E i \in 1..Len(r.files) : FatEnd(b, i) - FatStart(b, i) # Len(r.files[i]) -> "file size wrong"
       [] \E i \in 1..Len(r.files) : Slice(b, FatStart(b, i), Len(r.files[i])) # r.files[i] -> "file differs"
       [] Slice(b, R32(b, 4096), Len(r.rsa)) # r.rsa -> "signature differs or its pointer is wrong"
       [] R32(b, 128) # R32(b, 4096) -> "recorded total size is not the end of the data"
       [] \E i \in 1..(n - 1) : reg[i].what # "signature" /\ reg[i].len > 0 /\ reg[i].off + reg[i].len > R32(b, 128) -> "recorded total size too small"
       [] R32(b, 128) + Len(r.rsa) > Len(b) \/ Len(b) % 1024 # 0 -> "image size wrong"
       [] R32(b, 132) # 16384 -> "recorded header size wrong"
       [] R16(b, 348) # Crc16(r.logo) -> "logo checksum wrong"
       [] R16(b, 350) # Crc16(Slice(b, 0, 350)) -> "header checksum wrong"
       [] HeaderFields(b, r) # "" -> HeaderFields(b, r)
       [] o9 # <<>> /\ ~(R32(b, 80) < FatStart(b, o9[1] + 1) /\ FatEnd(b, o9[Len(o9)] + 1) <= R32(b, 48)) -> "ARM9 overlays not next to their table"
       [] o7 # <<>> /\ ~(R32(b, 88) < FatStart(b, o7[1] + 1) /\ FatEnd(b, o7[Len(o7)] + 1) <= R32(b, 64)) -> "ARM7 overlays not next to their table"
       [] ~Ascending(b, o9) \/ ~Ascending(b, o7) -> "overlays not in table order"
       [] ~Ascending(b, StoreOrder(r)) -> "files not in the recorded order"
       [] OTHER -> ""
(* smallest N with 128 KiB * 2^N >= n *)
RECURSIVE CapFrom(_, _)
CapFrom(n, k) == IF k >= 13 \/ n <= 131072 * Pow2(k) THEN k ELSE CapFrom(n, k + 1)
Capacity(n) == CapFrom(n, 0)

(* ---- the writer's plan: where the regions go ------------------------------------- *)
(* s: sizes of [arm9, ovt9, ov9 (sequence), arm7, ovt7, ov7, fnt, fat, banner, debug, files (in storage order), rsa] *)
PlanSeq(s) == <<[len |-> s.arm9, a |-> 16384, at |-> 16384], [len |-> s.ovt9, a |-> 512, at |-> 0]>>
  \o Map(s.ov9, LAMBDA l : [len |-> l, a |-> 512, at |-> 0])
  \o <<[len |-> s.arm7, a |-> 512, at |-> 0], [len |-> s.ovt7, a |-> 512, at |-> 0]>>
  \o Map(s.ov7, LAMBDA l : [len |-> l, a |-> 512, at |-> 0])
  \o <<[len |-> s.fnt, a |-> 512, at |-> 0], [len |-> s.fat, a |-> 512, at |-> 0],
       [len |-> s.banner, a |-> 512, at |-> 0], [len |-> s.debug, a |-> 512, at |-> 0]>>
  \o Map(s.files, LAMBDA l : [len |-> l, a |-> 512, at |-> 0])
  \o <<[len |-> s.rsa, a |-> 32, at |-> 0]>>
PlanStep(acc, p) == LET o == MaxI(AlignUp(acc.end, p.a), p.at) IN [end |-> o + p.len, offs |-> Append(acc.offs, o)]
Plan(s) == FoldLeft(PlanStep, [end |-> 16384, offs |-> <<>>], PlanSeq(s))
=============================================================================
