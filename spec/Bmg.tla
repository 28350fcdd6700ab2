----------------------------------- MODULE Bmg -----------------------------------
(***************************************************************************)
(* BMG message files.                                                       *)
(* A file: [end, enc, id, unk (three 4-byte values), msgs, insts, labels,    *)
(* scripts].  A message: [info, null, parts]; a part is a piece of text      *)
(* (code points) or an escape [esc, type, data, text].                       *)
(***************************************************************************)
EXTENDS Bytes, FiniteSets, TLC

Encs == <<"cp1252", "utf-16", "shift-jis", "utf-8">>
EncNo(enc) == CHOOSE i \in 1..4 : Encs[i] = enc

(* ---- text encodings ------------------------------------------------------------ *)
Cp1252High == <<8364, -1, 8218, 402, 8222, 8230, 8224, 8225, 710, 8240, 352, 8249, 338, -1, 381, -1,
                -1, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 732, 8482, 353, 8250, 339, -1, 382, 376>>
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c \in 55296..57343 THEN <<>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf16(end, c) == IF c \in 55296..57343 THEN <<>>
                 ELSE IF c < 65536 THEN E16(end, c)
                 ELSE E16(end, 55296 + (c - 65536) \div 1024) \o E16(end, 56320 + ((c - 65536) % 1024))
Cp1252(c) == IF c < 128 \/ c \in 160..255 THEN <<c>>
             ELSE LET s == {i \in 1..32 : Cp1252High[i] = c} IN IF s = {} THEN <<>> ELSE <<127 + CHOOSE i \in s : TRUE>>
(* the part of Shift-JIS used here: ASCII, half-width kana, kana, full-width digits/letters, Greek, Cyrillic, some kanji *)
SjKanji == << <<20124, 136, 159>>, <<21312, 153, 189>>, <<34920, 149, 92>>, <<31169, 142, 132>>, <<12288, 129, 64>>, <<12289, 129, 65>>,
              <<12290, 129, 66>>, <<26085, 147, 250>>, <<26412, 150, 123>>, <<35486, 140, 234>>, <<25991, 149, 182>>, <<23383, 142, 154>>, <<9734, 129, 153>> >>
Sj2(lead, n) == <<lead, IF n < 63 THEN 64 + n ELSE 65 + n>>
ShiftJis(c) == IF c < 128 THEN <<c>>
               ELSE IF c \in 65377..65439 THEN <<c - 65377 + 161>>
               ELSE IF c \in 12353..12435 THEN <<130, 159 + c - 12353>>
               ELSE IF c \in 12449..12534 THEN Sj2(131, c - 12449)
               ELSE IF c \in 65296..65305 THEN <<130, 79 + c - 65296>>
               ELSE IF c \in 65313..65338 THEN <<130, 96 + c - 65313>>
               ELSE IF c \in 65345..65370 THEN <<130, 129 + c - 65345>>
               ELSE LET s == {i \in 1..Len(SjKanji) : SjKanji[i][1] = c}
                    IN IF s = {} THEN <<>> ELSE Tail(SjKanji[CHOOSE i \in s : TRUE])
(* <<>> = this encoding has no such character (for Shift-JIS: not covered here) *)
EncChar(enc, end, c) == CASE enc = "utf-8" -> Utf8(c) [] enc = "utf-16" -> Utf16(end, c)
                          [] enc = "cp1252" -> Cp1252(c) [] enc = "shift-jis" -> ShiftJis(c)
EncText(enc, end, t) == Cat([i \in 1..Len(t) |-> EncChar(enc, end, t[i])])
Unit(enc) == IF enc = "utf-16" THEN 2 ELSE 1
Nul(enc) == Zeros(Unit(enc))
EscLead(enc, end) == EncChar(enc, end, 26)

EncPart(enc, end, p) == IF p.esc THEN EscLead(enc, end) \o <<Unit(enc) + 2 + Len(p.data), p.type>> \o p.data
                        ELSE EncText(enc, end, p.text)
EncParts(enc, end, ps) == Cat([i \in 1..Len(ps) |-> EncPart(enc, end, ps[i])])

(* ---- what a reader can tell about a message -------------------------------------- *)
RECURSIVE Merge(_)
Merge(ps) == IF ps = <<>> THEN <<>>
             ELSE LET h == Head(ps)  r == Merge(Tail(ps)) IN
                  IF h.esc THEN <<h>> \o r
                  ELSE IF h.text = <<>> THEN r
                  ELSE IF r # <<>> /\ ~r[1].esc THEN <<[h EXCEPT !.text = @ \o r[1].text]>> \o Tail(r) ELSE <<h>> \o r
NormMsg(m) == [m EXCEPT !.parts = IF m.null THEN <<>> ELSE Merge(@)]
RECURSIVE StripInst(_)
StripInst(s) == IF s # <<>> /\ s[Len(s)] = Zeros(8) THEN StripInst(Front(s)) ELSE s
RECURSIVE StripLab(_)
StripLab(s) == IF s # <<>> /\ s[Len(s)] = <<0, 0>> THEN StripLab(Front(s)) ELSE s

(* ---- which files can be stored ------------------------------------------------------ *)
TextOk(enc, end, t) == \A i \in 1..Len(t) : t[i] \notin {0, 26} /\ EncChar(enc, end, t[i]) # <<>>
PartOk(enc, end, p) == IF p.esc THEN p.type \in 0..255 /\ Len(p.data) + 2 + Unit(enc) <= 255 ELSE TextOk(enc, end, p.text)
MsgsOk(f) == \A i \in 1..Len(f.msgs) :  /\ Len(f.msgs[i].info) = Len(f.msgs[1].info)
                                        /\ (f.msgs[i].null \/ (\A j \in 1..Len(f.msgs[i].parts) : PartOk(f.enc, f.end, f.msgs[i].parts[j])))
ScriptsOk(f) == /\ \A i \in 1..Len(f.insts) : Len(f.insts[i]) = 8
                /\ \A i \in 1..Len(f.labels) : f.labels[i][1] \in -128..127 /\ f.labels[i][2] \in -32768..32767
                /\ \A i \in 1..Len(f.scripts) : f.scripts[i][2] \in 0..65535
Storable(f) == f.enc \in {Encs[i] : i \in 1..4} /\ f.end \in {"<", ">"} /\ MsgsOk(f) /\ ScriptsOk(f)

(* ---- reading ---------------------------------------------------------------------------- *)
G16(end, b, o) == IF end = "<" THEN R16(b, o) ELSE R16BE(b, o)
G32(end, b, o) == IF end = "<" THEN R32(b, o) ELSE R32BE(b, o)
GO32(end, b, o) == O32(end, Slice(b, o, 4))
Signed(v, m) == IF v >= m THEN v - 2 * m ELSE v
EndOf(b) == IF R32(b, 12) \in 0..65535 THEN "<" ELSE ">"
(* section table: sequence of [m (magic), o, n] *)
RECURSIVE SectionsFrom(_, _, _, _)
SectionsFrom(end, b, o, k) == IF k = 0 \/ o + 8 > Len(b) THEN <<>>
  ELSE LET n == G32(end, b, o + 4)
       IN <<[m |-> Slice(b, o, 4), o |-> o, n |-> n]>> \o (IF n < 8 THEN <<>> ELSE SectionsFrom(end, b, o + n, k - 1))
Sections(b) == LET end == EndOf(b) IN SectionsFrom(end, b, 32, G32(end, b, 12))
INF1 == <<73, 78, 70, 49>>   DAT1 == <<68, 65, 84, 49>>   FLW1 == <<70, 76, 87, 49>>   FLI1 == <<70, 76, 73, 49>>
SecAt(ss, m) == LET c == {i \in 1..Len(ss) : ss[i].m = m} IN IF c = {} THEN [m |-> m, o |-> -1, n |-> 0] ELSE ss[CHOOSE i \in c : TRUE]
MagicOk(b) == Len(b) >= 32 /\ Slice(b, 0, 8) = <<77, 69, 83, 71, 98, 109, 103, 49>>
HeaderOf(b) == LET end == EndOf(b) IN [end |-> end, enc |-> Encs[At(b, 16)], unk |-> <<GO32(end, b, 17), GO32(end, b, 21), GO32(end, b, 25)>>]
IdOf(b) == LET s == SecAt(Sections(b), INF1) IN IF s.o < 0 THEN Zeros(4) ELSE GO32(EndOf(b), b, s.o + 12)
(* message k is stored as described: compare by encoding, which is injective *)
MsgStored(b, end, enc, inf, dat, k, m) ==
  LET el == G16(end, b, inf + 10)
      e == inf + 16 + (k - 1) * el
      off == G32(end, b, e)
      bytes == EncParts(enc, end, m.parts) \o Nul(enc)
  IN /\ m.info = Slice(b, e + 4, el - 4)
     /\ IF m.null THEN off = 0 ELSE off # 0 /\ Slice(b, dat + 8 + off, Len(bytes)) = bytes
     /\ m.null => m.parts = <<>>
     /\ Merge(m.parts) = m.parts
     /\ \A j \in 1..Len(m.parts) : PartOk(enc, end, m.parts[j])
NumMsgs(b) == LET s == SecAt(Sections(b), INF1) IN IF s.o < 0 THEN 0 ELSE G16(EndOf(b), b, s.o + 8)
MsgsStored(b, enc, msgs) ==
  LET ss == Sections(b)  end == EndOf(b)  inf == SecAt(ss, INF1).o  dat == SecAt(ss, DAT1).o
  IN Len(msgs) = NumMsgs(b) /\ \A k \in 1..Len(msgs) : MsgStored(b, end, enc, inf, dat, k, msgs[k])
InstsOf(b) == LET s == SecAt(Sections(b), FLW1)  end == EndOf(b) IN
  IF s.o < 0 THEN <<>> ELSE StripInst([i \in 1..G16(end, b, s.o + 8) |-> Slice(b, s.o + 16 + 8 * (i - 1), 8)])
LabelsOf(b) == LET s == SecAt(Sections(b), FLW1)  end == EndOf(b) IN
  IF s.o < 0 THEN <<>>
  ELSE LET ni == G16(end, b, s.o + 8)  nl == G16(end, b, s.o + 10)  t == s.o + 16 + 8 * ni
       IN StripLab([i \in 1..nl |-> <<Signed(At(b, t + 2 * nl + i - 1), 128), Signed(G16(end, b, t + 2 * (i - 1)), 32768)>>])
ScriptsOf(b) == LET s == SecAt(Sections(b), FLI1)  end == EndOf(b) IN
  IF s.o < 0 THEN <<>> ELSE [i \in 1..G16(end, b, s.o + 8) |-> <<GO32(end, b, s.o + 16 + 8 * (i - 1)), G16(end, b, s.o + 16 + 8 * (i - 1) + 4)>>]

(* ---- layout of a saved file: sizes and counts describe the contents ----------------------- *)
LayoutOk(b) ==
  LET end == EndOf(b)  ss == Sections(b)
      last == ss[Len(ss)]
  IN /\ Len(ss) = G32(end, b, 12)
     /\ \A i \in 1..Len(ss) : ss[i].o % 32 = 0 /\ ss[i].n % 32 = 0 /\ ss[i].n >= 8
     /\ \A i, j \in 1..Len(ss) : ss[i].m = ss[j].m => i = j
     /\ \A i \in 1..Len(ss) : ss[i].m \in {INF1, DAT1, FLW1, FLI1}
     /\ G32(end, b, 8) = last.o + last.n                       (* total length *)
     /\ Len(b) <= last.o + last.n /\ AlignUp(Len(b), 32) = last.o + last.n
     /\ LET w == SecAt(ss, FLW1) IN w.o >= 0 => w.n >= 16 + 8 * G16(end, b, w.o + 8) + 3 * G16(end, b, w.o + 10)
     /\ LET s == SecAt(ss, FLI1) IN s.o >= 0 => G16(end, b, s.o + 10) = 8 /\ s.o + 16 + 8 * G16(end, b, s.o + 8) <= Len(b)
     /\ LET i == SecAt(ss, INF1) IN i.o >= 0 => 16 + G16(end, b, i.o + 8) * G16(end, b, i.o + 10) <= i.n

(* ---- canonical form --------------------------------------------------------------------------- *)
S16(end, v) == E16(end, (v + 65536) % 65536)
RECURSIVE DatFrom(_, _, _, _)
(* <<offsets, data>> *)
DatFrom(f, i, offs, dat) == IF i > Len(f.msgs) THEN <<offs, dat>>
  ELSE IF f.msgs[i].null THEN DatFrom(f, i + 1, offs \o <<0>>, dat)
  ELSE DatFrom(f, i + 1, offs \o <<Len(dat)>>, dat \o EncParts(f.enc, f.end, f.msgs[i].parts) \o Nul(f.enc))
Section(end, m, body, n) == PadTo(m \o E32(end, AlignUp(8 + Len(body), 32)) \o body, n, 0)
BmgEncode(f) ==
  LET end == f.end
      d == DatFrom(f, 1, <<>>, Nul(f.enc))
      el == 4 + (IF f.msgs = <<>> THEN 0 ELSE Len(f.msgs[1].info))
      inf == Section(end, INF1, E16(end, Len(f.msgs)) \o E16(end, el) \o O32(end, f.id)
               \o Cat([i \in 1..Len(f.msgs) |-> E32(end, d[1][i]) \o f.msgs[i].info]), 32)
      dat == Section(end, DAT1, d[2], 32)
      ni == AlignUp(Len(f.insts), 2)   nl == AlignUp(Len(f.labels), 8)
      flw == IF f.insts = <<>> /\ f.labels = <<>> THEN <<>>
             ELSE Section(end, FLW1, E16(end, ni) \o E16(end, nl) \o Zeros(4) \o PadTo(Cat(f.insts), 16, 0)
                    \o Cat([i \in 1..nl |-> IF i <= Len(f.labels) THEN S16(end, f.labels[i][2]) ELSE Zeros(2)])
                    \o [i \in 1..nl |-> IF i <= Len(f.labels) THEN (f.labels[i][1] + 256) % 256 ELSE 0], 32)
      fli == IF f.scripts = <<>> THEN <<>>
             ELSE Section(end, FLI1, E16(end, Len(f.scripts)) \o E16(end, 8) \o Zeros(4)
                    \o Cat([i \in 1..Len(f.scripts) |-> O32(end, f.scripts[i][1]) \o E16(end, f.scripts[i][2]) \o Zeros(2)]), 1)
      body == inf \o dat \o flw \o fli
      n == 2 + (IF flw = <<>> THEN 0 ELSE 1) + (IF fli = <<>> THEN 0 ELSE 1)
  IN <<77, 69, 83, 71, 98, 109, 103, 49>> \o E32(end, AlignUp(32 + Len(body), 32)) \o E32(end, n)
     \o <<EncNo(f.enc)>> \o O32(end, f.unk[1]) \o O32(end, f.unk[2]) \o O32(end, f.unk[3]) \o Zeros(3) \o body
=============================================================================
