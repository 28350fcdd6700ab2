---------------------------------- MODULE Listing ----------------------------------
(***************************************************************************)
(* What str() of an object says: lists of lines (strings).                  *)
(* "~" stands for the sharp sign and "_" for the low comma of note names.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
S(n) == ToString(n)
RECURSIVE Rep(_, _), Join(_, _), JoinTo(_, _, _)
Rep(s, n) == IF n <= 0 THEN "" ELSE s \o Rep(s, n - 1)
Pad(s, w) == s \o Rep(" ", w - Len(s))
PadL(s, w) == Rep(" ", w - Len(s)) \o s
JoinTo(q, sep, i) == IF i > Len(q) THEN "" ELSE (IF i = 1 THEN "" ELSE sep) \o q[i] \o JoinTo(q, sep, i + 1)
Join(q, sep) == JoinTo(q, sep, 1)
Map(q, F(_)) == [i \in 1..Len(q) |-> F(q[i])]
MaxI(a, b) == IF a > b THEN a ELSE b
RECURSIVE MaxLen(_, _)
MaxLen(q, i) == IF i > Len(q) THEN 0 ELSE MaxI(Len(q[i]), MaxLen(q, i + 1))
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
DigitU == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
Hex2(b) == Digit[(b \div 16) + 1] \o Digit[(b % 16) + 1]
RECURSIVE HexN(_)
HexN(n) == IF n < 16 THEN Digit[n + 1] ELSE HexN(n \div 16) \o Digit[(n % 16) + 1]
Hex(n) == "0x" \o HexN(n)
RECURSIVE HexAll(_, _)
HexAll(b, i) == IF i > Len(b) THEN "" ELSE Hex2(b[i]) \o HexAll(b, i + 1)
(* eight digits; b: the four bytes, lowest first *)
Address(b) == "0x" \o Join([i \in 1..8 |-> LET x == b[4 - ((i - 1) \div 2)] IN DigitU[(IF i % 2 = 1 THEN x \div 16 ELSE x % 16) + 1]], "")
NumList(q) == "[" \o Join(Map(q, S), ", ") \o "]"
(* ---- names of pitches: Helmholtz notation, 60 is middle c *)
NoteName(v) ==
  LET n == v - 60  i == (n % 12) + 1
      low == <<"c", "c", "d", "d", "e", "f", "f", "g", "g", "a", "a", "b">>
      cap == <<"C", "C", "D", "D", "E", "F", "F", "G", "G", "A", "A", "B">>
  IN (IF n < -12 THEN cap[i] ELSE low[i]) \o (IF i \in {2, 4, 7, 9, 11} THEN "~" ELSE "")
     \o Rep("'", IF n >= 0 THEN (n \div 12) + 1 ELSE 0) \o Rep("_", IF n < -24 THEN ((-13 - n) \div 12) ELSE 0)
(* ---- events: records [k, a, ref, raw] as in Seq *)
SimpleName(k) ==
  CASE k = 192 -> "pan" [] k = 193 -> "track volume" [] k = 194 -> "global volume" [] k = 195 -> "transpose" [] k = 196 -> "portamento" [] k = 197 -> "portamento range"
    [] k = 198 -> "track priority" [] k = 202 -> "vibrato depth" [] k = 203 -> "vibrato speed" [] k = 205 -> "vibrato range" [] k = 207 -> "portamento duration"
    [] k = 208 -> "attack rate" [] k = 209 -> "decay rate" [] k = 210 -> "sustain rate" [] k = 211 -> "release rate" [] k = 212 -> "begin loop" [] k = 213 -> "expression"
    [] k = 214 -> "print variable" [] k = 224 -> "vibrato delay" [] k = 225 -> "tempo" [] k = 227 -> "sweep pitch"
Symbols == <<"=", "+=", "-=", "*=", "/=", "<<=", "[rand]", "[nop]", "==", ">=", ">", "<=", "<", "!=">>
OnOff(v) == IF v = 0 THEN "off" ELSE IF v = 1 THEN "on" ELSE S(v)
EventText(e) ==
  LET k == e.k  a == e.a IN
  CASE k \in 0..127 -> "<" \o NoteName(k) \o " velocity=" \o S(a[1]) \o " duration=" \o S(a[3]) \o (IF a[2] = 1 THEN " unknown-flag" ELSE "") \o ">"
    [] k = 128 -> "<rest " \o S(a[1]) \o ">"
    [] k = 129 -> "<instrument " \o S(a[1]) \o "/" \o S(a[2]) \o ">"
    [] k = 160 -> "<random " \o Hex(a[1]) \o " " \o Join(Map(e.raw, S), " ") \o (IF e.raw = <<>> THEN "" ELSE " ") \o "(" \o S(a[2]) \o ", " \o S(a[3]) \o ")>"
    [] k = 161 -> "<from variable " \o Hex(a[1]) \o " " \o S(a[2]) \o (IF Len(a) > 2 THEN " " \o S(a[3]) ELSE "") \o ">"
    [] k = 162 -> "<if>"
    [] k \in 176..189 -> "<(var " \o S(a[1]) \o ") " \o Symbols[k - 175] \o " " \o S(a[2]) \o ">"
    [] k = 199 -> (IF a[1] = 0 THEN "<poly>" ELSE "<mono>")
    [] k = 200 -> "<tie " \o OnOff(a[1]) \o ">"
    [] k = 201 -> "<portamento from " \o NoteName(a[1]) \o ">"
    [] k = 204 -> "<vibrato type " \o (IF a[1] \in 0..2 THEN <<"pitch", "volume", "pan">>[a[1] + 1] ELSE S(a[1])) \o ">"
    [] k = 206 -> "<portamento " \o OnOff(a[1]) \o ">"
    [] k = 252 -> "<end loop>"
    [] k = 253 -> "<return>"
    [] k = 254 -> "<define tracks " \o Join(Map(a, S), " ") \o ">"
    [] k = 255 -> "<end track>"
    [] OTHER -> "<" \o SimpleName(k) \o " " \o S(a[1]) \o ">"
Target(r) == "@" \o (IF r = 0 THEN "NOWHERE" ELSE S(r - 1))
(* text of an event in a list; raw data prints as given *)
InList(e, given) ==
  CASE e.k = -1 -> given
    [] e.k = 147 -> "<begin track " \o S(e.a[1]) \o " " \o Target(e.ref[1]) \o ">"
    [] e.k = 148 -> "<jump " \o Target(e.ref[1]) \o ">"
    [] e.k = 149 -> "<call " \o Target(e.ref[1]) \o ">"
    [] OTHER -> EventText(e)
(* labels: [n: option of a name, at: position, 0 = no event, -1 = an event not in the list] *)
RECURSIVE LabelAt(_, _, _)
LabelAt(ls, i, p) == IF p > Len(ls) THEN <<>>
  ELSE (IF ls[p].at # i THEN <<>> ELSE <<(IF ls[p].n = <<>> THEN S(i - 1) ELSE ls[p].n[1])>>) \o LabelAt(ls, i, p + 1)
RECURSIVE Chunks(_, _)
Chunks(s, w) == IF Len(s) <= w THEN <<s>> ELSE <<SubSeq(s, 1, w)>> \o Chunks(SubSeq(s, w + 1, Len(s)), w)
RECURSIVE CatLines(_, _)
CatLines(q, i) == IF i > Len(q) THEN <<>> ELSE q[i] \o CatLines(q, i + 1)
EventLines(evs, given, ls, prefix) ==
  LET n == Len(evs)
      names == [i \in 1..n |-> Join(LabelAt(ls, i, 1), ", ")]
      widest == MaxLen(names, 1)
      w == (IF widest > 48 THEN 48 ELSE widest) + 1
      d == Len(S(n - 1))
      Of(i) == LET cs == IF names[i] = "" THEN <<Rep(" ", w)>> ELSE Chunks(names[i] \o ":", w)
               IN [c \in 1..Len(cs) |-> IF c < Len(cs) THEN prefix \o cs[c]
                     ELSE prefix \o Pad(cs[c], w) \o "  [" \o PadL(S(i - 1), d) \o "] " \o InList(evs[i], given[i]) \o (IF i < n THEN "," ELSE "")]
  IN CatLines([i \in 1..n |-> Of(i)], 1)
RECURSIVE NoEvent(_, _, _)
NoEvent(ls, prefix, p) == IF p > Len(ls) THEN <<>>
  ELSE (IF ls[p].at # 0 THEN <<>> ELSE <<prefix \o (IF ls[p].n = <<>> THEN "None" ELSE ls[p].n[1]) \o ": (none)">>) \o NoEvent(ls, prefix, p + 1)
Warnings(evs, ls) == Cardinality({i \in 1..Len(evs) : evs[i].ref = <<0>>}) + Cardinality({p \in 1..Len(ls) : ls[p].at = -1})
Warning(prefix, line) == LET h == prefix \o "(WARNING: " IN Len(line) >= Len(h) /\ SubSeq(line, 1, Len(h)) = h
SequenceLaw(evs, given, ls, prefix, lines) ==
  LET w == Warnings(evs, ls)  rest == NoEvent(ls, prefix, 1) \o EventLines(evs, given, ls, prefix) IN
  IF Len(lines) # w + Len(rest) THEN "wrong number of lines"
  ELSE IF \E i \in 1..w : ~Warning(prefix, lines[i]) THEN "a warning is missing"
  ELSE IF \E i \in 1..Len(rest) : lines[w + i] # rest[i] THEN "a line of the listing is wrong" ELSE ""
(* the lines inside an object; an empty listing is one empty line *)
Block(head, ls) == <<head>> \o (IF ls = <<>> THEN <<"">> ELSE ls) \o <<">">>
(* ---- lists of items with their numbers *)
Numbered(items) == LET d == Len(S(Len(items) - 1)) IN [i \in 1..Len(items) |-> "    [" \o PadL(S(i - 1), d) \o "] " \o items[i]]
AlignName(h, v) ==
  IF h = 1 /\ v = 1 THEN "center" ELSE <<"top", "center", "bottom">>[v + 1] \o "-" \o <<"left", "center", "right">>[h + 1]
AreaText(a) == "<bnbl touch area: " \o AlignName(a.h, a.v) \o " at (" \o S(a.x) \o ", " \o S(a.y) \o "), size " \o S(a.w) \o "x" \o S(a.t) \o ">"
PositionText(p) == "<bncl image position: " \o AlignName(p.h, p.v) \o " of image " \o S(p.id) \o " at (" \o S(p.x) \o ", " \o S(p.y) \o ")>"
Unk(name, u) == "<" \o name \o (IF u = 0 THEN "" ELSE " unk04=" \o S(u))
BnclLines(o) == <<Unk("bncl", o.unk)>> \o Numbered(Map(o.items, PositionText)) \o <<">">>
(* the picture of the touch areas: 32 x 12 cells of 8 x 16 pixels, later areas on top *)
Box(a) ==
  LET x == a.x - (IF a.h = 1 THEN (a.w + 1) \div 2 ELSE IF a.h = 2 THEN a.w ELSE 0)
      y == a.y - (IF a.v = 1 THEN (a.t + 1) \div 2 ELSE IF a.v = 2 THEN a.t ELSE 0)
  IN [l |-> x \div 8, r |-> (x + a.w) \div 8, t |-> y \div 16, b |-> (y + a.t) \div 16]
Mark(b, i, x, y) ==
  IF x = (b.l + b.r) \div 2 /\ y = (b.t + b.b) \div 2 THEN S(i - 1)
  ELSE IF x \in {b.l, b.r} /\ y > b.t /\ y < b.b THEN "|"
  ELSE IF y \in {b.t, b.b} /\ x > b.l /\ x < b.r THEN "-"
  ELSE IF x \in {b.l, b.r} /\ y = b.b THEN "'" ELSE IF x \in {b.l, b.r} /\ y = b.t THEN "." ELSE ""
RECURSIVE Cell(_, _, _, _)
Cell(boxes, i, x, y) == IF i = 0 THEN " " ELSE LET m == Mark(boxes[i], i, x, y) IN IF m # "" THEN m ELSE Cell(boxes, i - 1, x, y)
Picture(areas) ==
  LET boxes == Map(areas, Box)
      Row(y) == "| " \o Join([x \in 1..32 |-> Cell(boxes, Len(boxes), x - 1, y - 1)], "") \o " |"
  IN <<"." \o Rep("=", 34) \o ".">> \o [y \in 1..12 |-> Row(y)] \o <<"'" \o Rep("=", 34) \o "'">>
BnblLines(o) ==
  LET text == <<Unk("bnbl", o.unk)>> \o Numbered(Map(o.items, AreaText))
      col == MaxLen(text, 1) + 4
      pic == Picture(o.items)
  IN [i \in 1..MaxI(Len(text), 14) |-> LET t == IF i <= Len(text) THEN text[i] ELSE "" IN IF i <= 14 THEN Pad(t, col) \o pic[i] ELSE t] \o <<">">>
(* ---- sound *)
WaveName(t) == <<"PCM8", "PCM16", "ADPCM">>[t + 1]
WaveText(w) == "<swav " \o WaveName(w.type) \o " " \o S(w.rate) \o "Hz" \o (IF w.loop THEN " looped" ELSE "") \o ">"
Plural(n, word) == S(n) \o " " \o word \o (IF n = 1 THEN "" ELSE "s")
StreamText(o) ==
  LET each == IF \A i \in 1..Len(o.blocks) : o.blocks[i] = o.blocks[1] THEN "of " \o Plural(o.blocks[1], "block") \o " each" ELSE "of differing numbers of blocks each" IN
  "<strm " \o WaveName(o.type) \o " " \o S(o.rate) \o "Hz [" \o (IF o.blocks = <<>> THEN "0 channels" ELSE Plural(Len(o.blocks), "channel") \o " " \o each)
  \o "] volume=" \o S(o.volume) \o (IF o.loop THEN " looped" ELSE "") \o ">"
Duty == <<"12.5%", "25%", "37.5%", "50%", "62.5%", "75%", "87.5%", "0%">>
DefText(d) == "<note def " \o NoteName(d.pitch) \o " ("
  \o (CASE d.type = 2 -> "PSG square wave: " \o Duty[(d.wave % 8) + 1] \o " duty cycle" [] d.type = 3 -> "PSG white noise" [] OTHER -> "PCM: SWAR " \o S(d.swar) \o ", SWAV " \o S(d.wave)) \o ")>"
EdgeName(v) == IF v = 0 THEN "min" ELSE IF v = 127 THEN "max" ELSE NoteName(v)
RegionText(r) == "<region through " \o NoteName(r.last) \o " " \o DefText(r.def) \o ">"
InstText(o) ==
  CASE o.ty = "none" -> "None"
    [] o.ty = "single" -> "<single-note instrument " \o DefText(o.defs[1]) \o ">"
    [] o.ty = "range" -> "<range instrument starting at " \o NoteName(o.first) \o " {" \o Join([i \in 1..Len(o.defs) |-> NoteName(o.first + i - 1) \o ": " \o DefText(o.defs[i])], ", ") \o "}>"
    [] o.ty = "regional" -> "<regional instrument {" \o Join([i \in 1..Len(o.defs) |-> EdgeName(IF i = 1 THEN 0 ELSE o.lasts[i - 1] + 1) \o "-" \o EdgeName(o.lasts[i]) \o ": " \o DefText(o.defs[i])], ", ") \o "}>"
GroupText(g) == "<group-entry-" \o <<"sseq", "sbnk", "swar", "ssar">>[g.type + 1] \o " " \o S(g.id)
  \o (IF g.sseq THEN " load-sseq" ELSE "") \o " load-swars-by-swar-id"
  \o (IF g.swar THEN " load-swar" ELSE "") \o (IF g.ssar THEN " load-ssar" ELSE "") \o ">"
SdatWords == <<"sequences", "sequence archives", "banks", "wave archives", "sequence players", "groups", "stream players", "streams">>
SeqFields(o) == "bankID=" \o S(o.bank) \o " volume=" \o S(o.volume) \o " channelPressure=" \o S(o.cp) \o " polyphonicPressure=" \o S(o.pp) \o " playerID=" \o S(o.player)
(* ---- code, files, graphics; bytes here are plain characters, so that they print as they are *)
ShortBytes(s, most) == "b'" \o (IF Len(s) > most THEN SubSeq(s, 1, most) \o "'..." ELSE s \o "'")
SectionText(s) == "<code-section at " \o Address(s.at) \o ": " \o ShortBytes(s.data, 32) \o (IF s.implicit THEN " implicit" ELSE "") \o ">"
OverlayText(o) == "<overlay at " \o Address(o.at) \o " file=" \o S(o.file) \o (IF o.compressed THEN " compressed" ELSE "") \o (IF o.verify THEN " verify-hash" ELSE "") \o ">"
Id4(n) == IF n < 1000 THEN Rep("0", 4 - Len(S(n))) \o S(n) ELSE S(n)
(* <<line, preview or "">> *)
RECURSIVE Tree(_, _, _), TreeFolders(_, _, _, _)
TreeFolders(f, depth, files, i) == IF i > Len(f.folders) THEN <<>>
  ELSE <<<<Id4(f.folders[i].f.id) \o Rep(" ", 4 * depth + 1) \o f.folders[i].n \o "/", "">>>> \o Tree(f.folders[i].f, depth + 1, files) \o TreeFolders(f, depth, files, i + 1)
Tree(f, depth, files) ==
  [i \in 1..Len(f.files) |-> LET id == f.id + i - 1 IN
     <<Id4(id) \o Rep(" ", 4 * depth + 1) \o f.files[i], IF id < Len(files) THEN ShortBytes(files[id + 1], 16) ELSE "">>] \o TreeFolders(f, depth, files, 1)
NarcLines(o) ==
  LET t == Tree(o.names, 0, o.files)  col == MaxLen([i \in 1..Len(t) |-> t[i][1]], 1) + 4
      rows == [i \in 1..Len(t) |-> "    " \o (IF t[i][2] = "" THEN t[i][1] ELSE Pad(t[i][1], col) \o t[i][2])]
  IN <<"<narc" \o (IF o.big THEN " endiannessOfBeginning='>'" ELSE "")>> \o (IF rows = <<>> THEN <<"    ">> ELSE rows) \o <<">">>
TexFormats == <<"unknown-0", "a3i5", "i2", "i4", "i8", "texeled", "a5i3", "a1bgr5">>
ColorText(c) == "(" \o Join(Map(c, S), ",") \o ")"
PaletteText(cs) == "<palette (" \o S(Len(cs)) \o " colors) [" \o Join(Map(SubSeq(cs, 1, IF Len(cs) > 20 THEN 20 ELSE Len(cs)), ColorText), ", ") \o (IF Len(cs) > 20 THEN ", ..." ELSE "") \o "]>"
PartText(p) == IF p.esc THEN "[" \o S(p.type) \o ":" \o HexAll(p.data, 1) \o "]" ELSE p.text
RECURSIVE RStrip(_)
RStrip(s) == IF s = "" THEN s ELSE IF SubSeq(s, Len(s), Len(s)) = " " THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
(* ---- all of them *)
Lines(what, o) ==
  CASE what = "event" -> <<EventText(o)>>
    [] what = "bncl" -> BnclLines(o)          [] what = "bnbl" -> BnblLines(o)
    [] what = "area" -> <<AreaText(o)>>       [] what = "position" -> <<PositionText(o)>>
    [] what = "swav" -> <<WaveText(o)>>       [] what = "swar" -> <<"<swar">> \o Numbered(Map(o.items, WaveText)) \o <<">">>
    [] what = "strm" -> <<StreamText(o)>>     [] what = "def" -> <<DefText(o)>>   [] what = "region" -> <<RegionText(o)>>
    [] what = "instrument" -> <<InstText(o)>>
    [] what = "sbnk" -> <<"<sbnk waveArchiveIDs=" \o NumList(o.swars)>> \o Numbered(Map(o.items, InstText)) \o <<">">>
    [] what = "group" -> <<GroupText(o)>>
    [] what = "player" -> <<"<sequence-player maxSequences=" \o S(o.max) \o " channels=" \o NumList(o.channels) \o " heapSize=" \o S(o.heap) \o ">">>
    [] what = "streamplayer" -> <<"<stream-player " \o NumList(o.channels) \o ">">>
    [] what = "sdat" -> <<"<sdat " \o Join([i \in 1..8 |-> S(o.counts[i]) \o " " \o SdatWords[i]], " ") \o ">">>
    [] what = "sseq unparsed" -> <<"<sseq unparsed " \o SeqFields(o) \o ">">>
    [] what = "ssar unparsed" -> <<"<ssar unparsed [" \o Join(o.names, ", ") \o "]>">>
    [] what = "ssar sequence" -> <<"<ssar-sequence" \o (IF o.parsed THEN "" ELSE " unparsed") \o " bank=" \o S(o.bank) \o " volume=" \o S(o.volume) \o " playerID=" \o S(o.player) \o ">">>
    [] what = "section" -> <<SectionText(o)>>
    [] what = "code" -> <<"<main-code at " \o Address(o.at)>> \o [i \in 1..Len(o.items) |-> "    " \o SectionText(o.items[i])] \o <<">">>
    [] what = "overlay" -> <<OverlayText(o)>> [] what = "narc" -> NarcLines(o)
    [] what = "texture" -> <<"<texture " \o TexFormats[o.format + 1] \o " " \o S(o.w) \o "x" \o S(o.t) \o ">">>
    [] what = "palette" -> <<PaletteText(o.colors)>>
    [] what = "rom" -> <<"<rom \"" \o RStrip(o.name) \o "\" (" \o o.code \o ")>">>
    [] what = "bmg" -> <<"<bmg id=" \o S(o.id) \o " (" \o S(o.messages) \o " messages, " \o S(o.scripts) \o " scripts)>">>
    [] what = "message" -> <<Join(Map(o.parts, PartText), "")>>
    [] what = "escape" -> <<PartText(o)>>
Inside(lines) == SubSeq(lines, 2, Len(lines) - 1)
(* [what, o, lines]; sequences: o has evs, given, labels, prefix *)
ShowLaw(e) ==
  IF e.what = "list" THEN SequenceLaw(e.o.evs, e.o.given, e.o.labels, e.o.prefix, e.lines)
  ELSE IF e.what \in {"sseq", "ssar"} THEN
    LET head == IF e.what = "sseq" THEN "<sseq " \o SeqFields(e.o) ELSE "<ssar" IN
    IF Len(e.lines) < 3 THEN "lines are missing" ELSE IF e.lines[1] # head \/ e.lines[Len(e.lines)] # ">" THEN "the frame of the listing is wrong"
    ELSE IF e.o.evs = <<>> /\ e.o.labels = <<>> THEN (IF Inside(e.lines) = <<"">> THEN "" ELSE "lines of an empty list")
    ELSE SequenceLaw(e.o.evs, e.o.given, e.o.labels, e.o.prefix, Inside(e.lines))
  ELSE IF e.lines # Lines(e.what, e.o) THEN "the text is not that of the object" ELSE ""
=============================================================================
