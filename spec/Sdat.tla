------------------------------------ MODULE Sdat ------------------------------------
(***************************************************************************)
(* Sound archives (SDAT).                                                   *)
(*                                                                         *)
(* An archive is a sequence of eight lists:                                 *)
(*   1 sequences  2 sequence archives  3 banks  4 wave archives             *)
(*   5 sequence players  6 groups  7 stream players  8 streams              *)
(* An item is [n, e]: an optional name and an optional entry (an empty slot *)
(* if absent).  An entry is [p, f, m, s]:                                   *)
(*   p  numeric parameters, laid out per kind as below                      *)
(*   f  the file (kinds 1-4 and 8), without padding                         *)
(*   m  merge ID: files are shared iff content and merge ID are equal       *)
(*   s  optional names of the sequences inside a sequence archive           *)
(* Layout options o: [first, align, incl, padEnd, padSymb].                 *)
(***************************************************************************)
EXTENDS Bytes, TLC
HasFile(k) == k \in {1, 2, 3, 4, 8}
FileKinds == <<1, 2, 3, 4, 8>>
SdatMagic == <<83, 68, 65, 84>>  SymbMagic == <<83, 89, 77, 66>>  InfoMagic == <<73, 78, 70, 79>>  FatMagic == <<70, 65, 84, 32>>  FileMagic == <<70, 73, 76, 69>>
S16(v) == U16(IF v < 0 THEN v + 65536 ELSE v)
RS16(b, o) == LET v == R16(b, o) IN IF v >= 32768 THEN v - 65536 ELSE v
DefaultOpts == [first |-> <<>>, align |-> 32, incl |-> FALSE, padEnd |-> TRUE, padSymb |-> FALSE]

(* ---- distinct files, in order of first use ---- *)
Uses(a) == Cat([j \in 1..5 |-> LET l == SelectSeq(a[FileKinds[j]], LAMBDA x : x.e # <<>>) IN [i \in 1..Len(l) |-> [f |-> l[i].e[1].f, m |-> l[i].e[1].m]]])
RECURSIVE Distinct(_, _)
Distinct(u, acc) == IF u = <<>> THEN acc ELSE Distinct(Tail(u), IF \E i \in 1..Len(acc) : acc[i] = Head(u) THEN acc ELSE Append(acc, Head(u)))
Files(a) == Distinct(Uses(a), <<>>)
IdOf(fs, e) == (CHOOSE i \in 1..Len(fs) : fs[i].f = e.f /\ fs[i].m = e.m) - 1
AnyName(a) == \/ \E k \in 1..8 : \E i \in 1..Len(a[k]) : a[k][i].n # <<>>
              \/ \E i \in 1..Len(a[2]) : a[2][i].e # <<>> /\ \E j \in 1..Len(a[2][i].e[1].s) : a[2][i].e[1].s[j] # <<>>

(* ---- reference writer ---- *)
(* symbol table tokens: <<0, v>> number, <<1, v>> position in the string table *)
Tok(n, strs) == IF n = <<>> THEN <<0, 0>> ELSE <<1, Len(strs)>>
Str(n) == IF n = <<>> THEN <<>> ELSE n[1] \o <<0>>
RECURSIVE SymFold(_, _, _)
SymFold(ns, i, acc) == IF i > Len(ns) THEN acc
  ELSE SymFold(ns, i + 1, [toks |-> Append(acc.toks, Tok(ns[i], acc.strs)), strs |-> acc.strs \o Str(ns[i])])
RECURSIVE SarFold(_, _, _, _)
SarFold(l, i, base, acc) == IF i > Len(l) THEN acc
  ELSE LET strs == acc.strs \o Str(l[i].n) IN
       IF l[i].e = <<>> THEN SarFold(l, i + 1, base, [acc EXCEPT !.main = @ \o <<Tok(l[i].n, acc.strs), <<0, 0>>>>, !.strs = strs])
       ELSE LET s == l[i].e[1].s  g == SymFold(s, 1, [toks |-> <<<<0, Len(s)>>>>, strs |-> strs]) IN
            SarFold(l, i + 1, base, [main |-> acc.main \o <<Tok(l[i].n, acc.strs), <<0, base + 4 * Len(acc.subs)>>>>, subs |-> acc.subs \o g.toks, strs |-> g.strs])
RECURSIVE SymAll(_, _, _)
SymAll(a, k, acc) == IF k > 8 THEN acc
  ELSE LET l == a[k]  heads == Append(acc.heads, 4 * Len(acc.toks)) IN
       IF k # 2 THEN LET g == SymFold([i \in 1..Len(l) |-> l[i].n], 1, [toks |-> Append(acc.toks, <<0, Len(l)>>), strs |-> acc.strs])
                     IN SymAll(a, k + 1, [heads |-> heads, toks |-> g.toks, strs |-> g.strs])
       ELSE LET g == SarFold(l, 1, 64 + 4 * (Len(acc.toks) + 1 + 2 * Len(l)), [main |-> <<>>, subs |-> <<>>, strs |-> acc.strs])
            IN SymAll(a, k + 1, [heads |-> heads, toks |-> acc.toks \o <<<<0, Len(l)>>>> \o g.main \o g.subs, strs |-> g.strs])
SymbBlock(a) ==   \* without padding at its end
  LET g == SymAll(a, 1, [heads |-> <<>>, toks |-> <<>>, strs |-> <<>>])
      base == 64 + 4 * Len(g.toks)
      size == AlignUp(base + Len(g.strs), 4)
  IN SymbMagic \o U32(size) \o Cat([k \in 1..8 |-> U32(64 + g.heads[k])]) \o Zeros(24)
     \o Cat([i \in 1..Len(g.toks) |-> U32(g.toks[i][2] + (IF g.toks[i][1] = 1 THEN base ELSE 0))]) \o g.strs
EntryBytes(k, e, id) ==
  LET p == e.p IN
  CASE k = 1 -> U16(id) \o U16(p[1]) \o U16(p[2]) \o <<p[3], p[4], p[5], p[6], 0, 0>>
    [] k \in {2, 4} -> U16(id) \o U16(p[1])
    [] k = 3 -> U16(id) \o U16(p[1]) \o S16(p[2]) \o S16(p[3]) \o S16(p[4]) \o S16(p[5])
    [] k = 5 -> U16(p[1]) \o U16(p[2]) \o SubSeq(p, 3, 6)
    [] k = 6 -> U32(Len(p) \div 6) \o Cat([i \in 1..Len(p) \div 6 |-> LET q == SubSeq(p, 6 * i - 5, 6 * i) IN <<q[1]>> \o U16(q[2]) \o <<0>> \o SubSeq(q, 3, 6)])
    [] k = 7 -> PadTo(<<Len(p)>> \o p \o Rep(MaxI(0, 16 - Len(p)), 255) \o Zeros(4), 4, 0)
    [] k = 8 -> U16(id) \o U16(p[1]) \o <<p[2], p[3], p[4], p[5], 0, 0, 0, 0>>
PartBytes(k, l, fs, base) ==    \* base: offset of the part in the block
  LET n == Len(l)
      es == [i \in 1..n |-> IF l[i].e = <<>> THEN <<>> ELSE EntryBytes(k, l[i].e[1], IF HasFile(k) THEN IdOf(fs, l[i].e[1]) ELSE 0)]
      ls == [i \in 1..n |-> Len(es[i])]
  IN U32(n) \o Cat([i \in 1..n |-> U32(IF l[i].e = <<>> THEN 0 ELSE base + 4 + 4 * n + SumTo(ls, i - 1))]) \o Cat(es)
RECURSIVE InfoParts(_, _, _, _)
InfoParts(a, fs, k, acc) == IF k > 8 THEN acc
  ELSE InfoParts(a, fs, k + 1, [heads |-> Append(acc.heads, 64 + Len(acc.b)), b |-> acc.b \o PartBytes(k, a[k], fs, 64 + Len(acc.b))])
InfoBlock(a, fs) == LET g == InfoParts(a, fs, 1, [heads |-> <<>>, b |-> <<>>]) IN
  InfoMagic \o U32(64 + Len(g.b)) \o Cat([k \in 1..8 |-> U32(g.heads[k])]) \o Zeros(24) \o g.b
RECURSIVE Lay(_, _, _, _)
Lay(fs, i, pos, al) == IF i > Len(fs) THEN <<>> ELSE LET s == AlignUp(pos, al) IN <<s>> \o Lay(fs, i + 1, s + Len(fs[i].f), al)
SdatEncode(a, o) ==
  LET fs == Files(a)  n == Len(fs)
      symb == IF AnyName(a) THEN SymbBlock(a) ELSE <<>>
      infoAt == 64 + AlignUp(Len(symb), 4)
      info == InfoBlock(a, fs)
      fatAt == infoAt + Len(info)
      fileAt == fatAt + 12 + 16 * n
      start == IF o.first = <<>> THEN fileAt + 12 ELSE AlignUp(fileAt + 12, o.first[1])
      offs == Lay(fs, 1, start, o.align)
      end == IF n = 0 THEN start ELSE offs[n] + Len(fs[n].f)
      total == IF o.padEnd THEN AlignUp(end, o.align) ELSE end
      symbSize == IF o.padSymb THEN AlignUp(Len(symb), 4) ELSE Len(symb)
      flen(i) == IF o.incl THEN AlignUp(Len(fs[i].f), o.align) ELSE Len(fs[i].f)
  IN SdatMagic \o <<255, 254, 0, 1>> \o U32(total) \o U16(64) \o U16(IF symb = <<>> THEN 3 ELSE 4)
     \o U32(IF symb = <<>> THEN 0 ELSE 64) \o U32(symbSize) \o U32(infoAt) \o U32(Len(info)) \o U32(fatAt) \o U32(12 + 16 * n) \o U32(fileAt) \o U32(total - fileAt) \o Zeros(16)
     \o PadTo(symb, 4, 0) \o info
     \o FatMagic \o U32(12 + 16 * n) \o U32(n) \o Cat([i \in 1..n |-> U32(offs[i]) \o U32(flen(i)) \o Zeros(8)])
     \o FileMagic \o U32(total - fileAt) \o U32(n) \o Zeros(start - fileAt - 12)
     \o Cat([i \in 1..n |-> Zeros(offs[i] - (IF i = 1 THEN start ELSE offs[i - 1] + Len(fs[i - 1].f))) \o fs[i].f]) \o Zeros(total - end)

(* ---- reader ---- *)
RECURSIVE CStr(_, _)
CStr(b, o) == IF o >= Len(b) \/ At(b, o) = 0 THEN <<>> ELSE <<At(b, o)>> \o CStr(b, o + 1)
SymAt(b) == R32(b, 16)   InfoAt(b) == R32(b, 24)   FatAt(b) == R32(b, 32)   FileAt(b) == R32(b, 40)
NameAt(b, o) == LET v == R32(b, o) IN IF v = 0 THEN <<>> ELSE <<CStr(b, SymAt(b) + v)>>
SymCount(b, k) == IF SymAt(b) = 0 THEN 0 ELSE R32(b, SymAt(b) + R32(b, SymAt(b) + 4 + 4 * k))
SymName(b, k, i) ==
  IF i > SymCount(b, k) THEN <<>> ELSE NameAt(b, SymAt(b) + R32(b, SymAt(b) + 4 + 4 * k) + 4 + (IF k = 2 THEN 8 ELSE 4) * (i - 1))
SubNames(b, i) ==
  IF i > SymCount(b, 2) THEN <<>>
  ELSE LET v == R32(b, SymAt(b) + R32(b, SymAt(b) + 12) + 4 + 8 * (i - 1) + 4) IN
       IF v = 0 THEN <<>> ELSE [j \in 1..R32(b, SymAt(b) + v) |-> NameAt(b, SymAt(b) + v + 4 * j)]
PartAt(b, k) == InfoAt(b) + R32(b, InfoAt(b) + 4 + 4 * k)
FileCount(b) == R32(b, FatAt(b) + 8)
FatOff(b, id) == R32(b, FatAt(b) + 12 + 16 * id)
FatLen(b, id) == R32(b, FatAt(b) + 16 + 16 * id)
ReadEntry(k, b, o) ==
  CASE k = 1 -> [id |-> R16(b, o), p |-> <<R16(b, o + 2), R16(b, o + 4)>> \o Slice(b, o + 6, 4)]
    [] k \in {2, 4} -> [id |-> R16(b, o), p |-> <<R16(b, o + 2)>>]
    [] k = 3 -> [id |-> R16(b, o), p |-> <<R16(b, o + 2), RS16(b, o + 4), RS16(b, o + 6), RS16(b, o + 8), RS16(b, o + 10)>>]
    [] k = 5 -> [id |-> -1, p |-> <<R16(b, o), R16(b, o + 2)>> \o Slice(b, o + 4, 4)]
    [] k = 6 -> [id |-> -1, p |-> Cat([i \in 1..R32(b, o) |-> LET q == o + 8 * i - 4 IN <<At(b, q), R16(b, q + 1)>> \o Slice(b, q + 4, 4)])]
    [] k = 7 -> [id |-> -1, p |-> Slice(b, o + 1, At(b, o))]
    [] k = 8 -> [id |-> R16(b, o), p |-> <<R16(b, o + 2)>> \o Slice(b, o + 4, 4)]
(* the length a file gives itself; the table's length may count padding too *)
OwnLen(b, id) == LET n == R32(b, FatOff(b, id) + 8) IN IF n >= 0 /\ n < FatLen(b, id) THEN n ELSE FatLen(b, id)
ReadItem(k, b, i) ==
  LET v == R32(b, PartAt(b, k) + 4 * i) IN
  [n |-> SymName(b, k, i),
   e |-> IF v = 0 THEN <<>>
         ELSE LET x == ReadEntry(k, b, InfoAt(b) + v) IN
              <<[p |-> x.p, f |-> IF x.id < 0 THEN <<>> ELSE Slice(b, FatOff(b, x.id), OwnLen(b, x.id)), m |-> x.id, s |-> IF k = 2 THEN SubNames(b, i) ELSE <<>>]>>]
ReadList(b, k) == [i \in 1..MaxI(R32(b, PartAt(b, k)), SymCount(b, k)) |-> ReadItem(k, b, i)]
SdatDecode(b) == [k \in 1..8 |-> ReadList(b, k)]

(* ---- what reloading does to an archive ---- *)
(* Merge IDs become file IDs.  Without any name there are no names of        *)
(* sequences in sequence archives either.                                    *)
Padded(s, n) == s \o [i \in 1..MaxI(0, n - Len(s)) |-> <<>>]
Reloaded(a) == LET fs == Files(a) IN
  [k \in 1..8 |-> [i \in 1..Len(a[k]) |->
     IF a[k][i].e = <<>> THEN a[k][i]
     ELSE [n |-> a[k][i].n, e |-> <<[a[k][i].e[1] EXCEPT !.m = IF HasFile(k) THEN IdOf(fs, a[k][i].e[1]) ELSE -1]>>]]]
(* first difference between two archives, merge IDs aside *)
SameSubs(s, t) == LET n == MaxI(Len(s), Len(t)) IN Padded(s, n) = Padded(t, n)
KindName == <<"sequences", "sequence archives", "banks", "wave archives", "sequence players", "groups", "stream players", "streams">>
ItemDiff(x, y) ==
  CASE x.n # y.n -> "name" [] Len(x.e) # Len(y.e) -> "empty slot" [] x.e = <<>> -> ""
    [] x.e[1].p # y.e[1].p -> "parameters" [] x.e[1].f # y.e[1].f -> "file" [] ~SameSubs(x.e[1].s, y.e[1].s) -> "sequence names" [] OTHER -> ""
ListDiff(l, m) == IF Len(l) # Len(m) THEN "number of entries"
                  ELSE IF \E i \in 1..Len(l) : ItemDiff(l[i], m[i]) # "" THEN ItemDiff(l[CHOOSE i \in 1..Len(l) : ItemDiff(l[i], m[i]) # ""], m[CHOOSE i \in 1..Len(l) : ItemDiff(l[i], m[i]) # ""]) ELSE ""
ArcDiff(a, b) == IF \A k \in 1..8 : ListDiff(a[k], b[k]) = "" THEN ""
                 ELSE LET k == CHOOSE k \in 1..8 : ListDiff(a[k], b[k]) # "" /\ \A j \in 1..k - 1 : ListDiff(a[j], b[j]) = "" IN KindName[k] \o ": " \o ListDiff(a[k], b[k])

(* ---- layout laws ---- *)
Al(x) == CHOOSE v \in {512, 256, 128, 64, 32, 16, 8, 4, 2, 1} : x % v = 0 /\ \A w \in {512, 256, 128, 64, 32, 16, 8, 4, 2, 1} : x % w = 0 => w <= v
NameEnds(a, b) ==    \* ends of the stored names, relative to the block
  LET main == UNION {{<<k, i>> : i \in 1..Len(a[k])} : k \in 1..8}
      at(o) == R32(b, o)
      E(o) == IF at(o) = 0 THEN {} ELSE {at(o) + Len(CStr(b, SymAt(b) + at(o))) + 1}
      S(k) == SymAt(b) + R32(b, SymAt(b) + 4 + 4 * k)
  IN UNION {E(S(x[1]) + 4 + (IF x[1] = 2 THEN 8 ELSE 4) * (x[2] - 1)) : x \in main}
     \cup UNION {LET v == R32(b, S(2) + 8 * i) IN IF v = 0 THEN {} ELSE UNION {E(SymAt(b) + v + 4 * j) : j \in 1..R32(b, SymAt(b) + v)} : i \in 1..Len(a[2])}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
SymbEnd(a, b) == MaxOf(NameEnds(a, b))
Ids(a, b) ==      \* <<file ID, file, merge ID>> of every entry with a file
  Cat([j \in 1..5 |-> LET k == FileKinds[j] IN
    Cat([i \in 1..Len(a[k]) |-> IF a[k][i].e = <<>> THEN <<>> ELSE <<[id |-> ReadEntry(k, b, InfoAt(b) + R32(b, PartAt(b, k) + 4 * i)).id, f |-> a[k][i].e[1].f, m |-> a[k][i].e[1].m]>>])])
LayoutLaw(a, o, b) ==
  LET n == FileCount(b)   ids == Ids(a, b)   named == AnyName(a)
      len(i) == LET u == CHOOSE j \in 1..Len(ids) : ids[j].id = i IN Len(ids[u].f)
  IN CASE Slice(b, 0, 8) # SdatMagic \o <<255, 254, 0, 1>> \/ R16(b, 12) # 64 -> "wrong header"
       [] R32(b, 8) # Len(b) -> "the size in the header is wrong"
       [] R16(b, 14) # (IF SymAt(b) = 0 THEN 3 ELSE 4) -> "wrong number of blocks"
       [] ~named /\ (SymAt(b) # 0 \/ R32(b, 20) # 0) -> "symbol block without symbols"
       [] named /\ (SymAt(b) < 64 \/ SymAt(b) >= Len(b)) -> "no symbol block"
       [] named /\ Slice(b, SymAt(b), 4) # SymbMagic -> "wrong symbol block"
       [] named /\ R32(b, SymAt(b) + 4) # AlignUp(SymbEnd(a, b), 4) -> "the size of the symbol block is wrong"
       [] named /\ R32(b, 20) # (IF o.padSymb THEN AlignUp(SymbEnd(a, b), 4) ELSE SymbEnd(a, b)) -> "the size of the symbol block in the header is wrong"
       [] InfoAt(b) < 64 \/ (named /\ InfoAt(b) < SymAt(b) + R32(b, SymAt(b) + 4)) -> "the info block overlaps another one"
       [] Slice(b, InfoAt(b), 4) # InfoMagic \/ R32(b, InfoAt(b) + 4) # R32(b, 28) -> "wrong info block"
       [] FatAt(b) < InfoAt(b) + R32(b, 28) -> "the file table overlaps the info block"
       [] Slice(b, FatAt(b), 4) # FatMagic \/ R32(b, FatAt(b) + 4) # R32(b, 36) \/ R32(b, 36) # 12 + 16 * n -> "wrong file table"
       [] FileAt(b) < FatAt(b) + R32(b, 36) -> "the file block overlaps the file table"
       [] Slice(b, FileAt(b), 4) # FileMagic \/ R32(b, FileAt(b) + 4) # R32(b, 44) \/ R32(b, FileAt(b) + 8) # n -> "wrong file block"
       [] FileAt(b) + R32(b, 44) # Len(b) -> "the file block does not end with the file"
       [] \E i \in 1..Len(ids) : ids[i].id \notin 0..n - 1 -> "an entry has no file"
       [] \E i \in 0..n - 1 : \A j \in 1..Len(ids) : ids[j].id # i -> "a stored file belongs to no entry"
       [] \E i, j \in 1..Len(ids) : ids[i].id = ids[j].id /\ ~(ids[i].f = ids[j].f /\ ids[i].m = ids[j].m) -> "entries that differ share a file"
       [] \E i, j \in 1..Len(ids) : ids[i].id # ids[j].id /\ ids[i].f = ids[j].f /\ ids[i].m = ids[j].m -> "equal files with equal merge IDs are not shared"
       [] \E i \in 0..n - 1 : FatOff(b, i) < FileAt(b) + 12 \/ FatOff(b, i) + len(i) > Len(b) -> "a file lies outside the file block"
       [] \E i, j \in 0..n - 1 : i # j /\ FatOff(b, i) <= FatOff(b, j) /\ FatOff(b, j) < FatOff(b, i) + len(i) -> "files overlap"
       [] \E i \in 0..n - 1 : FatOff(b, i) % o.align # 0 -> "a file is not aligned"
       [] n > 0 /\ o.first # <<>> /\ FatOff(b, 0) % o.first[1] # 0 -> "the first file is not aligned"
       [] \E i \in 0..n - 1 : FatLen(b, i) # (IF o.incl THEN AlignUp(len(i), o.align) ELSE len(i)) -> "the length of a file is wrong"
       [] o.padEnd /\ Len(b) % o.align # 0 -> "the end is not padded"
       [] ~o.padEnd /\ n > 0 /\ Len(b) # FatOff(b, n - 1) + len(n - 1) -> "the end is padded"
       [] OTHER -> ""

(* ---- which options the layout determines ---- *)
Gaps(b) == {FatOff(b, i + 1) - FatOff(b, i) - OwnLen(b, i) : i \in 0..FileCount(b) - 2}
SureAlign(o, b) == LET n == FileCount(b) IN (\E i \in 0..n - 1 : Al(FatOff(b, i)) = o.align) /\ (\E g \in Gaps(b) : g >= MaxI(1, o.align \div 2))
RecoverLaw(a, o, b, r) ==
  LET n == FileCount(b)  sure == SureAlign(o, b)  end == FatOff(b, n - 1) + OwnLen(b, n - 1) IN
  CASE (\E i \in 0..n - 1 : OwnLen(b, i) % o.align # 0) /\ r.incl # o.incl -> "lengths including padding"
    [] sure /\ r.align # o.align -> "file alignment"
    [] sure /\ o.first # <<>> /\ o.first[1] > o.align /\ Al(FatOff(b, 0)) = o.first[1] /\ r.first # o.first -> "alignment of the first file"
    [] sure /\ Al(FatOff(b, 0)) = o.align /\ r.first # <<>> /\ r.first[1] > o.align -> "alignment of the first file"
    [] n > 0 /\ sure /\ end % o.align # 0 /\ r.padEnd # o.padEnd -> "padding at the end"
    [] AnyName(a) /\ SymbEnd(a, b) % 4 # 0 /\ r.padSymb # o.padSymb -> "padded symbol size"
    [] OTHER -> ""
(* reopened, equal files are still known to be one or to be apart *)
ShareLaw(a, b) == LET ids == Ids(a, b) IN
  IF \E i, j \in 1..Len(ids) : ids[i].f = ids[j].f /\ (ids[i].id = ids[j].id) # (ids[i].m = ids[j].m) THEN "which files are shared" ELSE ""
=============================================================================
