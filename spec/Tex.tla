------------------------------------ MODULE Tex ------------------------------------
(***************************************************************************)
(* Texture files (NSBTX) and the texture block of models (NSBMD).           *)
(*  texture [name, u0, u2, rs, rt, ms, mt, w, h, fmt, c0, ctm, u4, d1, d2]    *)
(*  palette [name, u0, u2, uh, cols]     colors <<r5,g5,b5,a1>>                *)
(*  block   [u08, u10, u18, u20, u2C : 4 bytes, u32 : 0..65535, texs, pals]    *)
(*  model file [mdl : optional block, tex : block]                            *)
(* Names are lists of character codes, at most 16, not ending in 0.           *)
(***************************************************************************)
EXTENDS Color, TLC

(* ---- textures: packed parameters and data sizes ---- *)
Bits1(fmt) == CASE fmt = 0 -> 0 [] fmt \in {1, 4, 6} -> 8 [] fmt \in {2, 5} -> 2 [] fmt = 3 -> 4 [] fmt = 7 -> 16
Size1(t) == (t.w * t.h * Bits1(t.fmt)) \div 8
Size2(t) == IF t.fmt = 5 THEN (t.w * t.h) \div 8 ELSE 0
Bit(p, i) == (p \div Pow2(i)) % 2 = 1
B01(x) == IF x THEN 1 ELSE 0
Params(p) == [rs |-> Bit(p, 0), rt |-> Bit(p, 1), ms |-> Bit(p, 2), mt |-> Bit(p, 3),
              w |-> 8 * Pow2((p \div 16) % 8), h |-> 8 * Pow2((p \div 128) % 8),
              fmt |-> (p \div 1024) % 8, c0 |-> Bit(p, 13), ctm |-> p \div 16384]
Sides == {8 * Pow2(i) : i \in 0..7}
Log8(n) == CHOOSE i \in 0..7 : 8 * Pow2(i) = n
ParamsOf(t) == B01(t.rs) + 2 * B01(t.rt) + 4 * B01(t.ms) + 8 * B01(t.mt) + 16 * Log8(t.w) + 128 * Log8(t.h)
               + 1024 * t.fmt + 8192 * B01(t.c0) + 16384 * t.ctm
TexOk(t) == t.w \in Sides /\ t.h \in Sides /\ Len(t.d1) = Size1(t) /\ Len(t.d2) = Size2(t)
ParamView(t) == [rs |-> t.rs, rt |-> t.rt, ms |-> t.ms, mt |-> t.mt, w |-> t.w, h |-> t.h, fmt |-> t.fmt, c0 |-> t.c0, ctm |-> t.ctm]

(* ---- info blocks: named lists of fixed-size entries [name, u0, u2, data] ---- *)
Name16(n) == n \o Zeros(16 - Len(n))
RECURSIVE Strip0(_)
Strip0(n) == IF n # <<>> /\ n[Len(n)] = 0 THEN Strip0(SubSeq(n, 1, Len(n) - 1)) ELSE n
InfoSize(n, size) == 16 + n * (20 + size)
InfoBlock(es, size) ==
  <<0, Len(es)>> \o U16(InfoSize(Len(es), size))
  \o U16(8) \o U16(12 + 4 * Len(es)) \o U32(383) \o Cat([i \in 1..Len(es) |-> U16(es[i].u0) \o U16(es[i].u2)])
  \o U16(size) \o U16(4 + size * Len(es)) \o Cat([i \in 1..Len(es) |-> es[i].data])
  \o Cat([i \in 1..Len(es) |-> Name16(es[i].name)])
InfoWellFormed(b, o, size) ==
  LET n == At(b, o + 1)  q == o + 12 + 4 * n IN
  /\ R16(b, o + 2) = InfoSize(n, size) /\ o + InfoSize(n, size) <= Len(b)
  /\ R16(b, o + 4) = 8 /\ R16(b, o + 6) = 12 + 4 * n /\ R32(b, o + 8) = 383
  /\ R16(b, q) = size /\ R16(b, q + 2) = 4 + size * n
InfoRead(b, o, size) ==
  LET n == At(b, o + 1)  q == o + 16 + 4 * n IN
  [i \in 1..n |-> [u0 |-> R16(b, o + 8 + 4 * i), u2 |-> R16(b, o + 10 + 4 * i), data |-> Slice(b, q + size * (i - 1), size),
                   name |-> Strip0(Slice(b, q + size * n + 16 * (i - 1), 16))]]

(* ---- the block ---- *)
Compressed(t) == t.fmt = 5
PalBytes(p) == Cat([i \in 1..Len(p.cols) |-> U16(PackC(p.cols[i]))])
Colors(b) == [i \in 1..(Len(b) \div 2) |-> Unpack(R16(b, 2 * (i - 1)))]
(* offsets of items stored in the order of list ord (a sequence of indices) *)
RECURSIVE Starts(_, _, _, _)
Starts(ord, lens, q, acc) == IF ord = <<>> THEN acc ELSE Starts(Tail(ord), lens, q + lens[Head(ord)], [acc EXCEPT ![Head(ord)] = q])
Up(n) == [i \in 1..n |-> i]
Down(n) == [i \in 1..n |-> n + 1 - i]
(* Layouts a file may use: data in list order or reversed, equal palettes sharing data, gaps between the regions. *)
Encode(f, lay) ==
  LET nt == Len(f.texs)  np == Len(f.pals)
      Ord(n) == IF lay.rev THEN Down(n) ELSE Up(n)
      plainLens == [i \in 1..nt |-> IF Compressed(f.texs[i]) THEN 0 ELSE Len(f.texs[i].d1)]
      compLens == [i \in 1..nt |-> IF Compressed(f.texs[i]) THEN Len(f.texs[i].d1) ELSE 0]
      plainAt == Starts(Ord(nt), plainLens, 0, Rep(nt, 0))
      compAt == Starts(Ord(nt), compLens, 0, Rep(nt, 0))
      First(i) == CHOOSE j \in 1..np : f.pals[j].cols = f.pals[i].cols /\ \A q \in 1..(j - 1) : f.pals[q].cols # f.pals[i].cols
      own == [i \in 1..np |-> (~lay.share \/ First(i) = i)]
      palLens == [i \in 1..np |-> IF own[i] THEN 2 * Len(f.pals[i].cols) ELSE 0]
      palAt0 == Starts(Ord(np), palLens, 0, Rep(np, 0))
      palAt == [i \in 1..np |-> IF own[i] THEN palAt0[i] ELSE palAt0[First(i)]]
      In(n, F(_)) == Cat([i \in 1..n |-> F(Ord(n)[i])])
      texInfo == InfoBlock([i \in 1..nt |-> LET t == f.texs[i] IN
                   [name |-> t.name, u0 |-> t.u0, u2 |-> t.u2,
                    data |-> U16((IF Compressed(t) THEN compAt[i] ELSE plainAt[i]) \div 8) \o U16(ParamsOf(t)) \o t.u4]], 8)
      palInfo == InfoBlock([i \in 1..np |-> LET p == f.pals[i] IN
                   [name |-> p.name, u0 |-> p.u0, u2 |-> p.u2, data |-> U16(palAt[i] \div 8) \o U16(p.uh)]], 4)
      plain == In(nt, LAMBDA i : IF Compressed(f.texs[i]) THEN <<>> ELSE f.texs[i].d1)
      c1 == In(nt, LAMBDA i : IF Compressed(f.texs[i]) THEN f.texs[i].d1 ELSE <<>>)
      c2 == In(nt, LAMBDA i : IF Compressed(f.texs[i]) THEN f.texs[i].d2 ELSE <<>>)
      pd == In(np, LAMBDA i : IF own[i] THEN PalBytes(f.pals[i]) ELSE <<>>)
      gap == Rep(lay.gap, 171)
      oTex == 60  oPal == oTex + Len(texInfo)
      oPlain == oPal + Len(palInfo) + lay.gap
      oC1 == oPlain + Len(plain) + lay.gap
      oC2 == oC1 + Len(c1) + lay.gap
      oPD == oC2 + Len(c2) + lay.gap
      body == texInfo \o palInfo \o gap \o plain \o gap \o c1 \o gap \o c2 \o gap \o pd
  IN <<84, 69, 88, 48>> \o U32(60 + Len(body)) \o f.u08 \o U16(Len(plain) \div 8) \o U16(oTex)
     \o f.u10 \o U32(oPlain) \o f.u18 \o U16(Len(c1) \div 8) \o U16(oTex) \o f.u20 \o U32(oC1) \o U32(oC2) \o f.u2C
     \o U16(Len(pd) \div 8) \o U16(f.u32) \o U32(oPal) \o U32(oPD) \o body
Canon == [rev |-> FALSE, share |-> FALSE, gap |-> 0]

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Decode(b) ==
  LET ti == InfoRead(b, R16(b, 14), 8)
      pi == InfoRead(b, R32(b, 52), 4)
      oP == R32(b, 20)  oC1 == R32(b, 36)  oC2 == R32(b, 40)  oPD == R32(b, 56)
      palEnd == oPD + 8 * R16(b, 48)
      starts == [i \in 1..Len(pi) |-> oPD + 8 * R16(pi[i].data, 0)]
      Ends(q) == {x \in {starts[i] : i \in 1..Len(pi)} \cup {palEnd} : x > q}
  IN [u08 |-> Slice(b, 8, 4), u10 |-> Slice(b, 16, 4), u18 |-> Slice(b, 24, 4), u20 |-> Slice(b, 32, 4), u2C |-> Slice(b, 44, 4), u32 |-> R16(b, 50),
      texs |-> [i \in 1..Len(ti) |->
        LET e == ti[i]  p == Params(R16(e.data, 2))  off == 8 * R16(e.data, 0)
            d1 == IF p.fmt = 5 THEN Slice(b, oC1 + off, Size1(p)) ELSE Slice(b, oP + off, Size1(p))
            d2 == IF p.fmt = 5 THEN Slice(b, oC2 + off \div 2, Size2(p)) ELSE <<>>
        IN [name |-> e.name, u0 |-> e.u0, u2 |-> e.u2, rs |-> p.rs, rt |-> p.rt, ms |-> p.ms, mt |-> p.mt, w |-> p.w, h |-> p.h,
            fmt |-> p.fmt, c0 |-> p.c0, ctm |-> p.ctm, u4 |-> Slice(e.data, 4, 4), d1 |-> d1, d2 |-> d2]],
      pals |-> [i \in 1..Len(pi) |->
        LET q == starts[i]  e == IF Ends(q) = {} THEN q ELSE MinOf(Ends(q)) IN
        [name |-> pi[i].name, u0 |-> pi[i].u0, u2 |-> pi[i].u2, uh |-> R16(pi[i].data, 2), cols |-> Colors(Slice(b, q, e - q))]]]

(* ---- what "offsets and sizes describe exactly the stored data" means ---- *)
Disjoint(rs) == \A i, j \in 1..Len(rs) : i < j => (rs[i].n = 0 \/ rs[j].n = 0 \/ rs[i].o + rs[i].n <= rs[j].o \/ rs[j].o + rs[j].n <= rs[i].o)
RECURSIVE Total(_)
Total(rs) == IF rs = <<>> THEN 0 ELSE Head(rs).n + Total(Tail(rs))
Fills(rs, o, n) == Disjoint(rs) /\ Total(rs) = n /\ \A i \in 1..Len(rs) : rs[i].n > 0 => (rs[i].o >= o /\ rs[i].o + rs[i].n <= o + n)
BlockLaw(b, f) ==
  IF Len(b) < 60 \/ Slice(b, 0, 4) # <<84, 69, 88, 48>> THEN "the texture block header is wrong"
  ELSE IF R32(b, 4) # Len(b) THEN "the texture block size is wrong"
  ELSE IF ~InfoWellFormed(b, R16(b, 14), 8) \/ ~InfoWellFormed(b, R32(b, 52), 4) \/ R16(b, 30) # R16(b, 14) THEN "a list of entries is not well formed"
  ELSE LET ti == InfoRead(b, R16(b, 14), 8)  pi == InfoRead(b, R32(b, 52), 4)
           oP == R32(b, 20)  nP == 8 * R16(b, 12)  oC1 == R32(b, 36)  nC == 8 * R16(b, 28)  oC2 == R32(b, 40)  oPD == R32(b, 56)  nPD == 8 * R16(b, 48)
           areas == <<[o |-> 0, n |-> 60], [o |-> R16(b, 14), n |-> InfoSize(Len(ti), 8)], [o |-> R32(b, 52), n |-> InfoSize(Len(pi), 4)],
                      [o |-> oP, n |-> nP], [o |-> oC1, n |-> nC], [o |-> oC2, n |-> nC \div 2], [o |-> oPD, n |-> nPD]>>
           At1(i) == 8 * R16(ti[i].data, 0)
       IN IF ~Disjoint(areas) \/ \E i \in 1..7 : (areas[i].o < 0 \/ (areas[i].n > 0 /\ areas[i].o + areas[i].n > Len(b))) THEN "areas of the block overlap or reach past its end"
          ELSE IF ~Fills([i \in 1..Len(ti) |-> LET p == Params(R16(ti[i].data, 2)) IN [o |-> oP + At1(i), n |-> IF p.fmt = 5 THEN 0 ELSE Size1(p)]], oP, nP) THEN "plain texture data is not described exactly"
          ELSE IF ~Fills([i \in 1..Len(ti) |-> LET p == Params(R16(ti[i].data, 2)) IN [o |-> oC1 + At1(i), n |-> IF p.fmt = 5 THEN Size1(p) ELSE 0]], oC1, nC) THEN "compressed texture data is not described exactly"
          ELSE IF ~Fills([i \in 1..Len(ti) |-> LET p == Params(R16(ti[i].data, 2)) IN [o |-> oC2 + At1(i) \div 2, n |-> IF p.fmt = 5 THEN Size2(p) ELSE 0]], oC2, nC \div 2) THEN "compressed texture indices are not described exactly"
          ELSE IF Len(pi) # Len(f.pals) \/ ~Fills([i \in 1..Len(pi) |-> [o |-> oPD + 8 * R16(pi[i].data, 0), n |-> 2 * Len(f.pals[i].cols)]], oPD, nPD) THEN "palette data is not described exactly"
          ELSE LET d == Decode(b) IN
               IF d.texs # f.texs THEN "a texture was not kept" ELSE IF d.pals # f.pals THEN "a palette was not kept"
               ELSE IF d # f THEN "a file-level value was not kept" ELSE ""

(* ---- texture files ---- *)
Header(magic, ver, len, n) == magic \o <<255, 254>> \o U16(ver) \o U32(len) \o U16(16) \o U16(n)
BTX0 == <<66, 84, 88, 48>>
BMD0 == <<66, 77, 68, 48>>
MDL0 == <<77, 68, 76, 48>>
TEX0 == <<84, 69, 88, 48>>
BtxEncode(f, lay) == LET b == Encode(f, lay) IN Header(BTX0, 1, 20 + Len(b), 1) \o U32(20) \o b
BtxLaw(b, f) ==
  IF Len(b) < 80 \/ Slice(b, 0, 16) # Header(BTX0, 1, Len(b), 1) THEN "the file header is wrong"
  ELSE LET o == R32(b, 16) IN IF o < 20 \/ o + 60 > Len(b) THEN "the block offset is wrong" ELSE BlockLaw(From(b, o), f)
BtxDecode(b) == Decode(From(b, R32(b, 16)))

(* ---- model files: a model block kept verbatim and an optional texture block ---- *)
(* order: 1 model block first, 2 texture block first *)
BmdEncode(m, withTex, order, lay) ==
  LET t == Encode(m.tex, lay)
      bs == (IF m.mdl = <<>> THEN <<>> ELSE <<m.mdl[1]>>)
      all == IF ~withTex THEN bs ELSE IF order = 1 THEN bs \o <<t>> ELSE <<t>> \o bs
      n == Len(all)  start == 16 + 4 * n
      offs == [i \in 1..n |-> start + SumTo([j \in 1..n |-> Len(all[j])], i - 1)]
      body == Cat(all)
  IN Header(BMD0, 2, start + Len(body), n) \o Cat([i \in 1..n |-> U32(offs[i])]) \o body
BmdBlocks(b) == [i \in 1..R16(b, 14) |-> LET o == R32(b, 12 + 4 * i) IN Slice(b, o, R32(b, o + 4))]
Having(bs, magic) == SelectSeq(bs, LAMBDA x : Slice(x, 0, 4) = magic)
BmdLaw(b, m) ==
  IF Len(b) < 16 THEN "the file header is wrong"
  ELSE LET n == R16(b, 14) IN
  IF Slice(b, 0, 16) # Header(BMD0, 2, Len(b), n) THEN "the file header is wrong"
  ELSE IF \E i \in 1..n : (R32(b, 12 + 4 * i) < 16 + 4 * n \/ R32(b, 12 + 4 * i) + 8 > Len(b)
                           \/ R32(b, R32(b, 12 + 4 * i) + 4) < 8 \/ R32(b, 12 + 4 * i) + R32(b, R32(b, 12 + 4 * i) + 4) > Len(b)) THEN "a block offset or size is wrong"
  ELSE LET bs == BmdBlocks(b) IN
  IF ~Disjoint([i \in 1..n |-> [o |-> R32(b, 12 + 4 * i), n |-> Len(bs[i])]]) THEN "blocks overlap"
  ELSE IF 16 + 4 * n + SumTo([i \in 1..n |-> Len(bs[i])], n) # Len(b) THEN "the file contains more than its blocks"
  ELSE IF Having(bs, MDL0) # m.mdl THEN "the model block was not kept"
  ELSE IF Len(Having(bs, TEX0)) + Len(m.mdl) # n THEN "blocks are missing or unknown"
  ELSE IF Having(bs, TEX0) = <<>> THEN (IF m.tex.texs = <<>> /\ m.tex.pals = <<>> THEN "" ELSE "the texture block is missing")
  ELSE BlockLaw(Having(bs, TEX0)[1], m.tex)
EmptyBlock == [u08 |-> Zeros(4), u10 |-> Zeros(4), u18 |-> Zeros(4), u20 |-> Zeros(4), u2C |-> Zeros(4), u32 |-> 0, texs |-> <<>>, pals |-> <<>>]
BmdDecode(b) == LET bs == BmdBlocks(b) IN
  [mdl |-> Having(bs, MDL0), tex |-> IF Having(bs, TEX0) = <<>> THEN EmptyBlock ELSE Decode(Having(bs, TEX0)[1])]

(* ---- the model block itself: models [name, mats, texs, pals : names, polys : [name, dl]] ---- *)
Dict(names, datas) == InfoBlock([i \in 1..Len(names) |-> [name |-> names[i], u0 |-> i, u2 |-> 7, data |-> datas[i]]], 4)
ModelEncode(m) ==
  LET nm == Len(m.mats)  np == Len(m.polys)
      matDict == Dict(m.mats, [i \in 1..nm |-> U32(InfoSize(nm, 4) + 44 * (i - 1))])
      mats == U16(4 + Len(matDict)) \o U16(4 + Len(matDict) + InfoSize(Len(m.texs), 4)) \o matDict
              \o Dict(m.texs, [i \in 1..Len(m.texs) |-> U16(0) \o <<1, 0>>]) \o Dict(m.pals, [i \in 1..Len(m.pals) |-> U16(0) \o <<1, 0>>])
              \o Rep(44 * nm, 3)
      dls == [i \in 1..np |-> m.polys[i].dl]
      lens == [i \in 1..np |-> Len(dls[i])]
      defs == InfoSize(np, 4)
      dlBase == defs + 16 * np
      polyDict == Dict([i \in 1..np |-> m.polys[i].name], [i \in 1..np |-> U32(defs + 16 * (i - 1))])
      polys == polyDict \o Cat([i \in 1..np |-> U16(0) \o U16(16) \o U32(5) \o U32(dlBase + SumTo(lens, i - 1) - (defs + 16 * (i - 1))) \o U32(lens[i])]) \o Cat(dls)
      bones == Rep(12, 9)
      oM == 64 + Len(bones)  oP == oM + Len(mats)
  IN U32(oP + Len(polys)) \o U32(64) \o U32(oM) \o U32(oP) \o U32(oP + Len(polys))
     \o <<0, 0, 0, 1, nm, np, 0, 0, 0, 16, 0, 0, 0, 16, 0, 0>> \o U16(3) \o U16(1) \o U16(1) \o U16(0) \o Cat([i \in 1..6 |-> U16(60000 + i)]) \o Zeros(8)
     \o bones \o mats \o polys
Mdl0Encode(ms) ==
  LET n == Len(ms)  base == 8 + InfoSize(n, 4)
      bs == [i \in 1..n |-> ModelEncode(ms[i])]
      lens == [i \in 1..n |-> Len(bs[i])]
      body == InfoBlock([i \in 1..n |-> [name |-> ms[i].name, u0 |-> i, u2 |-> 1, data |-> U32(base + SumTo(lens, i - 1))]], 4) \o Cat(bs)
  IN MDL0 \o U32(8 + Len(body)) \o body
Mdl0Names(b) == LET es == InfoRead(b, 8, 4) IN [i \in 1..Len(es) |-> es[i].name]

(* ---- rendering ---- *)
Alpha3(a) == 4 * a + a \div 2
Nib(data, i, bits) == LET per == 8 \div bits IN (At(data, (i - 1) \div per) \div Pow2(bits * ((i - 1) % per))) % Pow2(bits)
Rgb(c, a) == <<c[1], c[2], c[3], a>>
Mix(c, d, x, y, n) == <<(x * c[1] + y * d[1]) \div n, (x * c[2] + y * d[2]) \div n, (x * c[3] + y * d[3]) \div n, 31>>
Need(pal, i) == i < Len(pal)
(* <<>>: the palette has no such color; otherwise <<pixel>>; a fully transparent block texel is <<0,0,0,0>> *)
Texel(pal, idx, v) ==
  LET base == 2 * (idx % 16384)  mode == idx \div 16384
      C(n) == pal[base + n + 1]
      Ok(n) == base + n < Len(pal)
  IN CASE v < 2 -> IF Ok(v) THEN <<Rgb(C(v), 31)>> ELSE <<>>
       [] v = 2 /\ mode = 1 -> IF Ok(1) THEN <<Mix(C(0), C(1), 1, 1, 2)>> ELSE <<>>
       [] v = 2 /\ mode = 3 -> IF Ok(1) THEN <<Mix(C(0), C(1), 5, 3, 8)>> ELSE <<>>
       [] v = 2 -> IF Ok(2) THEN <<Rgb(C(2), 31)>> ELSE <<>>
       [] v = 3 /\ mode < 2 -> <<<<0, 0, 0, 0>>>>
       [] v = 3 /\ mode = 2 -> IF Ok(3) THEN <<Rgb(C(3), 31)>> ELSE <<>>
       [] v = 3 /\ mode = 3 -> IF Ok(1) THEN <<Mix(C(0), C(1), 3, 5, 8)>> ELSE <<>>
Indexed(pal, i, a) == IF i < Len(pal) THEN <<Rgb(pal[i + 1], a)>> ELSE <<>>
Pixel(fmt, w, d1, d2, pal, c0, i) ==
  LET x == (i - 1) % w  y == (i - 1) \div w IN
  CASE fmt = 1 -> LET v == d1[i] IN Indexed(pal, v % 32, Alpha3(v \div 32))
    [] fmt = 6 -> LET v == d1[i] IN Indexed(pal, v % 8, v \div 8)
    [] fmt \in {2, 3, 4} -> LET v == Nib(d1, i, Bits1(fmt)) IN Indexed(pal, v, IF v = 0 /\ c0 THEN 0 ELSE 31)
    [] fmt = 7 -> LET v == R16(d1, 2 * (i - 1)) IN <<Rgb(Unpack(v), 31 * (v \div 32768))>>
    [] fmt = 5 -> LET blk == (y \div 4) * (w \div 4) + x \div 4
                      v == (At(d1, 4 * blk + (y % 4)) \div Pow2(2 * (x % 4))) % 4
                  IN Texel(pal, R16(d2, 2 * blk), v)
Render(fmt, w, h, d1, d2, pal, c0) == [i \in 1..(w * h) |-> Pixel(fmt, w, d1, d2, pal, c0, i)]
(* the color of a texel that cannot be seen is not defined by the block-compressed format *)
SamePixel(fmt, want, got) == IF fmt = 5 /\ want[4] = 0 THEN got[4] = 0 ELSE got = want
Wide(p) == <<Widen(p[1]), Widen(p[2]), Widen(p[3]), Widen(p[4])>>
=============================================================================
