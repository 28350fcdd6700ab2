------------------------------------ MODULE MCTex ------------------------------------
(* All small texture blocks over a few textures and palettes, in all layouts; written by the reference *)
(* encoder, they decode to themselves and satisfy the layout law; model files likewise.                  *)
EXTENDS Tex, Json, IOUtils, CSV
CONSTANTS MaxTex, MaxPal, Wide2
VARIABLES texs, pals, lay, mode, done
vars == <<texs, pals, lay, mode, done>>
Ramp(n, s) == [i \in 1..n |-> (i * 37 + s) % 256]
TexMk(fmt, w, h, s) == LET t == [name |-> <<84, 48 + fmt>>, u0 |-> s, u2 |-> 3, rs |-> s % 2 = 1, rt |-> FALSE, ms |-> TRUE, mt |-> s % 3 = 0, w |-> w, h |-> h,
    fmt |-> fmt, c0 |-> s % 2 = 0, ctm |-> s % 4, u4 |-> <<s, 0, 1, 128>>, d1 |-> <<>>, d2 |-> <<>>] IN [t EXCEPT !.d1 = Ramp(Size1(t), s), !.d2 = Ramp(Size2(t), s + 1)]
TexPool == {TexMk(fmt, 8, 8, fmt) : fmt \in (IF Wide2 THEN 0..7 ELSE {0, 2, 5, 7})} \cup (IF Wide2 THEN {TexMk(5, 16, 8, 9), TexMk(3, 8, 32, 2)} ELSE {TexMk(5, 16, 8, 9)})
PalMk(n, s) == [name |-> <<80, 48 + s>>, u0 |-> 1, u2 |-> s, uh |-> s, cols |-> [i \in 1..n |-> Unpack((i * 4663 + 40000 * s) % 65536)]]
PalPool == {PalMk(4, 0), PalMk(8, 1), [PalMk(4, 0) EXCEPT !.name = <<81>>]} \cup (IF Wide2 THEN {PalMk(16, 2)} ELSE {})
UpTo(S, n) == UNION {[1..i -> S] : i \in 0..n}
Lays == [rev : BOOLEAN, share : BOOLEAN, gap : {0, 4}]
File == [u08 |-> <<1, 2, 3, 4>>, u10 |-> <<255, 255, 255, 255>>, u18 |-> <<0, 0, 0, 128>>, u20 |-> <<9, 0, 0, 0>>, u2C |-> <<0, 7, 0, 0>>, u32 |-> 513, texs |-> texs, pals |-> pals]
Mods == <<[name |-> <<77>>, mats |-> <<<<97>>, <<98, 99>>>>, texs |-> <<<<84>>>>, pals |-> <<>>, polys |-> <<[name |-> <<112>>, dl |-> <<64, 36, 65, 0, 1, 0, 0, 0, 9, 9, 9, 9>>]>>],
          [name |-> Rep(16, 120), mats |-> <<>>, texs |-> <<>>, pals |-> <<<<80>>>>, polys |-> <<>>]>>
Mdl == CASE mode = "btx" -> <<>> [] mode = "none" -> <<>> [] mode = "m0" -> <<Mdl0Encode(<<>>)>> [] mode \in {"m1", "m1t", "m1n"} -> <<Mdl0Encode(SubSeq(Mods, 1, 1))>> [] mode = "m2" -> <<Mdl0Encode(Mods)>>
Model == [mdl |-> Mdl, tex |-> IF mode = "m1n" THEN EmptyBlock ELSE File]
Init == /\ done = FALSE /\ texs \in UpTo(TexPool, MaxTex) /\ pals \in UpTo(PalPool, MaxPal) /\ lay \in Lays
        /\ mode \in {"btx", "none", "m0", "m1", "m1t", "m1n", "m2"}
        /\ mode # "btx" => Len(texs) <= 1 /\ Len(pals) <= 1
        /\ mode = "m1n" => texs = <<>> /\ pals = <<>> /\ lay = Canon
Next == ~done /\ done' = TRUE /\ UNCHANGED <<texs, pals, lay, mode>>
Bytes0 == IF mode = "btx" THEN BtxEncode(File, lay) ELSE BmdEncode(Model, mode # "m1n", IF mode = "m1t" THEN 2 ELSE 1, lay)
(* Only what fills its areas exactly obeys the layout law: sharing does not *)
Plain == \A i, j \in 1..Len(pals) : i < j => pals[i].cols # pals[j].cols
Law == done \/ LET b == Bytes0 IN
  IF mode = "btx" THEN BtxDecode(b) = File /\ ((lay.share => Plain) <=> BtxLaw(b, File) = "")
  ELSE BmdDecode(b) = Model /\ BmdLaw(b, Model) = "" /\ (Mdl # <<>> => Mdl0Names(Mdl[1]) = (CASE mode = "m0" -> <<>> [] mode = "m2" -> <<<<77>>, Rep(16, 120)>> [] OTHER -> <<<<77>>>>))
Emit == ~done => CSVWrite("%1$s", <<ToJson([mode |-> mode, data |-> Bytes0, tex |-> Model.tex, mdl |-> Mdl])>>, IOEnv.CASES)
=============================================================================
