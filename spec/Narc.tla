---------------------------------- MODULE Narc ----------------------------------
(***************************************************************************)
(* NARC archives: [big |-> big-endian beginning?, files |-> <<bytes, ...>>, *)
(* names |-> folder tree].                                                  *)
(***************************************************************************)
EXTENDS Fnt

EmptyNarc == [big |-> FALSE, files |-> <<>>, names |-> EmptyFolder]
Begin(big) == IF big THEN <<254, 255, 0, 1>> ELSE <<255, 254, 1, 0>>

(* canonical writer *)
NarcEncode(n) ==
  LET lens == Map(n.files, LAMBDA f : AlignUp(Len(f), 4))
      fat == Cat([i \in 1..Len(n.files) |-> U32(SumTo(lens, i-1)) \o U32(SumTo(lens, i-1) + Len(n.files[i]))])
      img == Cat(Map(n.files, LAMBDA f : PadTo(f, 4, 0)))
      names == PadTo(FntEncode(n.names), 4, 255)
      body == <<66,84,65,70>> \o U32(12 + Len(fat)) \o U32(Len(n.files)) \o fat
              \o <<66,84,78,70>> \o U32(8 + Len(names)) \o names
              \o <<71,77,73,70>> \o U32(8 + Len(img)) \o img
  IN <<78,65,82,67>> \o Begin(n.big) \o U32(16 + Len(body)) \o U16(16) \o U16(3) \o body

FatSize(b) == R32(b, 20)
NFiles(b) == R32(b, 24)
FntOff(b) == 16 + FatSize(b)
FntSize(b) == R32(b, FntOff(b) + 4)
ImgOff(b) == FntOff(b) + FntSize(b)
ImgSize(b) == R32(b, ImgOff(b) + 4)
FStart(b, i) == R32(b, 28 + 8 * (i - 1))
FEnd(b, i) == R32(b, 32 + 8 * (i - 1))

(* reader of any archive *)
NarcDecode(b) ==
  [big |-> Slice(b, 4, 2) = <<254, 255>>,
   files |-> [i \in 1..NFiles(b) |-> Slice(b, ImgOff(b) + 8 + FStart(b, i), FEnd(b, i) - FStart(b, i))],
   names |-> FntDecode(Slice(b, FntOff(b) + 8, FntSize(b) - 8))]

(* the layout a saved archive must have; "" or the violated clause *)
NarcLayout(b, n) ==
  CASE Len(b) < 44 -> "archive too short"
    [] Slice(b, 0, 4) # <<78,65,82,67>> -> "wrong magic"
    [] Slice(b, 4, 4) # Begin(n.big) -> "header endianness not kept"
    [] R32(b, 8) # Len(b) -> "recorded file size wrong"
    [] Slice(b, 12, 4) # <<16, 0, 3, 0>> -> "header size or block count wrong"
    [] Slice(b, 16, 4) # <<66,84,65,70>> -> "file allocation block missing"
    [] NFiles(b) # Len(n.files) -> "number of files wrong"
    [] FatSize(b) # 12 + 8 * NFiles(b) -> "allocation block size wrong"
    [] FntOff(b) + 8 > Len(b) \/ Slice(b, FntOff(b), 4) # <<66,84,78,70>> -> "name block missing"
    [] FntSize(b) < 8 \/ FntSize(b) % 4 # 0 \/ ImgOff(b) + 8 > Len(b) -> "name block size wrong"
    [] Slice(b, ImgOff(b), 4) # <<71,77,73,70>> -> "file data block missing"
    [] ImgOff(b) + ImgSize(b) # Len(b) -> "block sizes do not add up"
    [] \E i \in 1..NFiles(b) : FStart(b, i) % 4 # 0 -> "file not aligned"
    [] \E i \in 1..NFiles(b) : ~(0 <= FStart(b, i) /\ FStart(b, i) <= FEnd(b, i) /\ FEnd(b, i) <= ImgSize(b) - 8) -> "file outside the data block"
    [] \E i, j \in 1..NFiles(b) : i < j /\ FStart(b, i) < FEnd(b, j) /\ FStart(b, j) < FEnd(b, i) -> "files overlap"
    [] NarcDecode(b).files # n.files -> "saved files differ"
    [] NarcDecode(b).names # n.names -> "saved names differ"
    [] OTHER -> ""

(* ---- operations ------------------------------------------------------------ *)
HasFile(n, path) == LET i == IdOf(n.names, path) IN i # <<>> /\ i[1] < Len(n.files)
GetFile(n, path) == n.files[IdOf(n.names, path)[1] + 1]
SetFile(n, path, d) == [n EXCEPT !.files[IdOf(n.names, path)[1] + 1] = d]
AddFile(n, path, name, d) == [n EXCEPT !.files = Append(@, d), !.names = AddAt(@, path, <<name>>, <<>>)]
DropLast(n) == [n EXCEPT !.files = SubSeq(@, 1, Len(@) - 1)]
=============================================================================
