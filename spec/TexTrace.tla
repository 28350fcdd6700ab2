--------------------------------- MODULE TexTrace ---------------------------------
(* State: the file an object stands for, [kind, mdl, tex]. *)
EXTENDS TraceBase, Tex
Raised(e) == e.exc # ""
New(kd) == [kind |-> kd, mdl |-> <<>>, tex |-> EmptyBlock]
FileOk(f) == \A i \in 1..Len(f.texs) : TexOk(f.texs[i])
Diff(s, o) ==
  IF o.tex.texs # s.tex.texs THEN "the textures are wrong" ELSE IF o.tex.pals # s.tex.pals THEN "the palettes are wrong"
  ELSE IF o.tex # s.tex THEN "a file-level value is wrong"
  ELSE IF s.kind = "bmd" /\ o.models # (IF s.mdl = <<>> THEN <<>> ELSE Mdl0Names(s.mdl[1])) THEN "the models are wrong" ELSE ""
Loaded(e) == IF e.kind = "btx" THEN [kind |-> "btx", mdl |-> <<>>, tex |-> BtxDecode(e.data)]
             ELSE LET m == BmdDecode(e.data) IN [kind |-> "bmd", mdl |-> m.mdl, tex |-> m.tex]
RenderV(e) ==
  LET want == Render(e.fmt, e.w, e.h, e.d1, e.d2, e.pal, e.c0)
      can == \A i \in 1..Len(want) : want[i] # <<>>
  IN IF ~can THEN (IF Raised(e) THEN "" ELSE "a missing color was not reported")
     ELSE IF Raised(e) THEN "rendering raised"
     ELSE IF Len(e.out) # Len(want) THEN "wrong number of pixels"
     ELSE IF e.image THEN (IF e.size # <<e.w, e.h>> THEN "the image has the wrong size"
                           ELSE IF \E i \in 1..Len(want) : ~SamePixel(e.fmt, Wide(want[i][1]), e.out[i]) THEN "a pixel of the image is wrong" ELSE "")
     ELSE IF \E i \in 1..Len(want) : ~SamePixel(e.fmt, want[i][1], e.out[i]) THEN "a pixel is wrong" ELSE ""
V(s, e) ==
  CASE e.op = "new" -> (IF Raised(e) THEN "creating raised" ELSE Diff(New(e.kind), e.obs))
    [] e.op = "load" -> (IF Raised(e) THEN "loading raised" ELSE Diff(Loaded(e), e.obs))
    [] e.op = "edit" -> (IF Raised(e) THEN "editing raised" ELSE Diff([s EXCEPT !.tex = e.tex], e.obs))
    [] e.op = "save" ->
        (IF Raised(e) THEN "saving raised" ELSE IF Diff(s, e.obs) # "" THEN "saving changed the object"
         ELSE IF s.kind = "btx" THEN BtxLaw(e.out, s.tex) ELSE BmdLaw(e.out, s))
    [] e.op = "export" -> (IF Raised(e) THEN "exporting raised" ELSE IF e.got # s.tex THEN "the exported textures are wrong" ELSE Diff(s, e.obs))
    [] e.op = "import" -> (IF Raised(e) THEN "importing raised" ELSE Diff([s EXCEPT !.tex = e.tex], e.obs))
    [] e.op = "params" -> (IF Raised(e) THEN "making a texture raised" ELSE IF e.view # Params(e.p) THEN "texture parameters are wrong" ELSE IF e.back # e.p THEN "texture parameters are not kept" ELSE "")
    [] e.op = "refuse" -> (IF Raised(e) THEN "" ELSE "something that cannot be stored was not refused")
    [] e.op = "large" ->
        (* sizes only: [fmt, w, h] of textures and numbers of colors of palettes too large to record; same = reloading gave the same *)
        (LET N(c) == SumTo([i \in 1..Len(e.dims) |-> IF (e.dims[i].fmt = 5) = c THEN Size1(e.dims[i]) \div 8 ELSE 0], Len(e.dims)) IN
         IF N(TRUE) > 65535 \/ N(FALSE) > 65535 \/ SumTo(e.pals, Len(e.pals)) \div 4 > 65535 THEN (IF Raised(e) THEN "" ELSE "too much texture data was not refused")
         ELSE IF Raised(e) THEN "saving raised" ELSE IF ~e.same THEN "a large texture was not kept" ELSE "")
    [] e.op = "render" -> RenderV(e)
    [] e.op = "bpp" -> (IF Raised(e) THEN "bits per pixel raised" ELSE IF e.got # <<Bits1(e.fmt), IF e.fmt = 5 THEN 1 ELSE 0>> THEN "bits per pixel are wrong" ELSE "")
    [] OTHER -> "unknown step"
Post(s, e) == CASE e.op = "new" -> New(e.kind) [] e.op = "load" -> Loaded(e) [] e.op \in {"edit", "import"} -> [s EXCEPT !.tex = e.tex] [] OTHER -> s
TInit == TraceInit(LAMBDA t : New("btx"))
TNext == TraceNext(V, Post)
=============================================================================
