---------------------------------- MODULE MCStore ----------------------------------
(* Every history of up to MaxOps edits of every small file, saved with a table of fields   *)
(* that hold numbers below Room: reading back gives the file whenever the image fits, and  *)
(* extents are laid out as required.  Histories are emitted for the driver, which applies  *)
(* them to large files of every format.                                                    *)
EXTENDS Store, TLC, Json, IOUtils, CSV
CONSTANTS MaxItems, MaxLen, MaxOps, Align, Room
VARIABLES f, ops
Place(x, first, n) == CASE x = "first" -> first [] x = "last" -> n [] x = "mid" -> (n + 1) \div 2
Init == /\ ops = <<>>
        /\ \E c \in 0..MaxItems : \E n \in [1..c -> 0..MaxLen] : f = [d |-> [i \in 1..c |-> i], n |-> n, head |-> <<7>>]
Next == /\ Len(ops) < MaxOps
        /\ \E op \in {"put", "new", "del"}, x \in {"first", "mid", "last"}, m \in {0, MaxLen} :
             LET c == Len(f.d) + (IF op = "new" THEN 1 ELSE 0)
                 i == Place(x, 1, c)
             IN /\ c > 0 /\ CanEdit(f, op, i)
                /\ ops' = Append(ops, [op |-> op, at |-> x])
                /\ f' = (CASE op = "put" -> PutItem(f, i, 10 + Len(ops), m)
                           [] op = "new" -> NewItem(f, i, 10 + Len(ops), m)
                           [] op = "del" -> DelItem(f, i))
Up(x) == ((x + Align - 1) \div Align) * Align
RECURSIVE Lay(_, _, _)
Lay(n, i, at) == IF i > Len(n) THEN <<>> ELSE <<<<at, at + n[i]>>>> \o Lay(n, i + 1, Up(at + n[i]))
RECURSIVE Units(_, _, _, _)
Units(g, ext, i, img) == IF i > Len(ext) THEN img
    ELSE Units(g, ext, i + 1, img \o [j \in 1..ext[i][1] - Len(img) |-> 0] \o [j \in 1..g.n[i] |-> g.d[i]])
Store2(g) == LET ext == Lay(g.n, 1, 0) IN [tab |-> [i \in 1..Len(ext) |-> <<ext[i][1] % Room, ext[i][2] % Room>>], img |-> Units(g, ext, 1, <<>>)]
Cut(img, a, b) == SubSeq(img, a + 1, b)
Fits(g) == \A i \in 1..Len(g.n) : Lay(g.n, 1, 0)[i][2] < Room
ReadBack == LET w == Store2(f) IN Fits(f) =>
    /\ ExtentsFit(w.tab, f.n, Align, 0, Len(w.img))
    /\ \A i \in 1..Len(f.n) : Cut(w.img, w.tab[i][1], w.tab[i][2]) = [j \in 1..f.n[i] |-> f.d[i]]
(* an image that does not fit its fields is not read back: the bound is needed *)
Overflow == ~Fits(f) => ~ExtentsFit(Store2(f).tab, f.n, Align, 0, Len(Store2(f).img))
Emit == Len(ops) = MaxOps /\ Len(f.d) = 1 /\ f.n[1] = 0 => CSVWrite("%1$s", <<ToJson(ops)>>, IOEnv.CASES)
=============================================================================
