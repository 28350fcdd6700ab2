---------------------------------- MODULE MCTexel ----------------------------------
(* Properties of the pixel definitions themselves, over all texel values, modes and component pairs:       *)
(* mixes stay between their ends, mode 3 blends are monotonic, alpha covers 0..31 and transparency shows  *)
(* only where the format says so.                                                                            *)
EXTENDS Tex
VARIABLES a, b, mode
Init == a \in 0..31 /\ b \in 0..31 /\ mode \in 0..3
Next == UNCHANGED <<a, b, mode>>
Pal == <<<<a, b, 31 - a, 0>>, <<b, a, 31 - b, 1>>, <<1, 2, 3, 1>>, <<4, 5, 6, 0>>>>
T(v) == Texel(Pal, mode * 16384, v)
Ordered(x, lo, hi) == MinI(lo, hi) <= x /\ x <= MaxI(lo, hi)
Between == \A v \in 2..3 : (mode = 3 \/ (mode = 1 /\ v = 2)) => \A c \in 1..3 : Ordered(T(v)[1][c], Pal[1][c], Pal[2][c])
Monotone == mode = 3 => \A c \in 1..3 : Ordered(T(2)[1][c], Pal[1][c], T(3)[1][c]) \/ a = b
Opacity == \A v \in 0..3 : (T(v)[1][4] = 0) <=> (v = 3 /\ mode < 2)
Symmetric == mode = 3 => Mix(Pal[1], Pal[2], 3, 5, 8) = Mix(Pal[2], Pal[1], 5, 3, 8)
Short == Texel(SubSeq(Pal, 1, 2), mode * 16384 + 1, 0) = <<>> /\ (mode = 2 => Texel(SubSeq(Pal, 1, 3), mode * 16384, 3) = <<>>)
Alphas == {Alpha3(i) : i \in 0..7} \subseteq 0..31 /\ Alpha3(0) = 0 /\ Alpha3(7) = 31 /\ \A i \in 0..6 : Alpha3(i) < Alpha3(i + 1)
(* the indices found in a byte are its bits, lowest first *)
Nibbles == LET v == a * 8 + (b % 8) IN
  /\ Nib(<<v>>, 1, 2) + 4 * Nib(<<v>>, 2, 2) + 16 * Nib(<<v>>, 3, 2) + 64 * Nib(<<v>>, 4, 2) = v
  /\ Nib(<<v>>, 1, 4) + 16 * Nib(<<v>>, 2, 4) = v /\ Nib(<<v>>, 1, 8) = v
(* transparent color 0 touches index 0 of plain paletted formats and nothing else *)
Zero == LET v == a * 8 + (b % 8)  P == [i \in 1..256 |-> <<i % 32, i \div 8, 0, 0>>]
            On(f) == Pixel(f, 1, <<v, v>>, <<0, 0>>, P, TRUE, 1)  Off(f) == Pixel(f, 1, <<v, v>>, <<0, 0>>, P, FALSE, 1)
        IN /\ \A f \in {1, 6, 7} : On(f) = Off(f)
           /\ \A f \in {2, 3, 4} : (On(f) # Off(f)) <=> v % Pow2(Bits1(f)) = 0
=============================================================================
