---------------------------------- MODULE MCTiles ----------------------------------
(* Every tilemap value; flips are involutions; drawing puts every pixel in place. *)
EXTENDS Tiles, Json, IOUtils, CSV
CONSTANTS Step
VARIABLES v, fmt, done
Init == done = FALSE /\ v \in {Step * i : i \in 0..(65535 \div Step)} /\ fmt \in {"I10", "I8"} /\ (fmt = "I8" => v < 256 * Step)
Next == ~done /\ done' = TRUE /\ UNCHANGED <<v, fmt>>
Val == IF fmt = "I8" THEN v \div Step ELSE v
MapInv == MapValue(MapTile(Val, fmt)) = Val /\ MapOk(MapTile(Val, fmt))
Ramp == [i \in 1..64 |-> i - 1]
Pixels == LET m == MapTile(Val, fmt)  t == [pix |-> [i \in 1..64 |-> (i * 7 + Val) % 16], fmt |-> "I4"]
              cs == [i \in 1..256 |-> <<i % 32, i \div 32, (i * 3) % 32, i % 2>>]
              d == DrawMap(m, t, cs)
          IN /\ LoadTiles(SaveTiles(<<t, t>>), "I4") = <<t, t>>
             /\ \A i \in 1..64 : (d[i] = Clear) <=> (t.pix[IF m.fmt = "I8" THEN i ELSE FlipAt(i, m.h, m.v)] = 0)
             /\ \A i \in 1..64 : FlipAt(FlipAt(i, m.h, m.v), m.h, m.v) = i
             /\ \A w \in 1..3 : \A k \in 0..4 : LET s == Sheet([j \in 1..k |-> [i \in 1..64 |-> <<j, i, 0, 1>>]], w) IN
                  \A j \in 1..k : \A i \in {1, 8, 9, 57, 64} : s[(((j - 1) \div w) * 8 + ((i - 1) \div 8)) * 8 * w + ((j - 1) % w) * 8 + ((i - 1) % 8) + 1] = <<j, i, 0, 1>>
PixelLaw == done \/ Pixels
Emit == ~done => CSVWrite("%1$s", <<ToJson([v |-> Val, m |-> MapTile(Val, fmt)])>>, IOEnv.CASES)
=============================================================================
