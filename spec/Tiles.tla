------------------------------------ MODULE Tiles ------------------------------------
(***************************************************************************)
(* 2D graphics: image tiles, tilemap tiles and how they are drawn.          *)
(*                                                                         *)
(* An image tile is [pix, fmt]: 64 color indices, format "I4" or "I8".      *)
(* A tilemap tile is [num, h, v, pal, fmt], format "I10" or "I8".           *)
(* A color is <<r, g, b, a>>; index 0 is transparent, every other color is  *)
(* opaque whatever its alpha bit.                                           *)
(***************************************************************************)
EXTENDS Bytes
Clear == <<0, 0, 0, 0>>
TileSize(fmt) == IF fmt = "I4" THEN 32 ELSE 64
PixelsOf(data, fmt) ==
  IF fmt = "I4" THEN [i \in 1..64 |-> LET b == data[(i + 1) \div 2] IN IF i % 2 = 1 THEN b % 16 ELSE b \div 16] ELSE data
DataOf(t) == IF t.fmt = "I4" THEN [i \in 1..32 |-> t.pix[2 * i - 1] + 16 * t.pix[2 * i]] ELSE t.pix
LoadTiles(data, fmt) == LET n == TileSize(fmt) IN [i \in 1..Len(data) \div n |-> [pix |-> PixelsOf(Slice(data, n * (i - 1), n), fmt), fmt |-> fmt]]
SaveTiles(ts) == Cat([i \in 1..Len(ts) |-> DataOf(ts[i])])
SameFormat(ts) == \A i \in 1..Len(ts) : ts[i].fmt = ts[1].fmt
TileOk(t) == Len(t.pix) = 64 /\ \A i \in 1..64 : t.pix[i] \in 0..(IF t.fmt = "I4" THEN 15 ELSE 255)

Bit(v, n) == (v \div (2^n)) % 2 = 1
MapTile(v, fmt) == IF fmt = "I8" THEN [num |-> v % 256, h |-> FALSE, v |-> FALSE, pal |-> 0, fmt |-> fmt]
                   ELSE [num |-> v % 1024, h |-> Bit(v, 10), v |-> Bit(v, 11), pal |-> (v \div 4096) % 16, fmt |-> fmt]
MapValue(m) == IF m.fmt = "I8" THEN m.num % 256 ELSE (m.num % 1024) + (IF m.h THEN 1024 ELSE 0) + (IF m.v THEN 2048 ELSE 0) + 4096 * (m.pal % 16)
MapOk(m) == m.num \in 0..(IF m.fmt = "I8" THEN 255 ELSE 1023) /\ m.pal \in 0..15
LoadMap(data, fmt) == IF fmt = "I8" THEN [i \in 1..Len(data) |-> MapTile(data[i], fmt)] ELSE [i \in 1..Len(data) \div 2 |-> MapTile(R16(data, 2 * (i - 1)), fmt)]
SaveMap(ms) == IF ms = <<>> THEN <<>> ELSE IF ms[1].fmt = "I8" THEN [i \in 1..Len(ms) |-> MapValue(ms[i])]
               ELSE [i \in 1..2 * Len(ms) |-> LET v == MapValue(ms[(i + 1) \div 2]) IN IF i % 2 = 1 THEN v % 256 ELSE v \div 256]

(* ---- drawing ---- *)
Draw(t, colors, pal) ==
  LET base == pal * (IF t.fmt = "I4" THEN 16 ELSE 256) IN
  [i \in 1..64 |-> IF t.pix[i] = 0 THEN Clear ELSE LET c == colors[base + t.pix[i] + 1] IN <<c[1], c[2], c[3], 1>>]
Drawable(t, colors, pal) == \A i \in 1..64 : t.pix[i] = 0 \/ pal * (IF t.fmt = "I4" THEN 16 ELSE 256) + t.pix[i] < Len(colors)
FlipAt(i, h, v) == LET x == (i - 1) % 8   y == (i - 1) \div 8 IN 8 * (IF v THEN 7 - y ELSE y) + (IF h THEN 7 - x ELSE x) + 1
DrawMap(m, t, colors) ==
  LET d == Draw(t, colors, IF m.fmt = "I8" THEN 0 ELSE m.pal) IN
  IF m.fmt = "I8" THEN d ELSE [i \in 1..64 |-> d[FlipAt(i, m.h, m.v)]]
Rows(n, width) == (n + width - 1) \div width
(* tiles drawn one after another in rows of `width` tiles *)
Sheet(ds, width) ==
  [i \in 1..64 * width * Rows(Len(ds), width) |->
     LET x == (i - 1) % (8 * width)  y == (i - 1) \div (8 * width)
         t == (y \div 8) * width + (x \div 8) + 1
     IN IF t > Len(ds) THEN Clear ELSE ds[t][8 * (y % 8) + (x % 8) + 1]]
Expand5(c) == 8 * c + (c \div 4)
Rgba(c) == <<Expand5(c[1]), Expand5(c[2]), Expand5(c[3]), IF c[4] = 1 THEN 255 ELSE 0>>
InGrid(n, x, y, width) == x \in 0..width - 1 /\ y >= 0 /\ y * width + x < n
=============================================================================
