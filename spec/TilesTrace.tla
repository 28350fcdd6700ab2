--------------------------------- MODULE TilesTrace ---------------------------------
(* The functions have no state of their own except for the tile list edited by put. *)
EXTENDS TraceBase, Tiles
Raised(e) == e.exc # ""
Pick(m, e) == e.tiles[m.num - e.off + 1]
CanDraw(m, e) == m.num >= e.off /\ m.num - e.off < Len(e.tiles) /\ Drawable(Pick(m, e), e.colors, IF m.fmt = "I8" THEN 0 ELSE m.pal)
Result(e, img, w, h) ==
  IF Raised(e) THEN "drawing raised"
  ELSE IF e.image THEN (IF e.size # <<w, h>> THEN "the image has the wrong size" ELSE IF e.out # [i \in 1..Len(img) |-> Rgba(img[i])] THEN "a pixel of the image is wrong" ELSE "")
  ELSE IF Len(e.out) # Len(img) THEN "wrong number of pixels" ELSE IF e.out # img THEN "a pixel is wrong" ELSE ""
V(s, e) ==
  CASE e.op = "tiles" ->
        (IF Raised(e) THEN "loading tiles raised" ELSE IF e.tiles # LoadTiles(e.data, e.fmt) THEN "loaded tiles are wrong" ELSE "")
    [] e.op = "tilesave" ->
        (IF ~SameFormat(e.tiles) THEN (IF Raised(e) THEN "" ELSE "tiles of different formats were not refused")
         ELSE IF Raised(e) THEN "saving tiles raised" ELSE IF e.out # SaveTiles(e.tiles) THEN "saved tiles are wrong" ELSE "")
    [] e.op = "map" ->
        (IF Raised(e) THEN "loading a tilemap raised" ELSE IF e.maps # LoadMap(e.data, e.fmt) THEN "loaded tilemap is wrong" ELSE "")
    [] e.op = "mapsave" ->
        (IF ~SameFormat(e.maps) THEN (IF Raised(e) THEN "" ELSE "tilemap tiles of different formats were not refused")
         ELSE IF Raised(e) THEN "saving a tilemap raised" ELSE IF e.out # SaveMap(e.maps) THEN "saved tilemap is wrong"
         ELSE IF e.values # [i \in 1..Len(e.maps) |-> MapValue(e.maps[i])] THEN "a tilemap value is wrong" ELSE "")
    [] e.op = "maptile" -> (IF Raised(e) THEN "making a tilemap tile raised" ELSE IF e.tile # MapTile(e.v, e.fmt) THEN "a tilemap tile is wrong" ELSE "")
    [] e.op = "draw" -> (IF ~Drawable(e.tile, e.colors, e.pal) THEN (IF Raised(e) THEN "" ELSE "a missing color was not reported") ELSE Result(e, Draw(e.tile, e.colors, e.pal), 8, 8))
    [] e.op = "drawmap" ->
        (IF ~CanDraw(e.map, e) THEN (IF Raised(e) THEN "" ELSE "a missing tile or color was not reported") ELSE Result(e, DrawMap(e.map, Pick(e.map, e), e.colors), 8, 8))
    [] e.op = "sheet" ->
        (IF \E i \in 1..Len(e.tiles) : ~Drawable(e.tiles[i], e.colors, e.pal) THEN (IF Raised(e) THEN "" ELSE "a missing color was not reported")
         ELSE Result(e, Sheet([i \in 1..Len(e.tiles) |-> Draw(e.tiles[i], e.colors, e.pal)], e.width), 8 * e.width, 8 * Rows(Len(e.tiles), e.width)))
    [] e.op = "drawmaps" ->
        (IF \E i \in 1..Len(e.maps) : ~CanDraw(e.maps[i], e) THEN (IF Raised(e) THEN "" ELSE "a missing tile or color was not reported")
         ELSE Result(e, Sheet([i \in 1..Len(e.maps) |-> DrawMap(e.maps[i], Pick(e.maps[i], e), e.colors)], e.width), 8 * e.width, 8 * Rows(Len(e.maps), e.width)))
    [] e.op = "list" -> ""
    [] e.op = "at" ->
        (IF Raised(e) THEN "looking up a tile raised" ELSE IF e.got # (IF InGrid(Len(s), e.x, e.y, e.width) THEN <<s[e.y * e.width + e.x + 1]>> ELSE <<>>) THEN "the wrong tile was found"
         ELSE IF e.list # s THEN "looking up a tile changed the list" ELSE "")
    [] e.op = "put" ->
        (LET in == InGrid(Len(s), e.x, e.y, e.width) IN
         IF Raised(e) THEN "placing a tile raised" ELSE IF e.got # in THEN "placing a tile reported the wrong result"
         ELSE IF e.list # (IF in THEN [s EXCEPT ![e.y * e.width + e.x + 1] = e.t] ELSE s) THEN "the wrong tile was replaced" ELSE "")
    [] OTHER -> "unknown step"
Post(s, e) == CASE e.op = "list" -> e.list [] e.op = "put" -> e.list [] OTHER -> s
TInit == TraceInit(LAMBDA t : <<>>)
TNext == TraceNext(V, Post)
=============================================================================
