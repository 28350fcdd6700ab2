-------------------------------- MODULE ColorTrace --------------------------------
(* Every event maps a vector of inputs: e.xs[i] (format e.from) gave e.ys[i].        *)
EXTENDS TraceBase, Color
Raised(e) == e.exc # ""
(* lookup table order of the four 8-bit channels, most significant first *)
Order(o, c) == CASE o = "RGBA" -> <<c[4], c[3], c[2], c[1]>> [] o = "ARGB" -> <<c[3], c[2], c[1], c[4]>>
                 [] o = "BGRA" -> <<c[4], c[1], c[2], c[3]>> [] o = "ABGR" -> <<c[1], c[2], c[3], c[4]>>
V(s, e) ==
  CASE e.op = "map" -> (IF Raised(e) THEN "conversion raised"
          ELSE IF Len(e.xs) # Len(e.ys) THEN "wrong number of results"
          ELSE IF \E i \in 1..Len(e.xs) : ~ConvOk(e.from, e.to, e.xs[i], e.ys[i]) THEN "wrong color from " \o e.fn ELSE "")
    [] e.op = "lut" -> (IF Raised(e) THEN "lookup tables raised" ELSE IF Len(e.ys) # 4096 THEN "lookup table size wrong"
          ELSE IF \E i \in 1..Len(e.ys) : e.ys[i] # Order(e.order, From5("c8", Unpack(e.base + i - 1))) THEN "wrong lookup table entry" ELSE "")
    [] e.op = "palload" -> (IF Raised(e) THEN "loading a palette raised"
          ELSE IF e.out # [i \in 1..(Len(e.data) \div 2) |-> Unpack(R16(e.data, 2 * (i - 1)))] THEN "loaded palette wrong" ELSE "")
    [] e.op = "palsave" -> (IF Raised(e) THEN "saving a palette raised"
          ELSE IF e.out # Cat([i \in 1..Len(e.colors) |-> U16(PackC(e.colors[i]))]) THEN "saved palette wrong" ELSE "")
TInit == TraceInit(LAMBDA t : 0)
TNext == TraceNext(V, LAMBDA s, e : s)
=============================================================================
