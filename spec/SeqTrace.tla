---------------------------------- MODULE SeqTrace ----------------------------------
(* Events, lists of events and programs; each event of a trace stands alone.       *)
EXTENDS TraceBase, Seq
Raised(e) == e.exc # ""
SetOf(s) == {s[i] : i \in 1..Len(s)}
WithOffset(x, t) == IF x.ref = <<>> THEN x ELSE [x EXCEPT !.ref = <<t>>]
V(s, e) ==
  CASE e.op = "make" ->    (* an event object: its parameters, bytes, declared length *)
         (IF ~EvOk(e.want) THEN "driver made an impossible event"
          ELSE IF Raised(e) THEN "an event with legal parameters was refused"
          ELSE IF e.got # e.want THEN "an event object does not hold its parameters"
          ELSE IF e.out # EvEncode(e.want, e.target) THEN "an event was saved to the wrong bytes"
          ELSE IF e.len # Len(e.out) THEN "an event declares a length that differs from the bytes it occupies"
          ELSE "")
    [] e.op = "readone" -> (* the first event read from the given data *)
         (LET x == DecodeAt(e.data, 0) IN
          IF Raised(e) THEN "reading an event raised"
          ELSE IF e.got # x.ev THEN "an event was read differently from its data" ELSE "")
    [] e.op = "save" ->
         (IF \E i \in 1..Len(e.evs) : e.evs[i].ref = <<0>> THEN (IF Raised(e) THEN "" ELSE "a reference to an event outside the list was saved")
          ELSE IF Raised(e) THEN "saving events raised"
          ELSE IF e.out # Data(e.evs) THEN
            (LET o == Offsets(e.evs) IN IF Len(e.out) # Len(Data(e.evs)) THEN "saved events have the wrong length" ELSE "events were not saved back to back with the right references")
          ELSE IF e.offs # [i \in 1..Len(e.notable) |-> Offsets(e.evs)[e.notable[i]]] THEN "wrong offsets of notable events" ELSE "")
    [] e.op = "parse" ->
         (LET S == SetOf(e.starts) \cup (IF e.starts = <<>> /\ e.data # <<>> THEN {0} ELSE {}) IN
          IF ~InScope(e.data, S) THEN ""
          ELSE LET must == IF e.strict THEN StrictMust(e.data, S) ELSE Must(e.data, S) IN
          IF Raised(e) THEN (IF Acceptable(e.data, S) THEN "well-formed sequence data was refused" ELSE "")
          ELSE IF \E o \in must : DecodeAt(e.data, o).st = "bad" THEN "broken sequence data was accepted"
          ELSE ReadLaw(e.data, e.starts, e.evs, e.notable, must))
    [] OTHER -> "unknown step"
TInit == TraceInit(LAMBDA t : 0)
TNext == TraceNext(V, LAMBDA s, e : s)
=============================================================================
