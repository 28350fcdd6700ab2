----------------------------------- MODULE MusicTrace -----------------------------------
(* Trace validation of time lines and songs.  State: a list of events, a song, the end events not shown. *)
EXTENDS Music, TraceBase
S0 == [evs |-> <<>>, song |-> {}, hidden |-> {}]
ToSong(l) == {l[i] : i \in 1..Len(l)}
Song(e) == ToSong(e.song)
(* only track n differs, and it satisfies the law *)
Others(s, e, n) == Nums(Song(e)) = Nums(s.song) /\ \A x \in Nums(s.song) \ {n} : Track(Song(e), x) = Track(s.song, x)
OpenV(e) == LET T == Split(e.evs) IN IF OpenOk(T, Song(e)) THEN "" ELSE "the tracks are wrong"
HiddenOf(e) == LET T == Split(e.evs) IN UNION {Hidden(Track(T, n), Track(Song(e), n)) : n \in Nums(T)}
V(s, e) ==
  CASE e.op = "list" -> ""
    [] e.op = "move" -> MoveLaw(s.evs, e)
    [] e.op = "dur" -> (IF e.exc # "" THEN "raised" ELSE IF e.r # Duration(s.evs, e.mode) THEN "the duration is wrong" ELSE IF e.after # s.evs THEN "the events changed" ELSE "")
    [] e.op = "loop" -> (IF e.was # Looped(s.evs) THEN "looped is wrong" ELSE IF e.is # Looped(e.after) THEN "looped is wrong afterwards" ELSE LoopLaw(s.evs, e, e.after))
    [] e.op = "batch" -> (IF e.raised # e.exc THEN "the edits raised"
                          ELSE IF e.during # s.evs THEN "edits were visible early"
                          ELSE IF e.after # (IF e.raised # "" THEN s.evs ELSE Batch(s.evs, e.ops)) THEN "the edited list is wrong" ELSE "")
    [] e.op = "open" -> (IF e.exc # "" THEN "opening raised" ELSE IF ~e.kept THEN "opening changed the sequence" ELSE OpenV(e))
    [] e.op = "get" -> (IF e.exc # "" THEN "reading a value raised" ELSE IF e.v # Initial(Track(s.song, e.n), e.what) THEN "an initial value is wrong" ELSE "")
    [] e.op = "set" -> (IF e.exc # "" THEN "setting a value raised"
                        ELSE IF ~Others(s, e, e.n) THEN "another track changed"
                        ELSE IF ~SetLaw(Track(s.song, e.n), e.what, e.v, Track(Song(e), e.n)) THEN "the track is wrong after setting a value" ELSE "")
    [] e.op = "velocity" -> LET t == Track(s.song, e.n) IN
                       (IF VelocityRefused(t, e) THEN (IF e.exc = "" THEN "an impossible velocity was not refused" ELSE "")
                        ELSE IF e.exc # "" THEN "changing velocities raised"
                        ELSE IF ~Others(s, e, e.n) THEN "another track changed"
                        ELSE IF Track(Song(e), e.n) # Velocities(t, e) THEN "the velocities are wrong" ELSE "")
    [] e.op = "collapse" -> (IF e.exc # "" THEN "renumbering raised" ELSE IF Song(e) # Collapse(s.song) THEN "the renumbered tracks are wrong" ELSE "")
    [] e.op = "loopall" -> LET r == {n \in Nums(s.song) : Loop(Track(s.song, n), e.start, e.end, e.clear).refused} IN
                       (IF r # {} THEN (IF e.exc = "" THEN "an impossible loop was not refused" ELSE "")
                        ELSE IF e.exc # "" THEN "looping raised"
                        ELSE IF Nums(Song(e)) # Nums(s.song) THEN "the tracks differ after looping"
                        ELSE IF \E n \in Nums(s.song) : LoopLaw(Track(s.song, n), e, Track(Song(e), n)) # "" THEN "a looped track is wrong" ELSE "")
    [] e.op = "edit" -> (IF e.kept THEN "" ELSE "the list a track was made of changed")     \* the user replaces tracks
    [] e.op = "save" -> (IF e.exc # "" THEN "saving raised" ELSE IF ~e.same THEN "saving returned other objects"
                         ELSE IF Song(e) # s.song THEN "saving changed the tracks" ELSE JoinLaw(s.song, s.hidden, e.evs))
    [] e.op = "file" -> (IF e.exc # "" THEN "the file could not be saved or read" ELSE IF ByPos(e.evs) # ByPos(s.evs) THEN "the file holds other events" ELSE "")
    [] e.op = "print" -> (IF e.exc # "" THEN "printing raised" ELSE "")
Post(s, e) ==
  CASE e.op = "list" -> [s EXCEPT !.evs = e.evs]
    [] e.op \in {"move", "loop", "batch"} -> [s EXCEPT !.evs = e.after]
    [] e.op = "open" -> [evs |-> e.evs, song |-> Song(e), hidden |-> HiddenOf(e)]
    [] e.op \in {"set", "velocity", "collapse", "loopall", "edit"} -> [s EXCEPT !.song = Song(e)]
    [] e.op \in {"save", "file"} -> [s EXCEPT !.evs = e.evs]
    [] OTHER -> s
TInit == TraceInit(LAMBDA t : S0)
TNext == TraceNext(V, Post)
=============================================================================
