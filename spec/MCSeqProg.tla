--------------------------------- MODULE MCSeqProg ---------------------------------
(* All programs of N events over a small alphabet.  Acceptable ones are        *)
(* written out as cases.                                                        *)
EXTENDS Seq, Json, IOUtils, CSV
CONSTANTS N, WithTracks, WithJunk
VARIABLES p, done
Alphabet == {Ev(60, <<100, 0, 200>>), Ev(IfK, <<>>), Ev(EndK, <<>>), Ev(RetK, <<>>)} \cup (IF WithJunk THEN {RawEv(<<130>>)} ELSE {})
            \cup {RefEv(k, <<>>, t) : k \in {JumpK, CallK}, t \in 1..N}
            \cup (IF WithTracks THEN {RefEv(TrackK, <<1>>, t) : t \in 1..N} ELSE {})
Init == done = FALSE /\ p \in [1..N -> Alphabet] /\ \E i \in 1..N : p[i].k \in {EndK, JumpK}
Next == ~done /\ done' = TRUE /\ UNCHANGED p
(* the executed events, at the level of the program *)
Ok == LET d == Data(p) IN Acceptable(d, {0})
Laws == ~done =>
  LET d == Data(p)  o == Offsets(p)  all == {o[i] : i \in 1..N} IN
  Acceptable(d, {0}) =>
    /\ Reach(d, {0}) \subseteq May(d, {0})
    /\ Must(d, {0}) \subseteq Reach(d, {0})
    /\ StrictMust(d, {0}) \subseteq Reach(d, {0})
    /\ Must(d, {0}) \subseteq StrictMust(d, {0})
    /\ Reach(d, {0}) \subseteq all
    (* the program itself is a reading of its data when all of it is executed *)
    /\ Reach(d, {0}) = all => ReadLaw(d, <<0>>, p, <<1>>, Must(d, {0})) = ""
Emit == ~done /\ Ok => CSVWrite("%1$s", <<ToJson(p)>>, IOEnv.CASES)
=============================================================================
