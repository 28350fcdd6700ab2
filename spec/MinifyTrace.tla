----------------------------------- MODULE MinifyTrace -----------------------------------
EXTENDS Minify, TraceBase
S0 == [bank |-> [insts |-> <<>>, inacc |-> <<>>, unk |-> 0, wars |-> <<>>], waves |-> <<>>, song |-> <<>>]
V(s, e) ==
  CASE e.op = "given" -> ""
    [] e.op = "minify" -> (IF e.exc # "" THEN "minifying raised" ELSE MinLaw(s.bank, s.waves, s.song, e.bank, e.waves, e.song))
    [] e.op = "untouched" -> (IF e.exc # "" THEN "minifying raised" ELSE IF e.bank # s.bank \/ e.waves # s.waves \/ e.song # s.song THEN "something changed" ELSE "")
    [] e.op = "file" -> (IF e.exc # "" THEN "the bank could not be saved and loaded"
                         ELSE IF \E j \in 1..Len(s.song) : Sounds(e.bank, s.waves, s.song[j]) # Sounds(s.bank, s.waves, s.song[j]) THEN "a note sounds different after saving" ELSE "")
Post(s, e) == IF e.op = "file" THEN s ELSE [bank |-> e.bank, waves |-> e.waves, song |-> e.song]
TInit == TraceInit(LAMBDA t : S0)
TNext == TraceNext(V, Post)
=============================================================================
