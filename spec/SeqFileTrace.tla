-------------------------------- MODULE SeqFileTrace --------------------------------
(* Each event carries obs, what is observable after the call:                        *)
(* [parsed, evsRaised, dataRaised, evs, data, seqs, unk, par].                       *)
(* full = FALSE judges only which representation is available, raw data and saved    *)
(* files; full = TRUE judges everything.                                             *)
EXTENDS TraceBase, SeqFile
Raised(e) == e.exc # ""
NoState == [kind |-> "", parsed |-> FALSE, data |-> <<>>, evs |-> <<>>, seqs |-> <<>>, unk |-> 0, par |-> <<>>]
Same(a, b) == a.parsed = b.parsed /\ a.first = b.first /\ a.off = b.off
ObsDiff(s, o, full) ==
  CASE o.parsed # s.parsed -> "the parsed flag is wrong"
    [] s.parsed /\ o.evsRaised -> "events are not accessible although parsed"
    [] s.parsed /\ ~o.dataRaised -> "raw data is accessible although parsed"
    [] ~s.parsed /\ ~o.evsRaised -> "events are accessible although not parsed"
    [] ~s.parsed /\ o.dataRaised -> "raw data is not accessible although not parsed"
    [] ~s.parsed /\ o.data # s.data -> "the raw data is wrong"
    [] s.parsed /\ o.evs # s.evs -> "the events are wrong"
    [] Len(o.seqs) # Len(s.seqs) -> "wrong number of sequences"
    [] \E i \in 1..Len(s.seqs) : o.seqs[i].parsed # s.seqs[i].parsed -> "a sequence has the wrong parsed flag"
    [] \E i \in 1..Len(s.seqs) : o.seqs[i].firstRaised = s.seqs[i].parsed \/ o.seqs[i].offRaised # s.seqs[i].parsed -> "a sequence gives access to the wrong representation"
    [] \E i \in 1..Len(s.seqs) : o.seqs[i].off # s.seqs[i].off -> "a sequence has the wrong first event offset"
    [] full /\ \E i \in 1..Len(s.seqs) : o.seqs[i].first # s.seqs[i].first -> "a sequence starts at the wrong event"
    [] full /\ \E i \in 1..Len(s.seqs) : o.seqs[i].name # s.seqs[i].name -> "a sequence has the wrong name"
    [] full /\ \E i \in 1..Len(s.seqs) : o.seqs[i].par # s.seqs[i].par \/ o.seqs[i].tup # s.seqs[i].par -> "a sequence has wrong parameters"
    [] full /\ (o.unk # s.unk \/ o.par # s.par) -> "wrong file parameters"
    [] OTHER -> ""
Loaded(e) == [kind |-> e.kind, parsed |-> FALSE, evs |-> <<>>,
              data |-> IF e.kind = "sseq" THEN SseqData(e.file) ELSE SsarData(e.file),
              seqs |-> IF e.kind = "sseq" THEN <<>> ELSE SsarSeqs(e.file, e.names),
              unk |-> e.unk, par |-> e.par]
AfterParse(s, e) == IF s.parsed \/ Raised(e) THEN s
                    ELSE LET p == ParsedState(s, e.obs.evs) IN IF e.full THEN p
                         ELSE [p EXCEPT !.seqs = [i \in 1..Len(@) |-> [@[i] EXCEPT !.first = e.obs.seqs[i].first]]]
Post(s, e) == CASE e.op = "load" -> Loaded(e) [] e.op = "parse" -> AfterParse(s, e) [] e.op = "edit" -> e.want [] OTHER -> s
V(s, e) ==
  CASE e.op = "load" -> (IF Raised(e) THEN "loading raised" ELSE ObsDiff(Loaded(e), e.obs, e.full))
    [] e.op = "edit" -> (IF Raised(e) THEN "editing raised" ELSE ObsDiff(e.want, e.obs, e.full))
    [] e.op = "parse" ->
        (IF s.parsed THEN (IF Raised(e) THEN "parsing again raised" ELSE ObsDiff(s, e.obs, e.full))
         ELSE LET S == StartSet(s)  scope == InScope(s.data, S)  must == IF scope THEN Must(s.data, S) ELSE {} IN
         IF Raised(e) THEN (IF scope /\ Acceptable(s.data, S) THEN "well-formed data could not be parsed" ELSE ObsDiff(s, e.obs, e.full))
         ELSE IF scope /\ \E o \in must : DecodeAt(s.data, o).st = "bad" THEN "broken data was parsed"
         ELSE IF ~e.obs.parsed THEN "parsing succeeded but the object is not parsed"
         ELSE IF e.obs.evsRaised THEN "events are not accessible although parsed"
         ELSE IF Len(e.obs.seqs) # Len(s.seqs) THEN "wrong number of sequences"
         ELSE IF e.full /\ scope /\ ReadLaw(s.data, EntryPoints(s.seqs), e.obs.evs, <<>>, must) # "" THEN ReadLaw(s.data, EntryPoints(s.seqs), e.obs.evs, <<>>, must)
         ELSE ObsDiff(AfterParse(s, e), e.obs, e.full))
    [] e.op = "save" ->
        (IF ~Storable(s) THEN (IF Raised(e) THEN "" ELSE "an object that cannot be saved was saved")
         ELSE IF Raised(e) THEN "saving raised"
         ELSE IF e.out # FileOf(s) THEN
            (IF ~s.parsed THEN "an unparsed object was not saved byte for byte" ELSE "the saved file is wrong")
         ELSE IF e.full /\ (e.names # [i \in 1..Len(s.seqs) |-> s.seqs[i].name] \/ e.unk # s.unk \/ e.par # s.par) THEN "parameters returned with the file are wrong"
         ELSE ObsDiff(s, e.obs, e.full))
    [] OTHER -> "unknown step"
TInit == TraceInit(LAMBDA t : NoState)
TNext == TraceNext(V, Post)
=============================================================================
