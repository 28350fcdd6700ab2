--------------------------------- MODULE MCSeqFile ---------------------------------
(* The life of a sequence archive: load, parse (may fail), edit, save, reload.      *)
(* Written out as histories (operation names) with the starting archive.            *)
EXTENDS SeqFile, Json, IOUtils, CSV
CONSTANTS MaxOps, MaxSeqs
VARIABLES s, h, s0
N1 == Ev(60, <<1, 0, 1>>)  EndE == Ev(EndK, <<>>)
Datas == {<<>>, <<255>>, <<60, 1, 1, 255>>, <<60, 1, 1, 255, 148, 0, 0, 0, 0>>, <<130>>, <<60, 1>>, <<60, 1, 1>>, <<253>>}
Seqs == UNION {[1..n -> {[name |-> <<<<65>>>>, par |-> <<1, 127, 64, 50, 0>>, parsed |-> FALSE, off |-> o, first |-> <<>>] : o \in {<<>>, <<0>>, <<3>>, <<4>>}}] : n \in 0..MaxSeqs}
Init == /\ h = <<>>
        /\ s0 \in {[kind |-> "ssar", parsed |-> FALSE, data |-> d, evs |-> <<>>, seqs |-> q, unk |-> 0, par |-> <<>>] : d \in Datas, q \in Seqs}
                  \cup {[kind |-> "sseq", parsed |-> FALSE, data |-> d, evs |-> <<>>, seqs |-> <<>>, unk |-> 0, par |-> <<0, 127, 64, 50, 0>>] : d \in Datas}
        /\ s = s0
(* the reading used by the model: straight line from each entry point *)
RECURSIVE Line(_, _)
Line(d, off) == IF off >= Len(d) THEN <<>> ELSE LET x == DecodeAt(d, off) IN IF x.st = "ok" /\ off \in Reach(d, StartSet(s)) THEN <<x.ev>> \o Line(d, off + x.len) ELSE <<RawEv(<<At(d, off)>>)>> \o Line(d, off + 1)
Reading(d) == LET l == Line(d, 0)  o == Offsets(l) IN [i \in 1..Len(l) |-> IF l[i].ref = <<>> THEN l[i] ELSE [l[i] EXCEPT !.ref = <<CHOOSE j \in 1..Len(l) : o[j] = @[1]>>]]
Parse == /\ s' = (IF s.parsed \/ ~Acceptable(s.data, StartSet(s)) THEN s ELSE ParsedState(s, Reading(s.data)))
         /\ h' = Append(h, "parse")
Save == Storable(s) /\ s' = s /\ h' = Append(h, "save")
Reload == /\ Storable(s)
          /\ s' = [s EXCEPT !.parsed = FALSE, !.evs = <<>>,
                     !.data = IF s.kind = "sseq" THEN SseqData(FileOf(s)) ELSE SsarData(FileOf(s)),
                     !.seqs = IF s.kind = "sseq" THEN <<>> ELSE SsarSeqs(FileOf(s), [i \in 1..Len(s.seqs) |-> s.seqs[i].name])]
          /\ h' = Append(h, "reload")
Edit == s.parsed /\ Len(s.evs) < 4 /\ s' = [s EXCEPT !.evs = <<N1>> \o [i \in 1..Len(@) |-> IF @[i].ref = <<>> THEN @[i] ELSE [@[i] EXCEPT !.ref = <<@[1] + 1>>]],
                        !.seqs = [i \in 1..Len(@) |-> IF @[i].first = <<>> THEN @[i] ELSE [@[i] EXCEPT !.first = <<@[1] + 1>>]]]
        /\ h' = Append(h, "insert")
(* the first note gets another pitch: as long as before *)
Value == /\ s.parsed /\ \E i \in 1..Len(s.evs) : s.evs[i].k \in 0..126
         /\ s' = [s EXCEPT !.evs = [i \in 1..Len(@) |-> IF @[i].k \in 0..126 THEN [@[i] EXCEPT !.k = @ + 1] ELSE @[i]]]
         /\ h' = Append(h, "value")
Next == Len(h) < MaxOps /\ (Parse \/ Save \/ Reload \/ Edit \/ Value) /\ UNCHANGED s0
(* saving and reloading twice gives the same file; parsing does not change the file *)
Stable == Storable(s) => LET f == FileOf(s) IN
  s.kind = "ssar" => /\ SsarData(f) = (IF s.parsed THEN Data(s.evs) ELSE s.data)
                     /\ Len(SsarSeqs(f, <<>>)) = Len(s.seqs)
                     /\ \A i \in 1..Len(s.seqs) : SsarSeqs(f, <<>>)[i].par = s.seqs[i].par
ParseKeepsFile == (~s.parsed /\ Acceptable(s.data, StartSet(s))) => FileOf(ParsedState(s, Reading(s.data))) = FileOf(s)
FirstsFound == s.parsed => \A i \in 1..Len(s.seqs) : s.seqs[i].first # <<0>>
Emit == Len(h) = MaxOps => CSVWrite("%1$s", <<ToJson([s0 |-> s0, h |-> h])>>, IOEnv.CASES)
=============================================================================
