---------------------------------- MODULE SeqFile ----------------------------------
(***************************************************************************)
(* Sequence files (SSEQ) and sequence archives (SSAR): state machine of the  *)
(* two representations.                                                      *)
(* State: [kind, parsed, data, evs, seqs, unk, par]                          *)
(*   data  raw event data (unparsed)      evs  program (parsed)              *)
(*   seqs  [name, par, parsed, off, first]: entry points of an archive;      *)
(*         off/first are <<>> for a sequence without first event             *)
(***************************************************************************)
EXTENDS Seq
StdHeader(magic, version, size, blocks) == magic \o <<255, 254>> \o U16(version) \o U32(size) \o U16(16) \o U16(blocks)
SseqMagic == <<83, 83, 69, 81>>   SsarMagic == <<83, 83, 65, 82>>   DataMagic == <<68, 65, 84, 65>>
SseqFile(d) == StdHeader(SseqMagic, 256, 28 + Len(d), 1) \o DataMagic \o U32(12 + Len(d)) \o U32(28) \o d
SsarEntry(off, p) == (IF off = <<>> THEN <<255, 255, 255, 255>> ELSE U32(off[1])) \o U16(p[1]) \o <<p[2], p[3], p[4], p[5], 0, 0>>
SsarFile(entries, d) ==
  LET t == 32 + 12 * Len(entries) IN
  StdHeader(SsarMagic, 256, t + Len(d), 1) \o DataMagic \o U32(t + Len(d) - 16) \o U32(t) \o U32(Len(entries)) \o Cat(entries) \o d
(* reading: event data and entry table of a file *)
SseqData(b) == Slice(b, R32(b, 24), R32(b, 8) - R32(b, 24))
SsarData(b) == Slice(b, R32(b, 24), R32(b, 8) - R32(b, 24))
SsarSeqs(b, names) ==
  [i \in 1..R32(b, 28) |->
     LET o == 32 + 12 * (i - 1)  v == R32(b, o) IN
     [name |-> IF i <= Len(names) THEN names[i] ELSE <<>>,
      par |-> <<R16(b, o + 4), At(b, o + 6), At(b, o + 7), At(b, o + 8), At(b, o + 9)>>,
      parsed |-> FALSE, off |-> IF v = -1 THEN <<>> ELSE <<v>>, first |-> <<>>]]
EntryPoints(seqs) == LET w == SelectSeq(seqs, LAMBDA q : q.off # <<>>) IN [i \in 1..Len(w) |-> w[i].off[1]]
StartSet(s) == LET e == EntryPoints(s.seqs) IN IF e = <<>> THEN (IF s.data = <<>> THEN {} ELSE {0}) ELSE {e[i] : i \in 1..Len(e)}
(* after parsing: entry points become positions *)
PosOf(evs, off) == LET o == Offsets(evs) IN IF \E i \in 1..Len(evs) : o[i] = off /\ evs[i] # RawEv(<<>>) THEN CHOOSE i \in 1..Len(evs) : o[i] = off /\ evs[i] # RawEv(<<>>) ELSE 0
ParsedState(s, evs) ==
  [s EXCEPT !.parsed = TRUE, !.evs = evs, !.data = <<>>,
     !.seqs = [i \in 1..Len(@) |-> [@[i] EXCEPT !.parsed = TRUE, !.first = (IF s.seqs[i].off = <<>> THEN <<>> ELSE <<PosOf(evs, s.seqs[i].off[1])>>), !.off = <<>>]]]
Storable(s) ==
  /\ \A i \in 1..Len(s.seqs) : s.seqs[i].parsed = s.parsed
  /\ s.parsed => /\ \A i \in 1..Len(s.evs) : s.evs[i].ref # <<0>>
                 /\ \A i \in 1..Len(s.seqs) : s.seqs[i].first # <<0>>
FileOf(s) ==
  LET d == IF s.parsed THEN Data(s.evs) ELSE s.data
      off(q) == IF ~s.parsed THEN q.off ELSE IF q.first = <<>> THEN <<>> ELSE <<Offsets(s.evs)[q.first[1]]>>
  IN IF s.kind = "sseq" THEN SseqFile(d) ELSE SsarFile([i \in 1..Len(s.seqs) |-> SsarEntry(off(s.seqs[i]), s.seqs[i].par)], d)
=============================================================================
