----------------------------------- MODULE Minify -----------------------------------
(***************************************************************************)
(* Minifying a bank for a song.                                             *)
(* bank   [insts, inacc, unk, wars] as in Sbnk                              *)
(* waves  wave archives given: sequences of wave identities                 *)
(* song   tracks: sequences of events [k, a, raw]; 129 switches instrument, *)
(*        below 128 notes                                                   *)
(* What a note sounds like: its definition's parameters and wave.           *)
(***************************************************************************)
EXTENDS Bytes, TLC, FiniteSets
NoteOf(x, p) ==
  CASE x.k = 1 -> <<x.notes[1]>>
    [] x.k = 16 -> (IF p \in x.first..(x.first + Len(x.notes) - 1) THEN <<x.notes[p - x.first + 1]>> ELSE <<>>)
    [] x.k = 17 -> LET S == {i \in 1..Len(x.ends) : x.ends[i] >= p} IN (IF S = {} THEN <<>> ELSE <<x.notes[CHOOSE i \in S : \A j \in S : i <= j]>>)
UsesWave(n) == n.type \notin {2, 3}
WaveOf(waves, n) == IF ~UsesWave(n) THEN <<"psg", n.w>>
                    ELSE IF n.ar + 1 > Len(waves) THEN <<"given", n.ar, n.w>>
                    ELSE IF n.w + 1 > Len(waves[n.ar + 1]) THEN <<"missing">> ELSE <<"wave", waves[n.ar + 1][n.w + 1]>>
Sound(bank, waves, i, p) ==
  IF i + 1 > Len(bank.insts) THEN <<"no instrument">> ELSE IF bank.insts[i + 1] = <<>> THEN <<"empty">>
  ELSE LET n == NoteOf(bank.insts[i + 1][1], p) IN
    IF n = <<>> THEN <<"silent">> ELSE <<n[1].p, n[1].type, n[1].ar, WaveOf(waves, n[1])>>
(* instrument in force before event i of a track; -1 before the first switch *)
RECURSIVE Inst(_, _)
Inst(t, i) == IF i <= 1 THEN -1 ELSE IF t[i - 1].k = 129 THEN t[i - 1].a[2] ELSE Inst(t, i - 1)
Sounds(bank, waves, t) == [i \in 1..Len(t) |-> IF t[i].k \in 0..127 THEN Sound(bank, waves, Inst(t, i), t[i].k) ELSE <<>>]
Used(song) == UNION {{song[j][i].a[2] : i \in {q \in 1..Len(song[j]) : song[j][q].k = 129}} : j \in 1..Len(song)}
Played(song) == UNION {{<<Inst(song[j], i), song[j][i].k>> : i \in {q \in 1..Len(song[j]) : song[j][q].k \in 0..127}} : j \in 1..Len(song)}
(* definitions whose waves must be kept *)
NeededNotes(bank, song) ==
  UNION {IF bank.insts[u + 1] # <<>> /\ bank.insts[u + 1][1].k = 1 THEN {bank.insts[u + 1][1].notes[1]} ELSE {} : u \in Used(song)}
  \cup UNION {IF bank.insts[q[1] + 1] = <<>> THEN {} ELSE LET n == NoteOf(bank.insts[q[1] + 1][1], q[2]) IN {n[x] : x \in 1..Len(n)} : q \in Played(song)}
Needed(bank, waves, song) == {WaveOf(waves, n) : n \in {m \in NeededNotes(bank, song) : UsesWave(m)}}
SeqSet(s) == {s[i] : i \in 1..Len(s)}
MinLaw(bank, waves, song, bank2, waves2, song2) ==
  IF Len(song2) # Len(song) \/ \E j \in 1..Len(song) : Len(song2[j]) # Len(song[j]) THEN "the song changed"
  ELSE IF \E j \in 1..Len(song) : \E i \in 1..Len(song[j]) :
       LET x == song[j][i]  y == song2[j][i] IN x # y /\ ~(x.k = 129 /\ y.k = 129 /\ x.a[1] = y.a[1]) THEN "other events changed"
  ELSE IF Len(bank2.insts) # Cardinality(Used(song)) \/ \E u \in Used(song2) : u + 1 > Len(bank2.insts) THEN "the number of instruments is wrong"
  ELSE IF bank2.inacc # <<>> THEN "unused instruments are left"
  ELSE IF \E i \in 1..Len(bank2.insts) : \E j \in 1..Len(bank2.insts[i]) : LET x == bank2.insts[i][j] IN x.k = 17 /\ x.ends # <<>> /\ x.ends[Len(x.ends)] # 127 THEN "the last region does not reach the highest pitch"
  ELSE IF bank2.unk # bank.unk \/ bank2.wars # bank.wars THEN "other values of the bank changed"
  ELSE IF \E j \in 1..Len(song) : Sounds(bank2, waves2, song2[j]) # Sounds(bank, waves, song[j]) THEN "a note sounds different"
  ELSE IF Len(waves2) # Len(waves) \/ \E i \in 1..Len(waves) : ~(SeqSet(waves2[i]) \subseteq SeqSet(waves[i])) THEN "the wave archives are wrong"
  ELSE IF \E i \in 1..Len(waves) : ~({<<"wave", w>> : w \in SeqSet(waves2[i])} \subseteq Needed(bank, waves, song)) THEN "unused waves are left"
  ELSE IF \E i \in 1..Len(waves) : Cardinality(SeqSet(waves[i])) = Len(waves[i]) /\ Cardinality(SeqSet(waves2[i])) # Len(waves2[i]) THEN "a wave is stored twice"
  ELSE ""
(* ---- a reference minifier ---- *)
Rank(S, x) == Cardinality({y \in S : y < x})
RefMinify(bank, waves, song) ==
  LET U == Used(song)
      Ord == [i \in 1..Cardinality(U) |-> CHOOSE u \in U : Rank(U, u) = i - 1]
      NN == NeededNotes(bank, song)
      Keep(ar) == {n.w : n \in {m \in NN : UsesWave(m) /\ m.ar = ar}}
      NewNote(n) == IF UsesWave(n) /\ n.ar < Len(waves) /\ n.w \in Keep(n.ar) THEN [n EXCEPT !.w = Rank(Keep(n.ar), n.w)] ELSE n
      NewInst(x) == [x EXCEPT !.notes = [i \in 1..Len(x.notes) |-> NewNote(x.notes[i])]]
  IN [bank |-> [bank EXCEPT !.inacc = <<>>, !.insts = [i \in 1..Len(Ord) |-> LET x == bank.insts[Ord[i] + 1] IN IF x = <<>> THEN x ELSE <<NewInst(x[1])>>]],
      waves |-> [a \in 1..Len(waves) |-> LET K == Keep(a - 1) IN [i \in 1..Cardinality(K) |-> waves[a][(CHOOSE w \in K : Rank(K, w) = i - 1) + 1]]],
      song |-> [j \in 1..Len(song) |-> [i \in 1..Len(song[j]) |-> IF song[j][i].k = 129 THEN [song[j][i] EXCEPT !.a = <<@[1], Rank(U, @[2])>>] ELSE song[j][i]]]]
=============================================================================
