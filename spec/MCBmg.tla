---------------------------------- MODULE MCBmg ----------------------------------
EXTENDS Bmg, Json, IOUtils, CSV
CONSTANTS MaxMsgs, MaxParts, Focus
VARIABLES f, done
Txt(t) == [esc |-> FALSE, type |-> 0, data |-> <<>>, text |-> t]
Esc(ty, d) == [esc |-> TRUE, type |-> ty, data |-> d, text |-> <<>>]
Parts == {Txt(<<65>>), Txt(<<>>), Txt(<<12354, 66>>), Txt(<<233>>), Txt(<<128512>>), Txt(<<0>>), Esc(0, <<>>), Esc(26, <<0>>), Esc(255, <<26, 0>>)}
Msg == [info : {<<7>>}, null : BOOLEAN, parts : UNION {[1..n -> Parts] : n \in 0..MaxParts}]
Msgs == UNION {[1..n -> Msg] : n \in 0..MaxMsgs}
Base == [id |-> <<1, 2, 3, 132>>, unk |-> << <<1, 0, 0, 0>>, <<0, 0, 0, 2>>, <<5, 6, 7, 136>> >>]
Insts == {Zeros(8), <<1, 2, 3, 4, 5, 6, 7, 8>>}
Labels == {<<0, 0>>, <<-1, -1>>, <<5, 300>>}
Scripts == {<< <<1, 0, 100, 0>>, 9>>, << <<0, 0, 0, 0>>, 65535>>}
MsgFile == {[end |-> e, enc |-> c, id |-> Base.id, unk |-> Base.unk, msgs |-> m, insts |-> <<>>, labels |-> <<>>, scripts |-> <<>>] :
              e \in {"<", ">"}, c \in {Encs[i] : i \in 1..4}, m \in Msgs}
ScrFile == {[end |-> e, enc |-> "utf-8", id |-> Base.id, unk |-> Base.unk, msgs |-> <<>>, insts |-> i, labels |-> l, scripts |-> s] :
              e \in {"<", ">"}, i \in UNION {[1..n -> Insts] : n \in 0..3}, l \in UNION {[1..n -> Labels] : n \in {0, 1, 2, 3}},
              s \in UNION {[1..n -> Scripts] : n \in 0..2}}
Init == done = FALSE /\ f \in (IF Focus = "msg" THEN MsgFile ELSE ScrFile)
Next == ~done /\ done' = TRUE /\ UNCHANGED f
RoundTrip == Storable(f) => LET b == BmgEncode(f) IN
   /\ EndOf(b) = f.end /\ HeaderOf(b) = [end |-> f.end, enc |-> f.enc, unk |-> f.unk] /\ IdOf(b) = f.id
   /\ MsgsStored(b, f.enc, [i \in 1..Len(f.msgs) |-> NormMsg(f.msgs[i])])
   /\ InstsOf(b) = StripInst(f.insts) /\ LabelsOf(b) = StripLab(f.labels) /\ ScriptsOf(b) = f.scripts
   /\ LayoutOk(b)
Emit == ~done => CSVWrite("%1$s", <<ToJson([f |-> f, ok |-> Storable(f), data |-> IF Storable(f) THEN BmgEncode(f) ELSE <<>>])>>, IOEnv.CASES)
=============================================================================
