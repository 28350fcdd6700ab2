----------------------------------- MODULE Refuse -----------------------------------
(***************************************************************************)
(* What each file type refuses.                                             *)
(* Opening: Guard(ty, d) says whether the data d (a list of bytes) carries  *)
(* the marks of type ty: magic, version, magics of the inner blocks.  Data  *)
(* without them is never opened.                                            *)
(* Saving: a field of w bits holds exactly the numbers Fits allows; others  *)
(* are refused, never cut.  A number is [neg, bits]: negative or not and    *)
(* how many bits it (or, when negative, -1 minus it) takes.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
------------------------------------------------------------------------------
Types == {"narc", "bmg", "lz10", "sdat", "sbnk", "sseq", "ssar", "strm", "swav", "swar", "nsbtx", "nsbmd", "bnbl", "bncl"}
Has(d, off, s) == Len(d) >= off + Len(s) /\ SubSeq(d, off + 1, off + Len(s)) = s
U8(d, off) == IF off < Len(d) /\ off >= 0 THEN d[off + 1] ELSE 0
U32(d, off) == U8(d, off) + 256 * U8(d, off + 1) + 65536 * U8(d, off + 2) + 16777216 * (U8(d, off + 3) % 64)
U32B(d, off) == U8(d, off + 3) + 256 * U8(d, off + 2) + 65536 * U8(d, off + 1) + 16777216 * (U8(d, off) % 64)
Magic(ty) ==
  CASE ty = "narc" -> <<78, 65, 82, 67>>   [] ty = "sdat" -> <<83, 68, 65, 84>>  [] ty = "sbnk" -> <<83, 66, 78, 75>>
    [] ty = "sseq" -> <<83, 83, 69, 81>>   [] ty = "ssar" -> <<83, 83, 65, 82>>  [] ty = "strm" -> <<83, 84, 82, 77>>
    [] ty = "swav" -> <<83, 87, 65, 86>>   [] ty = "swar" -> <<83, 87, 65, 82>>  [] ty = "nsbtx" -> <<66, 84, 88, 48>>
    [] ty = "nsbmd" -> <<66, 77, 68, 48>>  [] ty = "bnbl" -> <<74, 78, 66, 76>>  [] ty = "bncl" -> <<74, 78, 67, 76>>
    [] ty = "bmg" -> <<77, 69, 83, 71, 98, 109, 103, 49>>  [] ty = "lz10" -> <<16>>
DATA == <<68, 65, 84, 65>>   HEAD == <<72, 69, 65, 68>>   FATB == <<66, 84, 65, 70>>   FNTB == <<66, 84, 78, 70>>   FIMG == <<71, 77, 73, 70>>
TEX0 == <<84, 69, 88, 48>>   MDL0 == <<77, 68, 76, 48>>   SYMB == <<83, 89, 77, 66>>   INFO == <<73, 78, 70, 79>>   FAT == <<70, 65, 84, 32>>
BmgParts == {<<73, 78, 70, 49>>, <<68, 65, 84, 49>>, <<70, 76, 87, 49>>, <<70, 76, 73, 49>>}
HeaderLen(ty) == CASE ty \in {"bnbl", "bncl"} -> 8 [] ty = "lz10" -> 4 [] ty = "bmg" -> 32 [] OTHER -> 16
VersionOk(ty, d) ==
  CASE ty \in {"bnbl", "bncl", "lz10", "bmg"} -> TRUE
    [] ty = "narc" -> (IF Has(d, 4, <<254, 255>>) THEN Has(d, 6, <<0, 1>>) ELSE Has(d, 6, <<1, 0>>))
    [] ty = "nsbtx" -> Has(d, 6, <<1, 0>>)
    [] ty = "nsbmd" -> Has(d, 6, <<2, 0>>)
    [] OTHER -> Has(d, 6, <<0, 1>>)
(* inner blocks: offsets and the magics allowed there *)
RECURSIVE BmgOk(_, _, _, _)
BmgOk(d, off, n, be) == n = 0 \/ ((\E m \in BmgParts : Has(d, off, m)) /\ BmgOk(d, off + (IF be THEN U32B(d, off + 4) ELSE U32(d, off + 4)), n - 1, be))
Inner(ty, d) ==
  CASE ty \in {"sbnk", "ssar", "swav", "swar"} -> Has(d, 16, DATA)
    [] ty = "strm" -> Has(d, 16, HEAD) /\ Has(d, 16 + U32(d, 20), DATA)
    [] ty = "narc" -> LET o == 16 + U32(d, 20) IN Has(d, 16, FATB) /\ Has(d, o, FNTB) /\ Has(d, o + U32(d, o + 4), FIMG)
    [] ty = "nsbtx" -> Has(d, U32(d, 16), TEX0)
    [] ty = "nsbmd" -> \A i \in 1..(U8(d, 14) + 256 * U8(d, 15)) : LET o == U32(d, 12 + 4 * i) IN Has(d, o, TEX0) \/ Has(d, o, MDL0)
    [] ty = "sdat" -> (U32(d, 16) = 0 \/ Has(d, U32(d, 16), SYMB)) /\ Has(d, U32(d, 24), INFO) /\ Has(d, U32(d, 32), FAT)
    [] ty = "bmg" -> U8(d, 16) \in 1..4 /\ LET le == U32(d, 12)  be == U32B(d, 12)
                     IN IF le <= 8 THEN BmgOk(d, 32, le, FALSE) ELSE IF be <= 8 THEN BmgOk(d, 32, be, TRUE) ELSE TRUE
    [] OTHER -> TRUE
Guard(ty, d) == Len(d) >= HeaderLen(ty) /\ Has(d, 0, Magic(ty)) /\ VersionOk(ty, d) /\ Inner(ty, d)
------------------------------------------------------------------------------
Put(d, off, s) == [i \in 1..Len(d) |-> IF i > off /\ i <= off + Len(s) THEN s[i - off] ELSE d[i]]
(* every value of w bytes at off was tried; acc are those that were opened *)
SweepLaw(e) ==
  IF ~ Guard(e.ty, e.d) THEN "not a file of this type"
  ELSE IF ~ \E i \in 1..Len(e.acc) : e.acc[i] = SubSeq(e.d, e.off + 1, e.off + e.w) THEN "the file itself was refused"
  ELSE IF \E i \in 1..Len(e.acc) : ~ Guard(e.ty, Put(e.d, e.off, e.acc[i])) THEN "data of another type or version was opened" ELSE ""
OpenLaw(e) ==
  IF ~ Guard(e.ty, e.d) /\ e.exc \in {"", "HANG"} THEN "data of another type was opened"
  ELSE IF e.whole /\ e.exc # "" THEN "the file was refused" ELSE ""
------------------------------------------------------------------------------
Fits(w, s, v) == IF s THEN v.bits <= w - 1 ELSE ~v.neg /\ v.bits <= w
Rep(p, names, w) == [i \in 1..Len(names) |-> [key |-> p \o names[i], w |-> w, s |-> FALSE]]
ByteEvents == <<"Pan", "TrackVolume", "GlobalVolume", "Transpose", "Portamento", "PortamentoRange", "TrackPriority", "PortamentoFrom", "VibratoDepth", "VibratoSpeed",
   "VibratoRange", "PortamentoDuration", "AttackRate", "DecayRate", "SustainRate", "ReleaseRate", "BeginLoop", "Expression", "PrintVariable", "VibratoDelay">>
WordEvents == <<"Tempo", "SweepPitch">>
Arith == <<"VariableAssignment", "VariableAddition", "VariableSubtraction", "VariableMultiplication", "VariableDivision", "VariableShift", "VariableRand",
   "VariableUnknownB7", "VariableEqual", "VariableGreaterThanOrEqual", "VariableGreaterThan", "VariableLessThanOrEqual", "VariableLessThan", "VariableNotEqual">>
Unlimited == 1000
Signed(keys, w) == [i \in 1..Len(keys) |-> [key |-> keys[i], w |-> w, s |-> TRUE]]
FieldTable ==
  Rep("rom.", <<"unitCode", "encryptionSeedSelect", "deviceCapacity", "pad015", "pad016", "pad017", "pad018", "pad019", "pad01A", "pad01B", "pad01C", "region", "version", "autostart">>, 8)
  \o Rep("rom.", <<"secureAreaChecksum", "secureTransferDelay">>, 16)
  \o Rep("rom.", <<"arm9EntryAddress", "arm9RamAddress", "arm7EntryAddress", "arm7RamAddress", "normalCardControlRegisterSettings", "secureCardControlRegisterSettings",
                   "arm9CodeSettingsPointerAddress", "arm7CodeSettingsPointerAddress", "debugRomAddress">>, 32)
  \o Rep("", <<"fnt.firstID", "narc.firstID">>, 16)
  \o Rep("bmg.", <<"id", "unk14", "unk18", "unk1C", "scriptID">>, 32) \o Rep("bmg.", <<"scriptIndex">>, 16) \o Rep("bmg.", <<"escapeType">>, 8)
  \o Signed(<<"bmg.labelID">>, 8) \o Signed(<<"bmg.labelIndex">>, 16)
  \o Rep("overlay.", <<"overlayID", "ramAddress", "ramSize", "bssSize", "staticInitStart", "staticInitEnd", "fileID">>, 32) \o Rep("overlay.", <<"flags">>, 8)
  \o Rep("code.", <<"ramAddress", "bssSize">>, 32)
  \o Rep("bnbl.", <<"unk04">>, 16) \o Rep("bnbl.", <<"width", "height">>, 8)
  \o Rep("bncl.", <<"unk04">>, 16) \o Rep("bncl.", <<"imageID">>, 32)
  \o Rep("nsbtx.", <<"unk08", "unk10", "unk18", "unk20", "unk2C", "tex.unk04">>, 32) \o Rep("nsbtx.", <<"unk32", "tex.unk00", "tex.unk02", "pal.unk00", "pal.unk02", "pal.unkHeader02">>, 16)
  \o Rep("nsbmd.", <<"texUnk08", "texUnk10", "texUnk18", "texUnk20", "texUnk2C", "tex.unk04">>, 32) \o Rep("nsbmd.", <<"texUnk32", "tex.unk00", "tex.unk02", "pal.unk00", "pal.unk02", "pal.unkHeader02">>, 16)
  \o Rep("sbnk.", <<"waveID", "waveArchiveIDID">>, 16) \o Rep("sbnk.", <<"pitch", "attack", "decay", "sustain", "release", "pan", "firstPitch", "lastPitch">>, 8)
  \o Rep("ssar.", <<"bankID">>, 16) \o Rep("ssar.", <<"volume", "channelPressure", "polyphonicPressure", "playerID">>, 8)
  \o Rep("swav.", <<"sampleRate", "time">>, 16) \o Rep("swav.", <<"totalLength">>, 32)
  \o Rep("strm.", <<"sampleRate", "time">>, 16) \o Rep("strm.", <<"unk03">>, 8)
  \o Rep("strm.", <<"loopOffset", "samplesPerBlock", "samplesInLastBlock", "unk28", "unk2C", "unk30", "unk34", "unk38", "unk3C", "unk40", "unk44">>, 32)
  \o Rep("sdat.sequences.", <<"unk02", "bankID">>, 16) \o Rep("sdat.sequences.", <<"volume", "channelPressure", "polyphonicPressure", "playerID">>, 8)
  \o Rep("sdat.", <<"sequenceArchives.unk02", "banks.unk02", "waveArchives.unk02", "streams.unk02", "sequencePlayers.maxSequences">>, 16)
  \o Rep("sdat.", <<"sequencePlayers.heapSize", "groups.id">>, 32) \o Rep("sdat.", <<"streams.volume", "streams.priority", "streams.playerID", "streams.unk07", "streamPlayers.channel">>, 8)
  \o Rep("event.", ByteEvents, 8) \o Rep("event.", WordEvents, 16) \o Rep("event.", <<"BeginTrack.trackNumber">>, 8)
  \o Rep("event.", <<"Note.pitch", "Note.velocity">>, 7)
  \o Rep("event.", <<"Rest.duration", "Note.duration", "InstrumentSwitch.bankID">>, Unlimited)
  \o Signed([i \in 1..Len(Arith) |-> "event." \o Arith[i]], 16) \o Signed(<<"event.Random.randMin", "event.Random.randMax">>, 16)
Keys == {FieldTable[i].key : i \in 1..Len(FieldTable)}
Field(key) == FieldTable[CHOOSE i \in 1..Len(FieldTable) : FieldTable[i].key = key]
FieldLaw(e) ==
  LET f == Field(e.key) IN
  IF Fits(f.w, f.s, e.v) THEN (IF e.exc # "" THEN "a number that fits was refused" ELSE IF e.loadexc # "" THEN "the file cannot be opened again" ELSE IF ~e.same THEN "the number was changed" ELSE "")
  ELSE IF e.exc = "" THEN "a number that does not fit was saved" ELSE ""
------------------------------------------------------------------------------
(* other values, given by the numbers that matter *)
Power2(n) == n \in {8, 16, 32, 64, 128, 256, 512, 1024}
Storable(key, n) ==
  CASE key = "texture size" -> Power2(n[1]) /\ Power2(n[2])
    [] key = "palette" -> n[1] % 4 = 0
    [] key = "block texture" -> n[1] = 2 * n[2]
    [] key = "texture name" -> n[1] <= 16
    [] key = "texture count" -> n[1] <= 255
    [] key = "wave archives" -> n[1] <= 4
    [] key = "regions" -> n[1] <= 8
    [] key \in {"file name", "folder name"} -> n[1] <= 127
    [] key = "idCode" -> n[1] = 4
    [] key = "developerCode" -> n[1] = 2
    [] key = "nintendoLogo" -> n[1] = 156
    [] key = "pad088" -> n[1] = 56
    [] key = "pad16C" -> n[1] = 148
    [] key = "banner" -> n[2] = (CASE n[1] = 2 -> 2368 [] n[1] = 3 -> 4672 [] n[1] = 259 -> 9152 [] OTHER -> 2112)
    [] key = "instruction" -> n[1] = 8
    [] key = "message infos" -> \A i \in 1..Len(n) : n[i] = n[1]
    [] key = "message character" -> n[1] \notin {0, 26}
    [] key = "escape length" -> n[1] + 2 + n[2] <= 255    \* n[2]: bytes per character
    [] key = "stream blocks" -> \A c \in 1..Len(n) : n[c] = n[1]
    [] key = "stream block" -> n[1] = n[2]
    [] key = "loop" -> n[1] <= n[2]
    [] key = "tile formats" -> n[1] = n[2]
    [] key = "tilemap formats" -> n[1] = n[2]
    [] key = "tile offset" -> n[1] >= n[2]
    [] key = "tile data" -> n[2] = (IF n[1] = 1 THEN 32 ELSE 64)
    [] key = "encoding" -> n[1] \in 1..4
    [] key = "endianness" -> n[1] \in {0, 1}
    [] key = "song archives" -> n[1] \in 0..3      \* absent, or a collection of them; not a single one
StoreLaw(e) ==
  IF Storable(e.key, e.n) THEN (IF e.exc # "" THEN "a value that can be stored was refused" ELSE IF ~e.same THEN "the value was changed" ELSE "")
  ELSE IF e.exc = "" THEN "a value that cannot be stored was accepted" ELSE ""
Law(s, e) == CASE e.op = "sweep" -> SweepLaw(e) [] e.op = "open" -> OpenLaw(e) [] e.op = "field" -> FieldLaw(e) [] e.op = "store" -> StoreLaw(e)
=============================================================================
