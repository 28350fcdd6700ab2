----------------------------------- MODULE Ctors -----------------------------------
(***************************************************************************)
(* Making objects.  A constructor has parameters, each filling one          *)
(* attribute; every attribute not given has the documented default.         *)
(* Values are tokens: i5 an integer, s.. text, b.. bytes in hex, T/F, None, *)
(* []/{}/set() empty containers, Folder() an empty folder, "!" = must be    *)
(* given.  Kinds tell the driver which values to make up.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
P(name, attr, kind, def) == [name |-> name, attr |-> attr, kind |-> kind, def |-> def, kwonly |-> FALSE]
K(name, attr, kind, def) == [name |-> name, attr |-> attr, kind |-> kind, def |-> def, kwonly |-> TRUE]
A(attr, def) == [attr |-> attr, def |-> def]
Q(name, kind, def) == P(name, name, kind, def)
Req == "!"
Zeros(attrs) == [i \in 1..Len(attrs) |-> A(attrs[i], "i0")]
Empty(attrs) == [i \in 1..Len(attrs) |-> A(attrs[i], "[]")]
RECURSIVE ZeroHex(_)
ZeroHex(n) == IF n = 0 THEN "" ELSE "00" \o ZeroHex(n - 1)
BmgRest == <<A("encoding", "sutf-16"), A("fullEncoding", "sutf-16le"), A("endianness", "s<")>> \o Zeros(<<"unk14", "unk18", "unk1C">>)
SeqParams == <<Q("unk02", "u16", "i0"), Q("bankID", "u16", "i0"), Q("volume", "u8", "i127"), Q("channelPressure", "u8", "i64"), Q("polyphonicPressure", "u8", "i50"), Q("playerID", "u8", "i0")>>
StrmParams == <<Q("unk02", "u16", "i0"), Q("volume", "u8", "i127"), Q("priority", "u8", "i64"), Q("playerID", "u8", "i0"), Q("unk07", "u8", "i0")>>
StrmRest == <<A("isLooped", "F"), A("sampleRate", "i8000"), A("waveType", "i0"), A("dataMergeOptimizationID", "i0")>>
   \o Zeros(<<"loopOffset", "samplesInLastBlock", "samplesPerBlock", "time", "unk03", "unk28", "unk2C", "unk30", "unk34", "unk38", "unk3C", "unk40", "unk44">>)
SwavParams == <<K("waveType", "waveType", "wavetype", "i0"), K("isLooped", "isLooped", "bool", "F"), K("sampleRate", "sampleRate", "u16", "i8000"), K("time", "time", "u16", "i0"),
                   K("loopOffset", "loopOffset", "u16", "i0"), K("totalLength", "totalLength", "u32", "i0")>>
C(cls, how, params, rest) == [cls |-> cls, how |-> how, params |-> params, rest |-> rest]
Table == <<
  C("bmg.BMG", "", <<K("id", "id", "u32", "i0")>>, BmgRest \o Empty(<<"instructions", "labels", "messages", "scripts">>)),
  C("bmg.BMG", "fromMessages", <<Q("messages", "messages", Req), Q("instructions", "instructions", "[]"), Q("labels", "pairs", "[]"), Q("scripts", "pairs", "[]"), K("id", "id", "u32", "i0")>>, BmgRest),
  C("bmg.Message", "", <<Q("info", "bytes", "b"), Q("stringParts", "parts", "[]"), Q("isNull", "bool", "F")>>, <<>>),
  C("bmg.Message.Escape", "", <<Q("type", "u8", "i0"), Q("data", "bytes", "b")>>, <<>>),
  C("code.MainCodeFile", "fromSections", <<Q("sections", "sections", Req), Q("ramAddress", "u32", Req)>>, <<>>),
  C("code.MainCodeFile.Section", "", <<Q("data", "bytes", Req), Q("ramAddress", "u32", Req), Q("bssSize", "u32", Req), K("implicit", "implicit", "bool", "F")>>, <<>>),
  C("code.Overlay", "", <<Q("data", "bytes", Req), Q("ramAddress", "u32", Req), Q("ramSize", "u32", Req), Q("bssSize", "u32", Req), Q("staticInitStart", "u32", Req),
                          Q("staticInitEnd", "u32", Req), Q("fileID", "u32", Req), Q("compressedSize", "u32", Req), Q("flags", "even", Req)>>, <<>>),
  C("fnt.Folder", "", <<Q("folders", "folders", "[]"), Q("files", "names", "[]"), Q("firstID", "u16", "i0")>>, <<>>),
  C("narc.NARC", "", <<>>, <<A("endiannessOfBeginning", "s<"), A("filenames", "Folder()"), A("files", "[]")>>),
  C("narc.NARC", "fromFilesAndNames", <<Q("files", "blobs", Req), Q("filenames", "folder", "Folder()")>>, <<A("endiannessOfBeginning", "s<")>>),
  C("rom.NintendoDSRom", "", <<>>,
      <<A("name", "b"), A("idCode", "b23232323"), A("developerCode", "b0000"), A("deviceCapacity", "i9"), A("arm9EntryAddress", "i33556480"), A("arm9RamAddress", "i33554432"),
        A("arm7EntryAddress", "i37224448"), A("arm7RamAddress", "i37224448"), A("normalCardControlRegisterSettings", "i4286039"), A("secureCardControlRegisterSettings", "i135792888"),
        A("secureTransferDelay", "i3454"), A("secureAreaDisable", "b0000000000000000"), A("rsaSignature", "b"), A("arm9", "b"), A("arm9PostData", "b"), A("arm7", "b"), A("arm9OverlayTable", "b"),
        A("arm7OverlayTable", "b"), A("iconBanner", "b"), A("debugRom", "b"), A("filenames", "Folder()"), A("pad088", "b" \o ZeroHex(56)), A("pad16C", "b" \o ZeroHex(148)), A("pad200", "zeros15872")>>
      \o Zeros(<<"unitCode", "encryptionSeedSelect", "pad015", "pad016", "pad017", "pad018", "pad019", "pad01A", "pad01B", "pad01C", "region", "version", "autostart", "secureAreaChecksum",
                 "arm9CodeSettingsPointerAddress", "arm7CodeSettingsPointerAddress", "debugRomAddress">>) \o Empty(<<"files", "sortedFileIds">>)),
  C("soundArchive.SDAT", "", <<>>, Empty(<<"banks", "groups", "sequenceArchives", "sequencePlayers", "sequences", "streamPlayers", "streams", "waveArchives">>)
      \o <<A("fatLengthsIncludePadding", "F"), A("fileAlignment", "i32"), A("firstFileAlignment", "None"), A("padAtEnd", "T"), A("padSymbSizeTo4InSDATHeader", "F")>>),
  C("soundBank.NoteDefinition", "", <<P("waveID_dutyCycle", "waveID", "u16", "i0"), Q("waveArchiveIDID", "u16", "i0"), Q("pitch", "u8", "i60"), Q("attack", "u8", "i127"), Q("decay", "u8", "i127"),
      Q("sustain", "u8", "i127"), Q("release", "u8", "i127"), Q("pan", "u8", "i64"), Q("type", "notetype", "i1")>>, <<>>),
  C("soundBank.SingleNoteInstrument", "", <<Q("noteDefinition", "notedef", Req)>>, Zeros(<<"bankOrderKey", "dataMergeOptimizationID">>)),
  C("soundBank.RangeInstrument", "", <<Q("firstPitch", "u8", Req), Q("noteDefinitions", "notedefs", Req)>>, Zeros(<<"bankOrderKey", "dataMergeOptimizationID">>)),
  C("soundBank.RegionalInstrument", "", <<Q("regions", "regions", Req)>>, Zeros(<<"bankOrderKey", "dataMergeOptimizationID">>)),
  C("soundBank.RegionalInstrument.Region", "", <<Q("lastPitch", "u8", Req), Q("noteDefinition", "notedef", Req)>>, <<>>),
  C("soundBank.SBNK", "", <<P("file", "-", "none", "-"), Q("unk02", "u16", "i0"), Q("waveArchiveIDs", "ids", "[]")>>, <<A("inaccessibleInstruments", "{}"), A("instruments", "[]")>>),
  C("soundBank.SBNK", "fromInstruments", <<Q("instruments", "instruments", Req), Q("unk02", "u16", "i0"), Q("waveArchiveIDs", "ids", "[]")>>, <<A("inaccessibleInstruments", "{}")>>),
  C("soundGroup.GroupEntry", "fromFlags", <<Q("type", "grouptype", Req), Q("id", "u32", Req), Q("loadSSEQ", "bool", "F"), Q("loadSBNKSWARsFrom", "swarload", "i1"), Q("loadSWAR", "bool", "F"), Q("loadSSAR", "bool", "F")>>, <<>>),
  C("soundGroup.GroupEntry", "", <<>>, <<A("type", "i0"), A("id", "i0"), A("loadSSEQ", "F"), A("loadSBNKSWARsFrom", "i1"), A("loadSWAR", "F"), A("loadSSAR", "F")>>),
  C("soundSequence.SSEQ", "", <<P("file", "-", "none", "-")>> \o SeqParams, <<A("parsed", "T"), A("events", "[]"), A("dataMergeOptimizationID", "i0")>>),
  C("soundSequence.SSEQ", "fromEvents", <<Q("events", "events", Req)>> \o SeqParams, <<A("parsed", "T"), A("dataMergeOptimizationID", "i0")>>),
  C("soundSequenceArchive.SSAR", "", <<P("file", "-", "none", "-"), Q("unk02", "u16", "i0")>>, <<A("parsed", "T"), A("events", "[]"), A("sequences", "[]"), A("dataMergeOptimizationID", "i0")>>),
  C("soundSequenceArchive.SSAR", "fromEventsAndSequences", <<Q("events", "events", Req), Q("sequences", "ssarseqs", Req), Q("unk02", "u16", "i0")>>, <<A("parsed", "T"), A("dataMergeOptimizationID", "i0")>>),
  C("soundSequenceArchive.SSARSequence", "", <<P("firstEvent_firstEventOffset", "firstEvent", "event", Req)>> \o Tail(SeqParams) \o <<K("parsed", "parsed", "true", "T")>>, <<>>),
  C("soundSequencePlayer.SequencePlayer", "", <<Q("maxSequences", "u16", "i1"), Q("channels", "channelset", "set()"), Q("heapSize", "u32", "i0")>>, <<>>),
  C("soundStreamPlayer.StreamPlayer", "", <<Q("channels", "ids", "[]")>>, <<>>),
  C("soundStream.STRM", "", <<P("file", "-", "none", "-")>> \o StrmParams, StrmRest \o <<A("channels", "[]")>>),
  C("soundStream.STRM", "fromChannels", <<Q("channels", "channels", Req)>> \o StrmParams, StrmRest),
  C("soundWave.SWAV", "", <<>>, [i \in 1..6 |-> A(SwavParams[i].attr, SwavParams[i].def)] \o <<A("data", "b")>>),
  C("soundWave.SWAV", "fromData", <<Q("data", "bytes", "b")>> \o SwavParams, <<>>),
  C("soundWaveArchive.SWAR", "", <<P("file", "-", "none", "-"), Q("unk02", "u16", "i0")>>, <<A("waves", "[]"), A("dataMergeOptimizationID", "i0")>>),
  C("soundWaveArchive.SWAR", "fromWaves", <<Q("waves", "waves", Req), Q("unk02", "u16", "i0")>>, <<A("dataMergeOptimizationID", "i0")>>),
  C("bnbl.BNBLTouchArea", "", <<Q("x", "u8", "i0"), Q("y", "u8", "i0"), Q("width", "u8", "i0"), Q("height", "u8", "i0")>>, <<>>),
  C("bnbl.BNBL", "", <<>>, <<A("touchAreas", "[]"), A("unk04", "i0")>>),
  C("bnbl.BNBL", "fromTouchAreas", <<Q("touchAreas", "touchareas", Req), Q("unk04", "u16", "i0")>>, <<>>),
  C("bncl.BNCLImagePosition", "", <<Q("x", "u8", "i0"), Q("y", "u8", "i0"), K("imageID", "imageID", "u32", "i0")>>, <<>>),
  C("bncl.BNCL", "", <<>>, <<A("imagePositions", "[]"), A("unk04", "i0")>>),
  C("bncl.BNCL", "fromImagePositions", <<Q("imagePositions", "positions", Req), Q("unk04", "u16", "i0")>>, <<>>),
  C("graphics2D.TilemapTile", "fromParameters", <<Q("tileNum", "u8", Req), K("hFlip", "hFlip", "bool", "F"), K("vFlip", "vFlip", "bool", "F"), K("paletteNum", "paletteNum", "u4", "i0")>>, <<>>),
  C("graphics2D.TilemapTile", "", <<>>, <<A("tileNum", "i0"), A("hFlip", "F"), A("vFlip", "F"), A("paletteNum", "i0")>>),
  C("model.NSBMD", "", <<>>, Zeros(<<"texUnk08", "texUnk10", "texUnk18", "texUnk20", "texUnk2C", "texUnk32">>) \o Empty(<<"textures", "palettes", "models">>)),
  C("texture.NSBTX", "", <<>>, Zeros(<<"unk08", "unk10", "unk18", "unk20", "unk2C", "unk32">>) \o Empty(<<"textures", "palettes">>))
>>
------------------------------------------------------------------------------
(* a call: pos arguments given by position, the parameters in kw (indices) by name *)
Callable(c, pos, kw) ==
  LET n == Len(c.params) IN
  /\ pos <= n /\ kw \subseteq (pos + 1)..n
  /\ \A i \in 1..pos : ~c.params[i].kwonly
  /\ \A i \in 1..n : c.params[i].def = Req => i <= pos \/ i \in kw
Given(pos, kw) == (1..pos) \cup kw
Attrs(c) == ({c.params[i].attr : i \in 1..Len(c.params)} \cup {c.rest[i].attr : i \in 1..Len(c.rest)}) \ {"-"}
(* vals: value tokens of the parameters *)
New(c, pos, kw, vals) ==
  [a \in Attrs(c) |->
     IF \E i \in 1..Len(c.params) : c.params[i].attr = a
     THEN LET i == CHOOSE i \in 1..Len(c.params) : c.params[i].attr = a IN (IF i \in Given(pos, kw) THEN vals[i] ELSE c.params[i].def)
     ELSE c.rest[CHOOSE i \in 1..Len(c.rest) : c.rest[i].attr = a].def]
=============================================================================
