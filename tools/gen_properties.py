import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=False):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
NT="No test touches this module (the suite covers only BMG files, the package-level helpers and one documentation page)"

p("C01","LZ10 compression is lossless and emits only legal streams",
 "Decompressing the LZ10-compressed form of any byte string yields exactly that byte string, and the compressed form is a legal LZ10 stream: correct type byte and length, and every back-reference points inside the output already produced, within the format's distance and length limits. Any legal LZ10 stream, including ones written by other tools with overlapping or maximal back-references, decompresses to exactly the bytes the format defines. Data that does not start with the LZ10 type byte is refused.",
 ["inputs"],"every byte string up to 2^24-1 bytes; every legal token stream (literals and references of every distance 1..0x1000 and length 3..18)",
 NT+"; and a table of examples cannot cover window-boundary, overlap and end-of-block alignment cases of every input.",
 ["ndspy/lz10.py","ndspy/_lzCommon.py"],[("compressor","ndspy/_lzCommon.py:compress"),("decompressor","ndspy/lz10.py:decompress")],None,["lz10.compress","lz10.decompress"])

p("C02","Code compression is lossless and recognises uncompressed data",
 "Decompressing the code-compressed form of any byte string (in either the plain or the main-ARM9 mode, which leaves the first 0x4000 bytes alone) yields the original bytes, possibly followed only by zero padding when the data was stored uncompressed, and compression never fails. The compressed form is always a well-formed stream: its footer lengths are consistent and every back-reference is legal. Any well-formed stream followed by up to 0x1C appended bytes decompresses to prefix, data and appended bytes, and data that carries no valid compression footer is returned unchanged.",
 ["inputs","configurations"],"every byte string, both modes, every amount of appended data (multiples of 4 up to 0x1C), every legal backwards token stream",
 NT+"; the interesting inputs are those where the compressed size nearly equals the raw size, which only quantification over inputs reaches.",
 ["ndspy/codeCompression.py","ndspy/_lzCommon.py"],[("footer detection","ndspy/codeCompression.py:_detectAppendedData"),("backwards decompressor","ndspy/codeCompression.py:decompress"),("compressor","ndspy/codeCompression.py:_compress")],None,["codeCompression.compress","codeCompression.decompress"])

p("C03","Filename tables keep a one-to-one map between paths and file IDs",
 "For every folder tree, saving the filename table and loading it back gives the same tree: same folder and file names in the same order, same nesting, same file IDs. Looking up the ID of a path and the path of an ID are inverse to each other over all files of the tree, find folders and files at any depth, and report absence for anything else. The saved table follows the DS layout (folder IDs from 0xF000 in order, correct parents, sub-table offsets and first file IDs).",
 ["inputs","histories"],"every tree shape, name (1..127 Latin-1 characters) and first-ID assignment; every sequence of edits before saving; every valid table written by another tool",
 NT+"; correctness depends on nesting shape, names sharing prefixes, and ID bases, which examples cannot enumerate.",
 ["ndspy/fnt.py"],[("table reader","ndspy/fnt.py:load"),("table writer","ndspy/fnt.py:save"),("lookups","ndspy/fnt.py:Folder.idOf, Folder.filenameOf, Folder.subfolder, __getitem__, __contains__")],
 [("folder tree","folders, files, first file ID","ndspy/fnt.py:Folder")],["fnt.save","fnt.load","Folder.idOf","Folder.filenameOf"])

p("C04","NARC archives keep every file, its ID and its name through edits and saves",
 "After any sequence of loading, replacing, adding or removing files and saving, reopening a NARC gives exactly the files (count, order, bytes) and filename tree it held when saved, and the same header endianness. In the saved archive every file's extent is 4-byte aligned, inside the data block and disjoint from all others, and all block sizes add up to the file size. Access by filename reads and replaces exactly the file with that path and refuses unknown names.",
 ["inputs","histories"],"every list of files (including empty files and lengths of every residue mod 4), every tree, both endiannesses, every edit history; every valid archive layout on load (gaps, overlaps, unordered extents)",
 NT+"; the claim is about all archives and all edit histories.",
 ["ndspy/narc.py","ndspy/fnt.py"],[("reader","ndspy/narc.py:NARC._initFromData"),("writer","ndspy/narc.py:NARC.save"),("by-name access","ndspy/narc.py:NARC.getFileByName/setFileByName")],
 [("archive","files, filenames, endiannessOfBeginning","ndspy/narc.py:NARC")],["NARC(data)","NARC.save","getFileByName","setFileByName"])

p("C05","A ROM reopened after saving contains everything it was saved with",
 "Saving a ROM and opening the result gives back every part of it: all header fields, logo, both code files, the ARM9 post-data, both overlay tables, icon/banner, debug code, filename tree, signature and every file's bytes under the same ID and name. Replacing a file by name changes that file and nothing else. Opening a saved ROM and saving it again without changes reproduces it byte for byte.",
 ["inputs","histories","configurations"],"every combination of present/absent parts and sizes, every file count and size, every header value in range, every edit history before saving",
 NT+"; the claim ranges over all combinations of optional regions and sizes.",
 ["ndspy/rom.py","ndspy/fnt.py"],[("reader","ndspy/rom.py:NintendoDSRom._loadFromData"),("writer","ndspy/rom.py:NintendoDSRom.save")],
 [("ROM object","public attributes","ndspy/rom.py:NintendoDSRom")],["NintendoDSRom(data)","NintendoDSRom.save"])

p("C06","A saved ROM image is laid out consistently and self-describing",
 "In every saved ROM, each region the header or file table points at (code files, overlay tables, file name and allocation tables, banner, debug code, every file, signature) lies inside the image, starts at the alignment the format requires and overlaps no other region, and the header's offsets and sizes describe exactly the bytes stored there. The recorded total size, header size, header checksum, logo checksum and signature pointer match the image, and the device capacity, when recalculated, is the smallest that holds the image. Files are stored in the ROM's recorded file order, overlays next to their overlay table.",
 ["inputs","configurations"],"every combination of region sizes, overlay assignments, file orders and options",
 NT+"; overlap and misalignment appear only for particular size combinations.",
 ["ndspy/rom.py","ndspy/_common.py"],[("layout","ndspy/rom.py:NintendoDSRom.save"),("checksum","ndspy/_common.py:crc16")],None,["bytes returned by NintendoDSRom.save"])

p("C07","Overlay tables and overlays survive load, edit and save with correct sizes",
 "Loading an overlay table and saving it back reproduces every entry in ID order, and each loaded overlay carries its own file's decompressed data, addresses and flags. Saving an overlay, compressed or not, yields file data that decodes to the overlay's data (followed by a few zero bytes only when compression did not help and the data is stored raw), and leaves its recorded RAM size, compressed size and compressed flag describing exactly that data. Loading overlays from a ROM, optionally restricted to some IDs, returns exactly the requested overlays with the data of the files they name.",
 ["inputs","histories"],"every table contents, flag combination, data, compression choice and sequence of load/edit/save steps, for both processors",
 NT+"; the recorded sizes have to be right after every edit/save history.",
 ["ndspy/code.py","ndspy/rom.py","ndspy/codeCompression.py"],[("overlay","ndspy/code.py:Overlay"),("table reader","ndspy/code.py:loadOverlayTable"),("table writer","ndspy/code.py:saveOverlayTable"),("ROM access","ndspy/rom.py:NintendoDSRom.loadArm9Overlays/loadArm7Overlays")],None,["loadOverlayTable","saveOverlayTable","Overlay.save"])

p("C08","Main code files keep their sections when loaded, edited, compressed and saved",
 "Loading a main code file splits it into the sections its section table describes, each with the right RAM address, data and BSS size, whether or not the file is compressed and wherever the code-settings block is. Saving (compressed or uncompressed) and loading again gives the same sections, with the table pointers and compression end pointer in the settings block describing the saved image. A file without a settings block is kept as one section and saved back unchanged (a compressed save that stores it raw may add a few zero bytes).",
 ["inputs","histories"],"every list of sections of any size, RAM address, settings offset, compression choice and edit history",
 NT+"; pointer fix-ups must be right for every section list.",
 ["ndspy/code.py","ndspy/codeCompression.py"],[("section reader/writer","ndspy/code.py:MainCodeFile")],None,["MainCodeFile(...)","MainCodeFile.save"])

p("C09","BMG messages survive a save and reload exactly",
 "Saving a BMG file and loading it back gives the same messages: same order, same info bytes, same null messages, and the same text and escape sequences (type and data bytes), in every supported encoding and in both endiannesses, along with the file's ID and header values. Saving a file that was loaded unmodified reproduces it byte for byte when it is in canonical form. Inconsistent messages (differing info lengths, text containing the terminator or escape characters) are refused instead of being written. Opening always ends: a message whose text runs past the end of the text section is refused.",
 ["inputs","configurations"],"every list of messages made of arbitrary text and escapes, every encoding and endianness",
 "The BMG tests use a fixed set of sample files; they say nothing about other texts, escape lengths, encodings or null-message patterns.",
 ["ndspy/bmg.py"],[("reader","ndspy/bmg.py:BMG._initFromData"),("writer","ndspy/bmg.py:BMG.save"),("message codec","ndspy/bmg.py:Message")],None,["BMG(data)","BMG.save","Message"])

p("C10","BMG script data survives a save and reload exactly",
 "The instructions, labels and scripts of a BMG file come back from save and reload unchanged: every instruction's 8 bytes at its index, every label's target, and every script's ID and start index, in both endiannesses, whether or not each section is present. Section sizes and counts in the saved file describe exactly what was written and every section starts on a 32-byte boundary of the file. Malformed instructions are refused.",
 ["inputs","configurations"],"every list of instructions, labels and scripts (padding-like trailing entries excepted), both endiannesses",
 "The sample files contain few instruction lists, only little-endian ones, and never all-zero or large values.",
 ["ndspy/bmg.py"],[("FLW1/FLI1 reader","ndspy/bmg.py:BMG._initFromData"),("FLW1/FLI1 writer","ndspy/bmg.py:BMG.save")],None,["BMG.instructions","BMG.labels","BMG.scripts"])

p("C11","Sound archives keep every entry, name and empty slot through save and reload",
 "Saving a sound archive and loading it back preserves all eight kinds of entries: same order and count, same names (or absence of a name), same empty slots, and every entry's parameters and file data, including the names of the sequences inside sequence archives. Adding, removing or editing one entry and saving changes only that entry. An archive written by this library and reopened saves back to identical bytes.",
 ["inputs","histories","configurations"],"every combination of entries of the eight kinds, names and empty slots; every edit history",
 NT+"; names, holes and IDs interact across eight tables.",
 ["ndspy/soundArchive.py","ndspy/soundGroup.py","ndspy/soundSequencePlayer.py","ndspy/soundStreamPlayer.py"],[("reader","ndspy/soundArchive.py:SDAT._initFromData"),("writer","ndspy/soundArchive.py:SDAT.save")],
 [("archive","the eight named lists and layout options","ndspy/soundArchive.py:SDAT")],["SDAT(data)","SDAT.save"])

p("C12","Sound archives are packed consistently and share only identical files",
 "In a saved sound archive every block and file extent lies inside the file at the configured alignment, all sizes and offsets in the header and tables agree with the bytes, and no two distinct files overlap. Two entries share one stored file exactly when their file data and merge IDs are equal, otherwise each has its own. The layout options (first-file alignment, file alignment, lengths including padding, end padding, padded symbol size) affect only layout and are recovered when the archive is reopened, whenever the layout determines them.",
 ["inputs","configurations"],"every archive content and every combination of layout options",
 NT+"; sharing and padding depend on combinations of contents and options.",
 ["ndspy/soundArchive.py"],[("file packing","ndspy/soundArchive.py:SDAT.save"),("layout recovery","ndspy/soundArchive.py:SDAT._initFromData")],None,["bytes returned by SDAT.save"])

p("C13","Every sequence event encodes and decodes to itself",
 "Every kind of sequence event, with any parameter values in range, saves to the byte sequence the format defines for it and is read back as the same kind of event with the same parameters. The length an event declares equals the number of bytes it occupies. Lists of events are stored back to back in order.",
 ["inputs"],"every event type and every parameter value in its range (notes, variable-length durations, 8/16/24-bit and signed arguments, nested random/variable/if events)",
 NT+"; parameter encodings (variable-length, signed, offset) fail only at particular values.",
 ["ndspy/soundSequence.py"],[("event codecs","ndspy/soundSequence.py:*SequenceEvent"),("event-list reader/writer","ndspy/soundSequence.py:readSequenceEvents, saveSequenceEvents")],None,["SequenceEvent.save","readSequenceEvents","saveSequenceEvents"])

p("C14","Sequence control flow survives saving and parsing",
 "For every list of events with jumps, calls and track starts between them (forwards or backwards, shared targets, conditional, loops), saving and parsing again gives a list in which each such event refers to the event at the same position as before. Parsing and saving sequence data reproduces the same bytes, with data that no execution path reaches kept verbatim as raw data. Inserting or removing events before saving redirects every reference to the new location of the same event.",
 ["programs","inputs"],"every event program: any graph of jump/call/track references, conditional execution, unreachable regions and several entry points",
 NT+"; the claim is over all control-flow graphs.",
 ["ndspy/soundSequence.py"],[("control-flow reader","ndspy/soundSequence.py:readSequenceEvents"),("two-pass writer","ndspy/soundSequence.py:saveSequenceEvents")],None,["SSEQ.parse","SSEQ.save","readSequenceEvents"])

p("C15","Sequences move from unparsed to parsed safely and only once",
 "A sequence or sequence archive loaded from a file starts unparsed, exposes only its raw data, and saves back byte for byte; parsing switches it (and all sequences in it) to the parsed state exposing only events; parsing again changes nothing. Once parsed, what is saved is the events as they are now, whatever was edited, added, moved or removed since. If parsing fails, the object stays unparsed with its data untouched and still saves back byte for byte. Accessing the representation that is not available raises an error.",
 ["histories","fault_sequences","inputs"],"every sequence of load/parse/access/edit/save operations over parseable and unparseable data",
 NT+"; this is a claim about every operation history including failures in the middle.",
 ["ndspy/soundSequence.py","ndspy/soundSequenceArchive.py"],[("state machine","ndspy/soundSequence.py:SSEQ, ndspy/soundSequenceArchive.py:SSAR")],
 [("parsed","which representation is available","SSEQ.parsed, SSAR.parsed, SSARSequence.parsed")],["SSEQ","SSAR","SSARSequence"])

p("C16","Sequence archives keep every sequence's start point and parameters",
 "Saving and reloading a sequence archive, parsed or unparsed, gives the same sequences in the same order with the same names, bank, volume, pressures and player, and each sequence starts at the same event as before (or still has none). Several sequences may share a start event or share events with others. The file's sizes, offsets and counts agree with its contents.",
 ["inputs","programs"],"every list of sequences over every shared event program",
 NT+"; start offsets must be right for every event program and every sharing pattern.",
 ["ndspy/soundSequenceArchive.py","ndspy/soundSequence.py"],[("reader/writer","ndspy/soundSequenceArchive.py:SSAR")],None,["SSAR(...)","SSAR.save"])

p("C17","Instrument banks keep every instrument and note definition",
 "Saving and reloading an instrument bank preserves the instrument list: same indices, empty slots, kinds (single-note, range, regional), pitch ranges, regions and every field of every note definition, plus the wave archive IDs and any inaccessible instruments. Offsets and counts in the saved bank point at exactly those instruments, in the bank's recorded data order. Reopening a bank written by the library and saving it gives identical bytes.",
 ["inputs","configurations"],"every list of instruments of every kind, with every field value in range, holes, and every data order",
 NT+"; bank data has no self-describing structure, so errors only show for particular mixes of instruments.",
 ["ndspy/soundBank.py"],[("reader","ndspy/soundBank.py:SBNK._initFromData"),("writer","ndspy/soundBank.py:SBNK.save"),("instruments","ndspy/soundBank.py:*Instrument, NoteDefinition")],None,["SBNK(...)","SBNK.save"])

p("C18","Wave files and wave archives keep every sample and loop setting",
 "Saving and reloading a wave or a wave archive preserves every wave in order: its audio data, encoding, sample rate, timer value, and loop settings. Stored offsets, sizes and loop positions agree with the data, waves in a saved archive do not overlap and start on 4-byte boundaries whenever every wave's data is a multiple of 4 bytes long. Reopening and saving reproduces the bytes.",
 ["inputs"],"every list of waves, encoding, loop position and data length the format can express",
 NT+"; size/loop arithmetic depends on the encoding and on every length.",
 ["ndspy/soundWave.py","ndspy/soundWaveArchive.py"],[("wave codec","ndspy/soundWave.py:SWAV"),("archive codec","ndspy/soundWaveArchive.py:SWAR")],None,["SWAV","SWAR"])

p("C19","Streams keep every channel's samples in order",
 "Saving and reloading a stream preserves every channel's blocks of audio data exactly and in order, together with encoding, rate, timer, loop point, block counts and sizes, and its archive parameters. Channels are interleaved block by block as the format defines, with the shorter last block handled for every size. Inconsistent channels (differing block counts or sizes) are refused. Reopening and saving reproduces the bytes.",
 ["inputs"],"every number of channels, blocks, block sizes, last-block sizes and encodings the format can express",
 NT+"; interleaving is wrong only for particular channel/block/last-block combinations.",
 ["ndspy/soundStream.py"],[("codec","ndspy/soundStream.py:STRM")],None,["STRM(...)","STRM.save"])

p("C20","Touch-button and cell-layout files keep every element",
 "Saving and reloading a button-layout (BNBL) or cell-layout (BNCL) file preserves every element in order with its position, alignment, size or cell index and unknown values. Packing alignment and position into the stored coordinates and unpacking them are inverse, and the top-left corner computed for every alignment is the one the alignment defines. Reopening and saving reproduces the bytes.",
 ["inputs"],"every list of elements, every position, size and alignment combination in range",
 NT+"; the packed coordinate fields are wrong only for particular values.",
 ["ndspy/bnbl.py","ndspy/bncl.py","ndspy/_common.py"],[("codecs","ndspy/bnbl.py:BNBL, ndspy/bncl.py:BNCL"),("alignment packing","ndspy/_common.py:packAlignmentIntoPos, unpackAlignmentFromPos, getTopLeftOfAlignedRect")],None,["BNBL","BNCL"])

p("C21","Color conversions agree with each other and lose nothing avoidable",
 "Converting a color between any two formats gives the format's defined value; conversions between 16-bit, byte and 5-bit forms are exact inverses, widening to 8 bits and back returns the original, and narrowing an 8-bit channel gives the nearest 5-bit value. All equivalent functions and lookup tables give the same answer. Palettes load and save every color in order.",
 ["inputs"],"all 65536 color values, all 256 values of each channel, every pair of formats",
 NT+"; conversion must be right for all values, not examples.",
 ["ndspy/color.py"],[("conversion","ndspy/color.py:convert and the pack/unpack functions"),("lookup tables","ndspy/color.py:prepareLUTs"),("palettes","ndspy/color.py:loadPalette, savePalette")],None,["color.convert","color.loadPalette"])

p("C22","Tiles and tilemaps encode, decode and render every pixel in place",
 "Image tiles and tilemap tiles in every format load and save without loss, in order. Rendering a tile, a flipped tile, a tile sheet or a tilemap puts every pixel's color at the position and with the palette the format defines, with index 0 transparent. Tile placement helpers read and write exactly the addressed tile and report out-of-range coordinates.",
 ["inputs","configurations"],"every tile contents, tilemap value, flip, palette number, sheet width and coordinate",
 NT+"; pixel placement is wrong only for particular flips, widths or formats.",
 ["ndspy/graphics2D.py","ndspy/_common.py"],[("tile codecs","ndspy/graphics2D.py:ImageTile, TilemapTile"),("renderers","ndspy/graphics2D.py:renderImageTiles, renderTilemapTiles")],None,["ImageTile","TilemapTile","render*"])

p("C23","Texture and model files keep every texture and palette",
 "Saving and reloading a texture file preserves every texture (name, size, format, flags, both data regions) and palette (name and colors) in order, along with the file-level values; a model file keeps its model block verbatim and its textures likewise. Offsets and sizes in the saved block describe exactly the stored data. Exporting textures from a model to a texture file and importing them back changes nothing.",
 ["inputs","histories"],"every list of textures of every format and size and palettes of every length the format can express, in files and inside models",
 NT+"; data offsets depend on the whole mix of formats.",
 ["ndspy/texture.py","ndspy/model.py","ndspy/_common.py"],[("TEX0 codec","ndspy/texture.py:_readTEX0, _saveTEX0"),("info blocks","ndspy/_common.py:loadInfoBlock, saveInfoBlock"),("model container","ndspy/model.py:NSBMD")],None,["NSBTX","NSBMD"])

p("C24","Texture rendering gives the pixels the hardware format defines",
 "Rendering a texture gives, for every pixel position, the color and alpha that the texture format defines for the stored bits, for all formats: paletted, alpha-paletted, direct color and 4x4 block-compressed with all interpolation modes. The transparent-color-0 setting affects exactly index 0 of the plain paletted formats.",
 ["inputs","configurations"],"every texture data byte, palette, size and format",
 NT+"; per-format bit layout must be right for all pixel values.",
 ["ndspy/texture.py"],[("renderers","ndspy/texture.py:renderTextureData")],None,["renderTextureData","Texture.render"])

p("C25","Music time navigation and looping keep time exact",
 "Moving through a list of events by a time span stops at the right event with the exact elapsed time and mono/poly mode, splitting or appending rests only when allowed and never changing the total timing before the stop point. Looping a track places one jump so that playback returns from the loop end time to the loop start time. Batched list edits apply as if all indices referred to the original list.",
 ["inputs","histories"],"every list of events, start index, time span, option combination and batch of edits",
 NT+"; timing depends on every event list and mode change.",
 ["ndspy/extras/music.py"],[("time navigation","ndspy/extras/music.py:durationOf, moveInTime"),("looping","ndspy/extras/music.py:SSEQMusic.Track.loop"),("batched edits","ndspy/extras/music.py:SimultaneousEventsModifier")],None,["durationOf","moveInTime","Track.loop"])

p("C26","Splitting a song into tracks and joining it again keeps the song",
 "Opening a sequence as a multi-track song gives each declared track exactly its own events; editing initial values and saving produces a sequence whose track definitions, track starts and events are those of the tracks. Setting an initial value and reading it back agree, and affect only that value of that track. Renumbering tracks keeps their order and contents. Opening a song leaves the sequence as it was until saved, and making a track of a list of events leaves that list alone.",
 ["programs","histories"],"every set of tracks, every sequence of track edits",
 NT+"; claims over all songs and edit histories.",
 ["ndspy/extras/music.py","ndspy/soundSequence.py"],[("track split/join","ndspy/extras/music.py:SSEQMusic")],None,["SSEQMusic"])

p("C27","Named-list helpers act on the first matching name only",
 "Finding the index of a name, finding its value and setting its value all refer to the first entry with that name; setting changes only that entry's value and nothing else in the list; an absent name raises an error and changes nothing.",
 ["inputs","histories"],"every list of (name, value) pairs, with duplicate, missing and unnamed entries, every sequence of operations",
 "Tests check a handful of fixed lists, not every list with duplicates/holes nor sequences of operations.",
 ["ndspy/__init__.py"],[("helpers","ndspy/__init__.py:indexInNamedList, findInNamedList, setInNamedList")],None,["indexInNamedList","findInNamedList","setInNamedList"])

p("C28","Files on disk hold exactly what was saved, and failed saves leave them alone",
 "For every file type, saving to a path writes exactly the bytes that saving to memory returns, and loading from a path gives the same object as loading those bytes; the compression functions' file variants and command lines likewise write exactly what the in-memory functions return, to the requested or default output path and nowhere else. If producing the data fails, the destination file is left exactly as it was. No input file is ever modified.",
 ["inputs","fault_sequences","histories"],"every file type, every sequence of loads and saves over a set of paths, failures at any save",
 NT+"; the claim covers failures in the middle of operation sequences.",
 ["ndspy/rom.py","ndspy/narc.py","ndspy/bmg.py","ndspy/lz10.py","ndspy/codeCompression.py","ndspy/soundArchive.py","ndspy/soundSequence.py","ndspy/soundSequenceArchive.py","ndspy/soundBank.py","ndspy/soundWave.py","ndspy/soundWaveArchive.py","ndspy/soundStream.py","ndspy/color.py","ndspy/graphics2D.py"],[("file variants","*.fromFile, *.saveToFile, *ToFile, *FromFile"),("CLIs","ndspy/lz10.py:main, ndspy/codeCompression.py:main")],None,["file system"])

p("C29","Saving and inspecting never change an object, and objects never share state",
 "Saving an object (to memory) twice gives the same bytes, and neither saving nor printing it nor looking things up in it changes anything observable about it, apart from documented size fields updated by saving. Two objects created or loaded separately never affect each other: editing one leaves every other object as it was. The items of one loaded file are independent too, even if the file stores several of them as one. Loading does not modify or stay tied to the input bytes.",
 ["histories"],"every interleaving of create, load, edit, print, look up and save operations over several objects of every type",
 "Tests build one object at a time and never look at a second one, so aliasing and mutation on save are invisible to them.",
 ["ndspy/bmg.py","ndspy/code.py","ndspy/fnt.py","ndspy/narc.py","ndspy/rom.py","ndspy/soundArchive.py","ndspy/soundBank.py","ndspy/soundSequence.py","ndspy/soundSequenceArchive.py","ndspy/soundStream.py","ndspy/soundWave.py","ndspy/soundWaveArchive.py","ndspy/texture.py","ndspy/bnbl.py","ndspy/bncl.py"],[("constructors and savers","all public classes")],None,["all public objects"])

p("C30","Data of the wrong type or version is refused",
 "Opening data whose magic or version does not match the file type raises an error for every container type and never yields an object. Values the format cannot store (texture sizes that are not powers of two, palettes of the wrong length, too many wave archives, names that are too long, numbers outside the range of a byte, word or long field of their own) are refused when saving rather than silently written wrong; values at the edge of the range come back unchanged. (Bit fields packed together with others, such as cell positions, tile numbers, instrument numbers and channel masks, are masked by design and not covered.)",
 ["inputs"],"every container type, every wrong magic or version value, every out-of-range value of the listed fields",
 NT+"; refusal must hold for every wrong value.",
 ["ndspy/narc.py","ndspy/bmg.py","ndspy/lz10.py","ndspy/soundArchive.py","ndspy/soundBank.py","ndspy/soundSequence.py","ndspy/soundSequenceArchive.py","ndspy/soundStream.py","ndspy/soundWave.py","ndspy/soundWaveArchive.py","ndspy/texture.py","ndspy/model.py","ndspy/bnbl.py","ndspy/bncl.py"],[("header checks","constructors"),("range checks","save methods")],None,["constructors","save"])

p("C31","Editing one item deep inside nested archives leaves everything else identical",
 "Opening a ROM, opening an archive inside it (file archive, sound archive, compressed or not), editing one leaf item, and saving back outwards changes, after reopening, only that item: every other file, entry and header value reads back equal. This holds for any sequence of such edits and intermediate reopenings. (Not counted: guesses about the layout of a sound archive such as alignment, the size fields of overlays, and the position of the signature of a ROM.)",
 ["histories","inputs"],"every nesting of ROM, NARC, LZ10, BMG, SDAT and its entries; every sequence of leaf edits and reopenings",
 "No test combines two file types.",
 ["ndspy/rom.py","ndspy/narc.py","ndspy/lz10.py","ndspy/bmg.py","ndspy/soundArchive.py","ndspy/soundSequence.py","ndspy/soundBank.py","ndspy/soundWaveArchive.py","ndspy/soundStream.py","ndspy/code.py"],[("containers","constructors and save of every container")],None,["NintendoDSRom","NARC","SDAT","BMG"])
p("C32","Minifying sound banks never changes what a sequence plays",
 "Minifying a bank (and its wave archives) for a set of sequences leaves what every note of those sequences plays unchanged: the instrument chosen for it still gives, for its pitch, the same note definition parameters and the same wave. Instruments, note definitions and waves no note uses are gone afterwards, those used remain, and the events are changed only in the instrument numbers they select. This holds for every instrument type, several wave archives, banks given without wave archives, events shared between tracks or sequences, repeated minification, and sequences not parsed yet. (Tracks that choose an instrument before their notes; no transposition, no calls.)",
 ["inputs","histories"],"every bank, set of wave archives and set of sequences; any number of minifications in a row",
 "No test exercises ndspy.extras.music at all; a renumbering slip only shows for particular instrument and wave layouts.",
 ["ndspy/extras/music.py"],[("minify","minifyByEvents, minifyBySseq, minifyBySseqs, SSEQMusic.minify"),("bank","ndspy/soundBank.py instruments, ndspy/soundWaveArchive.py waves")],None,["minifyByEvents","minifyBySseq","minifyBySseqs"])
p("C33","Constructors give every attribute the value passed or its documented default",
 "Every public class and alternative constructor (fromXxx) accepts its documented parameters by position or by name, in any combination. Each parameter given ends up unchanged in the attribute of the same name and in no other; each one left out gives the documented default.",
 ["inputs","configurations"],"every constructor, every subset of its parameters, by position and by name, with arbitrary values",
 "The tests call a few constructors with one fixed set of arguments; a swapped pair of parameters or a changed default shows only in the combination that uses it.",
 ["ndspy/rom.py","ndspy/code.py","ndspy/fnt.py","ndspy/narc.py","ndspy/bmg.py","ndspy/bnbl.py","ndspy/bncl.py","ndspy/texture.py","ndspy/soundBank.py","ndspy/soundGroup.py","ndspy/soundSequence.py","ndspy/soundSequenceArchive.py","ndspy/soundSequencePlayer.py","ndspy/soundStream.py","ndspy/soundStreamPlayer.py","ndspy/soundWave.py","ndspy/soundWaveArchive.py"],[("constructors","__init__ and from* class methods of all public classes")],None,["constructors"])
p("C34","Printed objects read back as equal objects; listings show all files",
 "The printed form (repr) of a value object is a call of its constructor: reading it back as Python gives an object with the same attributes. Byte strings print as a valid literal of their bytes, or of the first 32 followed by three dots when longer. This holds for note definitions, instruments, regions, group entries, players, waves, code sections, overlays, folders, touch areas, image positions and their files, message files with their escapes, instructions, labels and scripts, and every sequence event not pointing to another. Printing a folder lists each file and folder in order with its ID in four digits and its name, four spaces deeper for each level. (Not covered: objects whose print leaves parts out, such as null messages, banks and archives.)",
 ["inputs"],"every value of those classes, every byte string, every folder tree",
 "No test looks at a printed form; an escaping slip shows only for particular bytes next to each other.",
 ["ndspy/_common.py","ndspy/fnt.py","ndspy/code.py","ndspy/bmg.py","ndspy/bnbl.py","ndspy/bncl.py","ndspy/soundBank.py","ndspy/soundGroup.py","ndspy/soundSequence.py","ndspy/soundSequencePlayer.py","ndspy/soundStreamPlayer.py","ndspy/soundWave.py"],[("byte strings","ndspy/_common.py:shortBytesRepr"),("printed forms","__repr__ methods"),("folder listing","ndspy/fnt.py:Folder.__str__")],None,["repr","print"])
p("C35","Readable listings (str) show every item in place, with targets and labels",
 "The text str() gives for an object is determined by what it holds. Listings of sequence events (printSequenceEventList, SSEQ, SSAR) have one line for each event, in order: the prefix, the labels that mark the event (all of them, joined by commas, cut into pieces of at most 49 characters over several lines), its number in brackets, its text, and a comma except on the last; jumps, calls and track starts name the number of their target, or NOWHERE together with a warning line in front when it is not in the list; labels without an event are listed first. Pitches are named in Helmholtz notation. Banks, wave archives, BNBL and BNCL files list every item with its number, BNBL files with a picture of the touch areas; NARC files list names with IDs and the first 16 bytes of each file; code files list every section; messages print their text with escape sequences in brackets.",
 ["inputs"],"every event list with any labels and prefix; every value of the listed classes",
 "No test prints an event list or a file; a wrong target or label shows only for particular lists.",
 ["ndspy/soundSequence.py","ndspy/soundSequenceArchive.py","ndspy/_common.py","ndspy/bnbl.py","ndspy/bncl.py","ndspy/soundBank.py","ndspy/soundWaveArchive.py","ndspy/narc.py","ndspy/code.py","ndspy/bmg.py","ndspy/texture.py"],[("event lists","ndspy/soundSequence.py:printSequenceEventList"),("names","ndspy/_common.py:noteName, getAlignmentName, enumeratedListOfStrs"),("listings","__str__ methods")],None,["str","printSequenceEventList"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
