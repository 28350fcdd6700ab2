From a9b2c94a62dd7aa59a21f92ef563f1fbe560b33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:18 +0000
Subject: [PATCH 01/44] fix: recognise data that isn't code-compressed

_detectAppendedData only needed 5 bytes before reading an 8-byte footer,
ignored footers longer than the data, and its check of the 0xFF padding
had no effect. decompress() therefore raised struct.error or ValueError on
plain uncompressed data instead of returning it unchanged.
---
 ndspy/codeCompression.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/ndspy/codeCompression.py b/ndspy/codeCompression.py
index 59a7c5b..75530cf 100644
--- a/ndspy/codeCompression.py
+++ b/ndspy/codeCompression.py
@@ -36,20 +36,19 @@ def _detectAppendedData(data: bytes) -> int | None:
     if so, or None if the data doesn't seem to be compressed.
     """
     for possibleAmt in range(0, 0x20, 4):
-        try:
-            headerLen = data[-5 - possibleAmt]
-        except IndexError:
+        headerEnd = len(data) - possibleAmt
+        if headerEnd < 8:
             return None
 
-        compLenHeaderLen, extraSize = struct.unpack_from('<II', data, len(data) - possibleAmt - 8)
+        compLenHeaderLen, extraSize = struct.unpack_from('<II', data, headerEnd - 8)
         headerLen = compLenHeaderLen >> 24
         compressedLen = compLenHeaderLen & 0xFFFFFF
 
         if headerLen < 8: continue
-        if compressedLen > len(data): continue
-        for byte in data[-possibleAmt - headerLen  : -possibleAmt - 8]:
-            if byte != 0xFF:
-                continue
+        if headerLen > compressedLen: continue
+        if compressedLen > headerEnd: continue
+        if any(byte != 0xFF for byte in data[headerEnd - headerLen : headerEnd - 8]):
+            continue
 
         return possibleAmt
 
-- 
2.43.0


From f09da0e6dc53848a80ebdd5996406563329abb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:18 +0000
Subject: [PATCH 02/44] fix: keep appended data when a code file isn't actually
 compressed

decompress() dropped up to 28 bytes at the end of the file if they follow a
footer whose extra size is 0.
---
 ndspy/codeCompression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/codeCompression.py b/ndspy/codeCompression.py
index 75530cf..4b54f27 100644
--- a/ndspy/codeCompression.py
+++ b/ndspy/codeCompression.py
@@ -81,7 +81,7 @@ def decompress(data: bytes) -> bytes:
     # If extraSize (the last value in the header) is 0, the data is not
     # actually compressed
     if data[-4:] == b'\0\0\0\0':
-        return data
+        return data + appendedData
 
     # Read the header
     compLenHeaderLen, extraSize = struct.unpack_from('<II', data, len(data) - 8)
-- 
2.43.0


From dc81f8af2a75a2a0da062d0588efa46dbeaa4c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:59 +0000
Subject: [PATCH 03/44] fix: store code uncompressed when compressing it
 doesn't make it smaller

If the compressed data plus footer came out as large as the input, the
footer claimed that the data isn't compressed, and if it came out larger,
compress() raised struct.error.
---
 ndspy/codeCompression.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ndspy/codeCompression.py b/ndspy/codeCompression.py
index 4b54f27..10c5a21 100644
--- a/ndspy/codeCompression.py
+++ b/ndspy/codeCompression.py
@@ -255,7 +255,14 @@ def _compress(data: bytes) -> bytearray:
         _lzCommon.compress(bytes(reversed(data)), 3, 0x1002, 18, False, True)
     compressed = bytearray(reversed(compressed))
 
-    if not compressed or (len(data) + 4 < ((len(compressed) + 3) & ~4) + 8):
+    # The output (including its footer) has to be smaller than the input,
+    # since a size difference of 0 would indicate uncompressed data
+    outputLen = ignorableD + len(compressed) - ignorableC
+    outputLen += -outputLen % 4 + 8
+
+    if (not compressed
+            or (len(data) + 4 < ((len(compressed) + 3) & ~4) + 8)
+            or outputLen >= len(data)):
         # Compressed size too large -- copy the raw data over instead
 
         compressed = bytearray(data)
-- 
2.43.0


From 867d473e3678333a17a3ed89e2090b123f67b871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:17 +0000
Subject: [PATCH 04/44] fix: return None when looking up an empty path in a
 folder

Folder.idOf() and Folder.subfolder() are documented to return None if
nothing is found, but raised IndexError for '' and '/'.
---
 ndspy/fnt.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ndspy/fnt.py b/ndspy/fnt.py
index c6fb53e..98ef6b4 100644
--- a/ndspy/fnt.py
+++ b/ndspy/fnt.py
@@ -120,8 +120,9 @@ class Folder:
             return None
 
         pathList = path.split('/')
-        while not pathList[-1]: pathList = pathList[:-1]
-        while not pathList[0]: pathList = pathList[1:]
+        while pathList and not pathList[-1]: pathList = pathList[:-1]
+        while pathList and not pathList[0]: pathList = pathList[1:]
+        if not pathList: return None
         return findInFolder(pathList, self)
 
 
@@ -150,8 +151,9 @@ class Folder:
             return None
 
         pathList = path.split('/')
-        while not pathList[-1]: pathList = pathList[:-1]
-        while not pathList[0]: pathList = pathList[1:]
+        while pathList and not pathList[-1]: pathList = pathList[:-1]
+        while pathList and not pathList[0]: pathList = pathList[1:]
+        if not pathList: return None
         return findInFolder(pathList, self)
 
 
-- 
2.43.0


From 0cbb5c0213cced6d299293a886985d9312ecb550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:27 +0000
Subject: [PATCH 05/44] fix: keep file order when opening a ROM with empty
 files

An empty file has the same offset as the file stored after it, and only one
ID per offset was put into sortedFileIds. Saving the ROM again therefore
moved empty files to the end.
---
 ndspy/rom.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ndspy/rom.py b/ndspy/rom.py
index 78af762..bd587a0 100644
--- a/ndspy/rom.py
+++ b/ndspy/rom.py
@@ -308,13 +308,14 @@ class NintendoDSRom:
         self.files = []
         self.sortedFileIds = []
         if fat:
-            offset2Id = {}
+            extents = []
             for i in range(len(fat) // 8):
                 startOffset, endOffset = struct.unpack_from('<II', fat, 8 * i)
                 self.files.append(data[startOffset:endOffset])
-                offset2Id[startOffset] = i
-            for off in sorted(offset2Id):
-                self.sortedFileIds.append(offset2Id[off])
+                extents.append((startOffset, endOffset, i))
+            # Empty files have the same offset as the file after them
+            for _, _, i in sorted(extents):
+                self.sortedFileIds.append(i)
 
 
     @classmethod
-- 
2.43.0


From 45fc47f1be0d2737b0dbee0f1e1ab40121851dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:27 +0000
Subject: [PATCH 06/44] fix: update the device capacity of ROMs smaller than
 128 KB

NintendoDSRom.save(updateDeviceCapacity=True) calculated a negative capacity
and raised ValueError.
---
 ndspy/rom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/rom.py b/ndspy/rom.py
index bd587a0..9dd3ae7 100644
--- a/ndspy/rom.py
+++ b/ndspy/rom.py
@@ -459,7 +459,7 @@ class NintendoDSRom:
         # Now that we know how large the ROM data is, we can update the
         # device capacity value
         if updateDeviceCapacity:
-            self.deviceCapacity = math.ceil(math.log2(len(data))) - 17
+            self.deviceCapacity = max(0, math.ceil(math.log2(len(data))) - 17)
 
         # Now that all the offsets and stuff are determined, write the
         # header data
-- 
2.43.0


From a0e8bcf6cab4e1936c0fff5e1d93c9bb3f689e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:56 +0000
Subject: [PATCH 07/44] fix: allow saving main code files without code settings

MainCodeFile.save() raised TypeError if codeSettingsOffs was None.
---
 ndspy/code.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ndspy/code.py b/ndspy/code.py
index 0681405..6f53343 100644
--- a/ndspy/code.py
+++ b/ndspy/code.py
@@ -246,8 +246,9 @@ class MainCodeFile:
 
         if compress:
             data = bytearray(codeCompression.compress(data, True))
-            setInt(cso + 0x14, self.ramAddress + len(data))
-        else:
+            if cso is not None:
+                setInt(cso + 0x14, self.ramAddress + len(data))
+        elif cso is not None:
             setInt(cso + 0x14, 0)
 
         return data
-- 
2.43.0


From 31f5edd4f522ecaabcca136c0eba474a9a0cfd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:56 +0000
Subject: [PATCH 08/44] fix: don't return the overlay's own data from
 Overlay.save()

The uncompressed save returned the bytearray held in the data attribute, so
that editing the overlay afterwards also changed data that was saved before
(for example a file already put into a ROM).
---
 ndspy/code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/code.py b/ndspy/code.py
index 6f53343..eef30ba 100644
--- a/ndspy/code.py
+++ b/ndspy/code.py
@@ -389,7 +389,7 @@ class Overlay:
         if compress:
             data = codeCompression.compress(self.data, False)
         else:
-            data = self.data
+            data = bytes(self.data)
         self.compressedSize = len(data)
         self.compressed = compress
         return data
-- 
2.43.0


From 6b1141c98fa9b57cea87a5fd59e61ca2cc698536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:11 +0000
Subject: [PATCH 09/44] fix: store BMG script start indices the way they are
 read

Start indices are read as 16-bit values, but were written as 32-bit ones. In
big-endian files every start index was therefore read back as 0, and indices
above 65535 were silently cut off.
---
 ndspy/bmg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/bmg.py b/ndspy/bmg.py
index 1967e52..69b708b 100644
--- a/ndspy/bmg.py
+++ b/ndspy/bmg.py
@@ -299,7 +299,7 @@ class BMG:
             FLW1.extend(struct.pack(se + 'b', bmgID))
 
         for id, startIndex in self.scripts:
-            FLI1.extend(struct.pack(se + 'II', id, startIndex))
+            FLI1.extend(struct.pack(se + 'IHxx', id, startIndex))
 
         # Sections' lengths must be 32-byte aligned
         while len(INF1) % 32: INF1.append(0)
-- 
2.43.0


From 431c7506de31f347a46784079e4d8fc739c26438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:11 +0000
Subject: [PATCH 10/44] fix: keep BMG instructions and labels that look like
 padding

All-zero instructions and (0, 0) labels were dropped wherever they were in the
table, which moved all following entries to other indices. Only those at the
end of the table can be padding.
---
 ndspy/bmg.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ndspy/bmg.py b/ndspy/bmg.py
index 69b708b..dc3a5a6 100644
--- a/ndspy/bmg.py
+++ b/ndspy/bmg.py
@@ -128,17 +128,20 @@ class BMG:
             instructionsTableOffset = offset + 16
             for i in range(instructionsCount):
                 instOff = instructionsTableOffset + i * 8
-                cmd = data[instOff : instOff + 8]
-                if cmd != b'\0\0\0\0\0\0\0\0':
-                    self.instructions.append(cmd)
+                self.instructions.append(data[instOff : instOff + 8])
+            # The table may be padded with empty instructions at the end
+            while self.instructions and not any(self.instructions[-1]):
+                self.instructions.pop()
 
             indicesTableOffset = instructionsTableOffset + instructionsCount * 8
             bmgIDsTableOffset = indicesTableOffset + labelsCount * 2
             for i in range(labelsCount):
                 index, = struct.unpack_from(se + 'h', data, indicesTableOffset + i * 2)
                 bmgID, = struct.unpack_from(se + 'b', data, bmgIDsTableOffset + i)
-                if bmgID != 0 or index != 0:
-                    self.labels.append((bmgID, index))
+                self.labels.append((bmgID, index))
+            # The table may be padded with empty labels at the end
+            while self.labels and self.labels[-1] == (0, 0):
+                self.labels.pop()
 
         self.scripts = []
         def parseFLI1(offset: int, length: int) -> None:
-- 
2.43.0


From 9580ddd58010d1bc3a1418a33c213e51d10bd4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:11 +0000
Subject: [PATCH 11/44] fix: detect the endianness of BMG files of any length

Little-endian files with a length of for example 0x10000 or 0x10100 bytes were
taken for big-endian ones, because their length is not smaller than the same
bytes read in the other order. The section count is never ambiguous.
---
 ndspy/bmg.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ndspy/bmg.py b/ndspy/bmg.py
index dc3a5a6..92e1bbe 100644
--- a/ndspy/bmg.py
+++ b/ndspy/bmg.py
@@ -89,11 +89,13 @@ class BMG:
         # Super Princess Peach uses *big-endian* BMGs. What even.
 
         # Well, OK, whatever. We can make an extremely accurate guess by
-        # reading the file length value both ways and seeing which one
-        # seems to make more sense:
-        dataLenLE, = struct.unpack_from('<I', data, 8)
-        dataLenBE, = struct.unpack_from('>I', data, 8)
-        self.endianness = se = '<' if dataLenLE < dataLenBE else '>'
+        # reading the section count (and the file length, if that isn't
+        # enough) both ways and seeing which one seems to make more
+        # sense:
+        dataLenLE, sectionCountLE = struct.unpack_from('<II', data, 8)
+        dataLenBE, sectionCountBE = struct.unpack_from('>II', data, 8)
+        self.endianness = se = \
+            '<' if (sectionCountLE, dataLenLE) < (sectionCountBE, dataLenBE) else '>'
         # Still, though... ugh.
 
         magic, dataLen, sectionCount, enc, self.unk14, self.unk18, self.unk1C = \
-- 
2.43.0


From 22465c7e042563797056d639e213b18c3687a1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:58 +0000
Subject: [PATCH 12/44] fix: pass unk02 on in SWAR.fromFile()

The parameter was ignored and the loaded archive always had unk02 = 0.
---
 ndspy/soundWaveArchive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/soundWaveArchive.py b/ndspy/soundWaveArchive.py
index 4c216f7..651e10a 100644
--- a/ndspy/soundWaveArchive.py
+++ b/ndspy/soundWaveArchive.py
@@ -101,7 +101,7 @@ class SWAR:
         Load a SWAR from a filesystem file.
         """
         with open(filePath, 'rb') as f:
-            return cls(f.read(), unk02=0)
+            return cls(f.read(), unk02=unk02)
 
 
     def save(self):
-- 
2.43.0


From 7eef64a22cacd0cbc72fc0ad3dac2aef991c9b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:58 +0000
Subject: [PATCH 13/44] fix: allow saving a STRM that has no blocks

The number of samples was computed as if there was at least one block, and
could become negative, so that saving raised an error.
---
 ndspy/soundStream.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ndspy/soundStream.py b/ndspy/soundStream.py
index 88b5a42..9ab9296 100644
--- a/ndspy/soundStream.py
+++ b/ndspy/soundStream.py
@@ -198,6 +198,10 @@ class STRM:
                             f' channel {i + 1} is {len(b)} bytes'
                             ' long!')
 
+        numSamples = 0
+        if numBlocks > 0:
+            numSamples = (numBlocks - 1) * self.samplesPerBlock + self.samplesInLastBlock
+
         # Construct the wave data
         waveData = bytearray()
         for blocks in zip(*self.channels):
@@ -223,7 +227,7 @@ class STRM:
             self.waveType, self.isLooped, len(self.channels), self.unk03,
             self.sampleRate, self.time,
             self.loopOffset,
-            (numBlocks - 1) * self.samplesPerBlock + self.samplesInLastBlock,
+            numSamples,
             0x68,
             numBlocks,
             bytesPerBlock - adpcmBlockSizeAdjust,
-- 
2.43.0


From 019749fb89ac380cc68345c4a972a3d463aacc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:58 +0000
Subject: [PATCH 14/44] fix: read and write FromVariableSequenceEvent in the
 length it declares

The event is three bytes long (four for subtypes 0xB0 to 0xBD), but its
variable ID was read and written as two bytes. The loaded variable ID
therefore contained the first byte of the next event, and an event at the
end of a sequence was saved with extra bytes.
---
 ndspy/soundSequence.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index 9601a8e..dac166b 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -586,14 +586,14 @@ class FromVariableSequenceEvent(SequenceEvent):
 
     def save(self, eventsToOffsets=None):
         if self.dataLength == 3:
-            return super().save() + struct.pack('<Bh',
+            return super().save() + struct.pack('<BB',
                                                 self.subType,
                                                 self.variableID)
         else:
             if self.unknown is None:
                 raise ValueError('FromVariableSequenceEvent: trying to'
                     ' save with unknown, but unknown is None!')
-            return super().save() + struct.pack('<Bbbxx',
+            return super().save() + struct.pack('<Bbb',
                                                 self.subType,
                                                 self.unknown,
                                                 self.variableID)
@@ -607,7 +607,7 @@ class FromVariableSequenceEvent(SequenceEvent):
                                                      startOffset + 2)
         else:
             unknown = None
-            variableID, = struct.unpack_from('<h', data, startOffset + 2)
+            variableID, = struct.unpack_from('<B', data, startOffset + 2)
         return cls(subType, variableID, unknown)
 
     def __str__(self):
-- 
2.43.0


From c86da0d3adb83623c40d74d7859a1045273cb9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:58 +0000
Subject: [PATCH 15/44] fix: write every occurrence of an event that is in a
 list several times

When the same event object appeared more than once in an event list, only
its last occurrence was written. The others were left as zero bytes, which
are notes.
---
 ndspy/soundSequence.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index dac166b..19b4244 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -1419,9 +1419,11 @@ def saveSequenceEvents(events, notableEvents=None):
         off += e.dataLength
     data = bytearray(off)
 
-    for event, offset in events2Offsets.items():
-        eData = event.save(events2Offsets)
-        data[offset : offset + len(eData)] = eData
+    off = 0
+    for e in events:
+        eData = e.save(events2Offsets)
+        data[off : off + len(eData)] = eData
+        off += e.dataLength
 
     notableOffsets = [events2Offsets[e] for e in notableEvents]
 
-- 
2.43.0


From 2365013419de3ff3da3b50fb555d41308912eae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:58 +0000
Subject: [PATCH 16/44] fix: remember where jump events lead when parsing
 sequences

The outcome of a jump event itself was never recorded, so a later call
directly to that event was taken to loop forever. Everything after the call
was then kept as raw data.
---
 ndspy/soundSequence.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index 19b4244..519ac76 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -1304,6 +1304,7 @@ def readSequenceEvents(data, notableOffsets=None):
                     fate = parse_at(destination)
                     event.destination = events[destination]
 
+                    fates[off] = fate
                     for off_ in offsetsOfMySequentialEvents:
                         fates[off_] = fate
 
-- 
2.43.0


From 0d0023bf361ba20ad157af4bb50f3a92b636eea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:17 +0000
Subject: [PATCH 17/44] fix: allow parsing sequence data without any events

Saving a sequence or sequence archive that has no events gives empty events
data. Parsing it again raised EOFError instead of returning no events.
---
 ndspy/soundSequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index 519ac76..317dc0c 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -1379,7 +1379,7 @@ def readSequenceEvents(data, notableOffsets=None):
         raise EOFError('Reached EoF of sequence.')
 
     starts = notableOffsets
-    if not starts: starts = [0]
+    if not starts and data: starts = [0]
     for start in starts:
         ultimateFate = parse_at(start)
         assert ultimateFate in (FATE_EOT, FATE_LOOP), f'Starting point {hex(start)} results in fate {ultimateFate}'
-- 
2.43.0


From c356643f11721396fc60953b515fa11e9d01e514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:17 +0000
Subject: [PATCH 18/44] fix: parse SSAR sequences that have no first event

SSAR.parse() left sequences without a first event in the unparsed state, so
the archive could no longer be saved after parsing it.
---
 ndspy/soundSequenceArchive.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ndspy/soundSequenceArchive.py b/ndspy/soundSequenceArchive.py
index e185713..0a93974 100644
--- a/ndspy/soundSequenceArchive.py
+++ b/ndspy/soundSequenceArchive.py
@@ -161,10 +161,12 @@ class SSAR:
         self.events, startEvents = soundSequence.readSequenceEvents(
             eventsData, startOffs)
 
+        for seqName, seq in self.sequences:
+            # (firstEventOffset can't be accessed once this is set)
+            seq.parsed = True
+
         for event, originalOff in zip(startEvents, startOffs):
             for seq in startOffs2Seq[originalOff]:
-                # These have to happen in this order
-                seq.parsed = True
                 seq.firstEvent = event
 
 
-- 
2.43.0


From f499c1b9b5e975b5d8f3647a56b2da4af9daecf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:54:43 +0000
Subject: [PATCH 19/44] fix: allow sound archives to be saved with unnamed
 empty SSAR slots

SDAT.save() looked for sequence names inside every sequence archive,
including slots that are None, and failed with an AttributeError if such
a slot had no name and came before the first named one.
---
 ndspy/soundArchive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ndspy/soundArchive.py b/ndspy/soundArchive.py
index 54bb0b2..5e4a1e6 100644
--- a/ndspy/soundArchive.py
+++ b/ndspy/soundArchive.py
@@ -400,6 +400,7 @@ class SDAT:
                     if symbol is not None:
                         anyActualSymbols = True
                         break
+                    if entry is None: continue
                     for subSymbol, subEntry in entry.sequences:
                         if subSymbol is not None:
                             anyActualSubsymbols = True
-- 
2.43.0


From 9e1dcc859dae60a12865100ad613a7625cadb365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:54:43 +0000
Subject: [PATCH 20/44] fix: recover the layout of sound archives with few
 files

The layout options were guessed from the gaps between files, so the last
file was never looked at. Archives with a single file, with no files, or
with files that are aligned to a larger amount by chance were therefore
saved with different lengths or end padding after they were reopened.

Compare the file lengths with the ones in the headers of the files, and
take the padding at the end into account too.
---
 ndspy/soundArchive.py | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/ndspy/soundArchive.py b/ndspy/soundArchive.py
index 5e4a1e6..5208f79 100644
--- a/ndspy/soundArchive.py
+++ b/ndspy/soundArchive.py
@@ -146,7 +146,9 @@ class SDAT:
         fatArrayPos = fatBlockOffset + 0x0C
         self.fileAlignment = 0x200
         self.fatLengthsIncludePadding = True
-        finalFileEnd = fileBlockOffset + 8
+        finalFileEnd = unpaddedEnd = fileBlockOffset + 0xC
+        largestPadding = 0
+        anyPaddingIncluded = False
         for i in range(fatCount):
             (fileOffset, fileSize) = \
                 struct.unpack_from('<II', data, fatArrayPos)
@@ -155,8 +157,18 @@ class SDAT:
             # We'll need this later
             finalFileEnd = fileOffset + fileSize
 
+            # The length in the file's own header never includes padding
+            unpaddedSize = fileSize
+            if fileSize >= 0xC:
+                unpaddedSize = min(fileSize,
+                    *struct.unpack_from('<I', data, fileOffset + 8))
+            unpaddedEnd = fileOffset + unpaddedSize
+            if unpaddedSize != fileSize:
+                anyPaddingIncluded = True
+
             if i != fatCount - 1:
                 nextOffset, = struct.unpack_from('<I', data, fatArrayPos)
+                largestPadding = max(largestPadding, nextOffset - unpaddedEnd)
                 paddedSize = nextOffset - fileOffset
                 if paddedSize != fileSize:
                     self.fatLengthsIncludePadding = False
@@ -189,17 +201,35 @@ class SDAT:
             file = data[fileOffset : fileOffset + fileSize]
             files.append(file)
 
+        # If no file length includes any padding, assume that that's on
+        # purpose
+        if not anyPaddingIncluded:
+            self.fatLengthsIncludePadding = False
+
+        # The files may all be aligned to a larger amount just by
+        # chance. If the padding after the last one shows that, use the
+        # amount that explains all of the padding.
+        paddedEnd = None
+        if self.fatLengthsIncludePadding:
+            paddedEnd = finalFileEnd
+        elif fatCount == 0 or finalFileEnd < len(data):
+            paddedEnd = len(data)
+        if paddedEnd is not None:
+            largestPadding = max(largestPadding, paddedEnd - unpaddedEnd)
+            alignment = self.fileAlignment
+            while paddedEnd % alignment:
+                alignment //= 2
+            if largestPadding < alignment:
+                self.fileAlignment = alignment
+
         if self.firstFileAlignment == self.fileAlignment:
             self.firstFileAlignment = None
 
         # Check if the end is definitely unpadded (that is, if there
         # should be padding and it's not present)
-        if finalFileEnd == len(data) and finalFileEnd % self.fileAlignment != 0:
+        if finalFileEnd >= len(data) and len(data) % self.fileAlignment != 0:
             self.padAtEnd = False
 
-        # Do another quick pass to find if the FAT file lengths include
-        # padding
-
         # Read the info block
         (infoMagic, infoSize) = \
             struct.unpack_from('<4sI', data, infoBlockOffset)
-- 
2.43.0


From fb8798e86bf00d1acf3652a322d959ed08b05efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:05 +0000
Subject: [PATCH 21/44] fix: render tile lists whose last row is incomplete

renderImageTiles() and renderTilemapTiles() round the height of the image
up if the number of tiles is no multiple of the width, but then failed
with StopIteration when they ran out of tiles in the last row. Leave the
rest of that row transparent.
---
 ndspy/graphics2D.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/ndspy/graphics2D.py b/ndspy/graphics2D.py
index 8083356..9d969f9 100644
--- a/ndspy/graphics2D.py
+++ b/ndspy/graphics2D.py
@@ -407,13 +407,12 @@ def renderImageTiles(tiles, colors, paletteNum=0, width=32):
 
     img = [(0, 0, 0, 0)] * (width * height * 64)
 
-    tileIter = iter(tiles)
-    for y in range(height):
-        for x in range(width):
-            tilePixels = next(tileIter).render(colors, paletteNum)
-            for y2 in range(8):
-                base = ((y * 8 + y2) * width + x) * 8
-                img[base : base + 8] = tilePixels[y2 * 8 : y2 * 8 + 8]
+    for i, tile in enumerate(tiles):
+        y, x = divmod(i, width)
+        tilePixels = tile.render(colors, paletteNum)
+        for y2 in range(8):
+            base = ((y * 8 + y2) * width + x) * 8
+            img[base : base + 8] = tilePixels[y2 * 8 : y2 * 8 + 8]
 
     return img
 
@@ -442,13 +441,12 @@ def renderTilemapTiles(tilemapTiles, imageTiles, colors, width, tileNumOffset=0)
 
     img = [(0, 0, 0, 0)] * (width * height * 64)
 
-    tilemapIter = iter(tilemapTiles)
-    for y in range(height):
-        for x in range(width):
-            tilePixels = next(tilemapIter).render(imageTiles, colors, tileNumOffset)
-            for y2 in range(8):
-                base = ((y * 8 + y2) * width + x) * 8
-                img[base : base + 8] = tilePixels[y2 * 8 : y2 * 8 + 8]
+    for i, tile in enumerate(tilemapTiles):
+        y, x = divmod(i, width)
+        tilePixels = tile.render(imageTiles, colors, tileNumOffset)
+        for y2 in range(8):
+            base = ((y * 8 + y2) * width + x) * 8
+            img[base : base + 8] = tilePixels[y2 * 8 : y2 * 8 + 8]
 
     return img
 
-- 
2.43.0


From 05eb85c4fe41b1e8829719ec52c3836197ffafc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:05 +0000
Subject: [PATCH 22/44] fix: interpret TilemapTile values according to the
 format given

The constructor decoded the value before setting the format, so values
given for the I8 format were decoded as 16-bit values.
---
 ndspy/graphics2D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/graphics2D.py b/ndspy/graphics2D.py
index 9d969f9..e8deaef 100644
--- a/ndspy/graphics2D.py
+++ b/ndspy/graphics2D.py
@@ -236,8 +236,8 @@ class TilemapTile:
         Initialize the TilemapTile from a raw 16-bit data value.
         """
         _checkTilemapFormat(format)
-        self.value = value
         self.format = format
+        self.value = value
 
 
     @classmethod
-- 
2.43.0


From 683a44002424d704989b4114100fdb66928bc258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:05 +0000
Subject: [PATCH 23/44] fix: let tileAt() and putTile() reach all rows of tall
 tile lists

The y coordinate was compared with the width of the rows, so rows further
down than the list is wide were treated as out of bounds.
---
 ndspy/graphics2D.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndspy/graphics2D.py b/ndspy/graphics2D.py
index e8deaef..0e86441 100644
--- a/ndspy/graphics2D.py
+++ b/ndspy/graphics2D.py
@@ -472,7 +472,7 @@ def tileAt(tiles, x, y, *, width=32):
     TODO: maybe rename it somehow to indicate that? Maybe even move it
     into ndspy.__init__ (like the named-list things)?
     """
-    if x >= width or y >= width: return None
+    if x >= width: return None
     if x < 0 or y < 0: return None
     try:
         return tiles[y * width + x]
@@ -490,7 +490,7 @@ def putTile(tiles, x, y, t, *, width=32):
     into ndspy.__init__ (like the named-list things)?
     Returns True if the tile was placed, False otherwise (i.e. OOB)
     """
-    if x >= width or y >= width: return False
+    if x >= width: return False
     if x < 0 or y < 0: return False
     try:
         tiles[y * width + x] = t
-- 
2.43.0


From d7ae87f7d7a84602c99aa6410058bc4b244ea8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:54 +0000
Subject: [PATCH 24/44] fix: render textures with palettes as loaded

The texture renderers looked every palette color up in a table that only
exists after prepareLUTs() was called, and which is indexed by packed
colors.  Palettes are lists of (r, g, b, a) tuples, so rendering a
paletted texture always raised an exception.  Use the tuples directly.
---
 ndspy/texture.py | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/ndspy/texture.py b/ndspy/texture.py
index 075edd5..b063058 100644
--- a/ndspy/texture.py
+++ b/ndspy/texture.py
@@ -569,8 +569,6 @@ def _renderA3I5(data, w, h, colors):
     """
     Render this texture using the A3I5 format.
     """
-    COLOR_LUT = ndspyColor.LUT_UNPACKED
-
     pxiter = iter(data)
     dest = [0] * (w * h)
     for y in range(h):
@@ -578,7 +576,7 @@ def _renderA3I5(data, w, h, colors):
             value = next(pxiter)
             color = colors[value & 0x1F]
 
-            r, g, b, _ = COLOR_LUT[color]
+            r, g, b, _ = color
             a = value >> 5
             a = (a << 2) | (a >> 1)
 
@@ -591,7 +589,6 @@ def _renderI2(data, w, h, colors, isColor0Transparent):
     """
     Render this texture using the I2 format.
     """
-    COLOR_LUT = ndspyColor.LUT_UNPACKED
     alpha0 = 0 if isColor0Transparent else 31
 
     pxiter = iter(data)
@@ -602,25 +599,25 @@ def _renderI2(data, w, h, colors, isColor0Transparent):
 
             value1 = value & 3
             color = colors[value1]
-            r, g, b, _ = COLOR_LUT[color]
+            r, g, b, _ = color
             a = 31 if value1 != 0 else alpha0
             dest[y * w + x] = (r, g, b, a)
 
             value2 = (value >> 2) & 3
             color = colors[value2]
-            r, g, b, _ = COLOR_LUT[color]
+            r, g, b, _ = color
             a = 31 if value2 != 0 else alpha0
             dest[y * w + x + 1] = (r, g, b, a)
 
             value3 = (value >> 4) & 3
             color = colors[value3]
-            r, g, b, _ = COLOR_LUT[color]
+            r, g, b, _ = color
             a = 31 if value3 != 0 else alpha0
             dest[y * w + x + 2] = (r, g, b, a)
 
             value3 = value >> 6
             color = colors[value3]
-            r, g, b, _ = COLOR_LUT[color]
+            r, g, b, _ = color
             a = 31 if value3 != 0 else alpha0
             dest[y * w + x + 3] = (r, g, b, a)
 
@@ -631,7 +628,6 @@ def _renderI4(data, w, h, colors, isColor0Transparent):
     """
     Render this texture using the I4 format.
     """
-    COLOR_LUT = ndspyColor.LUT_UNPACKED
     alpha0 = 0 if isColor0Transparent else 31
 
     pxiter = iter(data)
@@ -642,13 +638,13 @@ def _renderI4(data, w, h, colors, isColor0Transparent):
 
             value1 = value & 0xF
             color = colors[value1]
-            r, g, b, _ = COLOR_LUT[color]
+            r, g, b, _ = color
             a = 31 if value1 != 0 else alpha0
             dest[y * w + x] = (r, g, b, a)
 
             value2 = value >> 4
             color = colors[value2]
-            r, g, b, _ = COLOR_LUT[color]
+            r, g, b, _ = color
             a = 31 if value2 != 0 else alpha0
             dest[y * w + x + 1] = (r, g, b, a)
 
@@ -659,7 +655,6 @@ def _renderI8(data, w, h, colors, isColor0Transparent):
     """
     Render this texture using the I8 format.
     """
-    COLOR_LUT = ndspyColor.LUT_UNPACKED
     alpha0 = 0 if isColor0Transparent else 31
 
     pxiter = iter(data)
@@ -668,7 +663,7 @@ def _renderI8(data, w, h, colors, isColor0Transparent):
         for x in range(w):
             value = data[y * w + x]
             color = colors[value]
-            r, g, b, _ = COLOR_LUT[color]
+            r, g, b, _ = color
             a = 31 if value != 0 else alpha0
             dest[y * w + x] = (r, g, b, a)
 
@@ -679,7 +674,8 @@ def _renderTexeled(data1, data2, w, h, colors, isColor0Transparent):
     """
     Render this texture using the Texeled format.
     """
-    COLOR_LUT = ndspyColor.LUT_UNPACKED
+    # Color averaging works on packed colors
+    colors = [ndspyColor.pack(*c) for c in colors]
 
     # This one sure is... fun :(
 
@@ -781,7 +777,7 @@ def _renderTexeled(data1, data2, w, h, colors, isColor0Transparent):
                             color = r | g | b
 
                     if alpha == 31:
-                        r, g, b, _ = COLOR_LUT[color]
+                        r, g, b, _ = ndspyColor.unpack(color)
                     else:
                         r = g = b = 0
 
@@ -794,15 +790,13 @@ def _renderA5I3(data, w, h, colors):
     """
     Render this texture using the A5I3 format.
     """
-    COLOR_LUT = ndspyColor.LUT_UNPACKED
-
     pxiter = iter(data)
     dest = [0] * (w * h)
     for y in range(h):
         for x in range(w):
             value = next(pxiter)
             color = colors[value & 0x7]
-            r, g, b, _ = COLOR_LUT[color]
+            r, g, b, _ = color
             a = value >> 3
             dest[y * w + x] = (r, g, b, a)
 
@@ -813,14 +807,12 @@ def _renderA1BGR5(data, w, h):
     """
     Render this texture using the A1BGR5 format.
     """
-    COLOR_LUT = ndspyColor.LUT_UNPACKED
-
     pxiter = iter(data)
     dest = [0] * (w * h)
     for y in range(h):
         for x in range(w):
             color = next(pxiter) | (next(pxiter) << 8)
-            r, g, b, a1 = COLOR_LUT[color]
+            r, g, b, a1 = ndspyColor.unpack(color)
             a = 31 if a1 else 0
             dest[y * w + x] = (r, g, b, a)
 
-- 
2.43.0


From 3952f983b5bf2d4220bb04fca32274544901e318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:54 +0000
Subject: [PATCH 25/44] fix: load palettes that share a name or their data

Palette data offsets were kept in a dict keyed by name and metadata, so
two palettes with the same name and metadata were both loaded with the
colors of the second one.  Palettes starting at the same offset were
loaded without any colors.
---
 ndspy/texture.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/ndspy/texture.py b/ndspy/texture.py
index b063058..9e42e3c 100644
--- a/ndspy/texture.py
+++ b/ndspy/texture.py
@@ -419,10 +419,8 @@ def _readTEX0(data):
     # Palettes
     # This needs to be done in 2 passes because palettes don't have a
     # "data length" value: first we collect all the palette data start
-    # positions (and metadata), then we sort the data start positions,
-    # and then we make the actual Palette objects with the palette data.
+    # positions (and metadata), and then we make the actual Palette objects with the palette data.
     paletteStartOffsets = []
-    palette2StartOffset = {}
 
     paletteTuples = []
     returnVal['palettes'] = []
@@ -432,21 +430,17 @@ def _readTEX0(data):
         thisPalOff <<= 3
         thisPalOff += palDataOff
 
-        pt = (name, unk00, unk02, unkHeader02)
-
         paletteStartOffsets.append(thisPalOff)
-        palette2StartOffset[pt] = thisPalOff
-        paletteTuples.append(pt)
+        paletteTuples.append((name, unk00, unk02, unkHeader02, thisPalOff))
 
     paletteStartOffsets.append(palDataOff + palDataLen)
-    paletteStartOffsets.sort()
 
-    for pt in paletteTuples:
-        startOff = palette2StartOffset[pt]
-        endOff = paletteStartOffsets[paletteStartOffsets.index(startOff) + 1]
+    for name, unk00, unk02, unkHeader02, startOff in paletteTuples:
+        # Note that several palettes can start at the same offset
+        endOff = min((off for off in paletteStartOffsets if off > startOff),
+            default=startOff)
         palData = data[startOff : endOff]
 
-        name, unk00, unk02, unkHeader02 = pt
         pal = Palette(unk00, unk02, unkHeader02, palData)
         returnVal['palettes'].append((name, pal))
 
-- 
2.43.0


From 8d7f87e8200067fd2ccfaaa443beef6ab9a2bc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:54 +0000
Subject: [PATCH 26/44] fix: allow saving a NSBMD that has no MDL0 block

NSBMD() and models loaded from a file with only a TEX0 block could not
be saved, because the model data attributes were only set when loading a
MDL0 block.
---
 ndspy/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ndspy/model.py b/ndspy/model.py
index c749989..a4305da 100644
--- a/ndspy/model.py
+++ b/ndspy/model.py
@@ -38,6 +38,8 @@ class NSBMD:
         self.texUnk32 = 0
         self.textures = []
         self.palettes = []
+        self.models = []
+        self._MDL0 = None
 
         if data is not None:
             self._initFromData(data)
@@ -343,7 +345,8 @@ class NSBMD:
 
         # Gather data blocks
         dataBlocks = []
-        dataBlocks.append(self._saveMDL0())
+        if self._MDL0 is not None:
+            dataBlocks.append(self._saveMDL0())
         dataBlocks.append(self._saveTEX0())
 
         # Add space for the block offsets
@@ -356,7 +359,7 @@ class NSBMD:
 
         # Add the NDS standard file header
         _common.NDS_STD_FILE_HEADER.pack_into(data, 0,
-            b'BMD0', 0xFEFF, 2, len(data), 0x10, 2)
+            b'BMD0', 0xFEFF, 2, len(data), 0x10, len(dataBlocks))
 
         # And return.
         return bytes(data)
-- 
2.43.0


From 857760a95f18aa9bc7e1c13e742dbc12057e0c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:54 +0000
Subject: [PATCH 27/44] fix: refuse info block names longer than 16 characters

Longer names were written in full, which moved all following names and
data away from where the saved offsets say they are.
---
 ndspy/_common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ndspy/_common.py b/ndspy/_common.py
index c3cc59d..871ba62 100644
--- a/ndspy/_common.py
+++ b/ndspy/_common.py
@@ -217,7 +217,10 @@ def saveInfoBlock(entries, entryLengths):
         if e[0] is None:
             data.extend(b'\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0')
         else:
-            data.extend(e[0].encode('latin-1').ljust(16, b'\0'))
+            name = e[0].encode('latin-1')
+            if len(name) > 16:
+                raise ValueError(f'Name is too long (max 16 characters): {e[0]}')
+            data.extend(name.ljust(16, b'\0'))
 
     # Insert the overall size, now that we know what it is
     struct.pack_into('<H', data, 2, len(data))
-- 
2.43.0


From d1e2f46f09b282b6cbeccfe3d1cfbcdd7192005d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:06 +0000
Subject: [PATCH 28/44] fix: allow SSEQMusic without SWARs

The class documentation explicitly allows swars to be None, but the
constructor raised TypeError even for its own default value.
---
 ndspy/extras/music.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index 2216cf9..eb8ac6f 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -656,7 +656,7 @@ class SSEQMusic:
         self.sseq = sseq
         self.sbnk = sbnk
         self.swars = swars
-        if not _common.isIterable(self.swars):
+        if self.swars is not None and not _common.isIterable(self.swars):
             raise TypeError('SWAR list is not iterable (did you'
                 ' accidentally pass a SWAR to the constructor instead'
                 ' of a list of SWARs?)')
-- 
2.43.0


From 79b8c652b7f2f82dda81d9358ae1fa338df7deae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:06 +0000
Subject: [PATCH 29/44] fix: do not append rests to looped tracks in
 moveInTime()

The documentation says that this does not occur for looped tracks, but a
rest was appended after the jump event anyway.
---
 ndspy/extras/music.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index eb8ac6f..479289b 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -301,7 +301,8 @@ def moveInTime(events, startIndex, time,
 
     # We made it all the way through without reaching the desired time.
     # Now we extend the list if the caller requested that...
-    if append:
+    if append and not any(isinstance(e, soundSequence.JumpSequenceEvent)
+            for e in events):
         newRest = soundSequence.RestSequenceEvent(target - elapsedTime)
         events.append(newRest)
         elapsedTime = target
-- 
2.43.0


From 3bb79c3af0229e0c9dbff98ab96973dacf48b857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:06 +0000
Subject: [PATCH 30/44] fix: make negative indices refer to the original list
 too

SimultaneousEventsModifier applied negative indices after all other
changes, so they referred to the modified list.
---
 ndspy/extras/music.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index 479289b..4d6b87d 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -359,6 +359,7 @@ def SimultaneousEventsModifier(events):
             self.log = {}
 
         def insert(self, index, item):
+            if index < 0: index = max(index + len(self), 0)
             if index not in self.log:
                 self.log[index] = {}
             if 'additions' not in self.log[index]:
@@ -366,11 +367,13 @@ def SimultaneousEventsModifier(events):
             self.log[index]['additions'].append(item)
 
         def __setitem__(self, index, item):
+            if index < 0: index += len(self)
             if index not in self.log:
                 self.log[index] = {}
             self.log[index]['replace'] = item
 
         def __delitem__(self, index):
+            if index < 0: index += len(self)
             if index not in self.log:
                 self.log[index] = {}
             self.log[index]['delete'] = True
-- 
2.43.0


From 34b22e5458b50ce8d77a802ccdc1c1c9ebd08dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:06 +0000
Subject: [PATCH 31/44] fix: keep the ends of tracks when saving SSEQMusic

The end-of-track event of each track is removed when opening a song and a
new one is added when saving it.  This lost tracks consisting only of
that event (raising IndexError if there was no other track, and making
track 0 continue into the next track otherwise), left jumps to it
pointing nowhere, and did not add it back after a conditional jump.
---
 ndspy/extras/music.py | 49 +++++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index 4d6b87d..6e91944 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -418,9 +418,32 @@ class SSEQMusic:
         """
         def __init__(self, events):
             self.events = list(events)
+            self._endEvent = None
             if self.events:
-                if isinstance(self.events[-1], soundSequence.EndTrackSequenceEvent):
-                    self.events.pop()
+                # (An end-of-track event following a jump is needed if the
+                # jump is conditional)
+                if (isinstance(self.events[-1], soundSequence.EndTrackSequenceEvent)
+                        and not (len(self.events) > 1
+                            and isinstance(self.events[-2], soundSequence.JumpSequenceEvent))):
+                    self._endEvent = self.events.pop()
+
+
+        def _eventsWithEnd(self):
+            """
+            Return the list of events, including the one ending the track.
+            """
+            events = list(self.events)
+            ended = events and isinstance(events[-1],
+                (soundSequence.EndTrackSequenceEvent,
+                 soundSequence.JumpSequenceEvent))
+            if len(events) > 1 and isinstance(events[-2],
+                    soundSequence.IfSequenceEvent):
+                ended = False
+            if not ended:
+                # Use the original event if possible, because other
+                # events may refer to it
+                events.append(self._endEvent or soundSequence.EndTrackSequenceEvent())
+            return events
 
 
         @property
@@ -777,12 +800,7 @@ class SSEQMusic:
         if len(self.tracks) == 1 and 0 in self.tracks:
             # There's only one track and it's track 0. Don't bother
             # defining tracks and stuff.
-            self.sseq.events = list(self.tracks[0].events)
-            if not (isinstance(self.sseq.events[-1],
-                               soundSequence.EndTrackSequenceEvent)
-                    or isinstance(self.sseq.events[-1],
-                                  soundSequence.JumpSequenceEvent)):
-                self.sseq.events.append(soundSequence.EndTrackSequenceEvent())
+            self.sseq.events = self.tracks[0]._eventsWithEnd()
 
         else:
             beginning = []
@@ -792,21 +810,12 @@ class SSEQMusic:
             beginning.append(dfse)
 
             for trackNum in sorted(self.tracks):
-                track = self.tracks[trackNum]
-                if not track.events:
-                    # Um.
-                    continue
-
+                events = self.tracks[trackNum]._eventsWithEnd()
                 if trackNum != 0:
                     beginning.append(
                         soundSequence.BeginTrackSequenceEvent(
-                            trackNum, track.events[0]))
-                contents.extend(track.events)
-                if not (isinstance(contents[-1],
-                                   soundSequence.EndTrackSequenceEvent)
-                        or isinstance(contents[-1],
-                                      soundSequence.JumpSequenceEvent)):
-                    contents.append(soundSequence.EndTrackSequenceEvent())
+                            trackNum, events[0]))
+                contents.extend(events)
 
             self.sseq.events = beginning + contents
 
-- 
2.43.0


From b9fb1c2e55f60b057addab57e9aae2c9df3b02cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:57 +0000
Subject: [PATCH 32/44] fix: keep the sounds of all notes when minifying banks

- New wave IDs counted waves of all archives instead of only the ones in
  the archive the wave is in, so songs using more than one wave archive
  played wrong or missing waves.
- Duty cycles of PSG note definitions were treated as wave IDs.
- Note definitions used more than once (which is what minifying a bank
  creates) had their wave ID translated repeatedly.
- Leaving out the optional wave archives raised TypeError.
---
 ndspy/extras/music.py | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index 6e91944..68bf50e 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -102,17 +102,24 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
     sbnk.inaccessibleInstruments.clear()
 
     # Remove unused entries in SWAR relative to SBNK
+    def waveOf(d):
+        # (only PCM note definitions use waves)
+        if d.type in (soundBank.NoteType.PSG_SQUARE_WAVE,
+                      soundBank.NoteType.PSG_WHITE_NOISE):
+            return None
+        return d.waveArchiveIDID, d.waveID
+
     usedWaves = set()
     for inst, notes in zip(sbnk.instruments, playedNotesPerInst):
         if isinstance(inst, soundBank.SingleNoteInstrument):
-            usedWaves.add((inst.noteDefinition.waveArchiveIDID, inst.noteDefinition.waveID))
+            usedWaves.add(waveOf(inst.noteDefinition))
         elif isinstance(inst, soundBank.RangeInstrument):
             noteNum = inst.firstPitch - 1
             for d in inst.noteDefinitions:
                 noteNum += 1
                 if MINIFY_INSTRUMENTS and (noteNum not in notes):
                     continue
-                usedWaves.add((d.waveArchiveIDID, d.waveID))
+                usedWaves.add(waveOf(d))
         elif isinstance(inst, soundBank.RegionalInstrument):
             low = 0
             for reg in inst.regions:
@@ -124,27 +131,40 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
                             break
                     else:
                         continue
-                usedWaves.add((reg.noteDefinition.waveArchiveIDID, reg.noteDefinition.waveID))
+                usedWaves.add(waveOf(reg.noteDefinition))
                 low = reg.lastPitch + 1
-    usedWaves = sorted(usedWaves, key=lambda e: e[0] * 99999999 + e[1])
+    usedWaves.discard(None)
+    usedWaves = sorted(usedWaves)
 
-    for swarNum, swar in enumerate(swars):
+    newWaveIDs = {wave: wave[1] for wave in usedWaves}
+    for swarNum, swar in enumerate(swars or []):
         newWaves = []
         for (swarNum2, swavNum) in usedWaves:
             if swarNum != swarNum2: continue
+            newWaveIDs[swarNum2, swavNum] = len(newWaves)
             newWaves.append(swar.waves[swavNum])
         swar.waves = newWaves
 
+    # Note definitions can be shared, so don't look at the waves they use
+    # after starting to change them
+    allDefinitions = []
     for inst in sbnk.instruments:
         if isinstance(inst, soundBank.SingleNoteInstrument):
-            inst.noteDefinition.waveID = usedWaves.index(
-                (inst.noteDefinition.waveArchiveIDID, inst.noteDefinition.waveID))
+            allDefinitions.append(inst.noteDefinition)
         elif isinstance(inst, soundBank.RangeInstrument):
+            allDefinitions.extend(inst.noteDefinitions)
+        elif isinstance(inst, soundBank.RegionalInstrument):
+            allDefinitions.extend(reg.noteDefinition for reg in inst.regions)
+    oldWaves = {id(d): waveOf(d) for d in allDefinitions}
+    for d in allDefinitions:
+        d.waveID = newWaveIDs.get(oldWaves[id(d)], d.waveID)
+
+    for inst in sbnk.instruments:
+        if isinstance(inst, soundBank.RangeInstrument):
             filteredDefinitions = []
             dummyDefinition = inst.noteDefinitions[0]
             for d in inst.noteDefinitions:
-                if (d.waveArchiveIDID, d.waveID) in usedWaves:
-                    d.waveID = usedWaves.index((d.waveArchiveIDID, d.waveID))
+                if oldWaves[id(d)] is None or oldWaves[id(d)] in newWaveIDs:
                     filteredDefinitions.append(d)
                 else:
                     filteredDefinitions.append(dummyDefinition)
@@ -152,9 +172,8 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
         elif isinstance(inst, soundBank.RegionalInstrument):
             filteredRegions = []
             for reg in inst.regions:
-                if (reg.noteDefinition.waveArchiveIDID, reg.noteDefinition.waveID) in usedWaves:
-                    reg.noteDefinition.waveID = usedWaves.index(
-                        (reg.noteDefinition.waveArchiveIDID, reg.noteDefinition.waveID))
+                wave = oldWaves[id(reg.noteDefinition)]
+                if wave is None or wave in newWaveIDs:
                     filteredRegions.append(
                         soundBank.RegionalInstrument.Region(
                             reg.lastPitch, reg.noteDefinition))
-- 
2.43.0


From 70cd9189196ea5e3900522c6fce1aa2a73529050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:57 +0000
Subject: [PATCH 33/44] fix: make minifyBySseq() accept sequences not yet
 parsed

It is documented to be equivalent to minifyBySseqs([sseq]), which parses
the sequences.
---
 ndspy/extras/music.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index 68bf50e..ec93302 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -192,7 +192,7 @@ def minifyBySseq(sseq, sbnk, swars=None):
     this function isn't for me." In most cases, what you actually have
     are three songs using three different copies of HGSS.
     """
-    minifyByEvents(sseq.events, sbnk, swars)
+    minifyBySseqs([sseq], sbnk, swars)
 
 
 def minifyBySseqs(sseqs, sbnk, swars=None):
-- 
2.43.0


From fd9b16c793c3147c899c2e37948a8b8683765503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:45 +0000
Subject: [PATCH 34/44] fix: do not share the channels of a SequencePlayer with
 what it saved

SequencePlayer(*player.save()) is the documented way of copying a player,
but both then used the very same set of channels.
---
 ndspy/soundSequencePlayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/soundSequencePlayer.py b/ndspy/soundSequencePlayer.py
index af79d58..7955d0d 100644
--- a/ndspy/soundSequencePlayer.py
+++ b/ndspy/soundSequencePlayer.py
@@ -34,7 +34,7 @@ class SequencePlayer:
         .heapSize as a triple. This matches the parameters of the
         default class constructor.
         """
-        return (self.maxSequences, self.channels, self.heapSize)
+        return (self.maxSequences, set(self.channels), self.heapSize)
 
 
     def __str__(self):
-- 
2.43.0


From efe665eacd87fa646ddfc753f98ad6f8cce80489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:40 +0000
Subject: [PATCH 35/44] fix: refuse empty BMG endianness values

BMG.endianness can only be '<' or '>', but save() also let '' and '<>'
through because it looked for the value inside the string '<>'.
---
 ndspy/bmg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/bmg.py b/ndspy/bmg.py
index 92e1bbe..56e9964 100644
--- a/ndspy/bmg.py
+++ b/ndspy/bmg.py
@@ -247,7 +247,7 @@ class BMG:
         Generate file data representing this BMG.
         """
         se = self.endianness
-        if se not in '<>':
+        if se not in ('<', '>'):
             raise ValueError(f"BMG.endianness is '{se}', which is"
                              f" neither '<' nor '>'")
         if not isinstance(self.encoding, str) or \
-- 
2.43.0


From 7f486902f107717670b12e7fcd84edb62c0d86f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:24 +0000
Subject: [PATCH 36/44] fix: do not loop forever on BMG messages that run past
 the end of the text

A message without a terminator, or with an escape sequence of length
zero, made the constructor loop without end (and without limit on
memory). Raise a ValueError instead.
---
 ndspy/bmg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndspy/bmg.py b/ndspy/bmg.py
index 56e9964..41c7a26 100644
--- a/ndspy/bmg.py
+++ b/ndspy/bmg.py
@@ -188,10 +188,14 @@ class BMG:
 
             nextBytes = DAT1[offset : offset + len(nullChar)]
             while nextBytes != nullChar:
+                if len(nextBytes) < len(nullChar):
+                    raise ValueError('BMG message is not null-terminated')
                 if nextBytes == escapeSequenceStart: # escape sequence
                     if currentStringStart and currentStringStart != offset:
                         stringParts.append(DAT1[currentStringStart:offset].decode(self.fullEncoding))
                     escapeLen, escapeType = DAT1[offset + len(escapeSequenceStart) : offset + len(escapeSequenceStart) + 2]
+                    if escapeLen == 0:
+                        raise ValueError('BMG escape sequence has length 0')
                     escapeData = DAT1[offset + len(escapeSequenceStart) + 2 : offset + escapeLen]
                     stringParts.append(Message.Escape(escapeType, escapeData))
                     offset += escapeLen
-- 
2.43.0


From 8ef2f4c3419b58eb6937d9c150781ce26b3971ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:18 +0000
Subject: [PATCH 37/44] fix: escape single quotes in shortened bytes reprs

A byte 0x27 was printed unescaped, so the repr of anything containing
one was not a valid bytes literal.
---
 ndspy/_common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ndspy/_common.py b/ndspy/_common.py
index 871ba62..53c5e6b 100644
--- a/ndspy/_common.py
+++ b/ndspy/_common.py
@@ -110,6 +110,9 @@ def shortBytesRepr(data, maxLen=None):
         # so we don't shorten if the following byte is an ASCII digit
         if b < 8 and (i == len(data) - 1 or data[i + 1] not in range(0x30, 0x3A)):
             r.append(f'\\{b}')
+        elif b == 0x27:
+            # (repr() would use double quotes instead of escaping this)
+            r.append("\\'")
         else:
             r.append(repr(b.to_bytes(1, 'big'))[2:-1])
     r.append("'")
-- 
2.43.0


From a696a6b4111f649d8a49e996a436541b0c3f5100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:18 +0000
Subject: [PATCH 38/44] fix: show the channels of a StreamPlayer in its repr

The condition was inverted: players with channels were printed without
them.
---
 ndspy/soundStreamPlayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndspy/soundStreamPlayer.py b/ndspy/soundStreamPlayer.py
index cef7053..9b7c594 100644
--- a/ndspy/soundStreamPlayer.py
+++ b/ndspy/soundStreamPlayer.py
@@ -40,7 +40,7 @@ class StreamPlayer:
 
 
     def __repr__(self):
-        if self.channels:
+        if not self.channels:
             return f'{type(self).__name__}()'
         else:
             return f'{type(self).__name__}({self.channels!r})'
-- 
2.43.0


From 07b21476fc778237ee6b82632543a7bb9682eb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:52 +0000
Subject: [PATCH 39/44] fix: ignore code settings pointers before the start of
 the code

A pointer below the RAM address of the code gives a negative offset, which
struct counts from the end of the data. A word there that happens to be an
address inside the code was then taken for the settings block, instead of
falling back to the search.
---
 ndspy/code.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ndspy/code.py b/ndspy/code.py
index eef30ba..e65c17e 100644
--- a/ndspy/code.py
+++ b/ndspy/code.py
@@ -109,6 +109,8 @@ class MainCodeFile:
             # (codeSettingsPointerAddress might be None if it's not
             # available, or 0 if the ROM has it set to 0)
             try:
+                # (struct would count a negative offset from the end)
+                assert codeSettingsPointerAddress - ramAddress - 4 >= 0
                 codeSettingsAddr, = struct.unpack_from(
                     '<I', data, codeSettingsPointerAddress - ramAddress - 4)
                 self.codeSettingsOffs = codeSettingsAddr - ramAddress
-- 
2.43.0


From 95c9069299c5d9ab13f029e1223d708f3f66254a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:06 +0000
Subject: [PATCH 40/44] fix: don't take a word that isn't a table address for
 the code section table

The search for the code settings accepted a table start far beyond the
table's end, such as an instruction word in front of the settings of a
file without sections. It also looked at the last word of the file when
the match was at the very beginning.
---
 ndspy/code.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndspy/code.py b/ndspy/code.py
index e65c17e..d98d06d 100644
--- a/ndspy/code.py
+++ b/ndspy/code.py
@@ -286,14 +286,14 @@ class MainCodeFile:
         expectedTableEndBytes = struct.pack('<I', expectedTableEnd)
         if expectedTableEndBytes in data:
             try:
-                match = data.index(expectedTableEndBytes, 0)
+                match = data.index(expectedTableEndBytes, 4)
             except ValueError:
                 match = None
             while match is not None:
                 possibleTableStart, = struct.unpack_from('<I', data, match - 4)
                 if (possibleTableStart % 4 == 0
                         and (expectedTableEnd - possibleTableStart) % 12 == 0
-                        and expectedTableEnd - possibleTableStart < 0x100):
+                        and 0 <= expectedTableEnd - possibleTableStart < 0x100):
                     # Probably a match
                     return match - 4
                 try:
-- 
2.43.0


From 86dcfe57049f7147f113f19f9ed38c9e8c4af0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:03:36 +0000
Subject: [PATCH 41/44] fix: keep inaccessible instruments that follow an empty
 slot when saving

---
 ndspy/soundBank.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ndspy/soundBank.py b/ndspy/soundBank.py
index 64376e9..2bd42e5 100644
--- a/ndspy/soundBank.py
+++ b/ndspy/soundBank.py
@@ -750,11 +750,13 @@ class SBNK:
                     for inacc in self.inaccessibleInstruments[i]:
                         addInstrument(inacc)
 
-        # Add any inaccessible instruments with IDs that are too high
+        # Add any inaccessible instruments with IDs that are too high, or
+        # that belong to empty slots
         idSet = set(self.inaccessibleInstruments)
         if None in idSet: idSet.remove(None)
         for inaccID in sorted(idSet):
-            if inaccID < len(self.instruments): continue
+            if (inaccID < len(self.instruments)
+                    and self.instruments[inaccID] is not None): continue
             for inacc in self.inaccessibleInstruments[inaccID]:
                 addInstrument(inacc)
 
-- 
2.43.0


From b4e2154f46b92a546cb6011a2e7ba57bcfe4a785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:27 +0000
Subject: [PATCH 42/44] fix: don't recurse endlessly when printing jumps, calls
 or tracks that lead back to themselves

---
 ndspy/soundSequence.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndspy/soundSequence.py b/ndspy/soundSequence.py
index 317dc0c..3195aff 100644
--- a/ndspy/soundSequence.py
+++ b/ndspy/soundSequence.py
@@ -19,6 +19,7 @@ Support for SSEQs and their sequence events.
 """
 
 import enum
+import reprlib
 import struct
 
 from . import _common
@@ -450,6 +451,7 @@ class BeginTrackSequenceEvent(SequenceEvent):
     def __str__(self):
         return f'<begin track {self.trackNumber} id={id(self.firstEvent)}>'
 
+    @reprlib.recursive_repr()
     def __repr__(self):
         return f'{type(self).__name__}({self.trackNumber!r}, {self.firstEvent!r} at {id(self.firstEvent)})'
 
@@ -472,6 +474,7 @@ class JumpSequenceEvent(SequenceEvent):
     def __str__(self):
         return f'<jump id={id(self.destination)}>'
 
+    @reprlib.recursive_repr()
     def __repr__(self):
         return f'{type(self).__name__}({self.destination!r} at {id(self.destination)})'
 
@@ -495,6 +498,7 @@ class CallSequenceEvent(SequenceEvent):
     def __str__(self):
         return f'<call id={id(self.destination)}>'
 
+    @reprlib.recursive_repr()
     def __repr__(self):
         return f'{type(self).__name__}({self.destination!r} at {id(self.destination)})'
 
-- 
2.43.0


From 048c8c1bbb3af6c5dbcddc19c919382f4ec23524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:43:40 +0000
Subject: [PATCH 43/44] fix: keep code sections whose size is not a multiple of
 4

Saving pads every section to a multiple of 4, but the padding was not
skipped when the file was opened again, so all following sections were
read from the wrong place.
---
 ndspy/code.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ndspy/code.py b/ndspy/code.py
index d98d06d..3e60502 100644
--- a/ndspy/code.py
+++ b/ndspy/code.py
@@ -160,7 +160,8 @@ class MainCodeFile:
 
             makeSection(secRamAddr, secSize, dataBegin, bssSize)
 
-            dataBegin += secSize
+            # (each section is followed by padding to a multiple of 4)
+            dataBegin += (secSize + 3) & ~3
 
 
     @classmethod
@@ -241,7 +242,8 @@ class MainCodeFile:
         if cso is not None:
             setInt(cso + 0x00, sectionTableAddr)
             setInt(cso + 0x04, sectionTableEnd)
-            setInt(cso + 0x08, self.ramAddress + len(self.sections[0].data))
+            setInt(cso + 0x08,
+                   self.ramAddress + ((len(self.sections[0].data) + 3) & ~3))
         else:
             # Welp, hopefully we only have one section :P
             pass
-- 
2.43.0


From 891fed2a5d69d325b2020f4aec502aa293cd94f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:15:36 +0000
Subject: [PATCH 44/44] fix: minify songs whose tracks share events

An instrument switch event that appears in more than one track, or more
than once in one track, was renumbered once per appearance. The second
renumbering used the new number as if it were the old one.
---
 ndspy/extras/music.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ndspy/extras/music.py b/ndspy/extras/music.py
index ec93302..26908d1 100644
--- a/ndspy/extras/music.py
+++ b/ndspy/extras/music.py
@@ -94,7 +94,8 @@ def minifyByEvents(eventsIter, sbnk, swars=None):
     usedInsts = sorted(usedInsts)
     sbnk.instruments = [sbnk.instruments[num] for num in usedInsts]
     playedNotesPerInst = [playedNotes[num] for num in usedInsts]
-    for e in events:
+    # (events can appear more than once, if tracks share them)
+    for e in {id(e): e for e in events}.values():
         if isinstance(e, soundSequence.InstrumentSwitchSequenceEvent):
             e.instrumentID = usedInsts.index(e.instrumentID)
 
-- 
2.43.0

