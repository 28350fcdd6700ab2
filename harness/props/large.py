"""Files with very many or very large items, judged by StoreTrace: items are recorded as digests and lengths."""
import os, struct, zlib
from vf import IllTyped


def canon(x):
    """A description of a value that does not depend on the kind of bytes-like object, list or int."""
    if isinstance(x, (bytes, bytearray, memoryview)): return bytes(x)
    if x is None or isinstance(x, (str, bool)): return x
    if isinstance(x, int): return int(x)
    if isinstance(x, (list, tuple)): return tuple(canon(y) for y in x)
    if isinstance(x, (set, frozenset)): return tuple(sorted(x))
    raise IllTyped(type(x).__name__)


def dig(x): return zlib.crc32(repr(canon(x)).encode()) & 0x7FFFFFFF


def size(x):
    if isinstance(x, (bytes, bytearray)): return len(x)
    return sum(size(y) for y in x) if isinstance(x, (list, tuple)) else 0


class Fmt:
    """One large file. start() builds it and returns its items and head as the driver chose them."""
    edits = True
    def __init__(self, ctx): self.ctx, self.R = ctx, ctx.rng
    def blob(self, n): return self.R.randbytes(n)
    def some(self, *big):
        """Lengths of items: many small ones and the given large ones."""
        return list(big)
    def table(self, data): return None
    def sizes(self, data): return []
    def finds(self, obj): return []
    def disk(self, obj, path): obj.saveToFile(path)
    def item(self, x): return {'d': dig(x), 'n': size(x)}


def run(ctx, *fmts, hist=None, disk=False):
    hists = hist or ctx.cases('MCStore', ctx.scale('MCStore.cfg', 'MCStoreT.cfg'))
    for F in fmts:
        for rep in range(ctx.scale(1, 2)):
            f = F(ctx)
            t = ctx.trace('large-' + F.__name__.lower() + (str(rep) if rep else '')); t['module'] = 'StoreTrace'
            ev = t['ev']
            def do(op, fn, **more):
                exc, r = ctx.call(fn, limit=120)
                ev.append({'op': op, 'exc': exc, **more, **({} if exc else r)})
                return not exc
            state = {}
            def make():
                f.obj, items, head = f.start()
                return {'d': [dig(x) for x in items], 'n': [size(x) for x in items], 'head': [dig(x) for x in head]}
            def reopen():
                data = f.save(f.obj)
                if not isinstance(data, (bytes, bytearray)): raise IllTyped('bytes')
                f.obj = f.load(data); state['data'] = data
                items, head = f.see(f.obj)
                x = f.table(data)
                return {'d': [dig(x) for x in items], 'n': [size(x) for x in items], 'head': [dig(x) for x in head],
                        'ext': [x] if x else [], 'sizes': [list(p) for p in f.sizes(data)]}
            def edit(op, i):
                if op == 'del': f.dele(i); return {'i': i + 1, 'd': 0, 'n': 0}
                return {'i': i + 1, **f.item(f.put(i) if op == 'put' else f.new(i))}
            if not do('make', make): continue
            if not do('open', reopen): continue
            do('again', lambda: {'a': dig(state['data']), 'b': dig(f.save(f.obj))})
            def found():
                for i, fn in f.finds(f.obj):
                    if not do('find', lambda: f.item(fn()), i=i + 1): return
            found()
            if f.edits:
                n = len(ev[0]['d'])
                for h in ctx.rng.sample(hists, ctx.scale(2, 6)):
                    for o in h:
                        c = n + (o['op'] == 'new')
                        i = {'first': 0, 'last': c - 1, 'mid': (c + 1) // 2 - 1}[o['at']]
                        do(o['op'], lambda: edit(o['op'], i))
                        n += {'put': 0, 'new': 1, 'del': -1}[o['op']]
                    if not do('open', reopen): break
                found()
            if disk:
                p = os.path.join(ctx.scratch, 'large.bin')
                def ondisk():
                    f.disk(f.obj, p)
                    with open(p, 'rb') as h: return {'a': dig(f.save(f.obj)), 'b': dig(h.read())}
                do('disk', ondisk)


def spread(R, count, *big):
    """Lengths of many small items with the large ones in between."""
    l = [R.choice([0, 1, 2, 3, 4, 5, 8]) for _ in range(count)]
    for b in big: l[R.randrange(len(l))] = b
    return l


class ListFmt(Fmt):
    """Files whose items are one Python list of the object; raw(i) chooses an item, real(x) builds it, look(o) describes it."""
    def items(self, obj): return obj.items
    def put(self, i): x = self.raw(); self.items(self.obj)[i] = self.real(x); return x
    def new(self, i): x = self.raw(); self.items(self.obj).insert(i, self.real(x)); return x
    def dele(self, i): del self.items(self.obj)[i]
    def see(self, obj): return [self.look(x) for x in self.items(obj)], self.head(obj)
    def head(self, obj): return []


def names(R, first, n): return ['f%d' % i + 'x' * R.choice([0, 0, 3]) for i in range(first, first + n)]


def tree(fnt, R, files, folders, depth):
    """A tree of so many files and folders: some folders in a chain, the rest side by side, names of all lengths."""
    def folder(first, n): return fnt.Folder([], names(R, first, n), first)
    per = max(1, files // folders)
    root = fnt.Folder([], names(R, 0, min(per, files)), 0)
    at, left, parent = len(root.files), folders - 1, root
    paths = {root: ''}
    chain = [root]
    for k in range(left):
        n = min(per, files - at) if k < left - 1 else files - at
        x = fnt.Folder([], names(R, at, n), at); at += n
        nm = f'd{k}' + 'y' * R.choice([0, 0, 120])
        host = chain[-1] if k < depth else (R.choice(chain) if R.random() < .1 else root)
        host.folders.append((nm, x))
        if k < depth: chain.append(x)
    return root


def walk(folder, path=''):
    fs, ds = [], [(path, folder.firstID)]
    for i, n in enumerate(folder.files): fs.append((path + n, folder.firstID + i))
    for n, sub in folder.folders:
        a, b = walk(sub, path + n + '/'); fs += a; ds += b
    return fs, ds


class Fnt(Fmt):
    edits = False
    FILES, FOLDERS = 60000, 4096
    def start(self):
        from ndspy import fnt
        self.fnt = fnt
        r = tree(fnt, self.R, self.FILES, self.FOLDERS, 40)
        a, b = walk(r)
        self.names = a
        return r, a, [len(b), b]
    def save(self, o): return bytes(self.fnt.save(o))
    def load(self, d): return self.fnt.load(d)
    def see(self, o): a, b = walk(o); return a, [len(b), b]
    def sizes(self, d): return [(struct.unpack_from('<H', d, 6)[0], struct.unpack_from('<I', d, 0)[0] // 8)]
    def finds(self, o):
        ks = [0, 1, len(self.names) - 1, 255, 256, 32768] + [self.R.randrange(len(self.names)) for _ in range(15)]
        for i in ks:
            p, d = self.names[i]
            yield i, lambda: (p, o.idOf(p))
            yield i, lambda: (o.filenameOf(d), d)
            yield i, lambda: (o[d], o['/' + p])


class Narc(ListFmt):
    def start(self):
        from ndspy import narc, fnt
        R = self.R; self.narc = narc
        files = [self.blob(n) for n in spread(R, 35000, 0x10000, 0x10001, 1300000, 70000, 0x8000)]
        self.t = tree(fnt, R, 35000, 300, 3)
        o = narc.NARC.fromFilesAndNames(list(files), self.t)
        o.endiannessOfBeginning = R.choice('<>')
        self.names, _ = walk(self.t)
        return o, files, [o.endiannessOfBeginning, walk(self.t)]
    def items(self, o): return o.files
    def raw(self): return self.blob(self.R.choice([0, 3, 90000]))
    def real(self, x): return x
    def look(self, x): return bytes(x)
    def head(self, o): return [o.endiannessOfBeginning, walk(o.filenames)]
    def save(self, o): return o.save()
    def load(self, d): return self.narc.NARC(d)
    def table(self, d):
        n = struct.unpack_from('<I', d, 0x18)[0]
        a = 0x10 + struct.unpack_from('<I', d, 0x14)[0]
        b = a + struct.unpack_from('<I', d, a + 4)[0]
        return {'of': [list(struct.unpack_from('<II', d, 0x1C + 8 * i)) for i in range(n)], 'align': 4, 'lo': 0, 'hi': struct.unpack_from('<I', d, b + 4)[0] - 8}
    def sizes(self, d):
        a = 0x10 + struct.unpack_from('<I', d, 0x14)[0]
        b = a + struct.unpack_from('<I', d, a + 4)[0]
        return [(struct.unpack_from('<I', d, 8)[0], len(d)), (b + struct.unpack_from('<I', d, b + 4)[0], len(d)), (struct.unpack_from('<I', d, 0x14)[0], 12 + 8 * len(self.obj.files))]
    def finds(self, o):
        for p, i in self.R.sample(self.names, 20):
            if i < len(o.files): yield i, lambda: bytes(o.getFileByName(p))


class Rom(ListFmt):
    HEAD = ['name', 'idCode', 'developerCode', 'arm9', 'arm9PostData', 'arm7', 'arm9OverlayTable', 'arm7OverlayTable', 'iconBanner', 'debugRom', 'rsaSignature', 'arm9RamAddress', 'pad088', 'pad16C']
    def start(self):
        from ndspy import rom, fnt
        R = self.R; self.rom = rom
        r = rom.NintendoDSRom()
        files = [self.blob(n) for n in spread(R, 9000, 0x10000, 0x40001, 1300000, 300000)]
        n9, n7 = 300, 140
        def ovt(first, n): return b''.join(struct.pack('<8I', i, 0x2000000 + i, 1, 2, 3, 4, first + i, 0) for i in range(n))
        r.name, r.idCode, r.developerCode = b'BIG', b'ABCD', b'01'
        r.arm9, r.arm7 = self.blob(0x2F0010), self.blob(0x120003)
        r.arm9PostData = b'\x21\x06\xC0\xDE' + self.blob(8)
        r.arm9OverlayTable, r.arm7OverlayTable = ovt(0, n9), ovt(n9, n7)
        r.iconBanner = struct.pack('<H', 1) + self.blob(0x840 - 2)
        r.debugRom = self.blob(0x91234); r.rsaSignature = self.blob(0x88)
        r.filenames = tree(fnt, R, 9000, 500, 5)
        for w in walk(r.filenames)[1][:0]: pass
        self.names = walk(r.filenames)[0]
        r.files = list(files); r.sortedFileIds = list(range(len(files)))
        self.seen = None
        return r, files, [getattr(r, a) for a in self.HEAD] + [walk(r.filenames)]
    def items(self, o): return o.files
    def raw(self): return self.blob(self.R.choice([0, 3, 90000]))
    def real(self, x): return x
    def look(self, x): return bytes(x)
    # deleting and inserting shifts the file IDs of overlays, so only the tail of the list changes length
    def new(self, i): x = self.raw(); self.obj.files.insert(i, x); self.obj.sortedFileIds = list(range(len(self.obj.files))); return x
    def head(self, o): return [getattr(o, a) for a in self.HEAD] + [walk(o.filenames)]
    def save(self, o): return o.save()
    def load(self, d): return self.rom.NintendoDSRom(d)
    def table(self, d):
        a, n = struct.unpack_from('<II', d, 0x48)
        return {'of': [list(struct.unpack_from('<II', d, a + 8 * i)) for i in range(n // 8)], 'align': 512, 'lo': 0x4000, 'hi': len(d)}
    def sizes(self, d):
        o = self.obj
        sig = struct.unpack_from('<I', d, 0x80)[0]
        return [(struct.unpack_from('<I', d, 0x2C)[0], len(o.arm9)), (struct.unpack_from('<I', d, 0x3C)[0], len(o.arm7)), (struct.unpack_from('<I', d, 0x54)[0], 9600),
                (struct.unpack_from('<I', d, 0x5C)[0], 4480), (struct.unpack_from('<I', d, 0x164)[0], len(o.debugRom)), (struct.unpack_from('<I', d, 0x1000)[0], sig),
                (len(d), (sig + 0x88 + 0x3FF) // 0x400 * 0x400)]
    def finds(self, o):
        for p, i in self.R.sample(self.names, 20):
            if i < len(o.files): yield i, lambda: bytes(o.getFileByName(p))
        if not self.seen:
            self.seen = True
            for k, n, load in ((0, 300, o.loadArm9Overlays), (300, 140, o.loadArm7Overlays)):
                d = load()
                if list(d) != list(range(n)): yield k, lambda: b'overlay IDs'
                for i in (0, 127, 128, n - 1): yield k + i, lambda: bytes(d[i].data)


class Overlays(ListFmt):
    KEYS = ['ramAddress', 'ramSize', 'bssSize', 'staticInitStart', 'staticInitEnd', 'fileID', 'compressedSize', 'flags']
    edits = False
    def start(self):
        from ndspy import code
        R = self.R; self.code = code
        self.files = [self.blob(n) for n in spread(R, 2000, 0x10000, 0x18001, 900000)]
        vals = [[R.randrange(2**25), len(f), R.randrange(2**20), R.randrange(2**31), R.randrange(2**31), 5 * i % 2000, R.randrange(2**24), R.choice([0, 2, 4])] for i, f in enumerate(self.files)]
        for v in vals: v[1] = len(self.files[v[5]])
        self.vals = vals
        d = {i: code.Overlay(self.files[v[5]], *v[:8]) for i, v in enumerate(vals)}
        return d, [(v, self.files[v[5]]) for v in vals], [len(vals), list(range(len(vals)))]
    def see(self, o): return [([getattr(v, k) for k in self.KEYS], bytes(v.data)) for v in o.values()], [len(o), list(o)]
    def save(self, o): return bytes(self.code.saveOverlayTable(o))
    def load(self, d): return self.code.loadOverlayTable(d, lambda ov, fid: self.files[fid])
    def sizes(self, d): return [(len(d), 32 * 2000)]


class MainCode(ListFmt):
    """Items: sections after the first."""
    edits = False
    def start(self):
        from ndspy import code
        from props import c08
        R = self.R; self.code = code
        self.ram, cso = 0x2000000, 0x7F0
        impl = c08.plain(R, 0x120000)
        impl = impl[:0xA00] + b'\0' * 0 + impl[0xA00:]
        secs = [(0x1000000 + 64 * i, self.blob(n), R.randrange(2**20)) for i, n in enumerate(x or 1 for x in spread(R, 300, 0x10004, 0x18003, 500001))]
        img = bytearray(c08.image(R, self.ram, impl, cso, secs))
        struct.pack_into('<I', img, 0x40, self.ram + cso)
        o = code.MainCodeFile(bytes(img), self.ram, self.ram + 0x44)
        self.first = bytes(img[:cso]), bytes(img[cso + 0x18:len(impl)])
        return o, [(a, d, b) for a, d, b in secs], [self.first, len(impl), cso]
    def see(self, o):
        f = o.sections[0]
        return [(s.ramAddress, bytes(s.data), s.bssSize) for s in o.sections[1:]], [(bytes(f.data[:0x7F0]), bytes(f.data[0x7F0 + 0x18:])), len(f.data), o.codeSettingsOffs]
    def save(self, o): return bytes(o.save())
    def load(self, d): return self.code.MainCodeFile(d, self.ram, self.ram + 0x44)


class Lz(Fmt):
    """Items: pieces of the data."""
    edits = False
    arm9 = None
    N = 1 << 21
    def start(self):
        R = self.R
        base = self.blob(3000)
        out = bytearray()
        n = self.N if self.ctx.thorough else self.N
        while len(out) < n:
            k = R.randrange(6)
            if k == 0: out += bytes([R.randrange(256)]) * R.randrange(60000)
            elif k == 1: out += self.blob(R.randrange(40))
            elif k == 2 and out:
                a = max(0, len(out) - R.choice([1, 3, 4000, 4096, 4100])); out += bytes(out[a:a + R.randrange(1, 4000)]) * R.choice([1, 9])
            else: out += (base[:R.randrange(1, 3000)]) * R.randrange(1, 30)
        out = bytes(out[:n + 5])
        return out, self.cut(out), [len(out)]
    def cut(self, d): return [d[i:i + 10000] for i in range(0, len(d), 10000)]
    def see(self, d): return self.cut(bytes(d)), [len(d)]
    def save(self, o):
        from ndspy import lz10
        return bytes(lz10.compress(o))
    def load(self, d):
        from ndspy import lz10
        return lz10.decompress(d)
    def sizes(self, d): return [(struct.unpack_from('<I', d)[0] >> 8, len(self.obj))] if self.arm9 is None else []
    def disk(self, o, path):
        from ndspy import lz10
        lz10.compressToFile(o, path)


class Lz24(Lz):
    """The largest length that fits in the header."""
    N = (1 << 24) - 6


class CodeLz(Lz):
    arm9 = False
    def save(self, o):
        from ndspy import codeCompression
        return bytes(codeCompression.compress(o, self.arm9))
    def load(self, d):
        from ndspy import codeCompression
        return codeCompression.decompress(d)
    def disk(self, o, path):
        from ndspy import codeCompression
        codeCompression.compressToFile(o, path, self.arm9) if self.arm9 else codeCompression.compressToFile(o, path)


class CodeLz9(CodeLz):
    arm9 = True


class Bmg(ListFmt):
    N = 40000
    def start(self):
        from ndspy import bmg
        R = self.R; self.bmg = bmg
        self.info = R.choice([4, 300]) if self.N < 5000 else 6
        msgs = [self.raw() for _ in range(self.N)]
        msgs[R.randrange(self.N)] = (self.blob(self.info), ('long' * 30000, (7, self.blob(200))), False)
        o = bmg.BMG.fromMessages([self.real(m) for m in msgs], id=R.randrange(2**32))
        o.encoding = R.choice(['utf-16', 'cp1252', 'utf-8', 'shift-jis']); o.endianness = R.choice('<>')
        return o, msgs, self.head(o)
    def raw(self):
        R = self.R; i = self.blob(self.info)
        if R.random() < .02: return (i, (), True)
        k = R.randrange(5)
        if k == 0: return (i, (), False)
        if k == 1: return (i, ('m%d' % R.randrange(10**6), (R.randrange(256), self.blob(R.choice([0, 1, 5, 126, 127, 128, 200, 251]))), 'b'), False)
        return (i, ('text %d' % R.randrange(10**6),), False)
    def real(self, m): return self.bmg.Message(m[0], [p if isinstance(p, str) else self.bmg.Message.Escape(*p) for p in m[1]], m[2])
    def look(self, m): return (bytes(m.info), tuple(p if isinstance(p, str) else (p.type, bytes(p.data)) for p in m.stringParts), m.isNull)
    def items(self, o): return o.messages
    def head(self, o): return [o.id, o.encoding, o.endianness, o.unk14, o.instructions, o.labels, o.scripts]
    def save(self, o): return o.save()
    def load(self, d): return self.bmg.BMG(d)
    def sizes(self, d):
        e = self.obj.endianness
        return [(struct.unpack_from(e + 'I', d, 8)[0], (len(d) + 31) // 32 * 32), (struct.unpack_from(e + 'H', d, 0x28)[0], len(self.obj.messages))]


class BmgInfo(Bmg):
    """Long info values."""
    N = 2000


class BmgScript(ListFmt):
    """Items: instructions, then labels, then scripts."""
    edits = False
    def start(self):
        from ndspy import bmg
        R = self.R; self.bmg = bmg
        a = [self.blob(8) for _ in range(64000)] + [b'\1' * 8]
        b = [(R.randrange(-128, 128), R.randrange(-32768, 32768)) for _ in range(50000)] + [(1, 1)]
        c = [(R.randrange(2**32), R.randrange(65536)) for _ in range(65000)]
        o = bmg.BMG.fromMessages([bmg.Message(b'', ['a'])], list(a), list(b), list(c))
        o.endianness = R.choice('<>')
        return o, a + b + c, [len(a), len(b), len(c), o.endianness]
    def see(self, o): return [bytes(x) for x in o.instructions] + list(o.labels) + list(o.scripts), [len(o.instructions), len(o.labels), len(o.scripts), o.endianness]
    def save(self, o): return o.save()
    def load(self, d): return self.bmg.BMG(d)


class Sdat(Fmt):
    """Items: entries of every list in turn."""
    edits = False
    def start(self):
        from ndspy import soundArchive as A, soundSequence as Q, soundSequenceArchive as SA, soundBank as B, soundWaveArchive as W, soundSequencePlayer as P, soundGroup as G, soundStreamPlayer as T, soundStream as S
        from props import sdatlib
        R = self.R; self.A = A
        o = A.SDAT()
        nm = lambda k, i: None if R.random() < .03 else f'{k}_{i}' + 'N' * R.choice([0, 0, 10, 60, 64, 300])
        o.sequences = [(nm('SEQ', i), None if R.random() < .02 else Q.SSEQ(sdatlib.sseq(struct.pack('<I', i) + self.blob(R.choice([0, 3, 40]))), i % 65536, R.randrange(65536), 1, 2, 3, i % 256)) for i in range(1200)]
        o.sequences[700] = ('SEQ_BIG', Q.SSEQ(sdatlib.sseq(self.blob(400000))))
        o.sequenceArchives = [(nm('AR', i), SA.SSAR(sdatlib.ssar(R, n, self.blob(20)), i, [nm('S', j) for j in range(n)])) for i, n in enumerate([300, 3, 70, 0, 150] + [1] * 300)]
        o.banks = [(nm('BANK', i), B.SBNK(sdatlib.sbnk(R, 2), i, [R.choice([None, R.randrange(32767)]) for _ in range(4)])) for i in range(400)]
        o.waveArchives = [(nm('WAR', i), W.SWAR(sdatlib.swar(R, 2), i)) for i in range(300)]
        big = b'SWAR' + struct.pack('<HHIHH', 0xFEFF, 0x100, 0x3C + 4 + 12 + 1500000, 16, 1) + b'DATA' + struct.pack('<I32xI', 0x2C + 4 + 12 + 1500000, 1) + struct.pack('<I', 0x40) + struct.pack('<BBHHHI', 0, 0, 8000, 9, 0, 375000) + self.blob(1500000)
        o.waveArchives[17] = ('WAR_BIG', W.SWAR(big))
        o.sequencePlayers = [(nm('PL', i), P.SequencePlayer(i, {i % 16, 3}, R.randrange(2**32))) for i in range(300)]
        o.groups = [(nm('GR', i), [G.GroupEntry(R.randrange(4), R.randrange(16), R.randrange(2**32)) for _ in range(n)]) for i, n in enumerate([1500, 0, 256, 300] + [2] * 300)]
        o.streamPlayers = [(nm('SP', i), T.StreamPlayer(list(self.blob(i % 17)))) for i in range(300)]
        o.streams = [(nm('ST', i), S.STRM(sdatlib.strm(R, 1 + i % 2), i, 1, 2, 3, 4)) for i in range(300)]
        a, b = self.see(o)
        return o, a, b
    def see(self, o):
        out = []
        for n, s in o.sequences: out.append((n, None if s is None else [bytes(s.save()[0])] + list(s.save()[1:])))
        for n, s in o.sequenceArchives: out.append((n, None if s is None else [bytes(s.save()[0]), s.save()[1], list(s.save()[2])]))
        for n, s in o.banks: out.append((n, [bytes(s.save()[0]), s.unk02, s.waveArchiveIDs]))
        for n, s in o.waveArchives: out.append((n, [bytes(s.save()[0]), s.unk02]))
        for n, p in o.sequencePlayers: out.append((n, p.maxSequences, p.channels, p.heapSize))
        for n, g in o.groups: out.append((n, [(e.type, e.loadSSEQ, e.loadSBNKSWARsFrom, e.loadSWAR, e.loadSSAR, e.id) for e in g]))
        for n, p in o.streamPlayers: out.append((n, p.channels))
        for n, s in o.streams: out.append((n, [bytes(s.save()[0])] + list(s.save()[1:])))
        return out, [len(l) for l in (o.sequences, o.sequenceArchives, o.banks, o.waveArchives, o.sequencePlayers, o.groups, o.streamPlayers, o.streams)]
    def save(self, o): return bytes(o.save())
    def load(self, d): return self.A.SDAT(d)
    def sizes(self, d):
        p = struct.unpack_from('<8I', d, 0x10)
        n = struct.unpack_from('<I', d, p[4] + 8)[0]
        ext = [struct.unpack_from('<II', d, p[4] + 12 + 16 * i) for i in range(n)]
        bad = sum(a % 32 != 0 or a < p[6] + 12 or a + b > p[6] + p[7] for a, b in ext) + sum(ext[i][0] + ext[i][1] > ext[i + 1][0] for i in range(n - 1))
        return [(struct.unpack_from('<I', d, 8)[0], len(d)), (p[6] + p[7], len(d)), (bad, 0), (struct.unpack_from('<I', d, p[6] + 8)[0], n), (struct.unpack_from('<I', d, p[6] + 4)[0], p[7])]


class Sseq(ListFmt):
    """Items: events, with jumps over more than 64 KB and more than 1 MB, forwards and backwards."""
    edits = False
    def events(self, S):
        R = self.R
        ev = []
        def notes(n): return [S.NoteSequenceEvent(R.randrange(128), R.randrange(128), R.choice([1, 100, 0x3FFF, 0x200000])) if R.random() < .8 else S.RestSequenceEvent(R.choice([1, 0x80, 0x4000, 0x200000, 0xFFFFFFF])) for _ in range(n)]
        a, b, c = notes(20), notes(25000), notes(10)
        raw = S.RawDataSequenceEvent(self.blob(1100000))
        d = notes(400)
        j1 = S.JumpSequenceEvent(d[0]); begin = [S.BeginTrackSequenceEvent(i, x) for i, x in ((1, c[3]), (2, d[399]), (3, a[1]))]
        call = S.CallSequenceEvent(c[0])
        ev = [S.DefineTracksSequenceEvent({0, 1, 2, 3})] + begin + a + [call] + b + [S.IfSequenceEvent(), S.JumpSequenceEvent(a[0]), j1] + c + [S.ReturnSequenceEvent(), raw] + d + [S.JumpSequenceEvent(b[12345])]
        return ev
    def start(self):
        from ndspy import soundSequence as S
        self.S = S
        o = S.SSEQ.fromEvents(self.events(S), 5, 6, 7, 8, 9, 10)
        a, b = self.see(o)
        return o, a, b
    def describe(self, events):
        at = {id(e): i for i, e in enumerate(events)}
        out = []
        for e in events:
            d = {k: v for k, v in vars(e).items()}
            x = [type(e).__name__]
            for k in sorted(d):
                v = d[k]
                x.append((k, ('at', at.get(id(v), -1)) if isinstance(v, self.S.SequenceEvent) else sorted(v) if isinstance(v, set) else v))
            out.append(x)
        return out
    def see(self, o):
        o.parse()
        return self.describe(o.events), [o.unk02, o.bankID, o.volume, o.playerID, len(o.events)]
    def save(self, o): self.p = o.save()[1:]; return bytes(o.save()[0])
    def load(self, d): return self.S.SSEQ(d, *self.p)
    def sizes(self, d): return [(struct.unpack_from('<I', d, 8)[0], len(d)), (struct.unpack_from('<I', d, 0x14)[0], len(d) - 16)]


class Ssar(Sseq):
    """Items: events, then sequences."""
    def start(self):
        from ndspy import soundSequence as S, soundSequenceArchive as A
        R = self.R
        self.S, self.A = S, A
        ev = self.events(S)
        q = [(f'Q{i}', A.SSARSequence(None if R.random() < .03 else ev[R.choice([0, len(ev) - 1, R.randrange(25000), len(ev) - R.randrange(1, 400)])], i % 65536, *self.blob(4), parsed=True)) for i in range(2500)]
        for n, s in q:
            if isinstance(s.firstEvent, S.RawDataSequenceEvent): s.firstEvent = ev[0]
        o = A.SSAR.fromEventsAndSequences(ev, q, 77)
        a, b = self.see(o)
        return o, a, b
    def see(self, o):
        o.parse()
        at = {id(e): i for i, e in enumerate(o.events)}
        return self.describe(o.events) + [(n, at.get(id(s.firstEvent), -1), s.bankID, s.volume, s.channelPressure, s.polyphonicPressure, s.playerID) for n, s in o.sequences], [o.unk02, len(o.events), len(o.sequences)]
    def load(self, d): return self.A.SSAR(d, *self.p)
    def sizes(self, d): return [(struct.unpack_from('<I', d, 8)[0], len(d)), (struct.unpack_from('<I', d, 0x14)[0], len(d) - 16), (struct.unpack_from('<I', d, 0x1C)[0], len(self.obj.sequences))]


class Bank(ListFmt):
    def start(self):
        from ndspy import soundBank as B
        R = self.R; self.B = B
        xs = [self.raw() for _ in range(2200)]
        o = B.SBNK.fromInstruments([self.real(x) for x in xs], 3, [1, 2, None, 4]) if hasattr(B.SBNK, 'fromInstruments') else None
        return o, xs, [3, [1, 2, None, 4]]
    def nd(self): return [self.R.randrange(65536), self.R.randrange(65536)] + list(self.blob(6))
    def raw(self):
        R = self.R
        if R.random() < .05: return ()
        if R.random() < .01: return (16, R.randrange(20), [(self.nd(), 1) for _ in range(60)])
        return (R.choice([1, 2, 3]), self.nd())
    def real(self, x):
        B = self.B
        if not x: return None
        if x[0] == 16: return B.RangeInstrument(x[1], [B.NoteDefinition(*n, B.NoteType(t)) for n, t in x[2]])
        return B.SingleNoteInstrument(B.NoteDefinition(*x[1], B.NoteType(x[0])))
    def note(self, n): return [n.waveID, n.waveArchiveIDID, n.pitch, n.attack, n.decay, n.sustain, n.release, n.pan]
    def look(self, i):
        if i is None: return ()
        if isinstance(i, self.B.RangeInstrument): return (16, i.firstPitch, [(self.note(n), int(n.type)) for n in i.noteDefinitions])
        return (int(i.noteDefinition.type), self.note(i.noteDefinition))
    def items(self, o): return o.instruments
    def head(self, o): return [o.unk02, o.waveArchiveIDs]
    def save(self, o): self.p = o.save()[1:]; return bytes(o.save()[0])
    def load(self, d): return self.B.SBNK(d, *self.p)
    def sizes(self, d): return [(struct.unpack_from('<I', d, 8)[0], len(d)), (struct.unpack_from('<I', d, 0x38)[0], len(self.obj.instruments))]


class Swar(ListFmt):
    def start(self):
        from ndspy import soundWaveArchive as W, soundWave, WaveType
        from props import wavelib
        self.W, self.V, self.WT, self.lib = W, soundWave, WaveType, wavelib
        xs = [self.raw(4 * n) for n in spread(self.R, 2500, 0x10001, 0x4000, 300000)]
        return W.SWAR.fromWaves([self.real(x) for x in xs], 9), xs, [9]
    def raw(self, n=None):
        w = self.lib.rand_wave(self.R, True)
        d = self.blob(self.R.choice([0, 4, 80000]) if n is None else n)
        return [w[k] for k in ('type', 'looped', 'rate', 'time', 'loop', 'total')] + [d]
    def real(self, x): return self.V.SWAV.fromData(x[6], waveType=self.WT(x[0]), isLooped=x[1], sampleRate=x[2], time=x[3], loopOffset=x[4], totalLength=x[5])
    def look(self, w): return [int(w.waveType), w.isLooped, w.sampleRate, w.time, w.loopOffset, w.totalLength, bytes(w.data)]
    def items(self, o): return o.waves
    def head(self, o): return [o.unk02]
    def save(self, o): self.p = o.save()[1:]; return bytes(o.save()[0])
    def load(self, d): return self.W.SWAR(d, *self.p)
    def table(self, d):
        n = struct.unpack_from('<I', d, 0x38)[0]
        offs = list(struct.unpack_from(f'<{n}I', d, 0x3C)) + [len(d)]
        return {'of': [[offs[i] + 12, offs[i + 1]] for i in range(n)], 'align': 4, 'lo': 0x3C + 4 * n, 'hi': len(d)}
    def sizes(self, d): return [(struct.unpack_from('<I', d, 8)[0], len(d)), (struct.unpack_from('<I', d, 0x14)[0], len(d) - 16)]


class Swav(Swar):
    """One wave; items: pieces of it."""
    edits = False
    def start(self):
        super().start()
        x = self.raw(3000001)
        o = self.real(x)
        return (o, *self.see(o))
    def see(self, o):
        d = bytes(o.data)
        return [d[i:i + 9999] for i in range(0, len(d), 9999)], self.look(o)[:6] + [len(d)]
    def save(self, o): return o.save()
    def load(self, d): return self.V.SWAV(d)
    def table(self, d): return None


class Strm(Fmt):
    """Items: blocks, channel after channel."""
    edits = False
    SHAPES = [(2, 1500, 1000, 100), (255, 5, 6, 4), (1, 3, 0x50000, 0x10004), (3, 300, 64, 63)]
    def start(self):
        from ndspy import soundStream as S, WaveType
        self.S = S
        R = self.R
        ch, nb, per, last = self.SHAPES[self.shape]
        chans = [[self.blob(per) for _ in range(nb - 1)] + [self.blob(last)] for _ in range(ch)]
        o = S.STRM.fromChannels([list(c) for c in chans])
        o.waveType, o.isLooped, o.sampleRate, o.time = WaveType(R.randrange(3)), R.random() < .5, R.randrange(65536), R.randrange(65536)
        o.loopOffset, o.samplesPerBlock, o.samplesInLastBlock = R.randrange(2**32), R.randrange(2**12), R.randrange(2**31)
        return (o, [b for c in chans for b in c], self.head(o))
    def head(self, o): return [int(o.waveType), o.isLooped, o.sampleRate, o.time, o.loopOffset, o.samplesPerBlock, o.samplesInLastBlock, len(o.channels), [len(c) for c in o.channels]]
    def see(self, o): return [bytes(b) for c in o.channels for b in c], self.head(o)
    def save(self, o): self.p = o.save()[1:]; return o.save()[0]
    def load(self, d): return self.S.STRM(d, *self.p)
    def sizes(self, d):
        ch, nb, per, last = self.SHAPES[self.shape]
        n = struct.unpack_from('<I', d, 0x64)[0]
        pad = lambda x: (x + 3) // 4 * 4
        return [(struct.unpack_from('<I', d, 8)[0], len(d)), (n + 0x60, len(d)), (n, 8 + (nb - 1) * pad(ch * per) + pad(ch * last)), (struct.unpack_from('<I', d, 0x2C)[0], nb)]


class StrmA(Strm): shape = 0
class StrmB(Strm): shape = 1
class StrmC(Strm): shape = 2
class StrmD(Strm): shape = 3


class Palette(Fmt):
    edits = False
    def start(self):
        from ndspy import color
        self.color = color
        p = [tuple(self.R.randrange(32) for _ in range(3)) + (self.R.randrange(2),) for _ in range(40000)]
        return p, p, []
    def see(self, o): return [tuple(c) for c in o], []
    def save(self, o): return bytes(self.color.savePalette(o))
    def load(self, d): return self.color.loadPalette(d)
    def sizes(self, d): return [(len(d), 80000)]


class Tiles(ListFmt):
    """Image tiles; looking one up means finding it in the picture of all tiles."""
    four = False
    def start(self):
        from ndspy import graphics2D as G
        self.G = G
        self.fmt = G.ImageFormat.I4 if self.four else G.ImageFormat.I8
        xs = [self.raw() for _ in range(3000)]
        return [self.real(x) for x in xs], xs, []
    def raw(self): return bytes(self.R.choices(range(16 if self.four else 256), k=64))
    def real(self, x): return self.G.ImageTile.fromPixels(list(x), self.fmt)
    def look(self, t): return bytes(t.pixels)
    def items(self, o): return o
    def save(self, o): return bytes(self.G.saveImageTiles(o))
    def load(self, d): return self.G.loadImageTiles(d, self.fmt)
    def sizes(self, d): return [(len(d), len(self.obj) * (32 if self.four else 64))]
    def pick(self, img, w, i): return bytes(img[((i // w * 8 + y) * w + i % w) * 8 + x][2] * 32 + img[((i // w * 8 + y) * w + i % w) * 8 + x][1] for y in range(8) for x in range(8))
    def finds(self, o):
        w = self.R.choice([32, 7, 100])
        pal = [(1, i % 32, i // 32, 1) for i in range(256)]     # (index 0 shows as green 0, blue 0 in any case)
        q = self.R.choice([0, 1, 5, 15])
        img = self.G.renderImageTiles(o, [(2, 7, 7, 1)] * (q * (16 if self.four else 256)) + pal, q, w)
        for i in [0, len(o) - 1, 1023, 1024] + self.R.sample(range(len(o)), 30): yield i, lambda: self.pick(img, w, i)
        for i in [0, len(o) - 1, 1025] + self.R.sample(range(len(o)), 30): yield i, lambda: bytes(self.G.tileAt(o, i % w, i // w, width=w).pixels)
    def disk(self, o, path): self.G.saveImageTilesToFile(o, path)


class Tiles4(Tiles): four = True


class Tilemap(ListFmt):
    byte = False
    def start(self):
        from ndspy import graphics2D as G
        self.G = G
        self.fmt = G.TilemapFormat.I8 if self.byte else G.TilemapFormat.I10H1V1P4
        xs = [self.raw() for _ in range(20000)]
        return [self.real(x) for x in xs], xs, []
    def raw(self): R = self.R; return (R.randrange(256), False, False, 0) if self.byte else (R.randrange(1024), R.random() < .5, R.random() < .5, R.randrange(16))
    def real(self, x): return self.G.TilemapTile.fromParameters(x[0], self.fmt, *x[1:])
    def look(self, t): return (t.tileNum, bool(t.hFlip), bool(t.vFlip), t.paletteNum)
    def items(self, o): return o
    def save(self, o): return bytes(self.G.saveTilemapTiles(o))
    def load(self, d): return self.G.loadTilemapTiles(d, self.fmt)
    def sizes(self, d): return [(len(d), len(self.obj) * (1 if self.byte else 2))]
    def disk(self, o, path): self.G.saveTilemapTilesToFile(o, path)


class Tilemap8(Tilemap): byte = True


class TilemapPicture(Tiles):
    """Items: what each of 3000 tilemap tiles shows; seen in the picture of the tilemap, of up to 1024 different tiles."""
    edits = False
    def start(self):
        from ndspy import graphics2D as G
        self.G = G; R = self.R
        self.tiles = [G.ImageTile.fromPixels(R.choices(range(256), k=64), G.ImageFormat.I8) for _ in range(1024)]
        self.w = R.choice([64, 33, 128])
        tm = [(R.randrange(1024), R.random() < .5, R.random() < .5) for _ in range(3000)]
        def shown(t, h, v): p = self.tiles[t].pixels; return bytes(p[(7 - y if v else y) * 8 + (7 - x if h else x)] for y in range(8) for x in range(8))
        return [G.TilemapTile.fromParameters(t, G.TilemapFormat.I10H1V1P4, h, v, 0) for t, h, v in tm], [shown(*t) for t in tm], []
    def save(self, o): return bytes(self.G.saveTilemapTiles(o))
    def load(self, d): return self.G.loadTilemapTiles(d, self.G.TilemapFormat.I10H1V1P4)
    def sizes(self, d): return []
    def see(self, o):
        img = self.G.renderTilemapTiles(o, self.tiles, [(1, i % 32, i // 32, 1) for i in range(256)], self.w)
        return [self.pick(img, self.w, i) for i in range(len(o))], []
    def finds(self, o): return []


class Tex(Fmt):
    """Items: textures, then palettes, near the largest block the format can address."""
    edits = False
    def start(self):
        from ndspy import texture as T
        from props import texlib
        R = self.R; self.T = T; g = texlib.Gen(R)
        def tex(i, w, h, f):
            t = {'w': w, 'h': h, 'fmt': f}
            return (f'tex{i}', T.Texture.fromFlags(R.randrange(65536), R.randrange(65536), *(R.random() < .5 for _ in range(4)), w, h, T.TextureFormat(f), R.random() < .5,
                    T.TextureCoordinatesTransformationMode(R.randrange(4)), R.randrange(2**32), self.blob(texlib.size1(t)), self.blob(texlib.size2(t))))
        shapes = [(512, 512, 2), (256, 512, 5), (1024, 64, 4), (64, 1024, 3), (512, 512, 5)] + [(8, 8 << R.randrange(4), R.choice([1, 2, 3, 4, 5, 5, 6, 7])) for _ in range(240)]
        R.shuffle(shapes)
        o = self.new_file()
        o.textures = [tex(i, *s) for i, s in enumerate(shapes)]
        o.palettes = [(f'pal{i}', T.Palette.fromColors(R.randrange(65536), R.randrange(65536), R.randrange(65536), [tuple(g.color()) for _ in range(R.choice([4, 16, 256, 1024, 2048]))])) for i in range(250)]
        return (o, *self.see(o))
    def new_file(self): return self.T.NSBTX()
    def see(self, o):
        out = [(n, t.unk00, t.unk02, t.repeatS, t.repeatT, t.mirrorS, t.mirrorT, t.width, t.height, int(t.format), bool(t.isColor0Transparent), int(t.coordsTransformationMode), t.unk04, bytes(t.data1), bytes(t.data2)) for n, t in o.textures]
        return out + [(n, p.unk00, p.unk02, p.unkHeader02, [tuple(c) for c in p.colors]) for n, p in o.palettes], [len(o.textures), len(o.palettes)]
    def save(self, o): return bytes(o.save())
    def load(self, d): return self.T.NSBTX(d)
    def sizes(self, d): return [(struct.unpack_from('<I', d, 8)[0], len(d))]


class SseqRaw(Fmt):
    """A sequence that is never parsed; items: pieces of its data."""
    edits = False
    def start(self):
        from ndspy import soundSequence as S
        from props import sdatlib
        self.S = S
        d = self.blob(1500001)
        return S.SSEQ(sdatlib.sseq(d), 1, 2, 3, 4, 5, 6), self.cut(d), [1, 2, 6, False]
    def cut(self, d): return [d[i:i + 9999] for i in range(0, len(d), 9999)]
    def see(self, o): return self.cut(bytes(o.eventsData)), [o.unk02, o.bankID, o.playerID, o.parsed]
    def save(self, o): self.p = o.save()[1:]; return bytes(o.save()[0])
    def load(self, d): return self.S.SSEQ(d, *self.p)


class Song(Sseq):
    """A song of sixteen tracks of many events; items: the events of each track in turn."""
    def start(self):
        from ndspy import soundSequence as S
        from ndspy.extras import music
        self.S, self.M = S, music
        R = self.R
        tracks = []
        for n in range(16):
            ev = [S.InstrumentSwitchSequenceEvent(0, R.randrange(128))]
            for _ in range(R.choice([10, 700, 5000])): ev.append(S.NoteSequenceEvent(R.randrange(128), R.randrange(128), R.choice([1, 127, 128, 0x4000])) if R.random() < .5 else S.RestSequenceEvent(R.choice([1, 127, 128, 0x4000, 0x200000])))
            ev.append(S.JumpSequenceEvent(ev[R.randrange(len(ev))]) if R.random() < .5 else S.EndTrackSequenceEvent())
            tracks.append(ev)
        begin = [S.BeginTrackSequenceEvent(n, tracks[n][0]) for n in range(1, 16)]
        sseq = S.SSEQ.fromEvents([S.DefineTracksSequenceEvent(set(range(16)))] + begin + sum(tracks, []))
        for t in tracks:
            if isinstance(t[-1], S.EndTrackSequenceEvent): t.pop()
        return self.M.SSEQMusic(sseq), [[n] + d for n, t in enumerate(tracks) for d in self.describe(t)], [list(range(16))]
    def see(self, m): return [[n] + d for n in sorted(m.tracks) for d in self.describe(m.tracks[n].events)], [sorted(m.tracks)]
    def save(self, m): m.save(); return bytes(m.sseq.save()[0])
    def load(self, d): s = self.S.SSEQ(d); s.parse(); return self.M.SSEQMusic(s)
    def sizes(self, d): return []


class Minified(Fmt):
    """A song, its bank and wave archives before and after minifying; items: what each note plays."""
    edits = False
    def start(self):
        from ndspy import soundSequence as S, soundBank as B, soundWave as W, soundWaveArchive as A
        from ndspy.extras import music
        self.S, self.B, self.M = S, B, music
        R = self.R
        swars = [A.SWAR.fromWaves([W.SWAV.fromData(struct.pack('<II', k, i)) for i in range(700)]) for k in range(4)]
        nd = lambda: B.NoteDefinition(R.randrange(700), R.randrange(4), *(R.randrange(128) for _ in range(6)))
        insts = []
        for i in range(128):
            k = R.randrange(4)
            if k == 0: insts.append(B.SingleNoteInstrument(nd()))
            elif k == 1: f = R.randrange(60); insts.append(B.RangeInstrument(f, [nd() for _ in range(R.choice([40, 68]))]))
            else:
                ends = sorted(R.sample(range(127), R.randrange(1, 8))) + [127]
                insts.append(B.RegionalInstrument([B.RegionalInstrument.Region(e, nd()) for e in ends[-8:]]))
        ev = []
        for i in R.sample(range(128), 100):
            ev.append(S.InstrumentSwitchSequenceEvent(0, i)); x = insts[i]
            ps = range(x.firstPitch, x.firstPitch + len(x.noteDefinitions)) if isinstance(x, B.RangeInstrument) else range(128)
            for _ in range(R.choice([1, 5, 60])): ev.append(S.NoteSequenceEvent(R.choice(ps), 100, 5))
        ev.append(S.EndTrackSequenceEvent())
        o = (S.SSEQ.fromEvents(ev), B.SBNK.fromInstruments(insts), swars)
        items = self.played(o)
        # an instrument, definition or wave that no note uses is gone afterwards
        used = [len({x[4][k] for x in items}) for k in range(2)] + [len({x[3] for x in items})]
        return o, [x[:4] for x in items], [used[0], used[2]]
    def played(self, o):
        sseq, bank, swars = o; B = self.B
        cur, out = None, []
        for e in sseq.events:
            if isinstance(e, self.S.InstrumentSwitchSequenceEvent): cur = e.instrumentID
            elif isinstance(e, self.S.NoteSequenceEvent):
                x = bank.instruments[cur]
                if isinstance(x, B.SingleNoteInstrument): n = x.noteDefinition
                elif isinstance(x, B.RangeInstrument): n = x.noteDefinitions[e.pitch - x.firstPitch]
                else: n = next(g.noteDefinition for g in x.regions if e.pitch <= g.lastPitch)
                out.append((e.pitch, e.velocity, [n.pitch, n.attack, n.decay, n.sustain, n.release, n.pan, int(n.type)], bytes(swars[n.waveArchiveIDID].waves[n.waveID].data), (cur, id(n))))
        return out
    def see(self, o): return [x[:4] for x in self.played(o)], [len([i for i in o[1].instruments if i is not None]), sum(len(s.waves) for s in o[2])]
    def save(self, o): return b''
    def load(self, d): self.M.minifyBySseq(*self.obj); return self.obj
