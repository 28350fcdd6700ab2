"""C31: editing one item deep inside nested archives leaves everything else identical."""
import copy
from props import objlib
TRACE = 'NestedTrace'
LISTS = ['sequences', 'sequenceArchives', 'banks', 'waveArchives', 'sequencePlayers', 'groups', 'streamPlayers', 'streams']
LAYOUT = {'dataMergeOptimizationID', 'bankOrderKey', 'inaccessibleInstruments', 'fileAlignment', 'firstFileAlignment', 'fatLengthsIncludePadding', 'padAtEnd', 'padSymbSizeTo4InSDATHeader'}    # guesses about the layout


class Node:
    def __init__(self, kind, kids=()): self.kind, self.kids, self.obj = kind, list(kids), None


def run(ctx):
    R = ctx.rng
    T = objlib.types()
    from ndspy import rom, narc, bmg, fnt, code, lz10, soundArchive, soundGroup as sg, soundStreamPlayer as st
    toks = {}
    tok = lambda x: toks.setdefault(x, len(toks) + 1)
    D = lambda o, hide=(): tok(objlib.describe(o, LAYOUT | set(hide)))
    def comp():
        """Code, and whether it can be compressed (what does not get shorter is padded)."""
        if R.random() < .5: return R.randbytes(4 * R.randrange(1, 30)), False
        return R.choice([b'ab12', b'\0\0\0\0', b'\xff\xfe\xff\xff']) * R.randrange(30, 200), R.random() < .6
    raw = lambda: R.choice([b'', R.randbytes(R.randrange(1, 60)), R.choice([b'a', b'xyz', b'\0']) * R.randrange(1, 700), R.randbytes(512), b'\x10\0\0\0'])

    # ---- making files of a shape
    def grow(t, root=False):
        """Nodes for a shape of the model; data may be given to a leaf only once its place is known."""
        if t['k'] == 'leaf': return Node('raw')
        if t['k'] == 'lz': return Node('lz', [grow(t['kids'][0])])
        kids = [grow(x) for x in t['kids']]
        if root: return Node(R.choice(['rom', 'rom', 'narc']), kids)
        if all(x.kind == 'raw' for x in kids) and R.random() < .75:
            k = R.choice(['bmg', 'sdat', 'sdat'])
            return Node(k, [Node('leaf') for _ in kids])
        return Node('narc', kids)
    def extra():
        return R.choice([lambda: Node('raw'), lambda: Node('lz', [Node('raw')]), lambda: Node('bmg', [Node('leaf')]), lambda: Node('sdat', [Node('leaf')]), lambda: Node('narc', [Node('raw')])])()
    def mk(n):
        """Bytes of a node; kids it has besides those of the shape are added at the end."""
        if n.kind == 'raw': return raw()
        if n.kind == 'lz': return lz10.compress(mk(n.kids[0]))
        if n.kind in ('narc', 'rom'):
            n.kids += [extra() for _ in range(R.choice([0, 0, 1, 2]))]
            files = [mk(k) for k in n.kids]; m = len(files)
            names = fnt.Folder(files=[f'f{i}' for i in range(R.randrange(m + 1))])
            if R.random() < .5 and m > len(names.files): names.folders = [('dir', fnt.Folder(files=['x.bin'], firstID=len(names.files)))]
            if n.kind == 'narc':
                o = narc.NARC.fromFilesAndNames(files, names)
                o.endiannessOfBeginning = R.choice('<>')
                return o.save()
            o = rom.NintendoDSRom(); o.name = b'GAME'; o.arm9RamAddress = 0x2000000; o.arm7RamAddress = 0x2380000
            novs = [R.choice([0, 1, 2]), R.choice([0, 0, 1])]
            n.novs = novs; n.nfiles = m
            names.firstID = sum(novs)
            for _, f in names.folders: f.firstID += sum(novs)
            o.filenames = names
            tables = []; ovfiles = []
            for which in (0, 1):
                t = {}
                for i in range(novs[which]):
                    d, z = comp(); ov = code.Overlay(d, 0x2100000 + 0x1000 * i, len(d), R.randrange(99), 0, 0, len(ovfiles), 0, R.choice([0, 2])); ovfiles.append(ov.save(compress=z)); t[3 * i + which] = ov
                tables.append(code.saveOverlayTable(t))
            o.arm9OverlayTable, o.arm7OverlayTable = tables
            o.files = ovfiles + files
            if R.random() < .3: o.sortedFileIds = R.sample(range(len(o.files)), len(o.files))
            c = T['code'].make(R); n.nsec = len(c.sections); o.arm9 = c.save(); o.arm7 = R.randbytes(4 * R.randrange(20)); o.rsaSignature = R.randbytes(0x88)
            if R.random() < .4: o.arm9PostData = b'\x21\x06\xc0\xde' + R.randbytes(8)
            if R.random() < .4: o.iconBanner = b'\1\0' + R.randbytes(0x83E)
            n.kids = n.kids + [Node('overlay') for _ in range(sum(novs))] + [Node('section') for _ in range(n.nsec)]
            return o.save()
        if n.kind == 'bmg':
            o = T['bmg'].make(R); o.messages = [bmg.Message(b'ii', [R.choice(['one', 'two', ''])]) for _ in n.kids]
            more = [bmg.Message(b'jj', ['x'], False) for _ in range(R.randrange(3))]
            o.messages += more; n.kids += [Node('leaf') for _ in more]
            o.encoding = R.choice(['utf-16', 'utf-8', 'cp1252', 'shift-jis'])
            return o.save()
        if n.kind == 'sdat':
            while True:
                o = T['sdat'].make(R)
                if count(o) >= len(n.kids): break
            n.kids = [Node('leaf') for _ in range(count(o))]
            return bytes(o.save())
    def entries(o): return [(l, i) for l in LISTS for i in range(len(getattr(o, l)))]
    def count(o): return len(entries(o))

    # ---- opening
    OPEN = {'rom': lambda b: rom.NintendoDSRom(b), 'narc': lambda b: narc.NARC(b), 'bmg': lambda b: bmg.BMG(b), 'sdat': lambda b: soundArchive.SDAT(b)}
    def overlays(o): return [(w, k) for w, t in enumerate((o.loadArm9Overlays(), o.loadArm7Overlays())) for k in sorted(t)]
    def section(s, n):
        d = bytearray(s.data)
        if s.implicit and n > 1: d[0x100:0x10C] = bytes(12)        # the code settings say where the sections are
        return tok((bytes(d), objlib.describe(s, {'data'})))
    def dump(n, b, p, out):
        k = n.kind
        say = lambda q, v: out.append({'p': q, 'v': v})
        if k == 'raw': say(p, tok(bytes(b))); return
        if k == 'lz': say(p, 0); dump(n.kids[0], lz10.decompress(b), p + [1], out); return
        o = OPEN[k](b)
        if k == 'narc':
            say(p, tok((objlib.describe(o.filenames), o.endiannessOfBeginning, len(o.files))))
            for i, x in enumerate(n.kids): dump(x, o.files[i], p + [i + 1], out)
        elif k == 'rom':
            pad = bytearray(o.pad200); pad[0xE00:0xE04] = bytes(4)        # where the signature is
            say(p, tok((objlib.describe(o, {'files', 'arm9', 'arm7OverlayTable', 'arm9OverlayTable', 'pad200', 'sortedFileIds'}), bytes(pad), len(o.files))))
            first = sum(n.novs)
            for i in range(n.nfiles): dump(n.kids[i], o.files[first + i], p + [i + 1], out)
            at = n.nfiles
            tabs = (o.loadArm9Overlays(), o.loadArm7Overlays())
            for w, key in overlays(o): at += 1; say(p + [at], tok((w, key, objlib.describe(tabs[w][key]))))
            secs = o.loadArm9().sections
            for s in secs: at += 1; say(p + [at], section(s, len(secs)))
        elif k == 'bmg':
            say(p, tok((objlib.describe(o, {'messages'}), len(o.messages))))
            for i, m in enumerate(o.messages): say(p + [i + 1], D(m))
        elif k == 'sdat':
            say(p, tok((objlib.describe(o, set(LISTS) | LAYOUT), repr([(l, [x for x, _ in getattr(o, l)]) for l in LISTS]))))
            for i, (l, j) in enumerate(entries(o)): say(p + [i + 1], D(getattr(o, l)[j][1]))

    # ---- editing; an edit is repeatable: edit(item) changes the item given
    def message_edit():
        parts = [R.choice(['new text', 'A' * R.randrange(1, 90)])] + ([bmg.Message.Escape(R.randrange(9), R.randbytes(R.randrange(5)))] if R.random() < .4 else [])
        def f(m): m.stringParts = copy.deepcopy(parts); m.isNull = False
        return f
    def entry_edit(l, x):
        v = R.randrange(128); w = T['swav'].make(R); ch = sorted(R.sample(range(16), R.randrange(4))); blk = R.randbytes(8)
        if l == 'sequences': return lambda o: setattr(o, R_choice, v) if o is not None else None
        if l == 'sequenceArchives': return lambda o: setattr(o, 'unk02', v)
        if l == 'banks':
            notes = [i for i, y in enumerate(x.instruments) if type(y).__name__ == 'SingleNoteInstrument']
            if notes: return lambda o: setattr(o.instruments[notes[0]].noteDefinition, 'pan', v)
            return lambda o: setattr(o, 'waveArchiveIDs', [v, 2, v])
        if l == 'waveArchives': return (lambda o: o.waves.__setitem__(0, copy.deepcopy(w))) if x.waves and R_flag else (lambda o: o.waves.append(copy.deepcopy(w)))
        if l == 'sequencePlayers': return lambda o: (setattr(o, 'heapSize', v * 1000), setattr(o, 'channels', set(ch)))
        if l == 'groups': return lambda o: o.append(sg.GroupEntry(sg.GroupEntryType.SBNK, 2, v))
        if l == 'streamPlayers': return lambda o: setattr(o, 'channels', list(ch))
        if l == 'streams':
            if x.channels and R_flag: return lambda o: o.channels[0].__setitem__(0, blk)
            return lambda o: setattr(o, 'volume', v)
    R_choice, R_flag = 'volume', True
    def edit(n, b, path, fresh):
        """New bytes of the node, and the value its leaf should show."""
        nonlocal R_choice, R_flag
        k = n.kind
        if k == 'raw':
            d = raw(); return d, tok(d)
        if k == 'lz':
            d, v = edit(n.kids[0], lz10.decompress(b), path[1:], fresh); return lz10.compress(d), v
        if fresh or n.obj is None: n.obj = OPEN[k](b)
        o, i = n.obj, path[0] - 1
        if k == 'narc':
            o.files[i], v = edit(n.kids[i], o.files[i], path[1:], fresh)
            return o.save(), v
        if k == 'bmg':
            f = message_edit(); f(o.messages[i])
            m = copy.deepcopy(OPEN[k](b).messages[i]); f(m)
            return o.save(), D(m)
        if k == 'sdat':
            l, j = entries(o)[i]
            again = OPEN[k](b); x = getattr(again, l)[j][1]
            R_choice, R_flag = R.choice(['volume', 'bankID', 'playerID', 'unk02']), R.random() < .5
            f = entry_edit(l, x)
            f(getattr(o, l)[j][1]); f(x)
            return bytes(o.save()), D(x)
        if k == 'rom':
            kid = n.kids[i]
            if kid.kind == 'overlay':
                w, key = overlays(o)[i - n.nfiles]; d, z = comp()
                load, table = [('loadArm9Overlays', 'arm9OverlayTable'), ('loadArm7Overlays', 'arm7OverlayTable')][w]
                t = getattr(o, load)(); t[key].data = bytearray(d)
                o.files[t[key].fileID] = t[key].save(compress=z)
                setattr(o, table, code.saveOverlayTable(t))
                return o.save(), tok((w, key, objlib.describe(t[key])))
            if kid.kind == 'section':
                c = o.loadArm9(); s = c.sections[i - n.nfiles - sum(n.novs)]
                s.data = bytearray(R.randbytes(len(s.data)) if i == n.nfiles + sum(n.novs) and n.nsec == 1 else s.data if s.implicit else comp()[0])
                o.arm9 = c.save()
                return o.save(), section(s, n.nsec)
            f = sum(n.novs) + i
            o.files[f], v = edit(kid, o.files[f], path[1:], fresh)
            return o.save(), v

    def paths(n, p):
        if n.kind in ('raw', 'leaf', 'overlay', 'section'): return [p]
        return [q for i, k in enumerate(n.kids) for q in paths(k, p + [i + 1])]

    def history(shape, hist):
        n = grow(shape, True)
        E = ctx.trace(f'{n.kind} {hist}')['ev']
        exc, b = ctx.call(lambda: mk(n))
        def look(op, **kw):
            out = []
            x, _ = ctx.call(lambda: dump(n, b, [], out))
            E.append({'op': op, 'exc': kw.pop('exc', '') or x, 'all': out, **kw})
            return not x
        if not look('start', exc=exc): return
        for h in hist:
            ps = paths(n, [])
            p = h['p'] if h['p'] in ps and R.random() < .7 else R.choice(ps)
            exc, r = ctx.call(lambda: edit(n, b, p, h['fresh']))
            if not exc: b = r[0]
            if not look('edit', exc=exc, p=p, v=0 if exc else r[1]): return
            if R.random() < .2 and n.kind in OPEN:
                exc, d = ctx.call(lambda: OPEN[n.kind](b).save())
                if not exc: b = bytes(d)
                look('again', exc=exc)
    for cfg in ('MCNested.cfg', ctx.scale('MCNestedW.cfg', 'MCNestedT.cfg')):
        cs = ctx.cases('MCNested', cfg)
        for c in cs:
            for _ in range(ctx.scale(1, 4)): history(c['shape'], c['hist'])
