"""Driving SDAT objects; shared by C11 (contents) and C12 (layout, sharing)."""
import copy, os, struct
from vf import bts, num, big, boolean, text, opt, IllTyped
LISTS = ['sequences', 'sequenceArchives', 'banks', 'waveArchives', 'sequencePlayers', 'groups', 'streamPlayers', 'streams']
FILES = (0, 1, 2, 3, 7)
DOPT = {'first': [], 'align': 32, 'incl': False, 'padEnd': True, 'padSymb': False}
EMPTY = [[] for _ in range(8)]
ATTR = {0: ['unk02', 'bankID', 'volume', 'channelPressure', 'polyphonicPressure', 'playerID'], 1: ['unk02'], 3: ['unk02'], 7: ['unk02', 'volume', 'priority', 'playerID', 'unk07']}


def std(magic, body, blocks=1): return magic + struct.pack('<HHIHH', 0xFEFF, 0x100, 16 + len(body), 16, blocks) + body


def sseq(d): return std(b'SSEQ', b'DATA' + struct.pack('<II', 12 + len(d), 28) + d)


def ssar(R, n, d):
    t = b''.join(struct.pack('<IHBBBBxx', R.choice([0xFFFFFFFF, 0, len(d)]), R.randrange(65536), *R.randbytes(4)) for _ in range(n))
    return std(b'SSAR', b'DATA' + struct.pack('<III', 16 + len(t) + len(d), 32 + len(t), n) + t + d)


def swar(R, n):
    offs, body, base = [], b'', 0x3C + 4 * n
    for _ in range(n):
        k = R.choice([1, 1, 2, 3]) * 4
        offs.append(base + len(body)); body += struct.pack('<BBHHHI', R.randrange(3), R.randrange(2), 8000, 100, 1, k // 4 - 1) + R.randbytes(k)
    return std(b'SWAR', b'DATA' + struct.pack('<I32xI', 8 + 36 + 4 * n + len(body), n) + b''.join(struct.pack('<I', o) for o in offs) + body)


def sbnk(R, n):
    body = b''.join(struct.pack('<BHx', 1, 0x3C + 4 * n + 10 * i) for i in range(n)) + b''.join(struct.pack('<HH6B', R.randrange(9), i, *R.randbytes(6)) for i in range(n))
    return std(b'SBNK', b'DATA' + struct.pack('<I32xI', 8 + 36 + len(body), n) + body)


def strm(R, n):
    k = 4 * R.choice([1, 2])
    w = R.randbytes(k * n)
    head = struct.pack('<BBBBHHI', 0, 0, n, 0, 8000, 9, 0) + struct.pack('<7I', 0, 0x68, 1 if n else 0, k if n else 0, k if n else 0, k if n else 0, k if n else 0) + bytes(32)
    head = head[:12] + struct.pack('<7I', 0, 0x68, 1 if n else 0, k if n else 0, k, k if n else 0, k) + bytes(32)
    return std(b'STRM', b'HEAD' + struct.pack('<I', 8 + len(head)) + head + b'DATA' + struct.pack('<I', 8 + len(w)) + w, 2)


def r_name(R): return R.choice([[], [[]], [[65]], [[R.randrange(1, 256) for _ in range(R.randrange(1, 9))]], [list(b'SEQ_TITLE')]])


class Sd:
    def __init__(self, ctx, layout):
        from ndspy import soundArchive as A, soundSequence as Q, soundSequenceArchive as R_, soundBank as B, soundWaveArchive as W, soundSequencePlayer as P, soundGroup as G, soundStreamPlayer as T, soundStream as S
        self.A, self.ctx, self.R, self.layout = A, ctx, ctx.rng, layout
        self.Q, self.SA, self.B, self.W, self.P, self.G, self.T, self.S = Q, R_, B, W, P, G, T, S
        self.canon = {}

    def canonical(self, k, f):
        """Only files that their own class reproduces: what is inside them is not the archive's business."""
        key = (k, f)
        if key not in self.canon:
            C = {0: self.Q.SSEQ, 1: self.SA.SSAR, 2: self.B.SBNK, 3: self.W.SWAR, 7: self.S.STRM}[k]
            try: self.canon[key] = bytes(C(f).save()[0]) == f
            except Exception: self.canon[key] = False
        return self.canon[key]

    # -- generating
    def r_file(self, k):
        R = self.R
        for _ in range(20):
            f = {0: lambda: sseq(R.randbytes(R.choice([0, 1, 4, 5, 36, R.randrange(40)]))), 1: lambda: ssar(R, R.randrange(3), R.randbytes(R.randrange(1, 9))),
                 2: lambda: sbnk(R, R.randrange(3)), 3: lambda: swar(R, R.randrange(3)), 7: lambda: strm(R, R.randrange(3))}[k]()
            if self.canonical(k, f): return f
        return sseq(b'\xff') if k == 0 else None

    def r_entry(self, k, pool):
        R = self.R
        e = {'p': [], 'f': [], 'm': -1, 's': []}
        if k in FILES:
            same = [f for j, f in pool if j == k]
            f = R.choice(same) if same and R.random() < .5 else self.r_file(k)
            if f is None: return None
            pool.append((k, f)); e['f'] = list(f); e['m'] = R.choice([0, 0, 1, 5])
        u = R.choice([0, 0, 1, 65535, R.randrange(65536), R.randrange(65536)])
        some = lambda n: [R.choice([0, 1, 255, R.randrange(256), R.randrange(256)]) for _ in range(n)]
        e['p'] = {0: lambda: [u, R.choice([0, 1, 65535, R.randrange(65536), R.randrange(65536)])] + some(4), 1: lambda: [u], 2: lambda: [u] + [R.choice([-1, 0, 1, R.randrange(32768)]) for _ in range(4)],
                  3: lambda: [u], 4: lambda: [R.choice([1, u]), R.choice([0, 65535, R.randrange(65536)])] + some(4),
                  5: lambda: sum(([R.randrange(4), R.randrange(16)] + list(R.choice([bytes(4), R.randbytes(4)])) for _ in range(R.choice([0, 1, 2, 5]))), []),
                  6: lambda: list(R.randbytes(R.choice([0, 1, 2, 15, 16]))), 7: lambda: [u] + some(4)}[k]()
        if k == 1: e['s'] = [r_name(R) for _ in range(struct.unpack_from('<I', f, 28)[0])]
        return e

    def r_item(self, k, pool, names):
        R = self.R
        e = None if R.random() < .2 else self.r_entry(k, pool)
        if e and not names: e['s'] = [[] for _ in e['s']]
        return {'n': r_name(R) if names else [], 'e': [] if e is None else [e]}

    def r_arc(self):
        R = self.R
        pool = []; names = R.random() < .8
        kinds = R.sample(range(8), R.choice([0, 1, 1, 2, 3, 8]))
        inner = R.random() < .1                 # only sequences inside archives have names
        if inner: names = True; kinds = set(kinds) | {1}
        out = [[self.r_item(k, pool, names) for _ in range(R.choice([0, 1, 2, 3]))] if k in kinds else [] for k in range(8)]
        for l in out:
            for x in l:
                if inner: x['n'] = []
        return out

    def r_opts(self):
        R = self.R
        return {'first': R.choice([[], [], [1], [32], [256], [512]]), 'align': R.choice([32, 32, 1, 2, 4, 8, 16, 64, 128, 256, 512]), 'incl': R.random() < .4, 'padEnd': R.random() < .7, 'padSymb': R.random() < .4}

    def edit(self, a):
        R = self.R; a = copy.deepcopy(a)
        pool = [(k, bytes(x['e'][0]['f'])) for k in FILES for x in a[k] if x['e']]
        for _ in range(R.choice([1, 1, 2])):
            k = R.choice([j for j in range(8) if a[j]] or [R.randrange(8)]) if R.random() < .7 else R.randrange(8)
            l = a[k]; j = R.randrange(7)
            if j == 0 or not l: l.insert(R.randrange(len(l) + 1), self.r_item(k, pool, True))
            elif j == 1: del l[R.randrange(len(l))]
            elif j == 2: R.choice(l)['n'] = r_name(R)
            elif j == 3: R.choice(l)['e'] = []
            elif j == 4: R.shuffle(l)
            elif j == 5:
                x = R.choice(l)
                e = self.r_entry(k, pool)
                if x['e'] and e: x['e'][0]['p'] = e['p']
            else:
                x = R.choice(l)
                if x['e'] and k in FILES: x['e'][0]['m'] = R.choice([0, 1, 2])
        return a

    # -- the real objects
    def o_entry(self, k, x):
        e = {'p': [], 'f': [], 'm': -1, 's': []}
        if k in FILES: e['f'] = bts(bytes(x.save()[0])); e['m'] = num(x.dataMergeOptimizationID)
        if k in ATTR: e['p'] = [num(getattr(x, q)) for q in ATTR[k]]
        elif k == 2:
            w = [-1 if i is None else num(i) for i in x.waveArchiveIDs]
            e['p'] = [num(x.unk02)] + w + [-1] * (4 - len(w))
        elif k == 4: e['p'] = [num(x.maxSequences), sum(1 << i for i in x.channels)] + big(x.heapSize)
        elif k == 5:
            for g in x: e['p'] += [num(int(g.type)), boolean(g.loadSSEQ) | int(g.loadSBNKSWARsFrom) << 1 | boolean(g.loadSWAR) << 2 | boolean(g.loadSSAR) << 3] + big(g.id)
        elif k == 6: e['p'] = [num(i) for i in x.channels]
        if k == 1: e['s'] = [opt(n, text) for n, _ in x.sequences]
        return e

    def observe(self, o):
        return [[{'n': opt(n, text), 'e': opt(x, lambda x: self.o_entry(k, x))} for n, x in getattr(o, LISTS[k])] for k in range(8)]

    def o_opts(self, o):
        return {'first': opt(o.firstFileAlignment, num), 'align': num(o.fileAlignment), 'incl': boolean(o.fatLengthsIncludePadding), 'padEnd': boolean(o.padAtEnd), 'padSymb': boolean(o.padSymbSizeTo4InSDATHeader)}

    def m_entry(self, k, e):
        R = self.R; p = e['p']; f = bytes(e['f'])
        if k == 0: x = self.Q.SSEQ(f, *p)
        elif k == 1: x = self.SA.SSAR(f, p[0], [None if not n else ''.join(map(chr, n[0])) for n in e['s']])
        elif k == 2:
            w = [None if i == -1 else i for i in p[1:]]
            while w and w[-1] is None and R.random() < .7: w.pop()
            x = self.B.SBNK(f, p[0], w)
        elif k == 3: x = self.W.SWAR(f, p[0])
        elif k == 4: x = self.P.SequencePlayer(p[0], {i for i in range(16) if p[1] >> i & 1}, int.from_bytes(bytes(p[2:]), 'little'))
        elif k == 5:
            x = []
            for i in range(0, len(p), 6):
                t, o, n = self.G.GroupEntryType(p[i]), p[i + 1], int.from_bytes(bytes(p[i + 2:i + 6]), 'little')
                if R.random() < .5: x.append(self.G.GroupEntry(R.choice([t, int(t)]), o, n))
                else: x.append(self.G.GroupEntry.fromFlags(t, n, bool(o & 1), self.G.SWARLoadMethod(o >> 1 & 1), bool(o & 4), bool(o & 8)))
        elif k == 6: x = self.T.StreamPlayer(list(p))
        else: x = self.S.STRM(f, *p)
        if k in FILES and (e['m'] or R.random() < .5): x.dataMergeOptimizationID = e['m']
        return x

    def m_list(self, k, want, old, objs):
        """New list contents: objects are kept, edited in place or made anew."""
        free = list(range(len(old))); out = [None] * len(want); R = self.R
        todo = []
        for n, i in enumerate(want):
            j = next((j for j in free if i['e'] and old[j]['e'] == i['e']), None)
            if j is not None and R.random() < .9: free.remove(j); out[n] = objs[j]
            elif i['e']: todo.append(n)
        for n in todo:
            e = want[n]['e'][0]
            if n in free and k in ATTR and old[n]['e'] and old[n]['e'][0]['f'] == e['f'] and old[n]['e'][0]['s'] == e['s']:
                free.remove(n); out[n] = x = objs[n]
                for q, v in zip(ATTR[k], e['p']): setattr(x, q, v)
                x.dataMergeOptimizationID = e['m']
            else: out[n] = self.m_entry(k, e)
        return [(None if not i['n'] else ''.join(map(chr, i['n'][0])), x) for i, x in zip(want, out)]

    def start(self, name, finding=None):
        self.ev = self.ctx.trace(name, finding)['ev']; self.o = None
        return self

    def put(self, e, exc):
        x, v = (exc, None) if exc else self.ctx.call(lambda: (self.observe(self.o), self.o_opts(self.o)))
        e['exc'] = x; e['obj'], e['opts'] = (EMPTY, DOPT) if x else v; e['layout'] = self.layout
        self.ev.append(e)
        return not x

    def load(self, data, lib):
        def go():
            if self.R.random() < .2:
                p = os.path.join(self.ctx.scratch, 'a.sdat')
                with open(p, 'wb') as f: f.write(data)
                return self.A.SDAT.fromFile(p)
            return self.A.SDAT(self.R.choice([bytes, bytearray])(data))
        exc, o = self.ctx.call(go)
        if not exc: self.o = o
        return self.put({'op': 'load', 'data': list(data), 'lib': lib}, exc)

    def set(self, a, opts):
        def go():
            if self.o is None: self.o = self.A.SDAT()
            o = self.o
            for k in range(8):
                L = getattr(o, LISTS[k])
                old = [{'n': opt(n, text), 'e': opt(x, lambda x: self.o_entry(k, x))} for n, x in L]
                if old == a[k]: continue
                new = self.m_list(k, a[k], old, [x for _, x in L])
                if self.R.random() < .5: L[:] = new
                else: setattr(o, LISTS[k], new)
            o.firstFileAlignment = opts['first'][0] if opts['first'] else None
            o.fileAlignment = opts['align']; o.fatLengthsIncludePadding = opts['incl']; o.padAtEnd = opts['padEnd']; o.padSymbSizeTo4InSDATHeader = opts['padSymb']
        exc, _ = self.ctx.call(go)
        return self.put({'op': 'set', 'want': copy.deepcopy(a), 'wopts': dict(opts)}, exc)

    def save(self):
        exc, r = self.ctx.call(lambda: bts(bytes(self.o.save())))
        self.put({'op': 'save', 'out': [] if exc else r}, exc)
        return None if exc else bytes(r)


def foreign(R, a):
    """An archive as another tool might pack it: other block order, gaps, shared names, short symbol lists."""
    named = any(x['n'] for l in a for x in l)
    files, blocks = [], {}
    # files in random order, some unused
    uses = [(k, i) for k in FILES for i, x in enumerate(a[k]) if x['e']]
    R.shuffle(uses); ids = {}
    for k, i in uses:
        f = bytes(a[k][i]['e'][0]['f'])
        if f in files and R.random() < .6: ids[k, i] = files.index(f)
        else: ids[k, i] = len(files); files.append(f)
        if R.random() < .1: files.append(R.randbytes(20))
    info = bytearray(b'INFO' + bytes(36))
    for k in R.sample(range(8), 8):
        info += bytes(4 * R.randrange(3))
        struct.pack_into('<I', info, 8 + 4 * k, len(info))
        t = len(info); info += struct.pack('<I', len(a[k])) + bytes(4 * len(a[k]))
        for i in R.sample(range(len(a[k])), len(a[k])):
            if not a[k][i]['e']: continue
            p = a[k][i]['e'][0]['p']; d = ids.get((k, i))
            b = {0: lambda: struct.pack('<3H4B', d, *p) + R.randbytes(2), 1: lambda: struct.pack('<HH', d, *p), 2: lambda: struct.pack('<HH4h', d, *p), 3: lambda: struct.pack('<HH', d, *p),
                 4: lambda: struct.pack('<HH', *p[:2]) + bytes(p[2:]), 5: lambda: struct.pack('<I', len(p) // 6) + b''.join(struct.pack('<BHB', p[j], p[j + 1], R.randrange(256)) + bytes(p[j + 2:j + 6]) for j in range(0, len(p), 6)),
                 6: lambda: bytes([len(p)] + p + [255] * (16 - len(p))) + R.randbytes(7), 7: lambda: struct.pack('<HH4B', d, *p) + R.randbytes(4)}[k]()
            struct.pack_into('<I', info, t + 4 + 4 * i, len(info)); info += b
    struct.pack_into('<I', info, 4, len(info))
    symb = bytearray(b'SYMB' + bytes(36 + R.choice([24, 0])))
    if named:
        fix = []
        for k in R.sample(range(8), 8):
            struct.pack_into('<I', symb, 8 + 4 * k, len(symb))
            l = a[k]
            n = len(l)
            while n and not l[n - 1]['n'] and not any(x for e in l[n - 1]['e'] for x in e['s']) and R.random() < .5: n -= 1
            symb += struct.pack('<I', n)
            subs = []
            for x in l[:n]:
                fix.append((len(symb), x['n'])); symb += bytes(4)
                if k == 1: subs.append((len(symb), x['e'][0]['s'] if x['e'] else [])); symb += bytes(4)
            for o, s in subs:
                if not s and R.random() < .5: continue
                struct.pack_into('<I', symb, o, len(symb)); symb += struct.pack('<I', len(s))
                for x in s: fix.append((len(symb), x)); symb += bytes(4)
        seen = {}
        for o, x in fix:
            if not x: continue
            b = bytes(x[0]) + b'\0'
            if b not in seen or R.random() < .5: seen[b] = len(symb); symb += b
            struct.pack_into('<I', symb, o, seen[b])
        symb += bytes(-len(symb) % 4); struct.pack_into('<I', symb, 4, len(symb))
    al = R.choice([4, 32, 1])
    out = bytearray(64); at = {}
    order = R.sample(['symb', 'info', 'fat'], 3)
    for n in order:
        b = {'symb': symb if named else b'', 'info': info, 'fat': b'FAT ' + struct.pack('<II', 12 + 16 * len(files), len(files)) + bytes(16 * len(files))}[n]
        out += bytes(4 * R.randrange(4)); at[n] = (len(out), len(b)); out += b; out += bytes(-len(out) % 4)
    at['file'] = (len(out), 0); out += b'FILE' + struct.pack('<II', 0, len(files))
    for i, f in enumerate(files):
        out += bytes(-len(out) % al)
        struct.pack_into('<II', out, at['fat'][0] + 12 + 16 * i, len(out), len(f) + (R.choice([0, -len(f) % al]) if i < len(files) - 1 else 0)); out += f
    out += bytes(-len(out) % al)
    if named: struct.pack_into('<II', out, 16, *at['symb'])
    struct.pack_into('<6I', out, 24, *at['info'], *at['fat'], at['file'][0], len(out) - at['file'][0])
    struct.pack_into('<4sHHIHH', out, 0, b'SDAT', 0xFEFF, 0x100, len(out), 64, 4 if named else 3)
    return bytes(out)


def run(ctx, layout):
    S = Sd(ctx, layout); R = ctx.rng
    cases = ctx.cases('MCSdat', ctx.scale('MCSdat.cfg', 'MCSdatT.cfg'))
    for c in R.sample(cases, min(len(cases), ctx.scale(700, 8000))):
        h = S.start('tlc-archive')
        if R.random() < .3 and not layout:
            if not h.load(bytes(c['b']), False): continue
        elif not h.set(c['a'], c['o']): continue
        d = h.save()
        if d and h.load(d, True): h.save()
    for i in range(ctx.scale(600, 8000)):
        h = S.start('archive')
        a = S.r_arc()
        if R.random() < .25 and not layout: ok = h.load(foreign(R, a), False)
        else: ok = h.set(a, DOPT if R.random() < (.2 if layout else .6) else S.r_opts())
        for _ in range(R.choice([1, 1, 2, 3])):
            if not ok: break
            d = h.save()
            if d is None: break
            if R.random() < .8 and not (h.load(d, True) and (layout or h.save())): break
            a = S.edit(h.ev[-1]['obj'])
            ok = h.set(a, S.r_opts() if R.random() < .3 else h.ev[-1]['opts'])
    # more entries than fit in a byte
    for k in ([4, 5, 6] if layout else [0, 1, 3, 4, 5, 6, 5]):
        a = [[] for _ in range(8)]; h = S.start('many'); pool = [(j, S.r_file(j)) for j in (0, 1, 3)]
        if k == 5 and not a[4] and R.random() < .7: a[5] = [{'n': [], 'e': [{'p': sum(([R.randrange(4), R.randrange(16)] + list(R.randbytes(4)) for _ in range(n)), []), 'f': [], 'm': -1, 's': []}]} for n in (257, 1)]
        else:
            e = [S.r_entry(k, pool[:]) for _ in range(6)]; e = [x for x in e if x]
            if not e: continue
            a[k] = [{'n': r_name(R), 'e': R.choice([[], [R.choice(e)]])} for _ in range(R.choice([256, 260]))]
        if h.set(copy.deepcopy(a), DOPT):
            d = h.save()
            if d: h.load(d, True)
    if not layout:
        for what in range(ctx.scale(40, 300)):
            h = S.start('unstorable'); a = S.r_arc()
            for _ in range(10):
                k = R.choice([0, 1, 2, 3, 4, 6, 7]); e = S.r_entry(k, [])
                if e and e['p']: break
            else: continue
            if k == 6: e['p'] = [R.choice([256, -1])]
            else:
                q = R.choice([0, len(e['p']) - 1]) if k != 4 else 0
                e['p'][q] = R.choice([65536, 70000] + ([-2] if k != 2 or not q else []))
            a[k].append({'n': [], 'e': [e]})
            if h.set(a, DOPT): h.save()
