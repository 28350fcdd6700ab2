import copy, os, struct
from vf import bts, num, big, boolean
from props import large
TRACE = 'StrmTrace'
UNKS = ['unk28', 'unk2C', 'unk30', 'unk34', 'unk38', 'unk3C', 'unk40', 'unk44']
NO = {'type': 0, 'looped': False, 'unk03': 0, 'rate': 8000, 'time': 0, 'loop': [0] * 4, 'spb': 0, 'slb': 0, 'unks': [[0] * 4] * 8, 'chans': []}
PAR = ['unk02', 'volume', 'priority', 'playerID', 'unk07']


def observe(o):
    return {'type': num(o.waveType), 'looped': boolean(o.isLooped), 'unk03': num(o.unk03), 'rate': num(o.sampleRate), 'time': num(o.time),
            'loop': big(o.loopOffset), 'spb': num(o.samplesPerBlock), 'slb': num(o.samplesInLastBlock), 'unks': [big(getattr(o, u)) for u in UNKS],
            'chans': [[bts(b) for b in c] for c in o.channels]}


def i_(b): return int.from_bytes(bytes(b), 'little')


def apply(o, WT, w, chans=True):
    o.waveType = WT(w['type']) if w['type'] in (0, 1, 2) else w['type']; o.isLooped = w['looped']; o.unk03 = w['unk03']; o.sampleRate = w['rate']; o.time = w['time']
    o.loopOffset = i_(w['loop']); o.samplesPerBlock = w['spb']; o.samplesInLastBlock = w['slb']
    for u, v in zip(UNKS, w['unks']): setattr(o, u, i_(v))
    if chans: o.channels = [[bytes(b) for b in c] for c in w['chans']]


def rand(R):
    nc = R.choice([0, 1, 1, 2, 2, 3, 5]); n = R.choice([0, 1, 1, 2, 3, 5]) if nc else 0
    t = R.randrange(3)
    bl = R.choice([0, 1, 2, 3, 4, 5, 8, 13, 32]); ll = R.choice([bl, 0, 1, 2, 3, 4, 7, 12])
    if n == 1 and t == 2: ll = max(4, ll)
    return {'type': t, 'looped': R.random() < .5, 'unk03': R.choice([0, 1, 255, R.randrange(256), R.randrange(256), R.randrange(256)]), 'rate': R.choice([32728, 0, 65535, R.randrange(1, 65536)]), 'time': R.choice([0, 1, 65535, R.randrange(65536), R.randrange(65536)]),
            'loop': list(R.choice([bytes(4), b'\1\0\0\0', R.randbytes(4), R.randbytes(4)])), 'spb': R.choice([0, 8, 1000, 16384]), 'slb': R.choice([0, 4, 77]), 'unks': [list(R.choice([bytes(4), R.randbytes(4)])) for _ in range(8)],
            'chans': [[list(R.randbytes(ll if i == n - 1 else bl)) for i in range(n)] for _ in range(nc)]}


def foreign(R, o):
    """A stream file as a game has it (longer header allowed, odd padding bytes, bigger block size for one-block files)."""
    n = len(o['chans'][0]) if o['chans'] else 0
    w = bytearray()
    for i in range(n):
        for c in o['chans']: w += bytes(c[i])
        while len(w) % 4: w.append(R.choice([0, 0xAA]))
    a = 4 if o['type'] == 2 and n == 1 else 0
    ll = len(o['chans'][0][-1]) - a if n else 0
    bl = len(o['chans'][0][0]) if n > 1 else ll + (R.choice([0, 32]) if n else 0)
    extra = R.choice([0, 0, 16])
    head = struct.pack('<BBBBHH', o['type'], o['looped'], len(o['chans']), o['unk03'], o['rate'], o['time']) + bytes(o['loop']) \
        + struct.pack('<7I', 12345, 0x68, n, bl, o['spb'], ll, o['slb']) + b''.join(map(bytes, o['unks'])) + bytes(extra)
    body = b'HEAD' + struct.pack('<I', 8 + len(head)) + head + b'DATA' + struct.pack('<I', 8 + len(w)) + w
    return b'STRM' + struct.pack('<HHIHH', 0xFEFF, 0x100, 16 + len(body), 16, 2) + body


def run(ctx):
    from ndspy import soundStream, WaveType as WT
    R = ctx.rng

    class H:
        def __init__(self, name):
            self.ev = ctx.trace(name)['ev']; self.o = None

        def put(self, e, exc):
            x, v = (exc, None) if exc else ctx.call(lambda: (observe(self.o), [num(getattr(self.o, p)) for p in PAR]))
            e['exc'] = x; e['obj'], p = (NO, []) if x else v
            e.setdefault('par', p)
            self.ev.append(e)
            return not x

        def params(self):
            p = [R.choice([0, 1, 65535, R.randrange(65536), R.randrange(65536)]), R.choice([0, 127, R.randrange(128)]), R.choice([0, 127, R.randrange(128)]), R.randrange(8), R.choice([0, 1, 255, R.randrange(256), R.randrange(256), R.randrange(256)])]
            n = R.choice([0, 1, 3, 5])
            want = p[:n] + [0, 127, 64, 0, 0][n:]
            return p[:n], want

        def load(self, data):
            args, want = self.params()
            def go():
                if R.random() < .3:
                    p = os.path.join(ctx.scratch, 'a.strm')
                    with open(p, 'wb') as f: f.write(data)
                    return soundStream.STRM.fromFile(p, *args)
                return soundStream.STRM(data, *args) if R.random() < .5 else soundStream.STRM(data, **dict(zip(PAR, args)))
            exc, o = ctx.call(go)
            if not exc: self.o = o
            return self.put({'op': 'load', 'data': list(data), 'parwant': want}, exc)

        def set(self, w):
            if self.o is None or R.random() < .3:
                args, want = self.params()
                def go():
                    if R.random() < .5:
                        self.o = soundStream.STRM.fromChannels([[bytes(b) for b in c] for c in w['chans']], *args); apply(self.o, WT, w, False)
                    else: self.o = soundStream.STRM(None, *args); apply(self.o, WT, w)
            else:
                want = [getattr(self.o, p) for p in PAR]
                def go(): apply(self.o, WT, w)
            exc, _ = ctx.call(go)
            return self.put({'op': 'set', 'want': copy.deepcopy(w), 'parwant': want}, exc)

        def save(self, ut=False):
            def go():
                r = self.o.save(updateTime=True) if ut else self.o.save()
                return bts(r[0]), [num(x) for x in r[1:]]
            exc, r = ctx.call(go)
            d, p = ([], []) if exc else r
            self.put({'op': 'save', 'updTime': ut, 'out': d, 'par': p}, exc)
            return None if exc else bytes(d)

    cases = ctx.cases('MCStrm', ctx.scale('MCStrm.cfg', 'MCStrmT.cfg'))
    if len(cases) > ctx.scale(700, 3000): cases = R.sample(cases, ctx.scale(700, 3000))
    for c in cases:
        h = H('tlc-stream')
        if not h.set(c): continue
        d = h.save()
        if d and h.load(d): h.save()
    for i in range(ctx.scale(250, 2500)):
        h = H('stream'); w = rand(R)
        if not (h.set(w) if R.random() < .5 else h.load(foreign(R, w))): continue
        for _ in range(R.choice([1, 2, 3])):
            d = h.save(R.random() < .3)
            if d is None: break
            if R.random() < .6 and not h.load(d): break
            w = copy.deepcopy(h.ev[-1]['obj'])
            k = R.randrange(5)
            if k == 0: w = rand(R)
            elif k == 1 and w['chans']: w['chans'].pop()
            elif k == 2 and w['chans'] and w['chans'][0]: w['chans'][-1][-1] = list(R.randbytes(len(w['chans'][-1][-1])))
            elif k == 3: w['type'] = R.choice([0, 1])
            elif k == 4: w['chans'] = []
            if not h.set(w): break
    for i in range(ctx.scale(150, 800)):
        w = rand(R)
        while not w['chans'] or not w['chans'][0]: w = rand(R)
        k = R.randrange(5)
        if k == 0: w['chans'].append(copy.deepcopy(w['chans'][0]) + [[1, 2]])
        elif k == 1: w['chans'].append(copy.deepcopy(w['chans'][0])); b = R.choice(w['chans'][-1]); b.append(9) if R.random() < .5 or not b else b.pop()
        elif k == 2: w['type'] = 2; w['chans'] = [[[1] * R.choice([0, 1, 3])]]
        elif k == 3: w[R.choice(['rate', 'time', 'unk03'])] = R.choice([-1, 65536])
        elif k == 4: w['chans'] = [[[1] * 4, [1] * 5, [1] * 4, [2]]] * R.choice([1, 2])
        h = H('unstorable')
        if h.set(w): h.save()
    large.run(ctx, large.StrmA, large.StrmB, large.StrmC, large.StrmD)
