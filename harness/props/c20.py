import copy, struct
from vf import bts, num, big, IllTyped
TRACE = 'LayoutTrace'
H = [1, 4, 2]          # Alignment.LEFT, H_CENTER, RIGHT
V = [0x10, 0x40, 0x20]


def run(ctx):
    from ndspy import bnbl, bncl, Alignment as A
    R = ctx.rng
    HA = [A.LEFT, A.H_CENTER, A.RIGHT]; VA = [A.TOP, A.V_CENTER, A.BOTTOM]

    def split(a):
        for i, h in enumerate(HA):
            for j, v in enumerate(VA):
                if a == h | v: return i, j
        raise IllTyped(f'alignment {a!r}')

    def el(kind, o):
        ha, va = split(o.alignment)
        return {'x': num(o.x), 'y': num(o.y), 'ha': ha, 'va': va, 'w': num(o.width) if kind == 'bnbl' else 0, 'h': num(o.height) if kind == 'bnbl' else 0,
                'img': [0] * 4 if kind == 'bnbl' else big(o.imageID)}

    def mk(kind, e):
        a = HA[e['ha']] | VA[e['va']]
        if kind == 'bnbl': return bnbl.BNBLTouchArea(e['x'], e['y'], e['w'], e['h'], a)
        return bncl.BNCLImagePosition(e['x'], e['y'], a, int.from_bytes(bytes(e['img']), 'little'))

    class T:
        def __init__(self, name, kind):
            self.kind = kind; self.ev = ctx.trace(name + '-' + kind)['ev']; self.o = None
            self.cls = bnbl.BNBL if kind == 'bnbl' else bncl.BNCL

        def items(self): return self.o.touchAreas if self.kind == 'bnbl' else self.o.imagePositions

        def put(self, e, exc):
            x, v = (exc, None) if exc else ctx.call(lambda: {'unk': num(self.o.unk04), 'els': [el(self.kind, i) for i in self.items()]})
            self.ev.append({**e, 'kind': self.kind, 'exc': x, 'obj': {'unk': 0, 'els': []} if x else v})
            return not x

        def load(self, d):
            exc, o = ctx.call(lambda: self.cls(d))
            if not exc: self.o = o
            return self.put({'op': 'load', 'data': list(d)}, exc)

        def set(self, w, shared=False):
            def go():
                els = [mk(self.kind, e) for e in w['els']]
                if shared: els = [els[w['els'].index(e)] for e in w['els']]
                if self.o is None or R.random() < .4:
                    fn = self.cls.fromTouchAreas if self.kind == 'bnbl' else self.cls.fromImagePositions
                    self.o = fn(els, w['unk']) if w['unk'] or R.random() < .5 else fn(els)
                else:
                    if self.kind == 'bnbl': self.o.touchAreas = els
                    else: self.o.imagePositions = els
                    self.o.unk04 = w['unk']
            exc, _ = ctx.call(go)
            return self.put({'op': 'set', 'want': copy.deepcopy(w)}, exc)

        def save(self):
            exc, r = ctx.call(lambda: bts(self.o.save()))
            self.put({'op': 'save', 'out': [] if exc else r}, exc)
            return None if exc else bytes(r)

        def corners(self):
            for i, it in enumerate(self.items()):
                if self.kind == 'bnbl':
                    exc, r = ctx.call(lambda: [num(v) for v in it.getTopLeft()])
                    self.put({'op': 'corner', 'i': i + 1, 'out': [] if exc else r}, exc)
                exc, r = ctx.call(lambda: bts(it.save()))
                self.put({'op': 'elsave', 'i': i + 1, 'out': [] if exc else r}, exc)

    def rel(kind):
        v = lambda: R.choice([0, 1, 255, 256, 4095, R.randrange(4096)])
        return {'x': v(), 'y': v(), 'ha': R.randrange(3), 'va': R.randrange(3), 'w': R.choice([0, 1, 255, R.randrange(256), R.randrange(256), R.randrange(256)]) if kind == 'bnbl' else 0,
                'h': R.choice([0, 1, 2, 254, 255, R.randrange(256)]) if kind == 'bnbl' else 0, 'img': [0] * 4 if kind == 'bnbl' else list(R.choice([bytes(4), R.randbytes(4), R.randbytes(4)]))}

    # spec-generated elements, several per file
    cases = ctx.cases('MCLayout', 'MCLayout.cfg')
    for kind in ('bnbl', 'bncl'):
        es = [c['e'] for c in cases if c['kind'] == kind]
        R.shuffle(es)
        for i in range(0, len(es), 6):
            t = T('tlc', kind)
            if t.set({'unk': R.choice([0, 1, 65535, R.randrange(65536), R.randrange(65536)]), 'els': es[i:i + 6]}):
                t.corners()
                d = t.save()
                if d and t.load(d): t.save()
        for i in range(ctx.scale(120, 1500)):
            t = T('generated', kind)
            w = {'unk': R.choice([0, 1, 65535]), 'els': [rel(kind) for _ in range(R.choice([0, 1, 2, 5, 12]))]}
            if R.random() < .5:
                if not t.set(w): continue
            else:
                n = R.randrange(0, 6)     # arbitrary bits, including alignment value 3 and unused high bits
                d = (b'JNBL' if kind == 'bnbl' else b'JNCL') + struct.pack('<HH', w['unk'], n) + R.randbytes(n * (6 if kind == 'bnbl' else 8)) + bytes(R.choice([0, 2]))
                if not t.load(d): continue
            t.corners()
            for _ in range(R.choice([1, 2])):
                d = t.save()
                if d is None or not t.load(d): break
                w = copy.deepcopy(t.ev[-1]['obj'])
                if w['els'] and R.random() < .5: w['els'].pop(R.randrange(len(w['els'])))
                w['els'].insert(R.randrange(len(w['els']) + 1), rel(kind))
                if not t.set(w): break
        for n in (255, 256, 300):
            t = T('many', kind)
            if t.set({'unk': 3, 'els': [rel(kind) for _ in range(n)]}):
                d = t.save()
                if d and t.load(d): t.save()
        es = [rel(kind) for _ in range(3)]
        t = T('same object twice', kind)
        if t.set({'unk': 0, 'els': [es[0], es[1], es[0], es[2], es[1]]}, True):
            d = t.save()
            if d: t.load(d)
    for i in range(10):
        t = T('unstorable', 'bnbl'); e = rel('bnbl'); e[R.choice('wh')] = R.choice([256, -1, 300])
        if t.set({'unk': 0, 'els': [rel('bnbl'), e]}): t.save()
