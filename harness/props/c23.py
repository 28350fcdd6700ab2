"""Texture and model files: histories of load, edit, save, export and import."""
import copy
from vf import bts, num
from props.texlib import Gen, o_file, o_block, o_tex, flag, FLAGS, size1, size2
from props import large as largefile
TRACE = 'TexTrace'


def run(ctx):
    from ndspy import texture as T, model as M
    R = ctx.rng; g = Gen(R)
    KIND = {'btx': T.NSBTX, 'bmd': M.NSBMD}

    def step(ev, op, fn, **e):
        exc, r = ctx.call(fn)
        ev.append({'op': op, **e, **({} if exc else r), 'exc': exc})
        return not exc

    class Hist:
        def __init__(self, kind): self.kind = kind; self.ev = ctx.trace(kind)['ev']; self.f = None
        def new(self):
            def go(): self.f = KIND[self.kind](); return {'obs': o_file(self.f)}
            return step(self.ev, 'new', go, kind=self.kind, obs={})
        def load(self, data):
            def go(): self.f = KIND[self.kind](R.choice([bytes, bytearray])(data) if self.kind == 'btx' else bytes(data)); return {'obs': o_file(self.f)}
            return step(self.ev, 'load', go, kind=self.kind, data=list(data), obs={})
        def edit(self, b):
            def go(): g.put(self.f, b, R.random() < .5); return {'obs': o_file(self.f)}
            return step(self.ev, 'edit', go, tex=b, obs={})
        def save(self):
            def go():
                self.out = self.f.save()
                return {'out': bts(self.out), 'obs': o_file(self.f)}
            return step(self.ev, 'save', go, out=[], obs={})
        def reload(self): return self.load(self.out)
        def export(self):
            def go():
                x = self.f.exportNSBTX(); got = o_block(x, 'unk'); r = x.save()
                self.exported = r
                return {'got': got, 'obs': o_file(self.f)}
            return step(self.ev, 'export', go, got={}, obs={})
        def imp(self, b):
            def go(): self.f.importNSBTX(g.m_btx(b)); return {'obs': o_file(self.f)}
            return step(self.ev, 'import', go, tex=b, obs={})
        def reimport(self):
            """import what was exported, through a file"""
            x = T.NSBTX(self.exported); b = o_block(x, 'unk')
            def go(): self.f.importNSBTX(x); return {'obs': o_file(self.f)}
            return step(self.ev, 'import', go, tex=b, obs={})
        def refuse(self, what, b):
            f = copy.deepcopy(self.f)
            def go(): g.put(f, b, False); f.save(); return {}
            step(self.ev, 'refuse', go, what=what)

    cases = ctx.cases('MCTex', ctx.scale('MCTex.cfg', 'MCTexT.cfg'))
    if not ctx.thorough: cases = [c for i, c in enumerate(cases) if i % 6 == ctx.seed % 6 or c['mode'] != 'btx']
    models = [c for c in cases if c['mode'] != 'btx']
    for c in cases:
        kind = 'btx' if c['mode'] == 'btx' else 'bmd'
        h = Hist(kind)
        if kind == 'btx' and R.random() < .3:
            h.new() and h.edit(c['tex']) and h.save()
            continue
        if not h.load(c['data']): continue
        if not h.save(): continue
        if kind == 'bmd':
            h.export() and h.reimport()
            if R.random() < .3: h.save() and h.reload()
    for _ in range(ctx.scale(350, 6000)):
        kind = R.choice(['btx', 'bmd'])
        h = Hist(kind)
        ok = h.load(R.choice(models)['data']) if kind == 'bmd' and R.random() < .7 else h.new()
        for _ in range(R.randrange(2, 6)):
            if not ok: break
            k = R.randrange(6)
            if k == 0: ok = h.edit(g.block())
            elif k == 1 and kind == 'bmd': ok = h.imp(g.block())
            elif k == 2 and kind == 'bmd': ok = h.export() and h.reimport()
            elif k == 3: ok = h.save() and h.reload()
            elif k == 4:  # small edit of what is there
                b = o_file(h.f)['tex']
                j = R.randrange(5)
                if j == 0 and b['texs']: b['texs'].pop(R.randrange(len(b['texs'])))
                elif j == 1 and b['pals']: b['pals'].pop(R.randrange(len(b['pals'])))
                elif j == 2: b['texs'].insert(R.randrange(len(b['texs']) + 1), g.tex(True))
                elif j == 3: b['pals'].insert(R.randrange(len(b['pals']) + 1), g.pal())
                else: b['texs'] += b['texs'][:1]; b['pals'].reverse()
                ok = h.edit(b)
            else: ok = h.edit(g.block()) and h.save()
        if ok: h.save() and h.reload()
    # many entries
    for n in ctx.scale([255], [200, 255]):
        b = g.block(); b['texs'] = []; b['pals'] = [{**g.pal(), 'cols': [g.color() for _ in range(4)]} for _ in range(n)]
        for i in range(n):
            t = g.tex(True); t['fmt'] = [0, 2, 5][i % 3]; t['d1'] = list(R.randbytes(size1(t))); t['d2'] = list(R.randbytes(size2(t))); b['texs'].append(t)
        h = Hist('btx'); h.new() and h.edit(b) and h.save() and h.reload()
    # packed parameters
    for p in range(0, 65536, ctx.scale(61, 1)):
        ev = ctx.trace('params')['ev']
        def go():
            t = T.Texture(0, 0, p, 0, b'', b'')
            return {'view': {k: flag(getattr(t, a)) for k, a in FLAGS.items()}, 'back': num(t.save()[2])}
        step(ev, 'params', go, p=p, view={}, back=-1)
    for fmt in range(8):
        step(ctx.trace('bpp')['ev'], 'bpp', lambda: {'got': [num(T.TextureFormat(fmt).bitsPerPixel1()), num(T.TextureFormat(fmt).bitsPerPixel2())]}, fmt=fmt, got=[])
    # what cannot be stored
    for i in range(ctx.scale(60, 400)):
        h = Hist(R.choice(['btx', 'bmd']))
        if not h.new(): continue
        b = g.block(); t = g.tex(True); p = g.pal(); what = i % 8
        if what == 0: t['name'] = [65] * R.choice([17, 18, 40])
        elif what == 1: p['name'] = [65] * R.choice([17, 32])
        elif what == 2: t['w'] = R.choice([0, 4, 12, 2048]); t['fmt'] = 0; t['d1'] = t['d2'] = []
        elif what == 3: t['h'] = R.choice([0, 7, 100, 2048]); t['fmt'] = 0; t['d1'] = t['d2'] = []
        elif what == 4: p['cols'] = p['cols'] + [g.color() for _ in range(R.choice([1, 2, 3]))]
        elif what == 5: t['fmt'] = 5; t['d1'] = [0] * 16; t['d2'] = [0] * R.choice([0, 4, 16])
        elif what == 6: t[R.choice(['u0', 'u2'])] = R.choice([-1, 65536])
        elif what == 7: p[R.choice(['u0', 'u2', 'uh'])] = R.choice([-1, 65536])
        b['texs'].insert(R.randrange(len(b['texs']) + 1), t); b['pals'].insert(R.randrange(len(b['pals']) + 1), p)
        h.refuse(what, b)
    # large textures and palettes
    def large(ds, pals):
        def go():
            f = T.NSBTX()
            for i, d in enumerate(ds):
                t = {**g.tex(True), **d, 'd1': R.randbytes(size1(d)), 'd2': R.randbytes(size2(d))}
                f.textures.append((f't{i}', g.m_tex(t)))
            for i, n in enumerate(pals): f.palettes.append((f'p{i}', T.Palette(0, 0, 0, R.randbytes(2 * n))))
            q = T.NSBTX(f.save())
            return {'same': [o_tex(*x) for x in q.textures] == [o_tex(*x) for x in f.textures] and [(n, list(map(tuple, p.colors))) for n, p in q.palettes] == [(n, list(map(tuple, p.colors))) for n, p in f.palettes]}
        step(ctx.trace('large')['ev'], 'large', go, dims=ds, pals=pals, same=False)
    for dims in [[(5, 1024, 1024), (5, 8, 8)], [(5, 256, 256)] * 3, [(5, 512, 512), (5, 512, 1024), (5, 8, 8)], [(7, 512, 512)], [(7, 1024, 1024)], [(4, 512, 1024)], [(4, 512, 512), (4, 512, 512)], [(5, 1024, 1024), (4, 512, 512)],
                 [(3, 1024, 1024 // 2), (2, 8, 8), (5, 1024, 1024)], [(5, 1024, 1024)] * 2, [(5, 1024, 1024)] * 3, [(2, 1024, 1024), (2, 1024, 512), (2, 512, 1024), (2, 8, 8)]]:
        ds = [{'fmt': a, 'w': b, 'h': c} for a, b, c in dims]; large(ds, [])
    for pals in [[16384], [16384, 4], [8, 20000, 8], [65536], [65536, 65536, 4], [262140], [262144], [262136, 4, 4]]: large([], pals)
    largefile.run(ctx, largefile.Tex)
