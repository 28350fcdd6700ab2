"""Texture rendering: every format, every byte value, every block mode."""
from vf import num
from props.texlib import Gen, BPP, size1, size2
TRACE = 'TexTrace'
NEED = {1: 32, 2: 4, 3: 16, 4: 256, 6: 8}


def run(ctx):
    from ndspy import texture as T
    R = ctx.rng; g = Gen(R)
    ctx.model('MCTexel')

    def render(fmt, w, h, d1, d2, pal, c0):
        im = R.random() < .3; how = R.randrange(3)
        none = fmt == 7 and R.random() < .7
        cols = [tuple(c) for c in pal] if R.random() < .5 else T.Palette(0, 0, 0, b''.join((c[0] | c[1] << 5 | c[2] << 10 | c[3] << 15).to_bytes(2, 'little') for c in pal)).colors
        def go():
            if how:
                t = g.m_tex({**g.tex(True), 'fmt': fmt, 'w': w, 'h': h, 'd1': d1, 'd2': d2, 'c0': c0})
                a = () if none and R.random() < .5 else (None if none else T.Palette.fromColors(0, 0, 0, cols),)
                o = t.renderAsImage(*a) if im else t.render(*a)
            else:
                f = T.renderTextureDataAsImage if im else T.renderTextureData
                k = {} if c0 and R.random() < .5 else {'isColor0Transparent': c0}
                a = () if none and R.random() < .5 else (None if none else cols,)
                if not a: o = f(bytes(d1), bytes(d2), T.TextureFormat(fmt), w, h, **k)
                else: o = f(bytes(d1), bytes(d2), T.TextureFormat(fmt), w, h, *a, **k)
            if im: return {'out': [list(p) for p in o.convert('RGBA').getdata()], 'size': list(o.size)}
            return {'out': [[num(x) for x in p] for p in o]}
        exc, r = ctx.call(go)
        ctx.trace(f'render-{fmt}')['ev'].append({'op': 'render', 'fmt': fmt, 'w': w, 'h': h, 'd1': list(d1), 'd2': list(d2), 'pal': pal, 'c0': c0, 'image': im,
                                                 'out': [], 'size': [0, 0], **({} if exc else r), 'exc': exc})

    # one texture and one palette, edited between renderings
    for _ in range(ctx.scale(40, 600)):
        fmt = R.choice([1, 2, 3, 4, 5, 6, 7]); w, h = R.choice([(8, 8), (16, 8), (8, 16)])
        n = 16 if fmt == 5 else NEED.get(fmt, 4)
        pal = [g.color() for _ in range(n)]; c0 = R.random() < .5
        block = lambda: [x for v in [R.randrange(7) | R.randrange(4) << 14] for x in (v & 255, v >> 8)]
        d1 = list(R.randbytes(w * h * BPP[fmt] // 8)); d2 = [x for _ in range(w * h // 16) for x in block()] if fmt == 5 else []
        try:
            t = g.m_tex({**g.tex(True), 'fmt': fmt, 'w': w, 'h': h, 'd1': d1, 'd2': d2, 'c0': c0}); t.data1, t.data2 = bytearray(d1), bytearray(d2)
            p = T.Palette.fromColors(0, 0, 0, [tuple(c) for c in pal])
        except Exception as e: raise RuntimeError(f'a texture cannot be made: {e!r}')
        E = ctx.trace(f'history-{fmt}')['ev']
        for _ in range(4):
            im = R.random() < .3
            def go():
                o = t.renderAsImage(p) if im else t.render(p)
                if im: return {'out': [list(q) for q in o.convert('RGBA').getdata()], 'size': list(o.size)}
                r = {'out': [[num(x) for x in q] for q in o]}
                if isinstance(o, list): o[:] = [(9, 9, 9, 9)] * len(o)        # the caller's
                return r
            exc, r = ctx.call(go)
            E.append({'op': 'render', 'fmt': fmt, 'w': w, 'h': h, 'd1': list(d1), 'd2': list(d2), 'pal': [list(c) for c in pal], 'c0': c0, 'image': im, 'out': [], 'size': [0, 0], **({} if exc else r), 'exc': exc})
            k = R.choice(['data', 'replace', 'color', 'colors', 'c0', 'swap', 'none', 'block'])
            if k == 'data': i = R.randrange(len(d1)); d1[i] ^= 0x5A; t.data1[i] ^= 0x5A
            elif k == 'replace': d1 = list(R.randbytes(len(d1))); t.data1 = bytearray(d1)
            elif k == 'color': i = R.randrange(n); pal[i] = g.color(); p.colors[i] = tuple(pal[i])
            elif k == 'colors': pal = [g.color() for _ in range(n)]; p.colors = [tuple(c) for c in pal]
            elif k == 'c0': c0 = not c0; t.isColor0Transparent = c0
            elif k == 'swap': w, h = h, w; t.size = (w, h)
            elif k == 'block' and d2: d2[:2] = block(); t.data2[:2] = bytes(d2[:2])

    # every byte value in every position of a pixel group
    for fmt in (1, 2, 3, 4, 6):
        for c0 in (True, False):
            for rep in range(ctx.scale(1, 6)):
                px = 8 // BPP[fmt]
                d = list(range(256)); R.shuffle(d)
                w = R.choice([8, 16, 32]); h = 256 * px // w
                if h < 8: w, h = 16, 256 * px // 16
                render(fmt, w, h, d, [], [g.color() for _ in range(NEED[fmt])], c0)
    for rep in range(ctx.scale(4, 128)):
        vs = [R.randrange(65536) for _ in range(512)] if rep >= 128 or not ctx.thorough else list(range(rep * 512, rep * 512 + 512))
        render(7, 16, 32, [x for v in vs for x in (v & 255, v >> 8)], [], [], bool(rep & 1))
    vs = [0, 1, 0x1F, 0x3E0, 0x7C00, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF] + [R.randrange(65536) for _ in range(117)]
    for c0 in (True, False): render(7, 8, 16, [x for v in vs for x in (v & 255, v >> 8)], [], [], c0)
    # wide and tall ones, long palettes
    for fmt in (1, 2, 3, 4, 5, 6, 7):
        for w, h in ((1024, 8), (8, 1024)):
            n = R.choice([40, 300, 600])
            d2 = [x for _ in range(w * h // 16) for v in [R.randrange((n - 2) // 2) | R.randrange(4) << 14] for x in (v & 255, v >> 8)] if fmt == 5 else []
            render(fmt, w, h, list(R.randbytes(w * h * BPP[fmt] // 8)), d2, [g.color() for _ in range(n if fmt == 5 else NEED.get(fmt, 4))], R.random() < .5)
    long = [g.color() for _ in range(32768)]
    idx = [0, 0x1FFF, 0x2000, 0x2FFF, 0x3000, 0x3FFE, 0xFFF, 0x1000]
    for mode in range(4):
        render(5, 16, 8, [R.choice([0b11100100, R.randrange(256)]) for _ in range(32)], [x for i in idx for x in (i & 255, i >> 8 | mode << 6)], long, True)
    # block-compressed: all modes, all pairs of 5-bit components (sampled), all byte values
    pairs = [(a, b) for a in range(32) for b in range(32)]; R.shuffle(pairs)
    for rep in range(ctx.scale(24, 200)):
        w, h = R.choice([(8, 8), (16, 8), (8, 16), (16, 16), (32, 8), (8, 32), (64, 4 * 2)])
        n = w * h // 16
        pal = []
        for _ in range(R.choice([8, 16, 64])):
            pq = [R.choice(pairs) for _ in range(3)]
            pal += [[pq[0][0], pq[1][0], pq[2][0], R.randrange(2)], [pq[0][1], pq[1][1], pq[2][1], R.randrange(2)]]
        idx = [(R.randrange((len(pal) - 2) // 2) | R.randrange(4) << 14) for _ in range(n)]
        d1 = [0b11100100 if R.random() < .4 else R.randrange(256) for _ in range(4 * n)]
        render(5, w, h, d1, [x for v in idx for x in (v & 255, v >> 8)], pal, R.random() < .5)
    for mode in (1, 3):
        # every pair of component values mixed
        for chunk in range(0, 1024, 256):
            ps = pairs[chunk:chunk + 256]
            for q in range(0, 256, ctx.scale(64, 16)):
                sub = ps[q:q + ctx.scale(64, 16)]; sub = sub[:16] if not ctx.thorough else sub
                pal = []
                for i, (a, b) in enumerate(sub):
                    a2, b2 = pairs[(chunk + q + i * 7 + 1) % 1024]; a3, b3 = pairs[(chunk + q + i * 11 + 5) % 1024]
                    pal += [[a, a2, a3, 1], [b, b2, b3, 0]]
                n = len(sub)
                render(5, 4 * n if n >= 2 else 8, 4, [0b11100100, 0b00011011, 0b10101010, 0b11111111] * n, [x for i in range(n) for x in ((i | mode << 14) & 255, (i | mode << 14) >> 8)], pal, True)
    # random
    for _ in range(ctx.scale(200, 3000)):
        t = g.tex(R.random() < .6)
        while t['w'] * t['h'] > 1024 or t['fmt'] == 0: t = g.tex(True)
        fmt = t['fmt']
        if fmt == 5:
            n = R.choice([4, 8, 40]); pal = [g.color() for _ in range(n)]
            idx = [R.randrange((n - 2) // 2 + (1 if R.random() < .01 else 0)) | R.randrange(4) << 14 for _ in range(t['w'] * t['h'] // 16)]
            t['d2'] = [x for v in idx for x in (v & 255, v >> 8)]
        else: pal = [g.color() for _ in range(NEED.get(fmt, 4) - (R.choice([0, 0, 0, 0, 1]) if fmt != 7 else 0))]
        render(fmt, t['w'], t['h'], t['d1'], t['d2'], pal, t['c0'])
