import os
from vf import bts, num, big, IllTyped
from props import large
TRACE = 'ColorTrace'


def tup(x):
    if not isinstance(x, tuple) or len(x) != 4: raise IllTyped('color tuple')
    return [num(v) for v in x]


OBS = {'int': num, 'bytes': bts, 'a1': tup, 'a5': tup, 'c8': tup}


def run(ctx):
    from ndspy import color
    R = ctx.rng
    ctx.model('MCColor')
    F = color.ColorFormat
    FM = {'int': F.INT_16, 'bytes': F.BYTES_2, 'a1': F.TUPLE_RGB5A1, 'a5': F.TUPLE_RGB5A5, 'c8': F.TUPLE_RGBA255}
    real = {'int': lambda x: x, 'bytes': lambda x: R.choice([bytes, bytearray])(x), 'a1': tuple, 'a5': tuple, 'c8': tuple}

    def vec(name, fn, frm, to, xs):
        t = ctx.trace(name)
        for i in range(0, len(xs), 4096):
            part = xs[i:i + 4096]
            exc, ys = ctx.call(lambda: [OBS[to](fn(real[frm](x))) for x in part], limit=60)
            t['ev'].append({'op': 'map', 'fn': name, 'from': frm, 'to': to, 'xs': part, 'exc': exc, 'ys': [] if exc else ys})

    every = list(range(65536))
    some = R.sample(every, ctx.scale(6000, 65536)) + [0, 1, 0x7FFF, 0x8000, 0xFFFF]
    un = lambda v: [v & 31, v >> 5 & 31, v >> 10 & 31, v >> 15]
    chan = lambda hi: [[R.randrange(hi) if j != c else v for j in range(4)] for c in range(4) for v in range(hi)] + [[R.randrange(hi) for _ in range(4)] for _ in range(ctx.scale(1500, 20000))]
    c8 = chan(256)
    a5 = chan(32)
    inputs = {'int': every, 'bytes': [[v & 255, v >> 8] for v in some], 'a1': [un(v) for v in some], 'a5': a5, 'c8': c8}
    for f in FM:
        for t in FM:
            vec(f'convert {f}>{t}', lambda x: color.convert(x, FM[f], FM[t]), f, t, inputs[f])
    a1 = [un(v) for v in every] if ctx.thorough else inputs['a1']
    vec('unpack', color.unpack, 'int', 'a1', every)
    vec('unpack255', color.unpack255, 'int', 'c8', every)
    vec('load', color.load, 'bytes', 'a1', inputs['bytes'])
    vec('pack', lambda x: color.pack(*x), 'a1', 'int', a1)
    vec('save', lambda x: color.save(*x), 'a1', 'bytes', a1)
    vec('expand', lambda x: color.expand(*x), 'a1', 'c8', a1)
    vec('contract', lambda x: color.contract(*x), 'c8', 'a1', c8)
    vec('pack255', lambda x: color.pack255(*x), 'c8', 'int', c8)
    # alpha left out means opaque
    op1 = [c for c in a1 if c[3] == 1]; op8 = [c[:3] + [255] for c in c8]
    vec('pack/3', lambda x: color.pack(*x[:3]), 'a1', 'int', op1)
    vec('save/3', lambda x: color.save(*x[:3]), 'a1', 'bytes', op1)
    vec('expand/3', lambda x: color.expand(*x[:3]), 'a1', 'c8', op1)
    vec('contract/3', lambda x: color.contract(*x[:3]), 'c8', 'a1', op8)
    vec('pack255/3', lambda x: color.pack255(*x[:3]), 'c8', 'int', op8)
    # lookup tables; preparing them again keeps them
    for rep in range(2):
        t = ctx.trace('prepareLUTs')
        exc, _ = ctx.call(color.prepareLUTs, limit=60)
        for order in ('RGBA', 'ARGB', 'BGRA', 'ABGR'):
            for base in range(0, 65536, 4096):
                if rep and base: continue
                x, ys = (exc, []) if exc else ctx.call(lambda: [big(v) for v in getattr(color, f'LUT_{order}_255')[base:base + 4096]])
                t['ev'].append({'op': 'lut', 'order': order, 'base': base, 'exc': x, 'ys': [] if x else ys})
        vec('LUT_UNPACKED', lambda v: color.LUT_UNPACKED[v], 'int', 'a1', every[rep:65536:1 + 15 * rep])
        vec('LUT_UNPACKED_255', lambda v: color.LUT_UNPACKED_255[v], 'int', 'c8', every[rep:65536:1 + 15 * rep])
    # palettes
    for i in range(ctx.scale(60, 400)):
        t = ctx.trace('palette')
        n = R.choice([0, 1, 2, 4, 16, 256]) if R.random() < .5 else R.randrange(40)
        d = R.randbytes(2 * n + R.choice([0, 0, 1]))
        path = os.path.join(ctx.scratch, 'p.bin')
        def load():
            if R.random() < .3:
                with open(path, 'wb') as f: f.write(d)
                return color.loadPaletteFromFile(path)
            return color.loadPalette(R.choice([bytes, bytearray])(d))
        exc, p = ctx.call(load)
        x, o = (exc, []) if exc else ctx.call(lambda: [tup(c) for c in p])
        t['ev'].append({'op': 'palload', 'data': list(d), 'exc': x, 'out': [] if x else o})
        cs = o if not x and R.random() < .5 else [un(R.randrange(65536)) for _ in range(n)]
        for c in cs: c[3:] = c[3:] or [1]
        def save():
            arg = [tuple(c[:3]) if c[3] == 1 and R.random() < .3 else tuple(c) for c in cs]
            if R.random() < .3:
                color.savePaletteToFile(arg, path)
                with open(path, 'rb') as f: return bts(f.read())
            return bts(color.savePalette(arg))
        exc, out = ctx.call(save)
        t['ev'].append({'op': 'palsave', 'colors': cs, 'exc': exc, 'out': [] if exc else out})
    large.run(ctx, large.Palette)
