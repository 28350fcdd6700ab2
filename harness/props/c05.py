import copy
from props import romlib, fntlib
from props import large
TRACE = 'RomTrace'
BATCH = 150


def run(ctx):
    R = ctx.rng
    cases = ctx.cases('MCRom')
    for c in R.sample(cases, ctx.scale(40, 400)):
        h = romlib.H(ctx, 'tlc-sizes', romlib.rand_rom(R, c))
        d = h.ok and h.save()
        if d: h.reopen(d)
    for i in range(ctx.scale(50, 400)):
        r = romlib.rand_rom(R)
        if i % 2 == 0:
            h = romlib.H(ctx, 'random', r)
        else:
            exc, fb = ctx.call(lambda: bytes(__import__('ndspy.fnt').fnt.save(fntlib.build(__import__('ndspy.fnt').fnt, r['names']))))
            h = romlib.H(ctx, 'foreign', data=romlib.foreign(R, r, b'' if exc or R.random() < .1 else fb))
        if not h.ok: continue
        ps = [p for k, p in fntlib.paths(r['names']) if k == 'f']
        for _ in range(R.randrange(0, 4)):
            p = R.choice(ps + [[120, 121], [47]]) if ps else [120]
            if R.random() < .5: h.get(p)
            else: h.set(p, list(R.randbytes(R.choice([0, 1, 0x200, 700]))))
        h.look()
        d = h.save()
        if d and h.reopen(d):
            if ps: h.set(R.choice(ps), list(R.randbytes(R.choice([0, 3, 513]))))
            if R.random() < .4 and h.o is not None:
                # grow the list of files / change header values directly
                x, cur = ctx.call(lambda: romlib.observe(h.o))
                if x: continue
                cur = copy.deepcopy(cur)
                cur['files'].append(list(R.randbytes(R.choice([0, 9])))); cur['h8'][R.randrange(14)] ^= 1; cur['arm7'] += [1]
                exc, _ = ctx.call(lambda: romlib.assign(h.o, h.fnt, cur))
                h.ev.append({'op': 'assign', 'exc': exc, 'want': cur})
            d = h.save()
            if d: h.reopen(d)
    # more files and names than a byte counts
    r = romlib.rand_rom(R); n = len(r['files']); r['files'] += [[i % 256] * (i % 3) for i in range(n, 300)]; r['order'] = []
    h = romlib.H(ctx, 'many-files', r); d = h.ok and h.save()
    if d: h.reopen(d, resave=False)
    # shorter than a header, bare header, default ROM
    from ndspy import rom
    for n in (0, 1, 0x1FF, 0x200):
        img = bytearray(n)
        if n: img[0] = 65
        romlib.H(ctx, f'tiny-{n}', data=bytes(img))
    exc, o = ctx.call(rom.NintendoDSRom)
    x, r = ctx.call(lambda: romlib.observe(o))
    if exc or x: raise RuntimeError('default ROM cannot be observed')
    h = romlib.H(ctx, 'default', r); d = h.save()
    if d: h.reopen(d)
    large.run(ctx, large.Rom)
