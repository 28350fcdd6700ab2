from vf import num
from props import romlib, fntlib
from props import large
TRACE = 'RomTrace'
BATCH = 150


def run(ctx):
    from ndspy import rom
    R = ctx.rng
    cases = ctx.cases('MCRom')
    for c in R.sample(cases, ctx.scale(90, 900)):
        h = romlib.H(ctx, 'tlc-sizes', romlib.rand_rom(R, c), layout=True)
        if h.ok: h.save()
    for i in range(ctx.scale(60, 500)):
        h = romlib.H(ctx, 'random', romlib.rand_rom(R), layout=True)
        if not h.ok: continue
        d = h.save()
        if d and i % 3 == 0 and h.reopen(d, resave=False): h.save()
    # device capacity: image sizes around every power of two that is affordable
    sizes = [0, 1, 0x1BE00, 0x1BDFF, 0x1BE01, 0x1FE00, 0x20000, 0x3BE00, 0x3BE01, 0x40000, 0x5BE00, 0x7BE00, 0x7BE01, 0x100000,
             0xFBE00, 0xFBE01, 0x1FBE00, 0x1FBE01, 0x3FBE00, 0x3FBE01, 0x7FBE00, 0x7FBE01]
    for n in sizes + [R.randrange(0, 0x400000) for _ in range(ctx.scale(6, 60))]:
        def go():
            o = rom.NintendoDSRom(); o.arm7 = bytes(n)
            d = o.save(updateDeviceCapacity=True)
            return len(d), d[0x14], num(o.deviceCapacity)
        exc, t = ctx.call(go)
        size, a, b = t if not exc else (0, 0, 0)
        ctx.trace(f'capacity-{n:x}')['ev'].append({'op': 'capacity', 'exc': exc, 'size': size, 'inHeader': a, 'inObject': b})
    # and left alone when not asked for
    for n in (0, 0x20000, 0x40000, 0x100000, 0x400000):
        for c in (0, 1, 3, 9, 255):
            def go():
                o = rom.NintendoDSRom(); o.arm7 = bytes(n); o.deviceCapacity = c
                d = o.save(**R.choice([{}, {'updateDeviceCapacity': False}]))
                return d[0x14], num(o.deviceCapacity)
            exc, t = ctx.call(go)
            a, b = t if not exc else (0, 0)
            ctx.trace(f'keep-capacity-{n:x}-{c}')['ev'].append({'op': 'keepcap', 'exc': exc, 'given': c, 'inHeader': a, 'inObject': b})
    large.run(ctx, large.Rom)
