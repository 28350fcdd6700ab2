import struct
from vf import bts, num, big, boolean
from props import lzgen, romlib
from props import large
TRACE = 'CodeTrace'


def ov(i, o):
    return {'id': num(i), 'ram': big(o.ramAddress), 'ramSize': num(o.ramSize), 'bss': big(o.bssSize), 'si0': big(o.staticInitStart),
            'si1': big(o.staticInitEnd), 'file': num(o.fileID), 'csize': num(o.compressedSize), 'flags': num(o.flags)}


def u32(R): return R.choice([0, 1, 2**32 - 1, R.randrange(2**32), R.randrange(2**32), R.randrange(2**32)])


def run(ctx):
    from ndspy import code, rom
    R = ctx.rng
    ctx.model('MCCode', ctx.scale('MCCode.cfg', 'MCCodeT.cfg'))

    def rdata(): return R.choice([R.randbytes(R.randrange(0, 60)), bytes(R.choice(b'ab') for _ in range(R.randrange(20, 120))), bytes(R.randrange(30, 90))])

    def entry(i, f, data, comp, flags):
        return struct.pack('<8I', i, u32(R), R.choice([len(data), 0, R.randrange(2**20)]), u32(R), u32(R), u32(R),
                           f, R.choice([0, R.randrange(2**24)]) | (flags | comp) << 24)

    def save_events(t, o, data, before):
        comp = R.random() < .5
        def go():
            out = o.save(compress=True) if comp else o.save()
            return bts(out), ov(before['id'], o), bts(o.data)
        exc, r = ctx.call(go)
        out, after, da = r if not exc else ([], before, [])
        t['ev'].append({'op': 'ovsave', 'exc': exc, 'compress': comp, 'data': list(data), 'out': out, 'before': before, 'after': after, 'dataAfter': da})
        if comp and not exc:
            t2 = ctx.trace('compressed-form'); t2['module'] = 'LzTrace'
            t2['ev'].append({'op': 'ccompress', 'data': list(data), 'arm9': False, 'exc': '', 'out': out})
        return None if exc else bytes(out)

    for it in range(ctx.scale(160, 1200)):
        n = R.choice([0, 1, 2, 3, 5, 8])
        nf = n + R.randrange(0, 3)
        datas, raws = [], []
        for _ in range(nf):
            d = rdata()
            c = lzgen.code_file(d, R.choice([0, 0, 4])) if d else None
            datas.append(d); raws.append(c)
        ids = R.sample(range(n + 3), n) if R.random() < .5 else list(range(n))
        fids = R.sample(range(nf), n) if R.random() < .5 else [R.randrange(nf) for _ in range(n)] if nf and R.random() < .3 else list(range(n))
        comp_of = {}
        table = b''
        files = [None] * nf
        for i, f in zip(ids, fids):
            comp = comp_of.setdefault(f, raws[f] is not None and R.random() < .6)
            files[f] = raws[f] if comp else datas[f]
            table += entry(i, f, datas[f], int(comp), R.choice([0, 2, 0, 4, 0x80]))
        for f in range(nf):
            if files[f] is None: files[f] = datas[f]
        want = None if R.random() < .5 else R.choice([[], ids, ids[:1], R.sample(ids, len(ids) // 2), ids[:2] + [99]])
        via_rom = R.random() < .5
        t = ctx.trace('overlays-rom' if via_rom else 'overlays')
        asked = []
        def go():
            cont = None if want is None else R.choice([list, set, tuple])(want)
            if via_rom:
                r = rom.NintendoDSRom(); r.files = list(files)
                arm7 = R.random() < .5
                if arm7: r.arm7OverlayTable = table
                else: r.arm9OverlayTable = table
                fn = r.loadArm7Overlays if arm7 else r.loadArm9Overlays
                return fn() if want is None else fn(cont)
            def cb(ovid, fid): asked.append((ovid, fid)); return files[fid]
            return code.loadOverlayTable(table, cb) if want is None else code.loadOverlayTable(table, cb, cont)
        exc, ovs = ctx.call(go)
        x, obs = (exc, None) if exc else ctx.call(lambda: [{'o': ov(i, o), 'data': bts(o.data), 'compressed': boolean(o.compressed), 'verify': boolean(o.verifyHash)} for i, o in ovs.items()])
        t['ev'].append({'op': 'ovload', 'exc': x, 'table': list(table), 'ids': [] if want is None else [list(want)], 'datas': [list(d) for d in datas],
                        'ovs': [] if x else obs})
        if x: continue
        def table_event():
            x, tab = ctx.call(lambda: [ov(i, o) for i, o in ovs.items()])
            if x: t['ev'].append({'op': 'ovsavetable', 'exc': x, 'tab': [], 'out': []}); return
            exc, r = ctx.call(lambda: bts(code.saveOverlayTable(ovs)))
            t['ev'].append({'op': 'ovsavetable', 'exc': exc, 'tab': tab, 'out': [] if exc else r})
        table_event()
        for i in list(ovs):
            o = ovs[i]
            if R.random() < .5:
                d = rdata(); o.data = R.choice([bytearray, bytes])(d)
            else: d = bytes(o.data)
            for w in ('compressed', 'verifyHash'):
                if R.random() < .3:
                    v = R.random() < .5; b = num(o.flags)
                    exc, _ = ctx.call(lambda: setattr(o, w, v))
                    t['ev'].append({'op': 'ovflag', 'exc': exc, 'which': w, 'value': v, 'before': b, 'after': num(o.flags)})
            x, before = ctx.call(lambda: ov(i, o))
            if x: continue
            save_events(t, o, d, before)
        table_event()
    large.run(ctx, large.Overlays, large.Rom)
