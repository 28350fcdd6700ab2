import copy, struct
from vf import bts, num, big, boolean, opt
from props import lzgen
from props import large
TRACE = 'CodeTrace'
MAGIC = bytes([0x21, 6, 0xC0, 0xDE, 0xDE, 0xC0, 6, 0x21])


def observe(m):
    return {'ram': num(m.ramAddress), 'cso': opt(m.codeSettingsOffs, num),
            'secs': [{'data': bts(s.data), 'ram': num(s.ramAddress), 'bss': big(s.bssSize), 'implicit': boolean(s.implicit)} for s in m.sections]}


def plain(R, n):
    """Code-like words that look like neither a settings block nor an address of the file."""
    return b''.join(struct.pack('<I', R.choice([0xE1A00000, 0xE12FFF1E, R.randrange(0xE0000000, 0xE0FFFFFF)])) for _ in range(n // 4))


def image(R, ram, impl, cso, secs, gap=0, tail=b'', comp_end=0):
    """A code file as a game has it. secs: (ram, data, bss)."""
    b = bytearray(impl)
    dat = len(b)
    for _, d, _ in secs: b += d + bytes(-len(d) % 4)
    b += plain(R, gap)
    t = len(b)
    for a, d, bss in secs: b += struct.pack('<3I', a, len(d), bss)
    end = len(b)
    b += tail
    struct.pack_into('<3I', b, cso, ram + t, ram + end, ram + dat)
    struct.pack_into('<I', b, cso + 0x14, comp_end)
    return bytes(b)


def run(ctx):
    from ndspy import code, rom
    R = ctx.rng

    class H:
        def __init__(self, name):
            self.ev = ctx.trace(name)['ev']

        def load(self, raw, data, ram, ptr):
            how = R.randrange(4)
            def go():
                if how > 1: return code.MainCodeFile(raw, ram, ptr) if ptr or how == 3 else code.MainCodeFile(raw, ram)
                r = rom.NintendoDSRom()
                if how:
                    r.arm9, r.arm9RamAddress, r.arm9CodeSettingsPointerAddress = raw, ram, ptr
                    r.arm7, r.arm7RamAddress, r.arm7CodeSettingsPointerAddress = b'\1' * 40, 4096, 0
                    return r.loadArm9()
                r.arm7, r.arm7RamAddress, r.arm7CodeSettingsPointerAddress = raw, ram, ptr
                r.arm9, r.arm9RamAddress, r.arm9CodeSettingsPointerAddress = b'\1' * 40, 4096, 0
                return r.loadArm7()
            exc, m = ctx.call(go)
            x, o = (exc, None) if exc else ctx.call(lambda: observe(m))
            self.ev.append({'op': 'load', 'exc': x, 'data': list(data), 'ram': ram, 'ptr': ptr, 'obj': {} if x else o})
            self.m = None if x else m
            return not x

        def save(self):
            exc, r = ctx.call(lambda: bts(self.m.save()))
            self.ev.append({'op': 'save', 'exc': exc, 'out': [] if exc else r})
            return None if exc else bytes(r)

        def reload(self, raw, img, ptr, stored=False):
            ram = self.m.ramAddress
            exc, m = ctx.call(lambda: code.MainCodeFile(raw, ram, ptr))
            x, o = (exc, None) if exc else ctx.call(lambda: observe(m))
            self.ev.append({'op': 'reload', 'exc': x, 'img': list(img), 'stored': stored, 'obj': {} if x else o})
            if not x: self.m = m

        def csave(self, img, ptr):
            exc, r = ctx.call(lambda: bts(self.m.save(compress=True)))
            self.ev.append({'op': 'csave', 'exc': exc, 'out': [] if exc else r})
            if exc: return
            out = bytes(r)
            # what must be inside: the uncompressed image with the end pointer set
            exp = bytearray(img)
            if self.m.codeSettingsOffs is not None:
                struct.pack_into('<I', exp, self.m.codeSettingsOffs + 0x14, self.m.ramAddress + len(out))
            t = ctx.trace('compressed-form'); t['module'] = 'LzTrace'
            t['ev'].append({'op': 'ccompress', 'data': list(exp), 'arm9': True, 'exc': '', 'out': r})
            self.reload(out, exp, ptr, stored=True)

    def edit(h, want):
        def f():
            h.m.sections = [code.MainCodeFile.Section(bytes(s['data']), s['ram'], int.from_bytes(bytes(s['bss']), 'little'), implicit=s['implicit'])
                            for s in want['secs']]
            h.m.ramAddress = want['ram']; h.m.codeSettingsOffs = want['cso'][0] if want['cso'] else None
        exc, _ = ctx.call(f)
        h.ev.append({'op': 'assign', 'exc': exc, 'want': want})

    for c in ctx.cases('MCCode', ctx.scale('MCCode.cfg', 'MCCodeT.cfg')):
        h = H('tlc-sections')
        if not h.load(b'\1\2\3\4', b'\1\2\3\4', c['ram'], 0): continue
        edit(h, c)
        d = h.save()
        if d:
            h.reload(d, d, 0)
            if R.random() < .2: h.csave(h.save(), 0)

    for i in range(ctx.scale(110, 700)):
        ram = R.choice([0x2000000, 0x2004000, 0x2380000, 0x37F8000])
        n = 4 * R.randrange(14, 60)
        style = R.choice(['pointer', 'pointer', 'magic', 'table', 'none'])
        impl = bytearray(plain(R, n))
        cso = 4 * R.randrange(2, n // 4 - 10)
        if style == 'pointer' and R.random() < .35: cso = 0
        if style == 'magic' and R.random() < .15:        # deep inside the file
            n = R.choice([0x1040, 0x4040, 0x8000, 0x8004]); impl = bytearray(plain(R, n)); cso = R.choice([n - 0x40, n - 0x24])
        if style == 'pointer' and R.random() < .6 or style == 'magic': impl[cso + 0x1C:cso + 0x24] = MAGIC
        ptr = 0
        if style == 'pointer':
            po = R.choice([0, 4, n - 4]) if R.random() < .5 else 4 * R.randrange(0, n // 4)
            if cso <= po < cso + 0x24: po = 0 if cso else 0x24
            struct.pack_into('<I', impl, po, ram + cso); ptr = ram + po + 4
        secs = [(R.choice([0x1FF8000, 0x27E0000, 0x1000]), plain(R, 4 * R.randrange(1, 12)) + R.choice([b'', b'', b'x', b'xyz']), R.choice([0, 4, 0x60, 2**32 - 4])) for _ in range(R.choice([0, 1, 2, 3] if style != 'table' else [0, 1, 2, 14, 16, 20]))]
        for _ in range(R.choice([0, 0, 1])): secs.append((0x2400000, b'', R.choice([0, 0x20])))
        if style == 'none':
            img = bytes(impl)
        else:
            img = image(R, ram, impl, cso, secs, R.choice([0, 0, 8]) if style != 'table' else 0,
                        plain(R, R.choice([0, 0, 4, 12])) if style != 'table' else b'', R.choice([0, ram + 0x1234]))
            if style == 'table' and R.random() < .4:     # the table's end, but not its start, just before the settings
                b = bytearray(img); struct.pack_into('<I', b, cso - 4, ram + len(b)); img = bytes(b)
        # bad pointers must fall back to the search
        if style == 'magic': ptr = R.choice([0, 0, ram + 4, ram - 64, ram + 10**6, 3])
        raw = data = img
        if R.random() < .35:
            app = R.choice([b'', b'', R.randbytes(12)])
            c = lzgen.code_file(img, R.choice([0, cso + 0x24 if cso + 0x24 < len(img) else 0, 8]), app)
            if c is not None: raw, data = c, img + app
        h = H('game-file-' + style)
        if not h.load(raw, data, ram, ptr): continue
        if R.random() < .5:
            want = copy.deepcopy(h.ev[-1]['obj'])
            k = R.choice(['data', 'grow', 'drop', 'add', 'bss'])
            if k == 'data' and len(want['secs']) > 1 and want['secs'][1]['data']: want['secs'][1]['data'][0] ^= 255
            elif k == 'grow': R.choice(want['secs'])['data'] += [1, 2, 3, 4][:R.randrange(1, 5)]
            elif k == 'drop' and len(want['secs']) > 1: want['secs'].pop(1)
            elif k == 'add' and want['cso']: want['secs'].insert(1, {'data': list(plain(R, R.choice([0, 8])) + R.choice([b'', b'a', b'abc'])), 'ram': 0x1FF0000, 'bss': [8, 0, 0, 0], 'implicit': False})
            elif k == 'bss' and len(want['secs']) > 1: want['secs'][-1]['bss'] = [0, 1, 0, 0]
            edit(h, want)
        d = h.save()
        if d is None: continue
        keepptr = ptr if style == 'pointer' else 0
        if style in ('pointer', 'magic'):
            h.reload(d, d, keepptr)
            d2 = h.save()
            if d2 and cso + 0x24 <= 0x4000:              # a compressed file has its settings in the protected area
                h.csave(d2, keepptr)
                if R.random() < .5: d3 = h.save()        # no longer compressed
    # large files: the protected area ends inside the file
    for i in range(ctx.scale(2, 12)):
        ram = 0x2000000
        impl = bytearray(plain(R, 0x4000 + 4 * R.randrange(0, 40))); cso = 4 * R.randrange(2, 0xFE0)
        impl[cso + 0x1C:cso + 0x24] = MAGIC
        img = image(R, ram, impl, cso, [(0x1FF8000, plain(R, 400), 4), (0x27E0000, bytes(200), 8)])
        h = H('large-file')
        if not h.load(img, img, ram, 0): continue
        d = h.save()
        if d: h.reload(d, d, 0); h.csave(d, 0); h.save()
    # settings as far inside as they are looked for
    impl = bytearray(plain(R, 0x8004)); impl[0x7FFC:] = MAGIC
    img = image(R, 0x2000000, impl, 0x7FE0, [(0x1FF8000, plain(R, 40), 4)], tail=plain(R, 4))
    h = H('far-settings')
    if h.load(img, img, 0x2000000, 0):
        d = h.save()
        if d: h.reload(d, d, 0)
    # no settings block
    for n in (4, 8, 64, 100):
        b = plain(R, n)
        h = H('plain-file')
        if h.load(b, b, 0x2000000, 0):
            d = h.save()
            if d: h.reload(d, d, 0); h.csave(d, 0)
    large.run(ctx, large.MainCode)
