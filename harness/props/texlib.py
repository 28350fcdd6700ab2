from vf import bts, num, boolean, text, big

FLAGS = dict(rs='repeatS', rt='repeatT', ms='mirrorS', mt='mirrorT', w='width', h='height', fmt='format', c0='isColor0Transparent', ctm='coordsTransformationMode')
FILEV = ['08', '10', '18', '20', '2C', '32']
BPP = {0: 0, 1: 8, 2: 2, 3: 4, 4: 8, 5: 2, 6: 8, 7: 16}


def flag(x): return boolean(x) if isinstance(x, bool) else num(int(x))


def o_tex(name, t):
    return {'name': text(name), 'u0': num(t.unk00), 'u2': num(t.unk02), 'u4': big(t.unk04), 'd1': bts(bytes(t.data1)), 'd2': bts(bytes(t.data2)),
            **{k: flag(getattr(t, a)) for k, a in FLAGS.items()}}


def o_pal(name, p):
    return {'name': text(name), 'u0': num(p.unk00), 'u2': num(p.unk02), 'uh': num(p.unkHeader02), 'cols': [[num(x) for x in c] for c in p.colors]}


def o_block(f, pre):
    r = {'u' + k: big(getattr(f, pre + k)) for k in FILEV[:-1]}
    r['u32'] = num(getattr(f, pre + '32'))
    r['texs'] = [o_tex(n, t) for n, t in f.textures]
    r['pals'] = [o_pal(n, p) for n, p in f.palettes]
    return r


def o_file(f):
    import ndspy.model
    if isinstance(f, ndspy.model.NSBMD): return {'tex': o_block(f, 'texUnk'), 'models': [text(m[0]) for m in f.models]}
    return {'tex': o_block(f, 'unk'), 'models': []}


def size1(t): return t['w'] * t['h'] * BPP[t['fmt']] // 8
def size2(t): return t['w'] * t['h'] // 8 if t['fmt'] == 5 else 0


class Gen:
    def __init__(self, R): self.R = R
    def name(self): R = self.R; return [R.choice([R.randrange(33, 127), R.randrange(1, 256)]) for _ in range(R.choice([0, 1, 5, 15, 16]))]
    def u16(self): return self.R.choice([0, 1, 65535, self.R.randrange(65536)])
    def u32(self): return big(self.R.choice([0, 1, 2**31, 2**32 - 1, self.R.randrange(2**32)]))
    def tex(self, small=False):
        R = self.R
        t = {'name': self.name(), 'u0': self.u16(), 'u2': self.u16(), 'u4': self.u32(), **{k: R.random() < .5 for k in ('rs', 'rt', 'ms', 'mt', 'c0')},
             'w': 8, 'h': 8, 'fmt': R.choice([0, 1, 2, 3, 4, 5, 5, 5, 6, 7]), 'ctm': R.randrange(4)}
        k = R.randrange(5)
        if not small:
            if k == 0: t['w'] = 8 << R.randrange(8)
            if k == 1: t['h'] = 8 << R.randrange(8)
            if k == 2: t['w'] = 16; t['h'] = R.choice([16, 32])
        while size1(t) > 3000: t['fmt'] = R.choice([2, 5, 0])
        t['d1'] = list(R.randbytes(size1(t))); t['d2'] = list(R.randbytes(size2(t)))
        return t
    def color(self): R = self.R; return [R.randrange(32), R.randrange(32), R.randrange(32), R.randrange(2)]
    def pal(self):
        R = self.R
        return {'name': self.name(), 'u0': self.u16(), 'u2': self.u16(), 'uh': self.u16(), 'cols': [self.color() for _ in range(R.choice([4, 4, 8, 12, 16, 32, 256]))]}
    def block(self):
        R = self.R
        f = {'u' + k: self.u32() for k in FILEV[:-1]}; f['u32'] = self.u16()
        f['texs'] = [self.tex() for _ in range(R.choice([0, 1, 2, 3, 5]))]
        f['pals'] = [self.pal() for _ in range(R.choice([0, 1, 2, 3, 5]))]
        if len(f['pals']) > 1 and R.random() < .4:  # same name and values, other colors
            p = dict(f['pals'][0]); p['cols'] = [self.color() for _ in range(R.choice([4, 8]))]; f['pals'].append(p)
        if len(f['pals']) > 1 and R.random() < .3: f['pals'].append(dict(f['pals'][0]))
        if len(f['texs']) > 1 and R.random() < .3: f['texs'].append(dict(f['texs'][0]))
        return f

    # building objects
    def m_tex(self, t):
        from ndspy import texture as T
        R = self.R
        if R.random() < .4:
            x = T.Texture(t['u0'], t['u2'], R.choice([0, 0xFFFF, 0x1C00]), int.from_bytes(bytes(t['u4']), 'little'), b'', b'')
            for k, a in FLAGS.items(): setattr(x, a, self.enum(k, t[k]))
            if R.random() < .3: x.width = 8; x.height = 8; x.size = (t['w'], t['h'])
            x.data1 = bytes(t['d1']); x.data2 = bytes(t['d2'])
            return x
        return T.Texture.fromFlags(t['u0'], t['u2'], t['rs'], t['rt'], t['ms'], t['mt'], t['w'], t['h'], self.enum('fmt', t['fmt']), t['c0'],
                                   self.enum('ctm', t['ctm']), int.from_bytes(bytes(t['u4']), 'little'), bytes(t['d1']), bytes(t['d2']))

    def enum(self, k, v):
        from ndspy import texture as T
        return T.TextureFormat(v) if k == 'fmt' else T.TextureCoordinatesTransformationMode(v) if k == 'ctm' else v

    def m_pal(self, p):
        from ndspy import texture as T
        cols = [tuple(c) for c in p['cols']]
        if self.R.random() < .5: return T.Palette.fromColors(p['u0'], p['u2'], p['uh'], cols)
        x = T.Palette(p['u0'], p['u2'], p['uh'], b'')
        x.colors = cols
        return x

    def s(self, name): return ''.join(map(chr, name))

    def put(self, f, b, edit):
        """Make the file object hold block b: replacing lists or editing them in place."""
        import ndspy.model
        pre = 'texUnk' if isinstance(f, ndspy.model.NSBMD) else 'unk'
        for k in FILEV: setattr(f, pre + k, b['u' + k] if k == '32' else int.from_bytes(bytes(b['u' + k]), 'little'))
        ts = [(self.s(t['name']), self.m_tex(t)) for t in b['texs']]; ps = [(self.s(p['name']), self.m_pal(p)) for p in b['pals']]
        if edit: f.textures[:] = ts; f.palettes[:] = ps
        else: f.textures = ts; f.palettes = ps

    def m_btx(self, b):
        from ndspy import texture as T
        if self.R.random() < .5:
            v = [b['u' + k] if k == '32' else int.from_bytes(bytes(b['u' + k]), 'little') for k in FILEV]
            return T.NSBTX.fromTexturesAndPalettes(*v, [(self.s(t['name']), self.m_tex(t)) for t in b['texs']], [(self.s(p['name']), self.m_pal(p)) for p in b['pals']])
        f = T.NSBTX(); self.put(f, b, True)
        return f
