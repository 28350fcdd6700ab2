"""ROM objects for the drivers."""
import struct
from vf import bts, num, big, IllTyped
from props import fntlib

H8 = ['unitCode', 'encryptionSeedSelect', 'deviceCapacity', 'pad015', 'pad016', 'pad017', 'pad018', 'pad019',
      'pad01A', 'pad01B', 'pad01C', 'region', 'version', 'autostart']
W32 = {'arm9Entry': 'arm9EntryAddress', 'arm9Ram': 'arm9RamAddress', 'arm7Entry': 'arm7EntryAddress', 'arm7Ram': 'arm7RamAddress',
       'normalCard': 'normalCardControlRegisterSettings', 'secureCard': 'secureCardControlRegisterSettings',
       'arm9Set': 'arm9CodeSettingsPointerAddress', 'arm7Set': 'arm7CodeSettingsPointerAddress', 'debugAddr': 'debugRomAddress'}
W16 = {'secCrc': 'secureAreaChecksum', 'secDelay': 'secureTransferDelay'}
RAW = {'name': 'name', 'idCode': 'idCode', 'devCode': 'developerCode', 'secDis': 'secureAreaDisable', 'pad088': 'pad088',
       'logo': 'nintendoLogo', 'pad16C': 'pad16C', 'pad200': 'pad200', 'rsa': 'rsaSignature', 'arm9': 'arm9', 'post': 'arm9PostData',
       'arm7': 'arm7', 'ovt9': 'arm9OverlayTable', 'ovt7': 'arm7OverlayTable', 'banner': 'iconBanner', 'debug': 'debugRom'}
BANNERS = {1: 0x840, 2: 0x940, 3: 0x1240, 0x103: 0x23C0}


def observe(o):
    r = {'h8': [num(getattr(o, n)) for n in H8]}
    for k, n in W32.items():
        v = getattr(o, n)
        if not isinstance(v, int) or not 0 <= v < 2**32: raise IllTyped(n)
        r[k] = big(v)
    for k, n in W16.items(): r[k] = num(getattr(o, n))
    for k, n in RAW.items(): r[k] = bts(getattr(o, n))
    r['names'] = fntlib.tree(o.filenames)
    r['files'] = [bts(f) for f in o.files]
    r['order'] = [num(i) for i in o.sortedFileIds]
    return r


def build(rom, fnt, r):
    o = rom.NintendoDSRom()
    assign(o, fnt, r)
    return o


def assign(o, fnt, r):
    for n, v in zip(H8, r['h8']): setattr(o, n, v)
    for k, n in W32.items(): setattr(o, n, int.from_bytes(bytes(r[k]), 'little'))
    for k, n in W16.items(): setattr(o, n, r[k])
    for k, n in RAW.items(): setattr(o, n, bytes(r[k]))
    o.filenames = fntlib.build(fnt, r['names'])
    o.files = [bytes(f) for f in r['files']]
    o.sortedFileIds = list(r['order'])


def overlay_table(R, ids, base=0):
    return b''.join(struct.pack('<8I', base + i, R.randrange(2**32), R.randrange(2**20), R.randrange(2**16), R.randrange(2**32),
                                R.randrange(2**32), f, R.randrange(2**24) | R.choice([0, 1, 2]) << 24) for i, f in enumerate(ids))


def rand_rom(R, sizes=None):
    """A storable ROM. `sizes` is a case of MCRom."""
    c = sizes or {'arm9': R.choice([0, 1, 100, 0x1F4, 0x200, 0x201]), 'nov9': R.choice([0, 0, 1, 2, 3]), 'arm7': R.choice([0, 7, 0x200, 0x3FF]),
                  'nov7': R.choice([0, 0, 1, 2, 3]), 'banner': R.choice([0, 1, 1, 2]), 'debug': R.choice([0, 0, 5, 0x200]),
                  'f': [R.choice([0, 0, 1, 3, 40, 0x1FF, 0x200, 0x201]) for _ in range(R.choice([0, 1, 3, 5, 9]))], 'rsa': R.choice([0, 0x88, 0x88, 5])}
    nf = len(c['f'])
    ids = R.sample(range(nf), nf) if R.random() < .4 else list(range(nf))
    nov9 = min(c['nov9'], nf); nov7 = min(c['nov7'], nf - nov9)
    ov9, ov7 = ids[:nov9], ids[nov9:nov9 + nov7]
    files = [None] * nf
    for j, i in enumerate(ids): files[i] = list(R.randbytes(c['f'][j]))
    t = fntlib.rand_tree(R, R.choice([0, 2, 5, 8]), min(nov9 + nov7, nf))
    # names only for files that exist
    def prune(x, left):
        x['files'] = x['files'][:max(0, left)]; left -= len(x['files'])
        for d in x['dirs']: left = prune(d['sub'], left)
        return left
    prune(t, nf - t['first']); fntlib.number(t, t['first'])
    rest = [i for i in range(nf)]
    ver = R.choice([1, 1, 2, 3, 0x103]) if not sizes and R.random() < .4 else 1
    ver0 = R.choice([ver, ver, ver, 7]) if ver == 1 else ver
    banner = [] if not c['banner'] else list(struct.pack('<H', ver0) + R.randbytes(BANNERS[ver] - 2))
    post = []
    for _ in range(R.choice([0, 0, 1, 2, 3, 4, 7])): post += [0x21, 6, 0xC0, 0xDE] + list(R.randbytes(8))
    arm7 = R.randbytes(c['arm7'])
    pad = R.choice([0x3E00, 0x3E00, 0x3E00, 0, 0xE00, 0xE02, 0xE04, 0x100])
    return {'name': list(R.choice([b'', b'GAME', b'TWELVE CHARS', b'A B\0C', b'X' * 15])), 'idCode': list(R.choice([R.randbytes(4), b'AB\0\0', b'\0ABC'])), 'devCode': list(R.choice([R.randbytes(2), b'0\0'])),
            'h8': [R.choice([0, 255, R.randrange(256), R.randrange(256)]) for _ in range(14)], **{k: list(R.choice([bytes(4), b'\1\0\0\0', b'\xff' * 4] + 5 * [R.randbytes(4)])) for k in W32},
            **{k: R.choice([0, 1, 65535, R.randrange(65536), R.randrange(65536)]) for k in W16},
            'secDis': list(R.choice([R.randbytes(8), R.randbytes(3).ljust(8, b'\0'), R.randbytes(5).rjust(8, b'\0'), R.randbytes(3), R.randbytes(10)])), 'pad088': list(R.randbytes(0x38)), 'logo': list(R.randbytes(0x9C)), 'pad16C': list(R.randbytes(0x94)),
            'pad200': list(R.randbytes(64) + bytes(max(0, pad - 128)) + R.randbytes(64))[:pad], 'rsa': list(R.randbytes(c['rsa'])),
            'arm9': list(R.randbytes(c['arm9'])), 'post': post, 'arm7': list(arm7),
            'ovt9': list(overlay_table(R, ov9)), 'ovt7': list(overlay_table(R, ov7)), 'banner': banner, 'debug': list(R.randbytes(c['debug'])),
            'names': t, 'files': files, 'order': R.choice([[], rest, R.sample(rest, nf), R.sample(rest, nf // 2), rest + [nf, nf + 5]])}


def foreign(R, r, fnt_bytes, base=None):
    """An image holding r, laid out by other rules; everything may be before 0x4000, and before 0x1000 if it is small."""
    if base is None: base = R.choice([0x4000, 0x4000, 0x4000, 0x1004, 0x1200, 0x200])
    img = bytearray(base)
    img[0x200:0x200 + len(r['pad200'])] = bytes(r['pad200'])[:base - 0x200]
    pos = {}
    parts = [(k, bytes(r[k])) for k in ('arm7', 'ovt9', 'ovt7', 'banner', 'debug')] + [('fnt', fnt_bytes)]
    parts += [(('f', i), bytes(f)) for i, f in enumerate(r['files'])]
    R.shuffle(parts)
    parts.insert(R.randrange(len(parts) + 1), ('arm9', bytes(r['arm9']) + bytes(r['post'])))
    seen = {}
    for k, d in parts:
        if isinstance(k, tuple) and d in seen and R.random() < .5: pos[k] = seen[d]; continue
        img += bytes(R.choice([0, 0, 4, 12, -len(img) % 0x200]))
        pos[k] = len(img)
        if isinstance(k, tuple): seen[d] = pos[k]
        img += d
    img += bytes(4)
    pos['fat'] = len(img)
    for i, f in enumerate(r['files']): img += struct.pack('<II', pos['f', i], pos['f', i] + len(f))
    sigmode = R.randrange(3)
    sig = len(img)
    if sigmode < 2 and r['rsa']: img += bytes(r['rsa'])
    h = bytearray()
    h += bytes(r['name'])[:12].ljust(12, b'\0') + bytes(r['idCode']) + bytes(r['devCode']) + bytes(r['h8'])
    h += struct.pack('<I', pos['arm9']) + bytes(r['arm9Entry']) + bytes(r['arm9Ram']) + struct.pack('<I', len(r['arm9']))
    h += struct.pack('<I', pos['arm7']) + bytes(r['arm7Entry']) + bytes(r['arm7Ram']) + struct.pack('<I', len(r['arm7']))
    h += struct.pack('<8I', pos['fnt'], len(fnt_bytes), pos['fat'], 8 * len(r['files']), pos['ovt9'], len(r['ovt9']), pos['ovt7'], len(r['ovt7']))
    h += bytes(r['normalCard']) + bytes(r['secureCard']) + struct.pack('<I', pos['banner'] if r['banner'] else 0)
    h += struct.pack('<HH', r['secCrc'], r['secDelay']) + bytes(r['arm9Set']) + bytes(r['arm7Set']) + bytes(r['secDis'])[:8].ljust(8, b'\0')
    h += struct.pack('<II', sig if sigmode == 0 else len(img) if sigmode == 2 else R.choice([len(img), 0x300, 0x1100]), 0x4000) + bytes(r['pad088']) + bytes(r['logo']) + bytes(4)
    h += struct.pack('<II', pos['debug'] if r['debug'] else 0, len(r['debug'])) + bytes(r['debugAddr']) + bytes(r['pad16C'])
    assert len(h) == 0x200
    img[:0x200] = h
    if base > 0x1000: struct.pack_into('<I', img, 0x1000, sig if sigmode == 1 else 0)
    elif len(img) > 0x1000: return foreign(R, r, fnt_bytes, 0x4000)
    return bytes(img)


class H:
    def __init__(self, ctx, name, want=None, data=None, layout=False):
        from ndspy import rom, fnt
        self.ctx, self.rom, self.fnt, self.layout = ctx, rom, fnt, layout
        self.ev = ctx.trace(name)['ev']
        self.o = None
        if data is None:
            exc, o = ctx.call(lambda: build(rom, fnt, want))
            self.ev.append({'op': 'new', 'want': want, 'exc': exc})
        else:
            exc, o = ctx.call(lambda: rom.NintendoDSRom(data))
            self.obs('load', exc, o, {'data': list(data)})
            exc = self.ev[-1]['exc']
        self.ok = not exc
        if self.ok: self.o = o

    def obs(self, op, exc, o, extra):
        x, r = (exc, None) if exc else self.ctx.call(lambda: observe(o))
        self.ev.append({'op': op, 'exc': exc or x, 'obj': {} if x else r, **extra})

    def save(self):
        exc, r = self.ctx.call(lambda: bts(self.o.save()))
        self.ev.append({'op': 'save', 'exc': exc, 'out': [] if exc else r, 'check': self.layout})
        return None if exc else bytes(r)

    def reopen(self, d, resave=True):
        exc, o = self.ctx.call(lambda: self.rom.NintendoDSRom(d))
        self.obs('reopen', exc, o, {'check': not self.layout})
        if self.ev[-1]['exc']: return False
        self.o = o
        if resave:
            exc, r = self.ctx.call(lambda: bts(o.save()))
            self.ev.append({'op': 'resave', 'exc': exc, 'out': [] if exc else r})
        return True

    def get(self, path):
        exc, r = self.ctx.call(lambda: bts(self.o.getFileByName(''.join(map(chr, path)))))
        self.ev.append({'op': 'get', 'path': path, 'exc': exc, 'out': [] if exc else r})

    def set(self, path, d):
        exc, _ = self.ctx.call(lambda: self.o.setFileByName(''.join(map(chr, path)), bytes(d)))
        self.ev.append({'op': 'set', 'path': path, 'exc': exc, 'data': list(d)})

    def look(self):
        self.obs('obs', '', self.o, {})
