"""Driver side of the BMG checks: building and observing real BMG objects."""
import copy, struct
from vf import bts, num, big, boolean, text, IllTyped

KANA = [0x3042, 0x3093, 0x3041, 0x30A1, 0x30BF, 0x30E0, 0x30F4, 0xFF61, 0xFF9F, 0xFF21, 0xFF5A, 0xFF10, 0x4E9C, 0x5340, 0x8868, 0x3000, 0x65E5, 0x8A9E, 0x6587, 0x2606]
CHARS = {'cp1252': [0x20AC, 0xE9, 0xFF, 0xA0, 0x2019, 0x178, 0x161], 'shift-jis': KANA,
         'utf-8': [0x7FF, 0x800, 0x80, 0xFFFD, 0x1F600, 0x10FFFF, 0x1A00, 0x100, 0xFEFF] + KANA,
         'utf-16': [0x7FF, 0x1A00, 0x1A1A, 0x100, 0x2600, 0xFFFD, 0x1F600, 0x10FFFF, 0x1001A, 0xFEFF] + KANA}
EMPTY = {'end': '<', 'enc': 'utf-16', 'id': [0] * 4, 'unk': [[0] * 4] * 3, 'msgs': [], 'insts': [], 'labels': [], 'scripts': []}


def i_(b): return int.from_bytes(bytes(b), 'little')


def observe(o):
    def part(p):
        if isinstance(p, str): return {'esc': False, 'type': 0, 'data': [], 'text': text(p)}
        return {'esc': True, 'type': num(p.type), 'data': bts(p.data), 'text': []}
    if not isinstance(o.encoding, str) or o.endianness not in ('<', '>'): raise IllTyped('encoding/endianness')
    return {'end': o.endianness, 'enc': o.encoding, 'id': big(o.id), 'unk': [big(o.unk14), big(o.unk18), big(o.unk1C)],
            'msgs': [{'info': bts(m.info), 'null': boolean(m.isNull), 'parts': [part(p) for p in m.stringParts]} for m in o.messages],
            'insts': [bts(i) for i in o.instructions], 'labels': [[num(a), num(b)] for a, b in o.labels],
            'scripts': [[big(a), num(b)] for a, b in o.scripts]}


class Inst:
    def __init__(self, b): self.b = b
    def save(self): return self.b


def messages(bmg, R, want):
    out = []
    for m in want['msgs']:
        ps = [bmg.Message.Escape(p['type'], bytes(p['data'])) if p['esc'] else ''.join(map(chr, p['text'])) for p in m['parts']]
        if len(ps) == 1 and isinstance(ps[0], str) and R.random() < .5: ps = ps[0]
        out.append(bmg.Message(bytes(m['info']), ps, m['null']) if m['null'] or R.random() < .5 else bmg.Message(bytes(m['info']), ps))
    return out


def fill(bmg, R, o, want):
    o.messages = messages(bmg, R, want)
    o.instructions = [Inst(bytes(i)) if R.random() < .2 else bytes(i) for i in want['insts']]
    o.labels = [tuple(l) for l in want['labels']]
    o.scripts = [(i_(a), b) for a, b in want['scripts']]
    rest(o, want, R)


def rest(o, want, R=None):
    o.id = i_(want['id']); o.unk14, o.unk18, o.unk1C = map(i_, want['unk'])
    o.encoding, o.endianness = want['enc'], want['end']
    if R and R.random() < .2: o.encoding = R.choice([str.upper, str.title])(o.encoding)   # names are not case sensitive


class H:
    def __init__(self, ctx, bmg, name, focus):
        self.ctx, self.bmg, self.R, self.focus = ctx, bmg, ctx.rng, focus
        self.ev = ctx.trace(name)['ev']

    def put(self, e, exc, o=None):
        if not exc and o is not None:
            exc, e['obj'] = self.ctx.call(lambda: observe(o))
        if exc: e['obj'] = EMPTY
        e['exc'] = exc; e['focus'] = self.focus
        self.ev.append(e)
        return not exc

    def assign(self, want):
        R = self.R
        def go():
            if getattr(self, 'o', None) is None or R.random() < .3:
                k = R.randrange(3)
                if k == 0: self.o = self.bmg.BMG()
                elif k == 1: self.o = self.bmg.BMG(id=i_(want['id']))
                else:
                    self.o = self.bmg.BMG.fromMessages(messages(self.bmg, R, want), [bytes(i) for i in want['insts']], [tuple(l) for l in want['labels']],
                                                       [(i_(a), b) for a, b in want['scripts']], id=i_(want['id']))
                    rest(self.o, want, R)
                    return
            fill(self.bmg, R, self.o, want)
        exc, _ = self.ctx.call(go)
        return self.put({'op': 'assign', 'want': copy.deepcopy(want)}, exc)

    def load(self, data, op='load'):
        exc, o = self.ctx.call(lambda: self.bmg.BMG(data) if self.R.random() < .7 else self.bmg.BMG(data, id=77))
        e = {'op': op, 'data': list(data)}
        ok = self.put(e, exc, o)
        if ok: self.o = o
        return ok

    def save(self, canon=False, prev=None):
        exc, r = self.ctx.call(lambda: bts(self.o.save()))
        self.put({'op': 'save', 'out': [] if exc else r, 'canon': canon, 'prev': [] if prev is None else [list(prev)]}, exc)
        return None if exc else bytes(r)

    def fullenc(self):
        exc, r = self.ctx.call(lambda: str(self.o.fullEncoding).lower())
        self.put({'op': 'fullenc', 'out': '' if exc else r}, exc)


def rand_text(R, enc, n):
    return [R.choice([65, 10, 32, 97, 0x7E, 1, 0x7F, 0x19, 0x1B]) if R.random() < .6 else R.choice(CHARS[enc]) for _ in range(n)]


def rand_part(R, enc):
    if R.random() < .35:
        return {'esc': True, 'type': R.choice([0, 1, 26, 254, 255, R.randrange(256)]), 'data': list(R.choice([b'', R.randbytes(R.randrange(1, 6)), bytes(R.randrange(1, 4)), b'\x1A\0\x1A', b'\0', R.randbytes(R.choice([1, 2, 40]))])), 'text': []}
    return {'esc': False, 'type': 0, 'data': [], 'text': rand_text(R, enc, R.choice([0, 1, 2, 5, 12]))}


def rand_file(R, msgs=True, scr=True):
    enc = R.choice(list(CHARS)); end = R.choice('<>')
    f = copy.deepcopy(EMPTY); f['enc'], f['end'] = enc, end
    f['id'] = list(R.choice([bytes(4), R.randbytes(4)])); f['unk'] = [list(R.choice([bytes(4), R.randbytes(4)])) for _ in range(3)]
    il = R.choice([0, 0, 1, 2, 4, 9, 300])
    if msgs:
        f['msgs'] = [{'info': list(R.randbytes(il)), 'null': R.random() < .15, 'parts': [rand_part(R, enc) for _ in range(R.choice([0, 1, 1, 2, 4]))]}
                     for _ in range(R.choice([0, 1, 2, 3, 6, 15]))]
    if scr:
        f['insts'] = [list(R.choice([bytes(8), R.randbytes(8), bytes(7) + b'\1'])) for _ in range(R.choice([0, 0, 1, 2, 3, 4, 7]))]
        f['labels'] = [R.choice([[0, 0], [R.choice([-1, 1, 9]), 0], [0, R.choice([-1, 1, 256])], [-1, -1], [127, 32767], [-128, -32768], [0, R.randrange(-9, 9)], [R.randrange(-128, 128), R.randrange(-32768, 32768)]])
                       for _ in range(R.choice([0, 0, 1, 2, 7, 8, 9, 16, 17]))]
        f['scripts'] = [[list(R.choice([bytes(4), R.randbytes(4), R.randbytes(4)])), R.choice([0, 1, 255, 256, 65535, R.randrange(65536)])] for _ in range(R.choice([0, 0, 1, 2, 5, 8]))]
    return f


def part_bytes(p, codec):
    if p['esc']:
        s = '\x1A'.encode(codec)
        return s + bytes([len(s) + 2 + len(p['data']), p['type']]) + bytes(p['data'])
    return ''.join(map(chr, p['text'])).encode(codec)


def foreign(R, f):
    """A valid file with another layout: other section order, shared strings, extra padding."""
    se = f['end']; codec = f['enc'] if f['enc'] != 'utf-16' else ('utf-16le' if se == '<' else 'utf-16be')
    nul = b'\0\0' if f['enc'] == 'utf-16' else b'\0'
    dat = bytearray(nul) + (R.randbytes(R.choice([0, 2, 4])) if R.random() < .3 else b''); seen = {}
    if len(dat) > len(nul): dat += b''
    offs = [None] * len(f['msgs'])
    for i in R.sample(range(len(offs)), len(offs)):
        m = f['msgs'][i]
        if m['null']: offs[i] = 0; continue
        b = b''.join(part_bytes(p, codec) for p in m['parts']) + nul
        if b not in seen or R.random() < .4: seen[b] = len(dat); dat += b
        offs[i] = seen[b]
    def sec(m, body):
        body += b'\0' * (-(len(body) + 8) % R.choice([32, 32, 4]))
        return m + struct.pack(se + 'I', len(body) + 8) + body
    il = 4 + (len(f['msgs'][0]['info']) if f['msgs'] else 0)
    secs = [sec(b'INF1', struct.pack(se + 'HH', len(offs), il) + (bytes(f['id']) if se == '<' else bytes(f['id'])[::-1])
                + b''.join(struct.pack(se + 'I', o) + bytes(m['info']) for o, m in zip(offs, f['msgs']))), sec(b'DAT1', bytes(dat))]
    if f['insts'] or f['labels']:
        il2 = f['insts'] + [[0] * 8] * R.choice([0, 1, 3]); ll = f['labels'] + [[0, 0]] * R.choice([0, 1, 8])
        secs.append(sec(b'FLW1', struct.pack(se + 'HHI', len(il2), len(ll), 0) + b''.join(map(bytes, il2)) + b''.join(struct.pack(se + 'h', x[1]) for x in ll)
                        + b''.join(struct.pack('b', x[0]) for x in ll)))
    if f['scripts']:
        secs.append(sec(b'FLI1', struct.pack(se + 'HHI', len(f['scripts']), 8, 0)
                        + b''.join((bytes(a) if se == '<' else bytes(a)[::-1]) + struct.pack(se + 'HH', b, 0) for a, b in f['scripts'])))
    R.shuffle(secs)
    body = b''.join(secs)
    o = lambda b: bytes(b) if se == '<' else bytes(b)[::-1]
    enc = ['cp1252', 'utf-16', 'shift-jis', 'utf-8'].index(f['enc']) + 1
    return b'MESGbmg1' + struct.pack(se + 'II', 32 + len(body), len(secs)) + bytes([enc]) + b''.join(map(o, f['unk'])) + bytes(3) + body
