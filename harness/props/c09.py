import copy, struct
from props import bmglib
from props.bmglib import H, rand_file, rand_part, rand_text, foreign
from props import large
TRACE = 'BmgTrace'
FOCUS = 'msg'


def cycle(h, canon=False):
    d = h.save(canon)
    if d is None: return None
    if not h.load(d, 'reload'): return None
    return d


def run(ctx):
    from ndspy import bmg
    R = ctx.rng
    mk = lambda name: H(ctx, bmg, name, FOCUS)
    cases = ctx.cases('MCBmg', ctx.scale('MCBmg.cfg', 'MCBmgT.cfg'))
    if len(cases) > 1500: cases = R.sample(cases, 1500)
    for c in cases:
        h = mk('tlc-file')
        if h.assign(c['f']): cycle(h)
        if c['ok']:
            h = mk('tlc-canonical')
            if h.load(bytes(c['data'])): h.save(canon=True)
    for i in range(ctx.scale(200, 1500)):
        f = rand_file(R, True, R.random() < .2)
        h = mk('generated')
        if R.random() < .5:
            if not h.assign(f): continue
        else:
            try: data = foreign(R, f)
            except UnicodeEncodeError: continue
            if not h.load(data): continue
            f = copy.deepcopy(h.ev[-1]['obj'])
        h.fullenc()
        for _ in range(R.choice([1, 1, 2, 3])):
            d = cycle(h)
            if d is None: break
            if R.random() < .3:
                h2 = mk('resave')     # what the library wrote is canonical
                if h2.load(d): h2.save(prev=None if f['insts'][-1:] == [[0] * 8] or f['labels'][-1:] == [[0, 0]] else d)
            f = copy.deepcopy(h.ev[-1]['obj'])
            k = R.randrange(7)
            if k == 0 and f['msgs']: f['msgs'].pop(R.randrange(len(f['msgs'])))
            elif k == 1 and f['msgs']: f['msgs'].insert(R.randrange(len(f['msgs']) + 1), {'info': f['msgs'][0]['info'], 'null': R.random() < .3, 'parts': [rand_part(R, f['enc'])]})
            elif k == 2: f['end'] = '<' if f['end'] == '>' else '>'
            elif k == 3: f['enc'] = R.choice(['utf-8', 'utf-16'])
            elif k == 4 and f['msgs']: R.choice(f['msgs'])['parts'] = [rand_part(R, f['enc']) for _ in range(3)]
            elif k == 5: f['id'] = list(R.randbytes(4)); f['unk'][1] = list(R.randbytes(4))
            elif k == 6 and f['msgs']:
                m = R.choice(f['msgs']); m['null'] = not m['null']
            if not h.assign(f): break
    # files that cannot be stored
    for i in range(ctx.scale(60, 300)):
        f = rand_file(R, True, False)
        f['msgs'] = f['msgs'] or [{'info': [1], 'null': False, 'parts': []}]
        for m in f['msgs']: m['null'] = False
        m = R.choice(f['msgs']); k = R.randrange(6)
        if k == 0:
            f['msgs'].append({'info': m['info'] + [1], 'null': R.random() < .5, 'parts': []})
        elif k == 1: m['parts'].insert(R.randrange(len(m['parts']) + 1), {'esc': False, 'type': 0, 'data': [], 'text': R.choice([[65, 0], [26], [0], [66, 26, 67]])})
        elif k == 2: m['parts'].append({'esc': True, 'type': 1, 'data': [0] * R.choice([251, 252, 253, 254, 255, 300]), 'text': []})
        elif k == 3: f['enc'] = 'cp1252'; m['parts'].append({'esc': False, 'type': 0, 'data': [], 'text': [R.choice([0x3042, 0x81, 0x100])]})
        elif k == 4: m['parts'].append({'esc': True, 'type': R.choice([-1, 256]), 'data': [], 'text': []})
        elif k == 5: f['enc'] = R.choice(['latin-9', 'ascii', 'utf-32'])
        h = mk('unstorable')
        if h.assign(f): cycle(h)
    # lengths whose bytes read alike in both byte orders
    for n, end in [(0x10000, '<'), (0x10100, '<'), (0x10000, '>'), (0x10100, '>')] + ([(0x20000, '<'), (0x20200, '>')] if ctx.thorough else []):
        f = copy.deepcopy(bmglib.EMPTY); f['enc'], f['end'] = 'utf-8', end
        left = n - 0x20 - (16 + 4 * 512 + 16) - 9 - R.randrange(30)
        f['msgs'] = []
        for j in range(512):
            k = left // (512 - j); left -= k
            f['msgs'].append({'info': [], 'null': False, 'parts': [{'esc': False, 'type': 0, 'data': [], 'text': [65 + j % 26] * (k - 1)}]})
        h = mk('length-%x' % n)
        if h.assign(f): cycle(h)
    # whatever bytes the text section holds
    cases = ctx.cases('MCBmgScan', ctx.scale('MCBmgScan.cfg', 'MCBmgScanT.cfg'))
    if len(cases) > 12000: cases = R.sample(cases, 12000)
    for _ in range(ctx.scale(300, 3000)):
        d = [0] + [R.choice([0, 1, 2, 3, 4, 5, 6, 7, 26, 26, 26, 65, 66]) for _ in range(R.randrange(1, 40))]
        cases.append({'d': d, 'w': R.choice([1, 2]), 'start': R.randrange(1, len(d) + 2)})
    for n, c in enumerate(cases):
        if n % 40 == 0: E = ctx.trace('text section'); E['module'] = 'BmgScanTrace'
        enc = R.choice([1, 3, 4]) if c['w'] == 1 else 2
        inf = struct.pack('<HHII', 1, 4, 0, c['start'])
        body = b'INF1' + struct.pack('<I', 8 + len(inf)) + inf + b'DAT1' + struct.pack('<I', 8 + len(c['d'])) + bytes(c['d'])
        data = b'MESGbmg1' + struct.pack('<IIBxxxIII', 32 + len(body), 2, enc, 0, 0, 0) + body
        exc, o = ctx.call(bmg.BMG, data, limit=5)
        E['ev'].append({'op': 'scan', **c, 'exc': exc, 'parts': [] if exc else bmglib.observe(o)['msgs'][0]['parts']})
    large.run(ctx, large.Bmg, large.BmgInfo)
