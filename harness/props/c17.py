import copy, os
from vf import bts, num, opt, IllTyped
from props import large
TRACE = 'SbnkTrace'
NO = {'insts': [], 'inacc': [], 'unk': 0, 'wars': []}
P6 = ['pitch', 'attack', 'decay', 'sustain', 'release', 'pan']


def note(R, small=False):
    return {'w': R.choice([0, 1, 6, R.randrange(2000) if small else R.randrange(65536)]), 'ar': R.choice([0, 3, R.randrange(4 if small else 65536)]),
            'p': [60 if small else R.choice([0, 60, 127, R.randrange(256)])] + [R.choice([0, 1, 255, R.randrange(256), R.randrange(256), R.randrange(256)]) for _ in range(5)], 'type': 1 if small else R.choice([1, 1, 2, 3, R.randrange(1, 16)])}


def inst(R):
    k = R.choice([1, 1, 1, 16, 17])
    x = {'k': k, 'first': 0, 'ends': [], 'notes': [note(R)], 'key': R.choice([0, 0, R.randrange(-5, 6), R.randrange(1000)]), 'merge': R.choice([0, 0, 0, R.randrange(4)])}
    if k == 16:
        n = R.choice([0, 1, 2, 3, 12, 40]); x['first'] = R.choice([1, 35, 60, R.randrange(1, 200)]); x['notes'] = [note(R) for _ in range(n)]
        for m in x['notes']: m['type'] = R.choice([m['type'], 0, 5, 65535])
    if k == 17:
        n = R.choice([1, 2, 3, 7, 8]); x['ends'] = sorted(R.sample(range(0, 128), n)); x['notes'] = [note(R) for _ in range(n)]
        if R.random() < .5: x['ends'][-1] = 127
        elif R.random() < .2: x['ends'] = [R.randrange(1, 256) for _ in range(n)]     # in any order
    return x


def bank(R):
    n = R.choice([0, 1, 2, 3, 5, 9])
    s = []
    for _ in range(n):
        r = R.random()
        if r < .2: s.append([])
        elif r < .4 and any(s): s.append(copy.deepcopy(R.choice([x for x in s if x])))
        else: s.append([inst(R)])
    return {'insts': s, 'inacc': [], 'unk': R.choice([0, 1, 65535, R.randrange(65536), R.randrange(65536)]), 'wars': rwars(R)}


def rwars(R): return [R.choice([[], [0], [R.randrange(65536)]]) for _ in range(R.choice([0, 1, 4]))]


def run(ctx):
    from ndspy import soundBank as B
    R = ctx.rng

    def o_note(n):
        if num(n.dutyCycle + 0) != num(n.waveID + 0): raise IllTyped('dutyCycle differs from waveID')
        return {'w': num(n.waveID), 'ar': num(n.waveArchiveIDID), 'p': [num(getattr(n, p)) for p in P6], 'type': num(int(n.type))}

    def o_inst(x):
        r = {'k': 1, 'first': 0, 'ends': [], 'notes': [], 'key': num(x.bankOrderKey), 'merge': num(x.dataMergeOptimizationID)}
        if type(x) is B.SingleNoteInstrument:
            r['notes'] = [o_note(x.noteDefinition)]
            if num(x.type) != int(x.noteDefinition.type): raise IllTyped('instrument type differs from its note')
        elif type(x) is B.RangeInstrument: r['k'] = num(x.type); r['first'] = num(x.firstPitch); r['notes'] = [o_note(n) for n in x.noteDefinitions]
        elif type(x) is B.RegionalInstrument: r['k'] = num(x.type); r['ends'] = [num(g.lastPitch) for g in x.regions]; r['notes'] = [o_note(g.noteDefinition) for g in x.regions]
        else: raise IllTyped(f'instrument {type(x).__name__}')
        return r

    def observe(o):
        ks = sorted(o.inaccessibleInstruments, key=lambda k: -1 if k is None else k)
        return {'insts': [opt(x, o_inst) for x in o.instruments], 'unk': num(o.unk02), 'wars': [opt(x, num) for x in o.waveArchiveIDs],
                'inacc': [{'after': opt(k, num), 'insts': [o_inst(x) for x in o.inaccessibleInstruments[k]]} for k in ks]}

    def m_note(n):
        if R.random() < .5: return B.NoteDefinition(n['w'], n['ar'], *n['p'], n['type'])
        d = B.NoteDefinition(); d.dutyCycle = n['w']; d.waveArchiveIDID = n['ar']; d.type = n['type']
        for p, v in zip(P6, n['p']): setattr(d, p, v)
        return d

    def m_inst(x):
        ns = [m_note(n) for n in x['notes']]
        if x['k'] == 1: i = B.SingleNoteInstrument(ns[0])
        elif x['k'] == 16: i = B.RangeInstrument(x['first'], ns)
        else: i = B.RegionalInstrument([B.RegionalInstrument.Region(e, n) for e, n in zip(x['ends'], ns)])
        if x['key'] or R.random() < .5: i.bankOrderKey = x['key']
        if x['merge'] or R.random() < .5: i.dataMergeOptimizationID = x['merge']
        return i

    class H:
        def __init__(self, name): self.ev = ctx.trace(name)['ev']; self.o = None

        def put(self, e, exc):
            x, v = (exc, NO) if exc else ctx.call(observe, self.o)
            e['exc'] = x; e['obj'] = NO if x else v
            self.ev.append(e)
            return not x

        def load(self, data, sure=False):
            unk = R.choice([0, R.randrange(65536)]); wars = rwars(R)
            pw = [w[0] if w else None for w in wars]
            def go():
                if R.random() < .25:
                    p = os.path.join(ctx.scratch, 'b.sbnk')
                    with open(p, 'wb') as f: f.write(data)
                    return B.SBNK.fromFile(p, unk, pw)
                if not unk and not wars: return B.SBNK(data)
                return B.SBNK(R.choice([bytes, bytearray])(data), unk02=unk, waveArchiveIDs=pw)
            exc, o = ctx.call(go)
            if not exc: self.o = o
            return self.put({'op': 'load', 'data': list(data), 'unk': unk, 'wars': wars, 'sure': sure}, exc)

        def set(self, w):
            def go():
                pw = [x[0] if x else None for x in w['wars']]
                if self.o is None:
                    while pw and pw[-1] is None: pw.pop(); w['wars'].pop()
                    ins = [m_inst(x[0]) if x else None for x in w['insts']]
                    if R.random() < .5: self.o = B.SBNK.fromInstruments(ins, w['unk'], pw)
                    else: self.o = B.SBNK(None, w['unk'], waveArchiveIDs=pw); self.o.instruments = ins
                else:
                    old = [opt(x, o_inst) for x in self.o.instruments]
                    self.o.instruments = [self.o.instruments[i] if i < len(old) and old[i] == x else m_inst(x[0]) if x else None for i, x in enumerate(w['insts'])]
                    self.o.unk02 = w['unk']; self.o.waveArchiveIDs = pw
                self.o.inaccessibleInstruments = {(q['after'][0] if q['after'] else None): [m_inst(x) for x in q['insts']] for q in w['inacc']}
            exc, _ = ctx.call(go)
            return self.put({'op': 'set', 'want': copy.deepcopy(w)}, exc)

        def save(self, lax=False):
            def go():
                r = self.o.save(); return bts(bytes(r[0])), num(r[1]), [opt(x, num) for x in r[2]]
            exc, r = ctx.call(go)
            d, u, w = ([], 0, []) if exc else r
            self.put({'op': 'save', 'out': d, 'unk': u, 'wars': w, 'lax': lax}, exc)
            return None if exc else bytes(d)

    cases = ctx.cases('MCSbnk', ctx.scale('MCSbnk.cfg', 'MCSbnkT.cfg'))
    for c in R.sample(cases, min(len(cases), ctx.scale(1200, 12000))):
        h = H('tlc-bank')
        if not h.set(c): continue
        d = h.save()
        if d and h.load(d): h.save()
    for i in range(ctx.scale(500, 5000)):
        h = H('bank'); w = bank(R)
        if not h.set(w): continue
        for _ in range(R.choice([1, 2, 3])):
            d = h.save()
            if d is None: break
            if R.random() < .8 and not h.load(d): break
            w = copy.deepcopy(h.ev[-1]['obj'])
            k = R.randrange(6)
            if k == 0: w['insts'].insert(R.randrange(len(w['insts']) + 1), R.choice([[], [inst(R)]]))
            elif k == 1 and w['insts']: del w['insts'][R.randrange(len(w['insts']))]
            elif k == 2 and w['insts']: w['insts'][R.randrange(len(w['insts']))] = R.choice([[], [inst(R)]])
            elif k == 3: w['wars'] = rwars(R); w['unk'] = R.randrange(65536)
            elif k == 4:
                for x in w['insts']:
                    if x and x[0]['notes']: x[0]['notes'][-1] = note(R); break
            else: R.shuffle(w['insts'])
            w['inacc'] = []
            if not h.set(w): break
        else: h.save()
    # inaccessible instruments the reader cannot mistake
    for i in range(ctx.scale(150, 1500)):
        h = H('inaccessible'); w = bank(R)
        singles = [i for i, x in enumerate(w['insts']) if x and x[0]['k'] == 1]
        m = 1000
        for j, x in enumerate(w['insts']):
            if x: x[0]['merge'] = j; x[0]['key'] = R.randrange(9)
        q = []
        if singles:
            for a in R.sample([None] + singles, R.randrange(1, len(singles) + 2)):
                l = []
                for _ in range(R.choice([1, 1, 2, 3])):
                    m += 1; n = note(R, True)
                    l.append({'k': 1, 'first': 0, 'ends': [], 'notes': [n], 'key': 0, 'merge': m})
                q.append({'after': [] if a is None else [a], 'insts': l})
        w['inacc'] = sorted(q, key=lambda e: e['after'] or [-1])
        # data order decides which instrument follows: the next one must be a single note as well
        if not h.set(w): continue
        d = h.save()
        if d is None: continue
        if h.load(d, sure=bool(singles)): h.save()
    # inaccessible instruments of every kind, after any slot, also after empty and missing ones: nothing is dropped on save
    for i in range(ctx.scale(120, 1200)):
        h = H('inaccessible-any'); w = bank(R); n = len(w['insts'])
        w['inacc'] = [{'after': a, 'insts': [inst(R) for _ in range(R.choice([1, 1, 2]))]} for a in [[]] + [[j] for j in range(n + 3)] if R.random() < .4]
        if h.set(w):
            d = h.save()
            if d and h.load(d): h.save()
    # the last data in the file belongs to an inaccessible instrument and ends with zeros; slots sharing data
    for i in range(ctx.scale(60, 600)):
        h = H('inaccessible-end'); n = R.choice([1, 2, 3, 5])
        w = {'insts': [[{'k': 1, 'first': 0, 'ends': [], 'notes': [note(R)], 'key': j, 'merge': j}] for j in range(n)], 'inacc': [], 'unk': 0, 'wars': []}
        l = []
        for j in range(R.choice([1, 2, 3])):
            x = note(R, True); z = R.choice([0, 1, 2, 3, 5])
            if z: x['p'][-z:] = [0] * z
            l.append({'k': 1, 'first': 0, 'ends': [], 'notes': [x], 'key': 0, 'merge': 1000 + j})
        a = n - 1
        if R.random() < .4: w['insts'].append(copy.deepcopy(w['insts'][a]))
        if R.random() < .3: w['insts'].append([])
        w['inacc'] = [{'after': [a], 'insts': l}]
        if h.set(w):
            d = h.save()
            if d and h.load(d, sure=True): h.save()
    for n in (255, 256, 300):
        h = H('many'); ins = [inst(R) for _ in range(8)]
        for x in ins: x['notes'] = x['notes'][:2]; x['ends'] = x['ends'][:2]
        if h.set({'insts': [R.choice([[], [R.choice(ins)]]) for _ in range(n)], 'inacc': [], 'unk': 1, 'wars': []}):
            d = h.save()
            if d: h.load(d)
    for i in range(ctx.scale(60, 400)):
        w = bank(R); x = inst(R); k = R.randrange(5)
        if k == 0: x['notes'][:1] = [{**note(R), 'w': R.choice([-1, 65536])}] if x['notes'] else []
        elif k == 1: x = {**x, 'k': 17, 'first': 0, 'ends': list(range(1, 10)), 'notes': [note(R) for _ in range(9)]}
        elif k == 2: x = {**x, 'k': 16, 'first': R.choice([250, -1, 256]), 'notes': [note(R) for _ in range(20)], 'ends': []}
        elif k == 3: x = {**x, 'k': 1, 'notes': [note(R)], 'ends': [], 'first': 0}; x['notes'][0]['p'][R.randrange(6)] = R.choice([-1, 256])
        else: w['insts'] = [[{'k': 16, 'first': 0, 'ends': [], 'notes': [note(R)] * 128, 'key': 0, 'merge': j}] for j in range(45)]
        w['insts'].append([x])
        h = H('unstorable')
        if h.set(w): h.save()
    large.run(ctx, large.Bank)
