"""Driving SSEQ and SSAR objects; shared by C15 (states) and C16 (contents)."""
import copy, os, struct
from vf import bts, num, boolean, text, opt, IllTyped
from . import seqlib
def b8(R, n=256): return R.choice([0, 1, n - 1, R.randrange(n), R.randrange(n), R.randrange(n)])
def b16(R): return R.choice([0, 1, 65535, R.randrange(65536), R.randrange(65536)])


PAR = ['bankID', 'volume', 'channelPressure', 'polyphonicPressure', 'playerID']
DEF = [0, 127, 64, 50, 0]


class H:
    def __init__(self, ctx, L, name, full):
        from ndspy import soundSequence, soundSequenceArchive
        self.SSEQ, self.SSAR, self.Q = soundSequence.SSEQ, soundSequenceArchive.SSAR, soundSequenceArchive.SSARSequence
        self.ctx, self.L, self.R, self.full = ctx, L, ctx.rng, full
        self.ev = ctx.trace(name)['ev']; self.o = None; self.kind = ''

    def try_(self, f):
        try: return False, f()
        except IllTyped: raise
        except Exception: return True, None

    def peek(self):
        o = self.o
        if o is None: return {'parsed': False, 'evsRaised': True, 'dataRaised': True, 'evs': [], 'data': [], 'seqs': [], 'unk': 0, 'par': []}
        er, evs = self.try_(lambda: o.events); dr, d = self.try_(lambda: o.eventsData)
        pos = {}
        for i, e in enumerate(evs or []): pos.setdefault(id(e), i + 1)
        seqs = []
        if self.kind == 'ssar':
            for n, q in o.sequences:
                fr, f = self.try_(lambda: q.firstEvent); of, off = self.try_(lambda: q.firstEventOffset)
                tup = q.save()
                seqs.append({'name': opt(n, text), 'parsed': boolean(q.parsed), 'firstRaised': fr, 'offRaised': of, 'first': [] if fr or f is None else [pos.get(id(f), 0)],
                             'off': [] if of else opt(off, num), 'par': [num(getattr(q, p)) for p in PAR], 'tup': [num(x) for x in tup[1:]]})
        return {'parsed': boolean(o.parsed), 'evsRaised': er, 'dataRaised': dr, 'evs': [] if er else self.L.listing(evs), 'data': [] if dr else bts(bytes(d)),
                'seqs': seqs, 'unk': num(o.unk02), 'par': [num(getattr(o, p)) for p in PAR] if self.kind == 'sseq' else []}

    def put(self, e, exc):
        e['full'] = self.full; e['exc'] = exc
        x, e['obs'] = self.ctx.call(self.peek)
        if x: e['exc'] = exc or x; e['obs'] = {'parsed': False, 'evsRaised': True, 'dataRaised': True, 'evs': [], 'data': [], 'seqs': [], 'unk': 0, 'par': []}
        self.ev.append(e)
        return not (exc or x)

    def state(self):
        """The state the object shows now (for edits)."""
        b = self.ev[-1]['obs']
        return {'kind': self.kind, 'parsed': b['parsed'], 'data': b['data'], 'evs': copy.deepcopy(b['evs']), 'unk': b['unk'], 'par': b['par'],
                'seqs': [{k: copy.deepcopy(q[k]) for k in ('name', 'par', 'parsed', 'off', 'first')} for q in b['seqs']]}

    def load(self, kind, file, names=None):
        R = self.R; self.kind = kind
        n = R.choice([0, 1, 2, 3, 6]); unk = R.randrange(65536); par = [b16(R), b8(R, 128), b8(R), b8(R), b8(R, 32)]
        if kind == 'sseq':
            args = ([unk] + par)[:n]; unk = unk if n else 0; par = par[:max(0, n - 1)] + DEF[max(0, n - 1):]
            kw = dict(zip(['unk02'] + PAR, args))
        else:
            par = []
            kw = {}
            if n % 2: kw['unk02'] = unk
            else: unk = 0
            if names is not None: kw['names'] = [None if not x else ''.join(map(chr, x[0])) for x in names]
        C = self.SSEQ if kind == 'sseq' else self.SSAR
        def go():
            if R.random() < .25:
                p = os.path.join(self.ctx.scratch, 'x.' + kind)
                with open(p, 'wb') as f: f.write(file)
                return C.fromFile(p, **kw)
            data = R.choice([bytes, bytearray])(file)
            if kind == 'sseq' and R.random() < .5: return C(data, *kw.values())
            return C(data, **kw)
        exc, o = self.ctx.call(go)
        if not exc: self.o = o
        return self.put({'op': 'load', 'kind': kind, 'file': list(file), 'names': names or [], 'unk': unk, 'par': par}, exc)

    def parse(self):
        exc, _ = self.ctx.call(lambda: self.o.parse())
        self.put({'op': 'parse'}, exc)
        return not exc

    def save(self):
        def go():
            r = self.o.save()
            if self.kind == 'sseq': return bts(bytes(r[0])), [], num(r[1]), [num(x) for x in r[2:]]
            return bts(bytes(r[0])), [opt(x, text) for x in r[2]], num(r[1]), []
        exc, r = self.ctx.call(go)
        d, names, unk, par = ([], [], 0, []) if exc else r
        self.put({'op': 'save', 'out': d, 'names': names, 'unk': unk, 'par': par}, exc)
        return None if exc else (bytes(d), names)

    def edit(self, want, fn):
        exc, _ = self.ctx.call(fn)
        return self.put({'op': 'edit', 'want': want}, exc)

    # edits ------------------------------------------------------------------
    def create(self, prog, seqs, kind='ssar'):
        R = self.R; self.kind = kind
        unk = R.choice([0, R.randrange(65536)])
        par = [b16(R), b8(R, 128), b8(R), b8(R), b8(R, 32)]
        want = {'kind': kind, 'parsed': True, 'data': [], 'evs': prog, 'unk': unk, 'par': par if kind == 'sseq' else [], 'seqs': seqs}
        def go():
            objs = self.L.build(prog, R)
            if kind == 'sseq':
                if R.random() < .5: self.o = self.SSEQ.fromEvents(objs, unk, *par)
                else: self.o = self.SSEQ(unk02=unk, **dict(zip(PAR, par))); self.o.events = objs
                return
            qs = [(None if not q['name'] else ''.join(map(chr, q['name'][0])), self.Q(objs[q['first'][0] - 1] if q['first'] else None, *q['par'])) for q in seqs]
            if R.random() < .5: self.o = self.SSAR.fromEventsAndSequences(objs, qs, unk)
            else:
                self.o = self.SSAR(unk02=unk); self.o.events = objs
                self.o.sequences.extend(qs)
        return self.edit(want, go)

    def rand_seq(self, n, parsed=True, offs=()):
        R = self.R
        return {'name': R.choice([[], [text(R.choice(['SE_A', 'b', '', 'noise %d' % R.randrange(9)]))]]), 'parsed': parsed,
                'par': [b16(R), b8(R), b8(R), b8(R), b8(R)],
                'first': [R.choice(n)] if parsed and n and R.random() < .85 else [], 'off': [R.choice(offs)] if not parsed and offs and R.random() < .9 else []}

    def insert(self):
        """Insert an unreferenced plain event somewhere it does not disturb the flow."""
        R = self.R; w = self.state()
        ok = [i for i, e in enumerate(w['evs']) if e['k'] != -1 and not (i and w['evs'][i - 1]['k'] in (0xA2, -1))]
        if not ok: return False
        i = R.choice(ok); e = seqlib.rand_event(R)
        shift = lambda r: [x + (x > i) for x in r]
        for x in w['evs']: x['ref'] = shift(x['ref'])
        for q in w['seqs']: q['first'] = shift(q['first'])
        w['evs'].insert(i, e)
        return self.edit(w, lambda: self.o.events.insert(i, self.L.make(e)))

    def value(self):
        """Change the values of an event that leads nowhere; often to one stored in as many bytes."""
        R = self.R; w = self.state()
        ok = [i for i, e in enumerate(w['evs']) if not e['ref'] and e['k'] not in (-1, 0xA2, 0xFC, 0xFD, 0xFF)]
        if not ok: return False
        i = R.choice(ok); old = w['evs'][i]; k = old['k']
        if k < 0x80: e = R.choice([seqlib.ev((k + 1) % 128, old['a']), seqlib.ev(k, [old['a'][0] ^ 1, old['a'][1], old['a'][2]]), seqlib.rand_event(R, ops=['note'])])
        elif k == 0x80: e = seqlib.ev(k, [R.choice([old['a'][0] ^ 1, R.randrange(3000)])])
        elif k == 0x81: e = seqlib.ev(k, [R.choice([old['a'][0], R.randrange(300)]), (old['a'][1] + 1) % 128])
        else:
            e = seqlib.rand_event(R)
            for _ in range(200):
                if e['k'] == k: break
                e = seqlib.rand_event(R)
            if e['k'] != k: return False
        o = self.o.events[i]
        for j, x in enumerate(self.o.events):
            if x is o: w['evs'][j] = e
        return self.edit(w, lambda: self.L.assign(o, e))

    def mutate(self, mixed=False):
        """Change a sequence, add, remove or move one."""
        R = self.R; w = self.state(); qs = w['seqs']; k = R.randrange(6)
        if mixed or k == 0 or not qs:
            if w['parsed'] != mixed: q = self.rand_seq([i + 1 for i, e in enumerate(w['evs']) if e['k'] != -1])
            else: q = self.rand_seq([], False, [0])
            if mixed and w['parsed']: pass
            i = R.randrange(len(qs) + 1); qs.insert(i, q)
            first = self.o.events[q['first'][0] - 1] if q['first'] and w['parsed'] else None
            if q['parsed'] and not w['parsed']: q['first'] = []
            new = self.Q(first if q['parsed'] else (q['off'][0] if q['off'] else R.choice([-1, None])), *q['par'], parsed=q['parsed'])
            name = None if not q['name'] else ''.join(map(chr, q['name'][0]))
            return self.edit(w, lambda: self.o.sequences.insert(i, (name, new)))
        i = R.randrange(len(qs))
        if k == 1:
            del qs[i]; return self.edit(w, lambda: self.o.sequences.pop(i))
        if k == 2:
            j = R.randrange(5); v = R.randrange(256); qs[i]['par'][j] = v
            q = self.o.sequences[i][1]
            same = [a for a, (n, x) in enumerate(self.o.sequences) if x is q]
            for a in same: qs[a]['par'][j] = v
            return self.edit(w, lambda: setattr(q, PAR[j], v))
        if k == 3 and w['parsed']:
            c = [a + 1 for a, e in enumerate(w['evs']) if e['k'] != -1]
            p = R.choice(c) if c and R.random() < .8 else None
            q = self.o.sequences[i][1]
            same = [a for a, (n, x) in enumerate(self.o.sequences) if x is q]
            for a in same: qs[a]['first'] = [p] if p else []
            return self.edit(w, lambda: setattr(q, 'firstEvent', self.o.events[p - 1] if p else None))
        if k == 4:
            qs.reverse(); return self.edit(w, lambda: self.o.sequences.reverse())
        nm = R.choice(['NEW', 'x']); qs[i]['name'] = [text(nm)]
        return self.edit(w, lambda: self.o.sequences.__setitem__(i, (nm, self.o.sequences[i][1])))


def sseq_file(d, gap=b'', tail=b''):
    """gap: bytes before the event data; tail: bytes behind the end the header gives."""
    n = 28 + len(gap)
    return b'SSEQ' + struct.pack('<HHIHH', 0xFEFF, 0x100, n + len(d), 16, 1) + b'DATA' + struct.pack('<II', n - 16 + len(d), n) + bytes(gap) + bytes(d) + bytes(tail)


def ssar_file(d, seqs, gap=b'', tail=b''):
    t = 32 + 12 * len(seqs) + len(gap)
    return b'SSAR' + struct.pack('<HHIHH', 0xFEFF, 0x100, t + len(d), 16, 1) + b'DATA' + struct.pack('<III', t + len(d) - 16, t, len(seqs)) \
        + b''.join(struct.pack('<iH4BH', q['off'][0] if q['off'] else -1, *q['par'], 0) for q in seqs) + bytes(gap) + bytes(d) + bytes(tail)


def foreign(R):
    """Layouts other writers may use."""
    return R.choice([{}, {}, {'gap': bytes(4)}, {'gap': b'\xff\x3c'}, {'tail': b'\0'}, {'tail': b'\x3c\x64\x18\xff'}, {'gap': R.randbytes(R.randrange(1, 20)), 'tail': R.randbytes(R.randrange(1, 40))}])
