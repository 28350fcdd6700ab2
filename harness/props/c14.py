from vf import bts, num
from . import seqlib
from props import large
TRACE = 'SeqTrace'


def run(ctx):
    L = seqlib.Lib(); S = L.S; R = ctx.rng

    def save(t, objs, notable):
        """notable: positions"""
        exc, prog = ctx.call(L.listing, objs)
        if exc: t.append({'op': 'save', 'evs': [], 'notable': [], 'out': [], 'offs': [], 'exc': exc}); return
        def go():
            d, offs = S.saveSequenceEvents(objs, [objs[i - 1] for i in notable])
            return bts(d), [num(x) for x in offs]
        exc, r = ctx.call(go)
        d, offs = ([], []) if exc else r
        t.append({'op': 'save', 'evs': prog, 'notable': notable, 'out': d, 'offs': offs, 'exc': exc})
        return None if exc else (bytes(d), offs)

    def parse(t, data, starts, strict=False):
        def go():
            if starts or R.random() < .5: evs, n = S.readSequenceEvents(data if R.random() < .5 else bytearray(data), list(starts))
            else:
                q = S.SSEQ(b'SSEQ' + bytes([255, 254, 0, 1]) + (len(data) + 28).to_bytes(4, 'little') + bytes([16, 0, 1, 0]) + b'DATA' + (len(data) + 12).to_bytes(4, 'little') + bytes([28, 0, 0, 0]) + data)
                q.parse(); evs, n = q.events, []
            pos = {}
            for i, o in enumerate(evs): pos.setdefault(id(o), i + 1)
            return evs, L.listing(evs), [pos.get(id(x), 0) for x in n]
        exc, r = ctx.call(go)
        objs, evs, n = (None, [], []) if exc else r
        t.append({'op': 'parse', 'strict': strict, 'data': list(data), 'starts': list(starts), 'evs': evs, 'notable': n, 'exc': exc})
        return None if exc else (objs, n)

    def cycle(name, prog, entries, edits):
        t = ctx.trace(name)['ev']
        exc, objs = ctx.call(lambda: L.build(prog, R))
        if exc: t.append({'op': 'save', 'evs': prog, 'notable': [], 'out': [], 'offs': [], 'exc': exc}); return
        for _ in range(edits + 1):
            r = save(t, objs, entries)
            if not r: return
            data, offs = r
            if data.startswith(b'\xff') and R.random() < .5: data += R.choice([b'', bytes(3)])
            p = parse(t, data, offs if entries != [1] or R.random() < .5 else [])
            if not p: return
            objs, entries = p[0], (p[1] or [1])
            if save(t, objs, entries) is None: return
            # insert and remove plain events nobody refers to
            ent = [objs[i - 1] for i in entries]
            refd = {id(getattr(o, 'destination', None)) for o in objs} | {id(getattr(o, 'firstEvent', None)) for o in objs} | {id(x) for x in ent}
            for _ in range(R.choice([1, 2, 3])):
                i = R.randrange(len(objs) + 1)
                if R.random() < .6 or not objs:
                    if i == len(objs) or (i > 0 and type(objs[i - 1]).__name__.startswith(('If', 'Raw'))): continue
                    if type(objs[i]).__name__.startswith('Raw'): continue
                    objs.insert(i, L.make(seqlib.rand_event(R)))
                elif i < len(objs) and id(objs[i]) not in refd and type(objs[i]).__name__.startswith(('Note', 'Rest')) and not (i and type(objs[i - 1]).__name__.startswith('If')):
                    del objs[i]
            entries = [next(i for i, o in enumerate(objs) if o is x) + 1 for x in ent]

    progs = ctx.cases('MCSeqProg', 'MCSeqProg.cfg')
    progs = R.sample(progs, min(len(progs), ctx.scale(2200, 20000)))
    progs += R.sample(x := ctx.cases('MCSeqProg', ctx.scale('MCSeqProg3.cfg', 'MCSeqProgT.cfg')), min(len(x), ctx.scale(600, 20000)))
    for p in progs: cycle('tlc-program', p, [1], R.choice([0, 0, 1]))
    for i in range(ctx.scale(600, 6000)):
        p, ent = seqlib.rand_program(R)
        ent = ent if R.random() < .6 else [1]
        if R.random() < .2: ent = ent + [R.choice(ent)]
        cycle('program', p, ent, R.choice([0, 1, 2]))
    # a call straight to a jump that was already met
    cycle('call-to-jump', [seqlib.ev(0x95, [], [4]), seqlib.ev(0x95, [], [5]), seqlib.ev(0xFF), seqlib.ev(60, [1, 0, 1]), seqlib.ev(0x94, [], [6]), seqlib.ev(0xFD)], [1], 1)
    # data from elsewhere: random bytes and damaged programs
    for i in range(ctx.scale(500, 5000)):
        t = ctx.trace('data')['ev']
        p, ent = seqlib.rand_program(R)
        exc, r = ctx.call(lambda: S.saveSequenceEvents(L.build(p), []))
        if exc: continue
        d = bytearray(r[0])
        k = R.randrange(4)
        if k == 0: d = d[:R.randrange(len(d) + 1)]
        elif k == 1 and d: d[R.randrange(len(d))] = R.choice([0xFF, 0x94, 0x95, 0xFD, 0xA2, 0x82, 0x00, R.randrange(256)])
        elif k == 2: d = bytearray(R.choice([R.randbytes(R.randrange(12)), bytes(R.choice([0x3C, 0x94, 0x95, 0xA2, 0xFF, 0xFD, 0, 1, 4]) for _ in range(R.randrange(16)))]))
        else: d += R.choice([bytes(3), R.randbytes(2), b'\xff\xff'])
        q = parse(t, bytes(d), [])
        if q: save(t, q[0], [])
    # behind a conditional end or return
    for k in (0xFF, 0xFD):
        t = ctx.trace('conditional-end', finding='conditional-end')['ev']
        prog = [seqlib.ev(0x95, [], [3]), seqlib.ev(0xFF), seqlib.ev(0xA2), seqlib.ev(k), seqlib.ev(60, [100, 0, 1]), seqlib.ev(0x94, [], [5])]
        exc, r = ctx.call(lambda: S.saveSequenceEvents(L.build(prog), []))
        if not exc: parse(t, bytes(r[0]), [], strict=True)
    large.run(ctx, large.Sseq)
