from vf import bts, num
from . import seqlib
TRACE = 'SeqTrace'
NOEV = seqlib.ev(-1)


def run(ctx):
    L = seqlib.Lib(); S = L.S; R = ctx.rng

    def one(e, name):
        t = ctx.trace(name)['ev']
        dummy = S.EndTrackSequenceEvent(); off = R.choice([0, 1, 255, 256, 65536, 0xABCDEF, 0xFFFFFF])
        want = {**e, 'ref': [1] if e['ref'] else []}
        def go():
            o = L.make(e, dummy, set_later=R.random() < .3)
            r = bts(bytes(o.save({dummy: off}))) if e['ref'] else bts(bytes(R.choice([lambda: o.save(), lambda: o.save({})])()))
            return L.observe(o, lambda x: 1 if x is dummy else 0), num(o.dataLength), r
        exc, r = ctx.call(go)
        got, n, out = (NOEV, 0, []) if exc else r
        t.append({'op': 'make', 'want': want, 'target': off, 'got': got, 'len': n, 'out': out, 'exc': exc})
        if exc or e['k'] == -1: return
        # read back, followed by an end event; references lead to the start or to the end
        if e['ref']: data = bytes(out[:-3]) + R.choice([0, len(out)]).to_bytes(3, 'little') + b'\xff'
        else: data = bytes(out) + (b'\xff' if e['k'] != 0xA2 else b'\xc0\x01\xff')
        if e['k'] == 0xFD: return
        def rd():
            evs, _ = S.readSequenceEvents(data)
            offs = {}; o = 0
            for x in evs: offs[id(x)] = o; o += x.dataLength
            return L.observe(evs[0], lambda x: offs.get(id(x), -1))
        exc, g = ctx.call(rd)
        t.append({'op': 'readone', 'data': list(data), 'got': NOEV if exc else g, 'exc': exc})

    for e in ctx.cases('MCSeqEv', ctx.scale('MCSeqEv.cfg', 'MCSeqEvT.cfg')): one(e, 'tlc-event')
    for _ in range(ctx.scale(2000, 20000)): one(seqlib.rand_event(R), 'event')

    # lists without references: stored back to back, repeated objects included; read as one track
    for _ in range(ctx.scale(400, 4000)):
        t = ctx.trace('list')['ev']
        evs = [seqlib.rand_event(R) for _ in range(R.choice([0, 1, 2, 3, 8, 20]))]
        def go():
            objs = L.build(evs, R)
            if objs and R.random() < .4:
                for _ in range(R.choice([1, 2])): objs.insert(R.randrange(len(objs) + 1), R.choice(objs))
            objs.append(S.EndTrackSequenceEvent())
            prog = L.listing(objs)
            d, offs = S.saveSequenceEvents(objs) if R.random() < .5 else S.saveSequenceEvents(objs, [])
            return prog, bts(d), [num(x) for x in offs]
        exc, r = ctx.call(go)
        prog, d, offs = (evs, [], []) if exc else r
        t.append({'op': 'save', 'evs': prog, 'notable': [], 'out': d, 'offs': offs, 'exc': exc})
        if exc: continue
        def rd():
            x, n = S.readSequenceEvents(bytes(d)); return L.listing(x)
        exc, x = ctx.call(rd)
        t.append({'op': 'parse', 'strict': False, 'data': d, 'starts': [], 'evs': [] if exc else x, 'notable': [], 'exc': exc})
