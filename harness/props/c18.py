import copy, os
from vf import bts, num
from props.wavelib import observe, make, rand_wave, foreign_swav, foreign_swar, NOWAVE
from props import large
TRACE = 'WaveTrace'


def run(ctx):
    from ndspy import soundWave, soundWaveArchive, WaveType as WT
    R = ctx.rng

    class W:
        def __init__(self, name):
            self.ev = ctx.trace(name)['ev']

        def put(self, e, exc, o):
            x, v = (exc, None) if exc else ctx.call(lambda: observe(o))
            self.ev.append({**e, 'exc': x, 'obj': NOWAVE if x else v})
            return not x

        def load(self, data):
            exc, o = ctx.call(lambda: soundWave.SWAV(data))
            self.o = o
            return self.put({'op': 'wload', 'data': list(data)}, exc, o)

        def new(self, w):
            exc, o = ctx.call(lambda: make(soundWave, WT, w)); self.o = o
            return self.put({'op': 'wnew', 'want': w}, exc, o)

        def set(self, w):
            def go():
                o = self.o
                o.waveType = WT(w['type']) if w['type'] in (0, 1, 2) else w['type']; o.isLooped = w['looped']; o.sampleRate = w['rate']; o.time = w['time']
                o.loopOffset = w['loop']; o.totalLength = w['total']; o.data = bytes(w['data'])
            exc, _ = ctx.call(go)
            return self.put({'op': 'wset', 'want': w}, exc, self.o)

        def save(self, ut, ul, prev=None):
            def go():
                k = {}
                if ut or R.random() < .3: k['updateTime'] = ut
                if ul or R.random() < .3: k['updateTotalLength'] = ul
                return bts(self.o.save(**k))
            exc, r = ctx.call(go)
            self.put({'op': 'wsave', 'updTime': ut, 'updTotal': ul, 'out': [] if exc else r, 'prev': [] if prev is None else [list(prev)]}, exc, self.o)
            return None if exc else bytes(r)

    class A:
        def __init__(self, name):
            self.ev = ctx.trace(name)['ev']; self.o = soundWaveArchive.SWAR(); self.unk = 0

        def put(self, e, exc):
            x, v = (exc, None) if exc else ctx.call(lambda: [observe(w) for w in self.o.waves])
            self.ev.append({**e, 'exc': x, 'obj': [] if x else v})
            return not x

        def load(self, data):
            self.unk = R.choice([0, 5, 65535])
            def go():
                k = R.randrange(3)
                if k == 0 and self.unk == 0: return soundWaveArchive.SWAR(data)
                if k == 1:
                    p = os.path.join(ctx.scratch, 'a.swar')
                    with open(p, 'wb') as f: f.write(data)
                    return soundWaveArchive.SWAR.fromFile(p, self.unk)
                return soundWaveArchive.SWAR(data, self.unk)
            exc, o = ctx.call(go)
            if not exc: self.o = o
            x, u = ctx.call(lambda: num(o.unk02)) if not exc else ('', 0)
            return self.put({'op': 'aload', 'data': list(data), 'unk02': 0 if x or exc else u, 'unk02want': 0 if x or exc else self.unk}, exc or x)

        def set(self, ws, fn=None):
            def go():
                if fn: return fn(self.o)
                if R.random() < .3:     # one wave object may be listed more than once
                    os_ = [make(soundWave, WT, w) for w in ws]; self.o.waves = [os_[ws.index(w)] for w in ws]
                elif R.random() < .5: self.o = soundWaveArchive.SWAR.fromWaves([make(soundWave, WT, w) for w in ws], self.unk)
                else: self.o.waves = [make(soundWave, WT, w) for w in ws]
            exc, _ = ctx.call(go)
            return self.put({'op': 'aset', 'want': copy.deepcopy(ws)}, exc)

        def save(self, prev=None):
            def go():
                d, u = self.o.save()
                return bts(d), num(u)
            exc, r = ctx.call(go)
            d, u = ([], 0) if exc else r
            self.put({'op': 'asave', 'out': d, 'unk02': u, 'unk02want': 0 if exc else self.unk, 'prev': [] if prev is None else [list(prev)]}, exc)
            return None if exc else bytes(d)

    def cycle(a, name):
        d = a.save()
        if d is None: return
        b = A(name + '-reopened')
        if b.load(d): b.save(prev=d)

    # spec-generated edit histories
    cases = ctx.cases('MCWave', ctx.scale('MCWave.cfg', 'MCWaveT.cfg'))
    if len(cases) > ctx.scale(500, 4000): cases = R.sample(cases, ctx.scale(500, 4000))
    for hist in cases:
        a = A('tlc-history'); ws = []
        for op in hist:
            i, w = op['at'], op['w']
            if op['op'] == 'ins': ws.insert(i, w); fn = lambda o: o.waves.insert(i, make(soundWave, WT, w))
            elif op['op'] == 'del': ws.pop(i); fn = lambda o: o.waves.pop(i)
            else: ws[i] = w; fn = lambda o: o.waves.__setitem__(i, make(soundWave, WT, w))
            if not a.set(ws, fn): break
            d = a.save()
            if d is None: break
            if R.random() < .5 and not a.load(d): break
    for i in range(ctx.scale(250, 2000)):
        ws = [rand_wave(R) for _ in range(R.choice([0, 1, 1, 2, 3, 6]))]
        if ws and R.random() < .3: ws.insert(R.randrange(len(ws) + 1), R.choice(ws))
        a = A('archive')
        if R.random() < .5:
            if a.set(ws): cycle(a, 'archive')
        elif a.load(foreign_swar(R, ws)):
            if R.random() < .5:
                if ws: ws[R.randrange(len(ws))] = rand_wave(R)
                a.set(ws)
            cycle(a, 'archive')
    for i in range(ctx.scale(250, 2000)):
        w = W('wave'); v = rand_wave(R)
        if not (w.new(v) if R.random() < .5 else w.load(foreign_swav(R, v))): continue
        for _ in range(R.choice([1, 2, 3])):
            d = w.save(R.random() < .3, R.random() < .3)
            if d is None: break
            b = W('wave-reopened')
            if b.load(d): b.save(False, False, prev=d)
            if not w.set(rand_wave(R)): break
    for n in (255, 256, 300):
        a = A('many')
        if a.set([{**rand_wave(R), 'data': [j % 256] * R.choice([0, 4, 8])} for j in range(n)]): cycle(a, 'many')
    big_ = {**rand_wave(R), 'loop': 5, 'total': 5, 'data': list(R.randbytes(4)) * 20000}
    a = A('long')
    if a.set([rand_wave(R), big_, rand_wave(R)]): cycle(a, 'long')
    w = W('long')
    if w.new(big_):
        d = w.save(False, True)
        if d: W('long').load(d)
    # waves that cannot be stored
    for i in range(ctx.scale(40, 200)):
        v = rand_wave(R); k = R.randrange(4)
        if k == 0: v['total'] = max(0, v['loop'] - R.choice([1, 2])); v['loop'] = max(v['loop'], v['total'] + 1)
        elif k == 1: v['loop'] = 65536; v['total'] = 70000
        elif k == 2: v[R.choice(['rate', 'time'])] = R.choice([65536, -1])
        elif k == 3: v['type'] = R.choice([256, -1])
        if R.random() < .5:
            w = W('unstorable')
            if w.new(v): w.save(False, False)
        else:
            a = A('unstorable')
            if a.set([rand_wave(R), v]): a.save()
    large.run(ctx, large.Swar, large.Swav)
