"""C25: time navigation, looping and batched edits of event lists."""
from vf import num, boolean
from props.muslib import Music, positions
from props.seqlib import ev
TRACE = 'MusicTrace'


def run(ctx):
    mu = Music(); M, S = mu.M, mu.S
    cases = ctx.cases('MCMove', ctx.scale('MCMove.cfg', 'MCMoveT.cfg'))
    R = ctx.rng
    if ctx.tier == 'thorough': cases = R.sample(cases, min(len(cases), 60000))

    def start(name, prog):
        mu.reset()
        t = ctx.trace(name); objs = mu.build(prog)
        t['ev'].append({'op': 'list', 'evs': mu.obs(objs)})
        return t['ev'], objs

    def move(E, objs, st, time, mode, cut, app, default=False):
        kw = {} if default and mode == 1 else {'initialMonoPolyMode': mu.mode[mode]}
        if cut or not default: kw['cut'] = cut
        if app or not default: kw['append'] = app
        exc, r = ctx.call(lambda: M.moveInTime(objs, st, time, **kw))
        e = {'op': 'move', 'start': st, 'time': time, 'mode': mode, 'cut': cut, 'append': app, 'exc': exc, 'idx': 0, 't': 0, 'm': 0, 'after': mu.obs(objs)}
        if not exc: e.update(idx=num(r[0]), t=num(r[1]), m=int(r[2]))
        E.append(e)

    def dur(E, objs, mode):
        exc, r = ctx.call(lambda: M.durationOf(objs, mu.mode[mode]))
        E.append({'op': 'dur', 'mode': mode, 'exc': exc, 'r': 0 if exc else num(r), 'after': mu.obs(objs)})

    def loop(E, track, s, e, clear):
        was = boolean(track.looped)
        exc, _ = ctx.call(lambda: track.loop(s, e) if clear else track.loop(s, e, clearTrailing=False))
        E.append({'op': 'loop', 'start': s, 'end': e, 'clear': clear, 'exc': exc, 'was': was, 'is': boolean(track.looped), 'after': mu.obs(track.events)})

    # every case of the model: move; duration; loops over the same list
    seen = set()
    for c in cases:
        E, objs = start('move ' + str(c), positions(c['evs']))
        move(E, objs, c['start'], c['time'], c['mode'], c['cut'], c['append'])
        key = str((c['evs'], c['time']))
        if key not in seen:
            seen.add(key)
            dur(E, objs, c['mode'])
            for clear in (False, True):
                for s in range(0, c['time']):
                    E, objs = start('loop %s %s %s' % (s, clear, c), positions(c['evs']))
                    tr = M.SSEQMusic.Track(objs)
                    loop(E, tr, s, c['time'], clear)
    # longer random lists and histories
    def rnd(R, n):
        out = []
        for _ in range(n):
            x = R.random()
            if x < .4: out.append(ev(R.randrange(128), [R.randrange(128), R.choice([0, 0, 1]), R.choice([0, 0, 1, 2, 3, 24, 48, 96, 200])]))
            elif x < .7: out.append(ev(0x80, [R.choice([0, 1, 2, 5, 24, 48, 96, 1000, 100000])]))
            elif x < .85: out.append(ev(0xC7, [R.randrange(2)]))
            elif x < .95: out.append(ev(R.choice([0xC0, 0xC1, 0xD5, 0xE1]), [R.randrange(128)]))
            elif x < .96: out.append(ev(0x81, [0, R.randrange(5)]))
            elif x < .98: out.append(ev(R.choice([0xFF, 0xFD, 0xFC, 0xA2])))
            else: out.append(ev(0x94, [], [R.randrange(1, n + 1)]))
        return out
    for i in range(ctx.scale(500, 6000)):
        E, objs = start('history %d' % i, rnd(R, R.choice([0, 1, 3, 6, 10, 20])))
        if R.random() < .3: objs.append(mu.make(ev(0xFF))); E[0]['evs'] = mu.obs(objs)
        for _ in range(R.randrange(1, 6)):
            st = R.randrange(len(objs) + 1) if R.random() < .7 else 0
            mode = R.choice([0, 1, 1])
            # times that fall on event borders, in the middle and past the end
            tot = [0]; m = mode
            for o in objs[st:]:
                tot.append(tot[-1] + M.durationOf([o], mu.mode[m]))
                if isinstance(o, S.MonoPolySequenceEvent): m = int(o.value)
            time = max(R.choice(tot) + R.choice([0, 0, 0, 1, -1, 5]), -1)
            if R.random() < .05: st = len(objs) + R.randrange(3)
            move(E, objs, st, time, mode, R.random() < .5, R.random() < .4, R.random() < .3)
            if R.random() < .3: dur(E, objs, R.randrange(2))
    for i in range(ctx.scale(400, 4000)):
        prog = [e for e in rnd(R, R.choice([0, 1, 3, 6, 10, 20])) if e['k'] != 0xFF]
        if R.random() < .8: prog = [e for e in prog if e['k'] != 0x94]
        if prog:
            for e in prog:
                if e['ref']: e['ref'] = [R.randrange(1, len(prog) + 1)]
        E, objs = start('loop history %d' % i, prog)
        tr = M.SSEQMusic.Track(objs)
        tot = [0]; m = 1
        for o in objs:
            tot.append(tot[-1] + M.durationOf([o], mu.mode[m]))
            if isinstance(o, S.MonoPolySequenceEvent): m = int(o.value)
        for _ in range(R.choice([1, 1, 2])):
            a, b = sorted([max(R.choice(tot) + R.choice([0, 0, 0, 1, -1, 7]), 0) for _ in range(2)])
            if a == b: b += R.choice([1, 1, 24])
            loop(E, tr, a, b, R.random() < .5)
    # batched edits
    class Stop(Exception): pass
    for i in range(ctx.scale(600, 8000)):
        n = R.choice([0, 1, 2, 3, 5, 9])
        E, objs = start('batch %d' % i, rnd(R, n)[:n] if n else [])
        n = len(objs)
        for _ in range(R.choice([1, 1, 2])):
            n = len(objs); ops = []; fail = R.random() < .15; during = None
            before = mu.obs(objs)
            exc = ''; news = []
            try:
                with M.SimultaneousEventsModifier(objs) as mod:
                    for _ in range(R.randrange(7)):
                        w = R.choice(['insert', 'insert', 'set', 'del'])
                        if w == 'insert': p = R.choice([R.randrange(-n, n + 1), R.randrange(-n - 3, n + 1)])
                        elif n: p = R.randrange(-n, n)
                        else: continue
                        o = R.choice(news + objs) if news + objs and R.random() < .25 else mu.make(ev(0xC0, [R.randrange(128)])); news.append(o)
                        if w == 'insert': mod.insert(p, o)
                        elif w == 'set': mod[p] = o
                        else: del mod[p]
                        ops.append({'what': w, 'i': p, 'x': mu.obs([o])[0]})
                    during = mu.obs(objs)
                    if fail: raise Stop
            except Stop: exc = 'Stop'
            except Exception as x:
                exc = type(x).__name__
                if during is None: during = before
            E.append({'op': 'batch', 'ops': ops, 'raised': 'Stop' if fail else '', 'exc': exc, 'during': during, 'after': mu.obs(objs)})
            if exc and not fail: break
