"""C26: songs as tracks: opening, editing, saving, reopening."""
from vf import num, boolean, opt
from props.muslib import Music, positions
from props.seqlib import ev
from props import large
TRACE = 'MusicTrace'
INITIAL = {0x81: 'Instrument', 0xC0: 'Pan', 0xC1: 'Volume', 0xC3: 'Transpose', 0xC6: 'Priority', 0xC7: 'MonoPoly', 0xD0: 'AttackRate', 0xD1: 'DecayRate',
           0xD2: 'SustainRate', 0xD3: 'ReleaseRate', 0xE1: 'Tempo'}


class Case:
    def __init__(self, ctx, mu, name, prog, how=0):
        self.ctx, self.mu = ctx, mu
        mu.reset()
        self.E = ctx.trace(name)['ev']
        self.sseq = mu.S.SSEQ()
        objs = mu.build(prog)
        self.sseq.events = objs
        self.music = None
        if how == 1: self.file()               # open a file instead of objects
        self.open()

    def dead(self): return bool(self.E and self.E[-1].get('exc'))
    def song(self): return self.mu.song(self.music)
    def rec(self, op, fn, **kw):
        exc, r = self.ctx.call(fn)
        self.E.append({'op': op, **kw, 'exc': exc, 'song': [] if self.music is None else self.song()})
        return exc, r

    def open(self):
        evs = self.mu.obs(self.sseq.events)
        exc, m = self.ctx.call(lambda: self.mu.M.SSEQMusic(self.sseq))
        self.music = m
        self.E.append({'op': 'open', 'evs': evs, 'exc': exc, 'song': [] if exc else self.song(), 'kept': self.mu.obs(self.sseq.events) == evs})

    def get(self, n, what):
        exc, v = self.ctx.call(lambda: getattr(self.music.tracks[n], 'initial' + INITIAL[what]))
        self.E.append({'op': 'get', 'n': n, 'what': what, 'exc': exc, 'v': [] if exc or v is None else [[num(x) for x in v] if what == 0x81 else [int(v)]]})

    def set(self, n, what, v):
        def go():
            x = None if not v else tuple(v[0]) if what == 0x81 else self.mu.mode[v[0][0]] if what == 0xC7 else v[0][0]
            setattr(self.music.tracks[n], 'initial' + INITIAL[what], x)
        self.rec('set', go, n=n, what=what, v=v)

    def velocity(self, n, how, amount, clamp, R):
        t = self.music.tracks[n]
        kw = {} if clamp and R.random() < .5 else {'clamp': clamp}
        self.rec('velocity', lambda: t.addToNoteVelocities(amount, **kw) if how == 'add' else t.multiplyNoteVelocitiesBy(amount / 4, **kw), n=n, how=how, amount=amount, clamp=clamp)

    def collapse(self): self.rec('collapse', self.music.collapseTrackIDs)
    def loop(self, s, e, clear): self.rec('loopall', lambda: self.music.loop(s, e) if clear else self.music.loop(s, e, clearTrailing=False), start=s, end=e, clear=clear)
    def edit(self, fn): fn(); self.E.append({'op': 'edit', 'song': self.song(), 'kept': True})
    def add(self, n, t):
        """A new track made of a list of events, which stays the caller's."""
        was = list(t); tr = self.mu.M.SSEQMusic.Track(t)
        if was and self.mu.S.EndTrackSequenceEvent is type(was[-1]): del was[-1]
        self.music.tracks[n] = tr
        self.E.append({'op': 'edit', 'song': self.song(), 'kept': len(t) - len(was) in (0, 1) and all(a is b for a, b in zip(was, t)) and tr.events is not t})
    def reorder(self, R):
        """The same tracks, entered in another order."""
        x = list(self.music.tracks.items()); R.shuffle(x)
        def go():
            self.music.tracks.clear(); self.music.tracks.update(x)
        self.edit(go)
    def print(self): self.rec('print', lambda: (str(self.music), repr(self.music), [str(t) + repr(t) for t in self.music.tracks.values()]))

    def save(self):
        exc, r = self.ctx.call(self.music.save)
        same = not exc and r[0] is self.sseq and self.music.sseq is self.sseq and r[1] is self.music.sbnk and r[2] is self.music.swars
        self.E.append({'op': 'save', 'exc': exc, 'same': same, 'song': self.song(), 'evs': [] if exc else self.mu.obs(self.sseq.events)})

    def file(self):
        if not self.E: self.E.append({'op': 'list', 'evs': self.mu.obs(self.sseq.events)})
        def go():
            q = self.mu.S.SSEQ(self.sseq.save()[0]); q.parse(); return q
        exc, q = self.ctx.call(go)
        if not exc: self.sseq = q
        self.E.append({'op': 'file', 'exc': exc, 'evs': [] if exc else self.mu.obs(q.events)})


def rand_track(R, fallthrough=True):
    """Events of a track; references are positions within it."""
    out = []
    kinds = [k for k in INITIAL if R.random() < .25]
    R.shuffle(kinds)
    val = lambda k: [R.randrange(3), R.randrange(128)] if k == 0x81 else [R.randrange(2) if k == 0xC7 else R.randrange(128)]
    for k in kinds:
        if R.random() < .2: out.append(ev(0xD5, [R.randrange(128)]))
        out.append(ev(k, val(k)))
    for _ in range(R.choice([0, 1, 2, 4, 8])):
        x = R.random()
        if x < .45: out.append(ev(R.randrange(128), [R.randrange(128), R.choice([0, 0, 1]), R.choice([0, 1, 24, 48])]))
        elif x < .7: out.append(ev(0x80, [R.choice([0, 1, 24, 48, 300])]))
        elif x < .9:
            k = R.choice(list(INITIAL)) if any(e['k'] <= 0x80 for e in out) else 0xD5
            out.append(ev(k, val(k) if k != 0xD5 else [1]))
        elif out: out.append(ev(0xA2)); out.append(ev(0x94, [], [R.randrange(1, len(out) + 1)]))
    return out


def rand_song(R, zero=True):
    """A whole program: (events with positional references, plain) ."""
    nums = [0] + sorted(R.sample(range(1, 16), R.choice([0, 0, 1, 2, 3, 15]))) if zero else sorted(R.sample(range(1, 16), R.choice([1, 1, 2, 3]))) if R.random() < .8 else [1]
    tracks = []
    for n in nums:
        t = rand_track(R)
        r = R.random()
        if r < .25 and t:
            t.append(ev(0x94, [], [R.randrange(1, len(t) + 1)]))
            if R.random() < .3: t.append(ev(0xFF))
        elif r < .35:
            i = len(t)
            t += [ev(0xA2), ev(0x94, [], [i + 4]), ev(64, [1, 0, 1]), ev(0xFF)]
        else: t.append(ev(0xFF))
        tracks.append(t)
    if nums == [0] and R.random() < .8: return tracks[0]
    order = list(range(1 if zero else 0, len(nums))); R.shuffle(order)
    head = 1 + len(order)
    seq = [0][:zero] + (order if R.random() < .5 else sorted(order))
    start = {}; pos = head
    for i in seq: start[i] = pos; pos += len(tracks[i])
    out = [ev(0xFE, nums)]
    for i in order: out.append(ev(0x93, [nums[i]], [start[i] + 1]))
    for i in seq:
        out += [dict(e, ref=[r + start[i] for r in e['ref']]) for e in tracks[i]]
    return out


def reachable(prog):
    """Positions reached by playing, to decide whether the file gives the same events back."""
    todo, seen = [0], set()
    while todo:
        i = todo.pop()
        if i in seen or i >= len(prog): continue
        seen.add(i); e = prog[i]
        todo += [r - 1 for r in e['ref']]
        if not (e['k'] in (0x94, 0xFF) and not (i and prog[i - 1]['k'] == 0xA2)): todo.append(i + 1)
    return len(seen) == len(prog)


def run(ctx):
    mu = Music(); R = ctx.rng
    cases = ctx.cases('MCSong', ctx.scale('MCSong.cfg', 'MCSongT.cfg'))
    for c in cases:
        prog = positions(c['evs'])
        k = Case(ctx, mu, 'song ' + str(c), prog, how=1 if R.random() < .2 and reachable(prog) else 0)
        if k.dead(): continue
        k.get(c['on'], c['what']); k.set(c['on'], c['what'], c['val']); k.get(c['on'], c['what'])
        k.save()
        if not k.dead() and whole(k.E[-1]['evs']): k.file()
        if not k.dead(): k.open()
    def history(i, zero):
        prog = rand_song(R, zero)
        ok = reachable(prog)
        k = Case(ctx, mu, 'history %d' % i, prog, how=1 if ok and R.random() < .5 else 0)
        for _ in range(R.randrange(1, 9)):
            if k.dead(): break
            nums = sorted(k.music.tracks)
            if not nums: break
            n = R.choice(nums); w = R.choice(list(INITIAL)); x = R.random()
            one = all(sum(1 for e in lead(k.mu.obs(t.events)) if e['k'] == w) <= 1 for t in k.music.tracks.values())
            if x < .1: k.get(n, w)
            elif x < .4:
                if one: k.set(n, w, [] if R.random() < .3 else [[R.randrange(3), R.randrange(128)] if w == 0x81 else [R.randrange(2) if w == 0xC7 else R.randrange(128)]]); k.get(n, w)
            elif x < .5: k.velocity(n, 'add', R.choice([0, 1, -1, 20, -20, 127, -127, 300]), R.random() < .6, R)
            elif x < .6: k.velocity(n, 'mul', R.choice([0, 1, 2, 3, 4, 5, 8, 100, -4]), R.random() < .6, R)
            elif x < .65: k.collapse()
            elif x < .7:
                a, b = sorted(R.sample([0, 1, 24, 48, 72, 96, 300, 1000], 2)); k.loop(a, b, R.random() < .5)
            elif x < .75 and len(nums) > 1: k.edit(lambda: k.music.tracks.pop(R.choice([q for q in nums if q] if R.random() < .8 else nums)))
            elif x < .8 and len(nums) < 16:
                m = R.choice([q for q in range(16) if q not in nums]); t = mu.build(rand_track(R))
                k.add(m, t + [mu.S.EndTrackSequenceEvent()] * R.randrange(2))
            elif x < .82: k.reorder(R)
            elif x < .84:
                k.edit(lambda: k.music.tracks[n].events.insert(R.randrange(len(k.music.tracks[n].events) + 1), mu.make(ev(R.randrange(128), [R.randrange(128), 0, 24]))))
            elif x < .87: k.print()
            elif x < .95: k.save()
            else:
                k.save()
                if k.dead() or zero and 0 not in nums: break
                if whole(k.E[-1]['evs']): k.file()
                if not k.dead(): k.open()
        if not k.dead() and k.music.tracks:
            k.save()
            if not k.dead() and (0 in k.music.tracks or not zero):
                if whole(k.E[-1]['evs']): k.file()
                if not k.dead(): k.open()
    for i in range(ctx.scale(700, 8000)): history(i, True)
    for i in range(ctx.scale(200, 2000)): history(i, False)           # no track 0
    large.run(ctx, large.Song)


def whole(evs):
    ids = {e['id'] for e in evs}
    return all(r in ids for e in evs for r in e['ref']) and reachable(positions(evs))


def lead(evs):
    for i, e in enumerate(evs):
        if e['k'] <= 0x80: return evs[:i]
    return evs
