"""C32: minifying banks and wave archives for songs."""
import copy
from vf import num, opt, IllTyped
from props.muslib import Music
from props.seqlib import ev
from props import large
TRACE = 'MinifyTrace'
P6 = ['pitch', 'attack', 'decay', 'sustain', 'release', 'pan']


def run(ctx):
    from ndspy import soundBank as B, soundWave as W, soundWaveArchive as A
    mu = Music(); M, S = mu.M, mu.S; R = ctx.rng
    cases = ctx.cases('MCMinify', ctx.scale('MCMinify.cfg', 'MCMinifyT.cfg'))
    if ctx.tier == 'thorough': cases = R.sample(cases, min(len(cases), 12000))

    def o_note(n): return {'w': num(n.waveID), 'ar': num(n.waveArchiveIDID), 'p': [num(getattr(n, p)) for p in P6], 'type': num(int(n.type))}
    def o_inst(x):
        r = {'k': 1, 'first': 0, 'ends': [], 'notes': [], 'key': num(x.bankOrderKey), 'merge': num(x.dataMergeOptimizationID)}
        if type(x) is B.SingleNoteInstrument: r['notes'] = [o_note(x.noteDefinition)]
        elif type(x) is B.RangeInstrument: r['k'] = 16; r['first'] = num(x.firstPitch); r['notes'] = [o_note(n) for n in x.noteDefinitions]
        elif type(x) is B.RegionalInstrument: r['k'] = 17; r['ends'] = [num(g.lastPitch) for g in x.regions]; r['notes'] = [o_note(g.noteDefinition) for g in x.regions]
        else: raise IllTyped(f'instrument {type(x).__name__}')
        return r
    def o_bank(o):
        ks = sorted(o.inaccessibleInstruments, key=lambda k: -1 if k is None else k)
        return {'insts': [opt(x, o_inst) for x in o.instruments], 'unk': num(o.unk02), 'wars': [opt(x, num) for x in o.waveArchiveIDs],
                'inacc': [{'after': opt(k, num), 'insts': [o_inst(x) for x in o.inaccessibleInstruments[k]]} for k in ks]}
    def o_events(l): return [{'k': d['k'], 'a': d['a'], 'raw': d['raw']} for d in mu.obs(l)]
    def m_note(n): return B.NoteDefinition(n['w'], n['ar'], *n['p'], n['type'])
    def m_inst(x, share):
        """share: pool of definitions already made, or None"""
        ns = []
        for n in x['notes']:
            old = [o for q, o in share or [] if q == n]
            ns.append(old[0] if old and R.random() < .7 else m_note(n))
            if share is not None and not old: share.append((n, ns[-1]))
        if x['k'] == 1: i = B.SingleNoteInstrument(ns[0])
        elif x['k'] == 16: i = B.RangeInstrument(x['first'], ns)
        else: i = B.RegionalInstrument([B.RegionalInstrument.Region(e, n) for e, n in zip(x['ends'], ns)])
        i.bankOrderKey = x['key']; i.dataMergeOptimizationID = x['merge']
        return i

    def case(name, bank, song, sizes, how, again):
        mu.reset()
        E = ctx.trace(name)['ev']
        made = []
        insts = []
        pool = R.choice([None, []])
        for x in bank['insts']:
            same = [q for q, o in made if x and q == x[0] and R.random() < .3]
            if not x: insts.append(None)
            elif same: insts.append(next(o for q, o in made if q == x[0]))
            else: o = m_inst(x[0], pool); made.append((x[0], o)); insts.append(o)
        o = B.SBNK.fromInstruments(insts, bank['unk'], [w[0] if w else None for w in bank['wars']])
        for q in bank['inacc']: o.inaccessibleInstruments[q['after'][0] if q['after'] else None] = [m_inst(x, None) for x in q['insts']]
        if R.random() < .3: o = B.SBNK(o.save()[0], bank['unk'], waveArchiveIDs=[w[0] if w else None for w in bank['wars']])
        wid = {}
        swars = []
        for n in sizes:
            s = A.SWAR(); s.waves = [W.SWAV() for _ in range(n)]; swars.append(s)
            for w in s.waves: wid[id(w)] = len(wid) + 1
        keep = [list(s.waves) for s in swars]
        arg = swars if sizes or R.random() < .5 else None
        lists = [mu.build([{**e, 'ref': []} for e in t]) for t in song]
        if R.random() < .3:                     # events used more than once: in a track, in several tracks
            for l, t in zip(lists, song):
                for i in range(len(l)):
                    for j in range(i):
                        if t[j] == t[i] and R.random() < .5: l[i] = l[j]
            if R.random() < .5 and len(lists) < 16:
                j = R.randrange(len(lists)); i = R.randrange(len(lists) + 1)
                lists.insert(i, list(lists[j])); song = song[:i] + [song[j]] + song[i:]
        seqs = None; music = None
        if how == 'sseq':
            if len(lists) > 1: how = 'sseqs'
        if how in ('sseq', 'sseqs'):
            seqs = []
            for l in lists:
                q = S.SSEQ(); q.events = l + [S.EndTrackSequenceEvent()] * bool(l or R.random() < .5)
                if q.events and R.random() < .5: q = S.SSEQ(q.save()[0])
                seqs.append(q)
            if how == 'sseqs' and R.random() < .15: j = R.randrange(len(seqs)); seqs.append(seqs[j]); song = song + [song[j]]
        if how == 'music':
            q = S.SSEQ(); q.events = lists[0] + [S.EndTrackSequenceEvent()]
            music = M.SSEQMusic(q, o, arg)
            music.tracks.clear()
            for i, l in zip(sorted(R.sample(range(16), len(lists))), lists): music.tracks[i] = M.SSEQMusic.Track(l)
        def events():
            if seqs: return [o_events([e for e in q.events if not isinstance(e, S.EndTrackSequenceEvent)]) for q in seqs]
            if music: return [o_events(music.tracks[i].events) for i in sorted(music.tracks)]
            return [o_events(l) for l in lists]
        def look():
            return {'bank': o_bank(o), 'waves': [[wid.get(id(w), 0) for w in s.waves] for s in swars], 'song': events()}
        E.append({'op': 'given', 'bank': o_bank(o), 'waves': [[wid[id(w)] for w in s.waves] for s in swars], 'song': [[{'k': e['k'], 'a': e['a'], 'raw': list(e['raw'])} for e in t] for t in song]})
        for i in range(again):
            def go():
                a = () if arg is None and R.random() < .5 else (arg,)
                if how == 'events': M.minifyByEvents(iter([e for l in lists for e in l]), o, *a)
                elif how == 'sseq': M.minifyBySseq(seqs[0], o, *a)
                elif how == 'sseqs': M.minifyBySseqs(seqs, o, *a)
                else: music.minify()
            exc, _ = ctx.call(go)
            E.append({'op': 'minify', 'exc': exc, **({'bank': bank, 'waves': [], 'song': []} if exc else look())})
            if exc: return
        if all(x is None or type(x) is not B.RegionalInstrument or x.regions for x in o.instruments):
            exc, b = ctx.call(lambda: o_bank(B.SBNK(o.save()[0])))
            E.append({'op': 'file', 'exc': exc, 'bank': bank if exc else b})

    for c in cases:
        case('case ' + str(c), c['bank'], c['song'], [3] * c['nw'], R.choice(['events', 'sseq', 'sseqs', 'music']), R.choice([1, 1, 2]))

    def note(sizes):
        ty = R.choice([1, 1, 1, 1, 2, 3])
        ar = R.randrange(4)
        n = sizes[ar] if ar < len(sizes) else 5
        if not n and ty == 1: ty = 2
        return {'w': R.randrange(n) if ty == 1 else R.randrange(8), 'ar': ar, 'p': [R.randrange(128) for _ in range(6)], 'type': ty}
    def inst(sizes):
        k = R.choice([1, 16, 17])
        x = {'k': k, 'first': 0, 'ends': [], 'notes': [note(sizes)], 'key': R.choice([0, 0, R.randrange(5)]), 'merge': R.choice([0, 0, 1])}
        if k == 16:
            n = R.choice([1, 2, 5, 12, 30]); x['first'] = R.randrange(1, 90); x['notes'] = [note(sizes) for _ in range(n)]
        if k == 17:
            n = R.choice([1, 2, 3, 8]); x['ends'] = sorted(R.sample(range(0, 127), n - 1)) + [127]; x['notes'] = [note(sizes) for _ in range(n)]
        if R.random() < .5:
            for i in range(1, len(x['notes'])):
                if R.random() < .5: x['notes'][i] = copy.deepcopy(x['notes'][R.randrange(i)])
        return x
    def pitch(b, i):
        x = b['insts'][i]
        if x and R.random() < .8:
            x = x[0]
            if x['k'] == 16: return R.randrange(x['first'], x['first'] + len(x['notes']))
            if x['k'] == 17: return min(127, max(0, R.choice(x['ends']) + R.randrange(-1, 2)))
        return R.randrange(128)
    for i in range(ctx.scale(600, 6000)):
        sizes = [R.choice([1, 3, 8, 20]) for _ in range(R.choice([0, 1, 2, 4]))]
        ni = R.choice([1, 2, 4, 8])
        b = {'insts': [[] if R.random() < .15 else [inst(sizes)] for _ in range(ni)], 'inacc': [], 'unk': R.randrange(100), 'wars': [[R.randrange(9)] for _ in range(R.choice([0, 2]))]}
        if ni > 1 and R.random() < .3: b['insts'][R.randrange(ni)] = copy.deepcopy(b['insts'][R.randrange(ni)])
        if R.random() < .2: b['inacc'] = [{'after': [], 'insts': [inst(sizes)]}]
        song = []
        for _ in range(R.choice([1, 1, 2, 4])):
            cur = R.randrange(ni); t = [ev(0xC0, [3]), ev(0x81, [R.randrange(3), cur])]
            for _ in range(R.choice([0, 1, 3, 10])):
                if R.random() < .25: cur = R.randrange(ni); t.append(ev(0x81, [R.randrange(3), cur]))
                elif R.random() < .15: t.append(ev(0x80, [5]))
                else: t.append(ev(pitch(b, cur), [R.randrange(128), 0, 5]))
            song.append(t if R.random() < .9 else [])
        case('random %d' % i, b, song, sizes, R.choice(['events', 'sseq', 'sseqs', 'music']), R.choice([1, 1, 2, 3]))
    large.run(ctx, large.Minified)
