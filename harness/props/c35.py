"""C35: what str() of an object says."""
from vf import big, boolean, num, opt, IllTyped
from props import seqlib
TRACE = 'ListingTrace'
PLAIN = 'abcdefghijklmnopqrstuvwxyzABCXYZ0123456789 .-'


def run(ctx):
    R = ctx.rng
    from ndspy import Alignment, WaveType, rom, narc, fnt, bmg, code, bnbl, bncl, texture, soundArchive, soundBank as sb, soundGroup as sg, soundSequence as sq
    from ndspy import soundSequenceArchive as sa, soundSequencePlayer as sp, soundStream as ss, soundStreamPlayer as st, soundWave as sw, soundWaveArchive as wa

    def lines(t):
        if not isinstance(t, str) or '~' in t or '_' in t: raise IllTyped(repr(t)[:80])
        return t.replace('♯', '~').replace('͵', '_').split('\n')
    E = []
    def show(what, o, x, text=str):
        """x: the object; o: what it holds."""
        exc, r = ctx.call(lambda: lines(text(x)))
        if len(E) % 20 == 0: E[:] = [ctx.trace(what)['ev']]
        E[0].append({'op': 'show', 'what': what, 'o': o, 'exc': exc, 'lines': [] if exc else r}); E.append(0)
        return exc

    # ---- lists of events
    L = seqlib.Lib()
    def given(objs):
        return [f"<raw data b'{x.data.decode()}'>" if isinstance(x, sq.RawDataSequenceEvent) else '' for x in objs]
    def position(objs, x):
        return next((i + 1 for i, y in enumerate(objs) if y is x), -1)
    def listing(objs, labels, prefix):
        return {'evs': L.listing(objs), 'given': given(objs), 'labels': [{'n': opt(n, str), 'at': 0 if x is None else position(objs, x)} for n, x in labels.items()], 'prefix': prefix}
    def build(evs):
        out = sq.RestSequenceEvent(77)
        objs = [L.make(e) for e in evs]
        for o, e in zip(objs, evs):
            if e['ref']:
                t = objs[e['ref'][0] - 1] if e['ref'][0] else out
                if e['k'] == 0x93: o.firstEvent = t
                else: o.destination = t
        return objs, out
    def listed(objs, labels, prefix):
        o = listing(objs, labels, prefix)
        def text(x):
            t = sq.printSequenceEventList(x, labels, prefix) if labels or prefix or R.random() < .5 else sq.printSequenceEventList(x)
            return t
        exc, r = ctx.call(lambda: lines(text(objs)))
        ctx.trace('event list')['ev'].append({'op': 'show', 'what': 'list', 'o': o, 'exc': exc, 'lines': [] if exc or (r == [''] and not objs) else r})
    for c in ctx.cases('MCListing', ctx.scale('MCListing.cfg', 'MCListingT.cfg')):
        objs, out = build(c['evs'])
        labels = {(l['n'][0] if l['n'] else None): (None if l['at'] == 0 else out if l['at'] < 0 else objs[l['at'] - 1]) for l in c['ls']}
        listed(objs, labels, '  ')
    kinds = ['note', 'note', 'rest', 'simple', 'simple', 'arith', 'inst', 'rand', 'var', 'word', 'def', 'loop', 'if', 'end', 'ret', 'raw', 'track', 'jump', 'call']
    word = lambda n=9: ''.join(R.choice(PLAIN) for _ in range(R.randrange(1, n)))
    def program(n=None):
        n = n or R.choice([1, 2, 3, 9, 10, 11, 12, 30, 100, 101])
        evs = [seqlib.rand_event(R, n, ops=kinds) for _ in range(n)]
        for e in evs:
            if e['ref'] and R.random() < .1: e['ref'] = [0]
            if e['k'] == -1: e['raw'] = list(word().encode())         # characters that print as they are
        objs, out = build(evs)
        if R.random() < .2: objs.insert(R.randrange(len(objs)), R.choice(objs))
        return objs, out
    for _ in range(ctx.scale(150, 1500)):
        objs, out = program()
        labels = {R.choice([None, word(), word(30), word(120)]): R.choice([None, out] + 8 * [R.choice(objs)]) for _ in range(R.choice([0, 0, 1, 2, 3, 12]))}
        listed(objs, labels, R.choice(['', ' ', '    ', '> ']))
    for _ in range(ctx.scale(80, 800)):
        objs, out = program()
        if R.random() < .1: objs = []
        q = sq.SSEQ.fromEvents(objs, 0, *[R.randrange(99) for _ in range(5)])
        f = {'bank': q.bankID, 'volume': q.volume, 'cp': q.channelPressure, 'pp': q.polyphonicPressure, 'player': q.playerID}
        show('sseq', {**listing(objs, {}, '  '), **f}, q)
        names = {word(): R.choice(objs + [None]) for _ in range(R.randrange(4))} if objs else {}
        show('ssar', listing(objs, names, '    '), sa.SSAR.fromEventsAndSequences(objs, [(n, sa.SSARSequence(x)) for n, x in names.items()]))
        s = sa.SSARSequence(None, R.randrange(99), R.randrange(99), 1, 2, R.randrange(99), parsed=R.random() < .5) if R.random() < .5 else sa.SSARSequence(sq.EndTrackSequenceEvent())
        show('ssar sequence', {'parsed': boolean(s.parsed), 'bank': s.bankID, 'volume': s.volume, 'player': s.playerID}, s)
        try: data, r = q.save()[0], None
        except Exception: continue
        q2 = sq.SSEQ(data, *[R.randrange(99) for _ in range(6)])
        show('sseq unparsed', {'bank': q2.bankID, 'volume': q2.volume, 'cp': q2.channelPressure, 'pp': q2.polyphonicPressure, 'player': q2.playerID}, q2)
        seqs = [(R.choice([None, word()]), sa.SSARSequence(R.choice(objs + [None]) if objs else None)) for _ in range(R.randrange(4))]
        try: data, names = sa.SSAR.fromEventsAndSequences(objs, seqs).save()[0], [n for n, _ in seqs]
        except Exception: continue
        show('ssar unparsed', {'names': [str(n) for n in names]}, sa.SSAR(data, names=names))
    for k in range(256):
        evs = [seqlib.ev(k, [v, f, d]) for v, f, d in ((0, 0, 0), (127, 1, 1000))] if k < 128 else [seqlib.ev(k, [v]) for v in range(256)] if k in seqlib.SIMPLE else []
        if k in (0xC7, 0xCC): evs = evs[:{0xC7: 2, 0xCC: 3}[k]]
        for e in evs: show('event', e, L.make(e))
    for _ in range(ctx.scale(600, 6000)):
        e = seqlib.rand_event(R, 0, ops=[x for x in kinds if x not in ('raw', 'track', 'jump', 'call')])
        show('event', e, L.make(e, set_later=R.random() < .3))

    # ---- other objects
    H = [Alignment.LEFT, Alignment.H_CENTER, Alignment.RIGHT]; Vv = [Alignment.TOP, Alignment.V_CENTER, Alignment.BOTTOM]
    u8 = lambda: R.choice([0, 1, 9, 10, 127, 255, R.randrange(256)])
    flag = lambda: R.random() < .5
    few = lambda f: [f() for _ in range(R.choice([0, 1, 2, 3, 9, 10, 11, 12, 20]))]
    def area():
        h, v = R.randrange(3), R.randrange(3)
        a = {'h': h, 'v': v, 'x': R.randrange(300), 'y': R.randrange(240), 'w': R.choice([0, 1, 7, 8, R.randrange(256)]), 't': R.choice([0, 1, 15, 16, R.randrange(200)])}
        return a, bnbl.BNBLTouchArea(a['x'], a['y'], a['w'], a['t'], H[h] | Vv[v])
    def pos():
        h, v = R.randrange(3), R.randrange(3)
        a = {'h': h, 'v': v, 'x': R.randrange(300), 'y': R.randrange(240), 'id': R.randrange(99)}
        return a, bncl.BNCLImagePosition(a['x'], a['y'], H[h] | Vv[v], a['id'])
    def wave():
        w = {'type': R.randrange(3), 'rate': R.randrange(65536), 'loop': flag()}
        return w, sw.SWAV.fromData(b'', waveType=WaveType(w['type']) if flag() else w['type'], sampleRate=w['rate'], isLooped=w['loop'])
    def note():
        d = {'pitch': R.randrange(128), 'type': R.choice([1, 1, 2, 3]), 'wave': R.randrange(9), 'swar': R.randrange(4)}
        return d, sb.NoteDefinition(d['wave'], d['swar'], d['pitch'], type=sb.NoteType(d['type']))
    def region():
        d, x = note(); p = R.randrange(128)
        return {'last': p, 'def': d}, sb.RegionalInstrument.Region(p, x)
    def inst():
        ty = R.choice(['none', 'single', 'range', 'regional'])
        ds = [note() for _ in range(1 if ty == 'single' else R.randrange(1, 5))]; first = R.randrange(120); lasts = sorted(R.sample(range(128), len(ds)))
        if flag(): lasts[-1] = 127
        o = {'ty': ty, 'first': first, 'lasts': lasts, 'defs': [d for d, _ in ds]}; xs = [x for _, x in ds]
        return o, (None if ty == 'none' else sb.SingleNoteInstrument(xs[0]) if ty == 'single' else sb.RangeInstrument(first, xs) if ty == 'range' else sb.RegionalInstrument([sb.RegionalInstrument.Region(l, x) for l, x in zip(lasts, xs)]))
    def section():
        s = {'at': big(R.choice([0, 0x2000000, 0xFFFFFFFF, R.randrange(1 << 32)])), 'data': word(40) * R.randrange(2), 'implicit': flag()}
        return s, code.MainCodeFile.Section(s['data'].encode(), int.from_bytes(bytes(s['at']), 'little'), 0, implicit=s['implicit'])
    split = lambda ps: ([a for a, _ in ps], [b for _, b in ps])
    def folder(d=2):
        fs = [(word(), folder(d - 1)) for _ in range(R.randrange(3) if d else 0)]; files = [word() for _ in range(R.randrange(4))]; i = R.choice([0, 3, 99, 9998, R.randrange(60000)]) if flag() else R.randrange(5)
        return {'id': i, 'files': files, 'folders': [{'n': n, 'f': f} for n, (f, _) in fs]}, fnt.Folder([(n, x) for n, (_, x) in fs], list(files), i)
    for _ in range(ctx.scale(60, 600)):
        show('area', *area()); show('position', *pos()); show('swav', *wave()); show('def', *note()); show('region', *region()); show('section', *section())
        o, x = inst()
        if x is not None: show('instrument', o, x)
        os_, xs = split(few(area)); u = R.choice([0, 0, R.randrange(65536)]); show('bnbl', {'unk': u, 'items': os_}, bnbl.BNBL.fromTouchAreas(xs, u))
        os_, xs = split(few(pos)); show('bncl', {'unk': u, 'items': os_}, bncl.BNCL.fromImagePositions(xs, u))
        os_, xs = split(few(wave)); show('swar', {'items': os_}, wa.SWAR.fromWaves(xs))
        os_, xs = split(few(inst)); ids = few(u8)[:4]; show('sbnk', {'items': os_, 'swars': ids}, sb.SBNK.fromInstruments(xs, 0, list(ids)))
        os_, xs = split(few(section)); at = R.randrange(1 << 32); show('code', {'at': big(at), 'items': os_}, code.MainCodeFile.fromSections(xs, at))
        o = ss.STRM(); n = R.randrange(4); b = [R.randrange(3) for _ in range(R.randrange(4))] if flag() else [n] * R.randrange(4)
        o.channels = [[b''] * k for k in b]; o.volume, o.sampleRate, o.isLooped, o.waveType = u8(), R.randrange(65536), flag(), WaveType(R.randrange(3))
        show('strm', {'type': int(o.waveType), 'rate': o.sampleRate, 'loop': o.isLooped, 'blocks': b, 'volume': o.volume}, o)
        t, m = R.choice(list(sg.GroupEntryType)), sg.SWARLoadMethod.SWAR_IDS      # (the other method is not shown)
        g = sg.GroupEntry.fromFlags(t, u8(), flag(), m, flag(), flag())
        show('group', {'type': int(t), 'id': g.id, 'sseq': boolean(g.loadSSEQ), 'swar': boolean(g.loadSWAR), 'ssar': boolean(g.loadSSAR)}, g)
        ch = R.sample(range(16), R.randrange(17)); p = sp.SequencePlayer(u8(), set(ch), R.randrange(1 << 31)); show('player', {'max': p.maxSequences, 'channels': sorted(ch), 'heap': p.heapSize}, p)
        show('streamplayer', {'channels': ch}, st.StreamPlayer(list(ch)))
        o = soundArchive.SDAT(); cs = [R.choice([0, 1, 2, 12]) for _ in range(8)]
        for n, a in zip(cs, ('sequences', 'sequenceArchives', 'banks', 'waveArchives', 'sequencePlayers', 'groups', 'streamPlayers', 'streams')): setattr(o, a, [(None, None)] * n)
        show('sdat', {'counts': cs}, o)
        f = R.randrange(4); at = R.randrange(1 << 32); o = code.Overlay(b'', at, 0, 0, 0, 0, u8(), 0, f); show('overlay', {'at': big(at), 'file': o.fileID, 'compressed': bool(f & 1), 'verify': bool(f & 2)}, o)
        names, x = folder(); files = [word(30) if flag() else '' for _ in range(R.choice([0, 1, 5, 20]))]
        o = narc.NARC.fromFilesAndNames([v.encode() for v in files], x); o.endiannessOfBeginning = R.choice('<<>'); show('narc', {'names': names, 'files': files, 'big': o.endiannessOfBeginning == '>'}, o)
        w, h, f = R.choice([8, 64, 1024]), R.choice([8, 128]), R.randrange(8); o = texture.Texture.fromFlags(0, 0, False, False, False, False, w, h, texture.TextureFormat(f), False, 0, 0, b'', b'')
        if flag(): o.format = f
        show('texture', {'format': f, 'w': w, 't': h}, o)
        cs = [[R.randrange(32) for _ in range(3)] + [R.randrange(2)] for _ in range(R.choice([0, 1, 4, 19, 20, 21, 40]))]; show('palette', {'colors': cs}, texture.Palette.fromColors(0, 0, 0, [tuple(c) for c in cs]))
        o = rom.NintendoDSRom(); nm = R.choice(['', ' ']) + word(9) + R.choice(['', '   ']); cd = ''.join(R.choice('ABCD2') for _ in range(4)); o.name, o.idCode = nm.encode(), cd.encode(); show('rom', {'name': nm, 'code': cd}, o)
        o = bmg.BMG.fromMessages([bmg.Message()] * R.randrange(4), scripts=[(1, 2)] * R.randrange(3), id=R.randrange(1 << 31)); show('bmg', {'id': o.id, 'messages': len(o.messages), 'scripts': len(o.scripts)}, o)
        parts = [{'esc': flag(), 'type': u8(), 'data': list(R.randbytes(R.randrange(4))), 'text': word()} for _ in range(R.randrange(5))]
        esc = lambda p: bmg.Message.Escape(p['type'], bytes(p['data']))
        show('message', {'parts': parts}, bmg.Message(b'', [esc(p) if p['esc'] else p['text'] for p in parts]))
        p = {'esc': True, 'type': u8(), 'data': list(R.randbytes(R.randrange(4))), 'text': ''}; show('escape', p, esc(p))
    for a in range(3):
        for b in range(3):
            for w in (8, 40, 255):
                o = {'h': a, 'v': b, 'x': 100, 'y': 100, 'w': w, 't': 40}; show('bnbl', {'unk': 0, 'items': [o]}, bnbl.BNBL.fromTouchAreas([bnbl.BNBLTouchArea(100, 100, w, 40, H[a] | Vv[b])]))
    # long lists
    for n in (999, 1000, 1001, 1300):
        objs, out = program(n)
        listed(objs, {word(): x for x in objs[::400]}, '  ')
