"""C30: data of the wrong type or version is refused; values that cannot be stored are refused."""
import copy, itertools, struct
from vf import bts
from props import objlib, seqlib, romlib, texlib
TRACE = 'RefuseTrace'


def run(ctx):
    R = ctx.rng
    T = objlib.types()
    from ndspy import rom, narc, bmg, fnt, code, bnbl, bncl, texture, model, lz10, graphics2D as g2, WaveType
    from ndspy import soundArchive, soundSequence as sq, soundSequenceArchive as sa, soundBank as sb, soundWaveArchive as wa, soundWave as sw, soundStream as ss
    from ndspy import soundGroup as sg, soundSequencePlayer as sp, soundStreamPlayer as st
    from ndspy.texture import Texture, Palette, TextureFormat

    # ---- opening
    openers = {'narc': narc.NARC, 'bmg': bmg.BMG, 'lz10': lz10.decompress, 'sdat': soundArchive.SDAT, 'sbnk': sb.SBNK, 'sseq': sq.SSEQ, 'ssar': sa.SSAR,
               'strm': ss.STRM, 'swav': sw.SWAV, 'swar': wa.SWAR, 'nsbtx': texture.NSBTX, 'nsbmd': model.NSBMD, 'bnbl': bnbl.BNBL, 'bncl': bncl.BNCL}
    def valid(ty, small=True):
        for _ in range(60):
            d = lz10.compress(R.randbytes(R.randrange(1, 30))) if ty == 'lz10' else bytes(T[ty].save(T[ty].make(R))[0])
            if (not small or len(d) < 900) and not ctx.call(lambda: openers[ty](d))[0]: return d
        return None
    def sweep(ty, d, off, w):
        acc = []
        for v in itertools.product(range(256), repeat=w) if w < 3 else ():
            x = d[:off] + bytes(v) + d[off + w:]
            if ctx.call(lambda: openers[ty](x))[0] in ('', 'HANG'): acc.append(list(v))
        ctx.trace(f'{ty} values at {off}')['ev'].append({'op': 'sweep', 'ty': ty, 'd': bts(d), 'off': off, 'w': w, 'acc': acc})
    INNER = {'narc': lambda d: [16, *(o := [16 + U(d, 20)]), o[0] + U(d, o[0] + 4)], 'strm': lambda d: [16, 16 + U(d, 20)], 'sdat': lambda d: [o for o in (U(d, 16), U(d, 24), U(d, 32)) if o],
             'nsbtx': lambda d: [20], 'nsbmd': lambda d: [U(d, 16 + 4 * i) for i in range(struct.unpack_from('<H', d, 14)[0])], 'bmg': lambda d: parts(d),
             **{t: (lambda d: [16]) for t in ('sbnk', 'ssar', 'swav', 'swar')}}
    U = lambda d, o: struct.unpack_from('<I', d, o)[0]
    def parts(d):
        se = '<' if U(d, 12) < 9 else '>'
        off, out = 32, []
        for _ in range(struct.unpack_from(se + 'I', d, 12)[0]): out.append(off); off += struct.unpack_from(se + 'I', d, off + 4)[0]
        return out
    for ty in sorted(openers):
        for _ in range(ctx.scale(2, 10)):
            d = valid(ty)
            if d is None: continue
            for off in range({'lz10': 1, 'bmg': 8}.get(ty, 4)): sweep(ty, d, off, 1)
            for base in INNER.get(ty, lambda d: [])(d):
                for i in range(4): sweep(ty, d, base + i, 1)
            if ty == 'bmg': sweep(ty, d, 16, 1)
        if ty not in ('lz10', 'bmg', 'bnbl', 'bncl'):
            d = valid(ty); n = 0
            if ty == 'narc':
                for e in '<>':
                    o = T['narc'].make(R); o.endiannessOfBeginning = e; sweep(ty, o.save(), 6, 2)
            elif d: sweep(ty, d, 6, 2)
    def attempt(ty, d, whole=False):
        exc, _ = ctx.call(lambda: openers[ty](d))
        return {'op': 'open', 'ty': ty, 'd': bts(d), 'exc': exc, 'whole': whole}
    for ty in sorted(openers):
        for _ in range(ctx.scale(6, 60)):
            d = valid(ty)
            if d is None: continue
            E = ctx.trace(f'{ty} given to all')['ev']
            for other in sorted(openers):
                # (random data may look like LZ10; only its first byte marks it)
                E.append(attempt(other, d, other == ty))
            head = {'bnbl': 8, 'bncl': 8, 'lz10': 4, 'bmg': 32}.get(ty, 16)
            for n in range(head): E.append(attempt(ty, d[:n]))
            m = d[:4]
            for x in (m[::-1], m.lower(), m.swapcase(), bytes(4), m[:3] + b' ', b'\0' + m[:3], R.randbytes(4)):
                if x != m: E.append(attempt(ty, x + d[4:]))
            E.append(attempt(ty, b'\0' + d)); E.append(attempt(ty, d[1:])); E.append(attempt(ty, R.randbytes(len(d))))

    # ---- numbers in fields
    L = seqlib.Lib()
    def attr(name): return (lambda o, v: setattr(o, name, v)), (lambda o: getattr(o, name))
    def at(path, name): return (lambda o, v: setattr(path(o), name, v)), (lambda o: getattr(path(o), name))
    def until(make, ok):
        def f():
            for _ in range(500):
                o = make(R)
                if ok(o): return o
            raise AssertionError('no such object')
        return f
    F = {}
    def field(key, make, sg, save, load): F[key] = (make, *sg, save, load)
    def simple(t, names, ok=lambda o: True):
        for n in names: field(f'{t}.{n}', until(T[t].make, ok), attr(n), T[t].save, T[t].load)
    simple('rom', romlib.H8 + list(romlib.W32.values()) + list(romlib.W16.values()))
    simple('fnt', ['firstID'])
    field('narc.firstID', until(T['narc'].make, lambda o: o.files), at(lambda o: o.filenames, 'firstID'), T['narc'].save, T['narc'].load)
    simple('bmg', ['id', 'unk14', 'unk18', 'unk1C'])
    def mk_bmg():
        o = bmg.BMG.fromMessages([bmg.Message(b'', ['a', bmg.Message.Escape(3, b'xy'), 'b'])], [bytes([1]) * 8], [(5, 6)], [(7, 8)])
        o.encoding = R.choice(['utf-16', 'utf-8', 'cp1252', 'shift-jis']); o.endianness = R.choice('<>')
        return o
    B = T['bmg'].save, T['bmg'].load
    field('bmg.escapeType', mk_bmg, at(lambda o: o.messages[0].stringParts[1], 'type'), *B)
    def pair(lst, k):
        def s(o, v): x = list(getattr(o, lst)[0]); x[k] = v; getattr(o, lst)[0] = tuple(x)
        return s, lambda o: getattr(o, lst)[0][k]
    field('bmg.labelID', mk_bmg, pair('labels', 0), *B); field('bmg.labelIndex', mk_bmg, pair('labels', 1), *B)
    field('bmg.scriptID', mk_bmg, pair('scripts', 0), *B); field('bmg.scriptIndex', mk_bmg, pair('scripts', 1), *B)
    mk_ovs = lambda: {i: code.Overlay(b'x', 1, 2, 3, 4, 5, 6, 7, 1) for i in R.sample(range(9), 2)}
    ovs = lambda o: code.saveOverlayTable(o), lambda s: code.loadOverlayTable(s, lambda i, f: b'x')
    for n in ('ramAddress', 'ramSize', 'bssSize', 'staticInitStart', 'staticInitEnd', 'fileID', 'flags'): field(f'overlay.{n}', mk_ovs, at(lambda o: o[min(k for k in o)], n), *ovs)
    field('overlay.overlayID', lambda: {5: code.Overlay(b'x', 1, 2, 3, 4, 5, 6, 7, 1)}, (lambda o, v: o.__setitem__(v, o.pop(5)), lambda o: list(o)[0]), *ovs)
    C = lambda o: o.save(), lambda s: code.MainCodeFile(s, 0x2000000)
    def mk_code():
        S = code.MainCodeFile.Section
        o = code.MainCodeFile.fromSections([S(R.randbytes(0x200), 0x2000000, 0, implicit=True), S(R.randbytes(8), 0x2100000, 3), S(R.randbytes(12), 0x2200000, 4)], 0x2000000)
        o.codeSettingsOffs = 0x100
        return o
    for n in ('ramAddress', 'bssSize'): field(f'code.{n}', mk_code, at(lambda o: o.sections[1], n), *C)
    simple('bnbl', ['unk04']); simple('bncl', ['unk04'])
    for n in ('width', 'height'): field(f'bnbl.{n}', until(T['bnbl'].make, lambda o: o.touchAreas), at(lambda o: o.touchAreas[-1], n), T['bnbl'].save, T['bnbl'].load)
    field('bncl.imageID', until(T['bncl'].make, lambda o: o.imagePositions), at(lambda o: o.imagePositions[-1], 'imageID'), T['bncl'].save, T['bncl'].load)
    both = lambda o: o.textures and o.palettes
    simple('nsbtx', ['unk08', 'unk10', 'unk18', 'unk20', 'unk2C', 'unk32']); simple('nsbmd', ['texUnk08', 'texUnk10', 'texUnk18', 'texUnk20', 'texUnk2C', 'texUnk32'])
    for t in ('nsbtx', 'nsbmd'):
        for n in ('unk00', 'unk02', 'unk04'): field(f'{t}.tex.{n}', until(T[t].make, both), at(lambda o: o.textures[0][1], n), T[t].save, T[t].load)
        for n in ('unk00', 'unk02', 'unkHeader02'): field(f'{t}.pal.{n}', until(T[t].make, both), at(lambda o: o.palettes[0][1], n), T[t].save, T[t].load)
    nd = lambda: sb.NoteDefinition(R.randrange(9), R.randrange(4), *[R.randrange(128) for _ in range(6)], 1)
    def mk_bank(): return sb.SBNK.fromInstruments(R.sample([sb.SingleNoteInstrument(nd()), sb.RangeInstrument(R.randrange(40), [nd() for _ in range(3)]), sb.RegionalInstrument([sb.RegionalInstrument.Region(x, nd()) for x in (30, 127)]), None], 4))
    pick = lambda o, c: next(i for i in o.instruments if isinstance(i, c))
    A = lambda o: o.save()[0], lambda s: sb.SBNK(s)
    for n in ('waveID', 'waveArchiveIDID', 'pitch', 'attack', 'decay', 'sustain', 'release', 'pan'):
        which = R.choice([lambda o: pick(o, sb.SingleNoteInstrument).noteDefinition, lambda o: pick(o, sb.RangeInstrument).noteDefinitions[1], lambda o: pick(o, sb.RegionalInstrument).regions[1].noteDefinition])
        field(f'sbnk.{n}', mk_bank, at(which, n), *A)
    # (pitches above 127, or regions out of order, do not come back as they are)
    field('sbnk.firstPitch', lambda: sb.SBNK.fromInstruments([sb.RangeInstrument(5, [nd()])]), at(lambda o: pick(o, sb.RangeInstrument), 'firstPitch'), *A)
    field('sbnk.lastPitch', lambda: sb.SBNK.fromInstruments([sb.RegionalInstrument([sb.RegionalInstrument.Region(60, nd())])]), at(lambda o: o.instruments[0].regions[0], 'lastPitch'), *A)
    for n in ('bankID', 'volume', 'channelPressure', 'polyphonicPressure', 'playerID'):
        field(f'ssar.{n}', until(T['ssar'].make, lambda o: o.sequences), at(lambda o: o.sequences[-1][1], n), T['ssar'].save, T['ssar'].load)
    simple('swav', ['sampleRate', 'time', 'totalLength'])
    simple('strm', ['sampleRate', 'time', 'unk03', 'loopOffset', 'samplesPerBlock', 'samplesInLastBlock', 'unk28', 'unk2C', 'unk30', 'unk34', 'unk38', 'unk3C', 'unk40', 'unk44'], lambda o: not o.channels or len(o.channels[0]) == 1)
    D = T['sdat'].save, T['sdat'].load
    def mk_sdat():
        o = soundArchive.SDAT()
        o.sequences = [('S', T['sseq'].make(R))]; o.sequenceArchives = [('A', T['ssar'].make(R))]; o.banks = [('B', mk_bank())]; o.waveArchives = [('W', T['swar'].make(R))]
        o.sequencePlayers = [('P', sp.SequencePlayer(1, {1, 4}, 5))]; o.groups = [('G', [sg.GroupEntry(sg.GroupEntryType.SSEQ, 2, 0), sg.GroupEntry(sg.GroupEntryType.SBNK, 2, 0)])]
        o.streamPlayers = [('Q', st.StreamPlayer([1, 2]))]; o.streams = [('T', T['strm'].make(R))]
        return o
    for lst, ns in (('sequences', ('unk02', 'bankID', 'volume', 'channelPressure', 'polyphonicPressure', 'playerID')), ('sequenceArchives', ('unk02',)), ('banks', ('unk02',)), ('waveArchives', ('unk02',)),
                    ('sequencePlayers', ('maxSequences', 'heapSize')), ('streams', ('unk02', 'volume', 'priority', 'playerID', 'unk07'))):
        for n in ns: field(f'sdat.{lst}.{n}', mk_sdat, at(lambda o, lst=lst: getattr(o, lst)[0][1], n), *D)
    field('sdat.groups.id', mk_sdat, at(lambda o: o.groups[0][1][1], 'id'), *D)
    field('sdat.streamPlayers.channel', mk_sdat, (lambda o, v: o.streamPlayers[0][1].channels.__setitem__(1, v), lambda o: o.streamPlayers[0][1].channels[1]), *D)
    def event(e):
        def make():
            o = sq.SSEQ.fromEvents([e(), sq.EndTrackSequenceEvent()]); return o
        return make
    def reload(s):
        o = sq.SSEQ(s); o.parse(); return o
    Q = lambda o: o.save()[0], reload
    first = lambda o: o.events[0]
    for k, n in seqlib.SIMPLE.items():
        if k in (0xC7, 0xC8, 0xCC, 0xCE): continue
        field('event.' + n, event(lambda k=k: L.cls[k](1)), at(first, 'loopCount' if k == 0xD4 else 'value'), *Q)
    for i, n in enumerate(seqlib.ARITH): field('event.' + n, event(lambda i=i: L.cls[0xB0 + i](1, 2)), at(first, 'value'), *Q)
    field('event.Random.randMin', event(lambda: sq.RandomSequenceEvent(0xC0, [], 1, 2)), at(first, 'randMin'), *Q)
    field('event.Random.randMax', event(lambda: sq.RandomSequenceEvent(0xC0, [], 1, 2)), at(first, 'randMax'), *Q)
    def begin():
        e = sq.EndTrackSequenceEvent(); return sq.SSEQ.fromEvents([sq.BeginTrackSequenceEvent(1, e), sq.EndTrackSequenceEvent(), e])
    field('event.BeginTrack.trackNumber', begin, at(first, 'trackNumber'), *Q)
    note = event(lambda: sq.NoteSequenceEvent(60, R.choice([100, 228]), 5))
    for n in ('pitch', 'velocity', 'duration'): field('event.Note.' + n, note, at(first, n), *Q)
    field('event.Rest.duration', event(lambda: sq.RestSequenceEvent(5)), at(first, 'duration'), *Q)
    field('event.InstrumentSwitch.bankID', event(lambda: sq.InstrumentSwitchSequenceEvent(1, 5)), at(first, 'bankID'), *Q)

    cases = ctx.cases('MCRefuse', ctx.scale('MCRefuse.cfg', 'MCRefuseT.cfg'))
    missing = {c['key'] for c in cases} ^ set(F)
    if missing: raise AssertionError(missing)
    for c in cases:
        make, put, get, save, load = F[c['key']]
        b = c['bits']; lo, hi = (0, 0) if b == 0 else (1 << b - 1, (1 << b) - 1)
        for v in sorted({lo, hi, R.randint(lo, hi)}):
            v = -1 - v if c['neg'] else v
            o = make(); put(o, v)
            exc, s = ctx.call(lambda: save(o))
            loadexc, same = '', True
            if not exc:
                loadexc, o2 = ctx.call(lambda: load(s))
                if not loadexc:
                    x, g = ctx.call(lambda: get(o2)); same = not x and g == v
            ctx.trace(f'{c["key"]} = {v}')['ev'].append({'op': 'field', 'key': c['key'], 'v': {'neg': c['neg'], 'bits': b}, 'exc': exc, 'loadexc': loadexc, 'same': same})

    # ---- other values
    stage = []
    def kept(s): stage.append(1); return s
    def store(key, n, do):
        """do() saves, and says whether the value came back."""
        stage.clear()
        exc, same = ctx.call(do)
        if exc and stage: exc, same = '', False       # it was written, but cannot be read
        ctx.trace(f'{key} {n}')['ev'].append({'op': 'store', 'key': key, 'n': list(n), 'exc': exc, 'same': bool(same) if not exc else True})
    def nsbtx(ts, ps): return texture.NSBTX.fromTexturesAndPalettes(0, 0, 0, 0, 0, 0, ts, ps)
    def tex(w, h, f=TextureFormat(1), d1=None, d2=b''):
        return Texture.fromFlags(0, 0, False, False, False, False, w, h, f, False, 0, 0, bytes(w * h) if d1 is None else d1, d2)
    sizes = [0, 1, 2, 4, 7, 8, 9, 12, 15, 16, 24, 32, 48, 64, 100, 128, 256, 384, 512, 1000, 1023, 1024, 1025, 2048, 4096, 16384]
    def tsize(w, h):
        t = tex(8, 8); t.width, t.height = w, h; t.data1 = bytes(w * h) if w * h <= 4096 else b''
        s = kept(nsbtx([('t', t)], []).save())
        if not t.data1: return True
        x = texture.NSBTX(s).textures[0][1]
        return (x.width, x.height) == (w, h)
    for w in sizes:
        for h in (8, 64): store('texture size', (w, h), lambda: tsize(w, h)); store('texture size', (h, w), lambda: tsize(h, w))
    for _ in range(ctx.scale(40, 400)):
        w, h = R.choice(sizes + [R.randrange(2000)]), R.choice(sizes + [R.randrange(2000)]); store('texture size', (w, h), lambda: tsize(w, h))
    def palette(n):
        cs = [tuple(R.randrange(32) for _ in range(3)) + (R.randrange(2),) for _ in range(n)]
        s = nsbtx([], [('p', Palette.fromColors(0, 0, 0, cs)), ('q', Palette.fromColors(0, 0, 0, [(1, 2, 3, 0)] * 4))]).save(); kept(s)
        return not n or list(texture.NSBTX(s).palettes[0][1].colors) == cs
    for n in range(ctx.scale(40, 300)): store('palette', (n,), lambda: palette(n))
    def blocks(a, b):
        t = tex(8, 8, TextureFormat.TEXELED, R.randbytes(a), R.randbytes(b)); nsbtx([('t', t)], []).save(); return True
    for a in range(0, 33, 2):
        for b in range(0, 17): store('block texture', (a, b), lambda: blocks(a, b))
    def named(n, k):
        nm = 'x' * n
        o = nsbtx([(nm, tex(8, 8))] if k == 0 else [], [(nm, Palette.fromColors(0, 0, 0, [(1, 2, 3, 0)] * 4))] if k else [])
        x = texture.NSBTX(kept(o.save())); return (x.palettes if k else x.textures)[0][0] == nm
    def many(n, k):
        o = nsbtx([(f't{i}', tex(8, 8)) for i in range(n)] if k == 0 else [], [(f'p{i}', Palette.fromColors(0, 0, 0, [(1, 2, 3, 0)] * 4)) for i in range(n)] if k else [])
        x = texture.NSBTX(kept(o.save())); return [m for m, _ in (x.palettes if k else x.textures)] == [f'{"tp"[k]}{i}' for i in range(n)]
    for n in (1, 127, 128, 254, 255, 256, 257, 300, 512):
        for k in (0, 1): store('texture count', (n,), lambda: many(n, k))
    for n in range(1, 40):
        for k in (0, 1): store('texture name', (n,), lambda: named(n, k))
    def swars(n):
        ids = [R.randrange(99) for _ in range(n)]
        o = soundArchive.SDAT(); o.banks = [('a', T['sbnk'].make(R))] * R.randrange(2) + [('B', sb.SBNK.fromInstruments([], 0, ids))]
        return soundArchive.SDAT(kept(o.save())).banks[-1][1].waveArchiveIDs == ids
    for n in range(20):
        for _ in range(3): store('wave archives', (n,), lambda: swars(n))
    def regions(n):
        o = sb.SBNK.fromInstruments([None] * R.randrange(2) + [sb.RegionalInstrument([sb.RegionalInstrument.Region(5 * i + 5, nd()) for i in range(n)])])
        return len(sb.SBNK(kept(o.save())[0]).instruments[-1].regions) == n
    for n in range(1, 25): store('regions', (n,), lambda: regions(n))
    def fname(n, k):
        nm = 'x' * n; f = fnt.Folder([('d', fnt.Folder([], [nm]))], []) if k == 0 else fnt.Folder([(nm, fnt.Folder())], []) if k == 1 else fnt.Folder([], [nm])
        x = fnt.load(kept(fnt.save(f))); return (x.folders[0][1].files if k == 0 else [x.folders[0][0]] if k == 1 else x.files) == [nm]
    for n in [*range(1, 8), *range(120, 136), 191, 192, 200, 254, 255, 256, 257, 300, 383, 384, 1000]:
        for k in (0, 1, 2): store('folder name' if k == 1 else 'file name', (n,), lambda: fname(n, k))
    def rawfield(n, attr_):
        def f():
            o = T['rom'].make(R); v = R.randbytes(n); setattr(o, attr_, v)
            return bytes(getattr(rom.NintendoDSRom(kept(o.save())), attr_)) == v
        return f
    for a, m in (('idCode', 4), ('developerCode', 2), ('nintendoLogo', 156), ('pad088', 56), ('pad16C', 148)):
        for n in {0, 1, 2, 3, 4, 5, m - 2, m - 1, m, m + 1, m + 2, 2 * m, 300}: store(a, (n,), rawfield(n, a))
    def banner(v, n):
        o = T['rom'].make(R); b = struct.pack('<H', v) + R.randbytes(n - 2); o.iconBanner = b
        return bytes(rom.NintendoDSRom(kept(o.save())).iconBanner) == b
    for v in (0, 1, 2, 3, 4, 0x100, 0x103, 0xFFFF):
        for n in (2, 0x83F, 0x840, 0x841, 0x940, 0xA40, 0x1240, 0x23C0, 0x2400): store('banner', (v, n), lambda: banner(v, n))
    def instr(n):
        o = mk_bmg(); i = R.randbytes(n); o.instructions = [b'12345678'] * R.randrange(3) + [i]
        return bmg.BMG(kept(o.save())).instructions[-1] == i
    for n in range(20): store('instruction', (n,), lambda: instr(n))
    def infos(ns):
        o = mk_bmg(); o.messages = [bmg.Message(R.randbytes(n), 'x', R.random() < .2) for n in ns]
        return [len(m.info) for m in bmg.BMG(kept(o.save())).messages] == list(ns)
    for _ in range(ctx.scale(60, 600)):
        ns = [R.choice([0, 2, 4]) if R.random() < .5 else 2 for _ in range(R.randrange(1, 5))]; store('message infos', ns, lambda: infos(ns))
    def char(c):
        o = mk_bmg(); o.encoding = R.choice(['utf-16', 'utf-8']); t = R.choice(['', 'ab']) + chr(c) + R.choice(['', 'c']); o.messages[0].stringParts = R.choice([[], ['q']]) + [t]
        return ''.join(bmg.BMG(kept(o.save())).messages[0].stringParts).endswith(t)
    for c in [*range(300), 0x1A00, 0x101A, 0x3042, 0xFFFD]: store('message character', (c,), lambda: char(c))
    def escape(n, w):
        o = mk_bmg(); o.encoding = 'utf-16' if w == 2 else 'utf-8'; d = R.randbytes(n); o.messages[0].stringParts = ['a', bmg.Message.Escape(1, d), 'b']
        return bmg.BMG(kept(o.save())).messages[0].stringParts[1].data == d
    for w in (1, 2):
        for n in [*range(6), *range(246, 262), 300, 511]: store('escape length', (n, w), lambda: escape(n, w))
    def strm(chs):
        o = ss.STRM(); o.channels = chs; o.samplesPerBlock = 8
        return ss.STRM(kept(o.save())[0]).channels == chs
    for _ in range(ctx.scale(60, 600)):
        m = R.randrange(1, 4); ns = [m if R.random() < .7 else R.randrange(1, 4) for _ in range(R.randrange(1, 4))]
        store('stream blocks', ns, lambda: strm([[R.randbytes(8) for _ in range(k)] for k in ns]))
        a, b = 8, R.choice([8, 8, 4, 12]); chans = [[R.randbytes(a) for _ in range(3)] for _ in range(2)]; pos = R.randrange(2); c = R.randrange(2)
        if c == 0 and pos == 0: continue          # the first block says how long the others are
        chans[c][pos] = R.randbytes(b); store('stream block', (a, b), lambda: strm(chans))
        last = R.choice([4, 8, 12]); chans = [[R.randbytes(8), R.randbytes(8)], [R.randbytes(8), R.randbytes(last)]]; store('stream block', (8, last), lambda: strm(chans))
    def loop(a, b):
        o = T['swav'].make(R); o.loopOffset, o.totalLength = a, b
        if R.random() < .5: o = wa.SWAR.fromWaves([o])
        x = (wa.SWAR(kept(o.save())[0]).waves[0] if isinstance(o, wa.SWAR) else sw.SWAV(kept(o.save()))); return (x.loopOffset, x.totalLength) == (a, b)
    for a in range(6):
        for b in range(6): store('loop', (a, b), lambda: loop(a, b))
    for a, b in ((65535, 65535), (65535, 65534), (1000, 999), (999, 1000)): store('loop', (a, b), lambda: loop(a, b))
    fm = list(g2.ImageFormat)
    for i, a in enumerate(fm):
        for j, b in enumerate(fm):
            for n in (1, 3):
                def f():
                    ts = [g2.ImageTile(None, a) for _ in range(n)] + [g2.ImageTile(None, b)]
                    return len(g2.loadImageTiles(kept(g2.saveImageTiles(ts)), a)) == n + 1
                store('tile formats', (i, j), f)
    for k, f_ in ((1, g2.ImageFormat.I4), (2, g2.ImageFormat.I8)):
        for n in (0, 1, 31, 32, 33, 63, 64, 65, 128): store('tile data', (k, n), lambda: len(g2.ImageTile(R.randbytes(n), f_).pixels) == 64)
    tiles = [g2.ImageTile() for _ in range(12)]; pal = [(0, 0, 0, 1)] * 256
    for a in range(8):
        for b in range(8):
            store('tile offset', (a, b), lambda: len(g2.TilemapTile(a).render(tiles, pal, b)) == 64)
    encs = [None, 'cp1252', 'utf-16', 'shift-jis', 'utf-8', 'latin-1', 'ascii', '', 'utf-32', 'UTF16?']
    for i, e in enumerate(encs):
        def f():
            o = bmg.BMG.fromMessages([bmg.Message(b'', 'x')]); o.encoding = e
            return bmg.BMG(kept(o.save())).encoding == e
        store('encoding', (i,), f)
    for i, e in enumerate(['<', '>', '', '<>', '=', '!', '@', 'x', None]):
        def f():
            o = bmg.BMG.fromMessages([bmg.Message(b'', 'x')]); o.endianness = e
            return bmg.BMG(kept(o.save())).endianness == e
        store('endianness', (i,), f)
    import ndspy.extras.music as mus
    def song(v):
        q = sq.SSEQ(); q.events = [sq.EndTrackSequenceEvent()]
        m = mus.SSEQMusic(q, T['sbnk'].make(R), v); return m.swars is v
    for i, v in enumerate([None, [wa.SWAR()], (wa.SWAR(), wa.SWAR()), [], wa.SWAR(), 5, 1.5]): store('song archives', (i,), lambda: song(v))
