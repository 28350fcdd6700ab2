"""One descriptor per file type: making, saving, loading, editing and describing objects through the public interface."""
import copy, enum, os, struct
from props import fntlib, romlib, seqlib, sdatlib, texlib


HIDDEN = {'Overlay': {'ramSize', 'compressedSize', 'compressed', 'flags'}}     # saving updates them, as documented


def describe(o, hide=()):
    """Everything publicly visible about an object, recursively; identity of objects within it included."""
    seen, out, keep = {}, [], []
    def go(x):
        if x is None or isinstance(x, (bool, int, float, str, enum.Enum)): out.append(repr(x)); return
        if isinstance(x, (bytes, bytearray)): out.append('b' + bytes(x).hex()); return
        if id(x) in seen: out.append(f'#{seen[id(x)]}'); return
        seen[id(x)] = len(seen); keep.append(x)
        if isinstance(x, (list, tuple)) and type(x).__module__ in ('builtins',):
            out.append('[' if isinstance(x, list) else '(')
            for y in x: go(y); out.append(',')
            out.append(']'); return
        if isinstance(x, (set, frozenset)): out.append('{' + ','.join(sorted(map(repr, x))) + '}'); return
        if isinstance(x, dict):
            out.append('{')
            for k in sorted(x, key=repr): go(k); out.append(':'); go(x[k]); out.append(',')
            out.append('}'); return
        if type(x).__module__.split('.')[0] == 'ndspy':
            out.append(type(x).__name__ + '<')
            names = {n for n in dir(x) if not n.startswith('_')} - HIDDEN.get(type(x).__name__, set()) - set(hide)
            for n in sorted(names):
                try: v = getattr(x, n)
                except Exception as e: out.append(f'{n}!{type(e).__name__};'); continue
                if callable(v) or isinstance(v, type): continue
                out.append(n + '='); go(v); out.append(';')
            out.append('>'); return
        out.append(f'?{type(x).__name__}')
    go(o)
    return ''.join(out)


def parts(o):
    """Every mutable thing reachable from an object through public attributes."""
    seen, todo, out, keep = set(), [o], [], []
    while todo:
        x = todo.pop()
        if x is None or isinstance(x, (bool, int, float, str, bytes, enum.Enum, type)) or id(x) in seen: continue
        seen.add(id(x)); keep.append(x)
        if isinstance(x, (list, tuple)):
            if isinstance(x, list): out.append(x)
            todo += list(x)
        elif isinstance(x, dict): out.append(x); todo += list(x.values())
        elif isinstance(x, (set, bytearray)): out.append(x)
        elif type(x).__module__.split('.')[0] == 'ndspy':
            out.append(x)
            todo += [v for n, v in sorted(vars(x).items()) if not n.startswith('_')]
            for n in dir(type(x)):
                if not n.startswith('_') and isinstance(getattr(type(x), n, None), property):
                    try: todo.append(getattr(x, n))
                    except Exception: pass
            for n in dir(type(x)):       # class level state would be shared
                v = vars(type(x)).get(n)
                if not n.startswith('_') and n not in vars(x) and isinstance(v, (list, dict, set, bytearray)): todo.append(v)
    return out


def scribble(R, o, others=()):
    """Change something in place somewhere inside the object; preferably something other objects reach as well."""
    ps = parts(o)
    theirs = [q for p in others for q in parts(p)]
    ids = set(map(id, theirs))
    shared = [x for x in ps if id(x) in ids]
    for _ in range(20):
        x = R.choice(shared or ps)
        if isinstance(x, list):
            if x and R.random() < .5: x.pop(R.randrange(len(x)))
            elif x: x.append(x[0])
            else: x.append(R.choice([1, b'zz', ('n', b'zz')]))
            return
        if isinstance(x, dict):
            if x: x.pop(next(iter(x)))
            else: x[77] = 1
            return
        if isinstance(x, set): x ^= {5}; return
        if isinstance(x, bytearray):
            if x: x[R.randrange(len(x))] ^= 1
            else: x += b'x'
            return
        names = [n for n, v in sorted(vars(x).items()) if not n.startswith('_') and isinstance(v, (bytes, bytearray, str, int)) and not isinstance(v, enum.Enum)]
        if not names: continue
        n = R.choice(names); v = getattr(x, n)
        if isinstance(v, bool): v = not v
        elif isinstance(v, int): v = v ^ 1
        elif isinstance(v, str): v = v + 'x'
        else: v = bytes(v) + b'\1'
        try: setattr(x, n, v)
        except Exception: continue
        return


def siblings(o):
    """Lists of items of an object that are stored side by side and can be edited (events of sequences refer to each other)."""
    out, seen, todo = [], set(), [o]
    while todo:
        x = todo.pop(0)
        if id(x) in seen or isinstance(x, (bytes, bytearray, str, enum.Enum, type)): continue
        seen.add(id(x))
        if isinstance(x, dict): x = list(x.values())
        if isinstance(x, (list, tuple)):
            items = [y[-1] if isinstance(y, tuple) and y else y for y in x]
            items = [y for y in items if isinstance(y, (list, dict, bytearray)) or type(y).__module__.split('.')[0] == 'ndspy' and not isinstance(y, enum.Enum)]
            if items and 'SequenceEvent' in {c.__name__ for c in type(items[0]).__mro__}: continue
            if len(items) > 1: out.append(items)
            todo += items
        elif type(x).__module__.split('.')[0] == 'ndspy':
            todo += [v for n, v in sorted(vars(x).items()) if not n.startswith('_')]
    return out


class Type:
    extras = 0          # values saved besides the bytes
    file = True         # has fromFile() and saveToFile()
    def __init__(self, name): self.name = name


def types():
    from ndspy import rom, narc, bmg, fnt, code, bnbl, bncl, color, texture, model, graphics2D as g2, WaveType
    from ndspy import soundArchive, soundSequence as sq, soundSequenceArchive as sa, soundBank as sb, soundWaveArchive as wa, soundWave as sw, soundStream as ss
    from ndspy import soundGroup as sg, soundSequencePlayer as sp, soundStreamPlayer as st
    L = seqlib.Lib()
    T = {}
    def add(name, make, save, load, file=None, bad=None, look=None):
        t = Type(name); t.make, t.load, t.file, t.bad, t.look = make, load, file, bad, look or (lambda R, o: None)
        t.save = lambda o: tuple(bytes(x) if isinstance(x, bytearray) else x for x in save(o))
        T[name] = t
    bs = lambda R, *n: R.randbytes(R.choice(n or (0, 1, 5, 40)))

    # -- ROM, archives, texts, code
    def rom_look(R, o):
        for k, p in fntlib.paths(fntlib.tree(o.filenames))[:3]:
            if k == 'f': o.getFileByName(''.join(map(chr, p)))
        fnt_look(R, o.filenames)
        o.loadArm9(); o.loadArm7(); o.loadArm9Overlays(); o.loadArm7Overlays()
    def fnt_look(R, f):
        f.idOf('nothing/here'); f.subfolder('nope'); f.filenameOf(R.randrange(20)); 'zzz' in f
        for n in f.files[:2]: f.idOf(n); n in f; f[n]
        for n, s in f.folders[:2]: f.subfolder(n); n in f; f[n]
    def mk_rom(R): return romlib.build(rom, fnt, romlib.rand_rom(R))
    add('rom', mk_rom, lambda o: (o.save(),), lambda s: rom.NintendoDSRom(s[0]),
        (lambda o, p, R: o.saveToFile(p), lambda p, s: rom.NintendoDSRom.fromFile(p)), lambda o: setattr(o, 'arm9', None), rom_look)
    def mk_folder(R): return fntlib.build(fnt, fntlib.rand_tree(R, R.choice([1, 3, 6])))
    add('fnt', mk_folder, lambda o: (fnt.save(o),), lambda s: fnt.load(s[0]), None, None, fnt_look)
    def mk_narc(R):
        n = R.choice([0, 1, 3, 6]); f = fnt.Folder(files=[f'f{i}' for i in range(R.randrange(n + 1))]) if R.random() < .7 else None
        o = narc.NARC.fromFilesAndNames([bs(R) for _ in range(n)], *([f] if f else []))
        if R.random() < .3: o.endiannessOfBeginning = '>'
        return o
    add('narc', mk_narc, lambda o: (o.save(),), lambda s: narc.NARC(s[0]), (lambda o, p, R: o.saveToFile(p), lambda p, s: narc.NARC.fromFile(p)), lambda o: o.files.append(None),
        lambda R, o: (fnt_look(R, o.filenames), [o.getFileByName(n) for n in o.filenames.files[:2]]))
    def mk_msg(R):
        return bmg.Message(R.randbytes(R.choice([0, 0, 2])), [R.choice(['', 'hi', 'texté', bmg.Message.Escape(R.randrange(5), bs(R, 0, 2))]) for _ in range(R.randrange(4))], R.random() < .1)
    def mk_bmg(R):
        m = [mk_msg(R) for _ in range(R.choice([0, 1, 3]))]
        for x in m: x.info = b'' if not m else m[0].info
        if m and R.random() < .2: m.append(copy.deepcopy(R.choice(m)))
        a = ([bs(R, 8) for _ in range(R.randrange(3))], [(R.randrange(9), R.randrange(9)) for _ in range(R.randrange(3))], [(R.randrange(9), R.randrange(9)) for _ in range(R.randrange(3))]) if R.random() < .5 else ()
        o = bmg.BMG.fromMessages(m, *a, id=R.randrange(9))
        o.encoding = R.choice(['utf-16', 'utf-8', 'cp1252']) if R.random() < .7 else o.encoding
        return o
    add('bmg', mk_bmg, lambda o: (o.save(),), lambda s: bmg.BMG(s[0]), (lambda o, p, R: o.saveToFile(p), lambda p, s: bmg.BMG.fromFile(p)), lambda o: o.messages.append(None), lambda R, o: o.fullEncoding)
    def mk_code(R):
        S = code.MainCodeFile.Section
        secs = [S(R.randbytes(0x200), 0x2000000, 0, implicit=True)]
        for i in range(R.randrange(3)): secs.append(S(R.randbytes(R.choice([4, 8, 12, 28, 5, 6, 7])), 0x2100000 + 0x1000 * i, R.randrange(99)))
        if len(secs) == 1: return code.MainCodeFile(R.randbytes(0x300), 0x2000000)
        o = code.MainCodeFile.fromSections(secs, 0x2000000); o.codeSettingsOffs = 0x100
        return o
    add('code', mk_code, lambda o: (o.save(),), lambda s: code.MainCodeFile(s[0], 0x2000000),
        (lambda o, p, R: o.saveToFile(p), lambda p, s: code.MainCodeFile.fromFile(p, 0x2000000)), lambda o: o.sections.append(None))
    def mk_ov(R):
        n = R.choice([0, 4, 40]); return code.Overlay(R.randbytes(n), 0x2000000, n, R.randrange(9), 0, 0, R.randrange(9), 0, R.choice([0, 2]))
    add('overlay', mk_ov, lambda o: (o.save(),), lambda s: code.Overlay(s[0], 0x2000000, len(s[0]), 0, 0, 0, 1, 0, 0), None, None)
    # -- layouts, graphics
    add('bnbl', lambda R: bnbl.BNBL.fromTouchAreas([bnbl.BNBLTouchArea(R.randrange(99), R.randrange(99), R.randrange(99), R.randrange(99)) for _ in range(R.randrange(4))], R.randrange(9)),
        lambda o: (o.save(),), lambda s: bnbl.BNBL(s[0]), (lambda o, p, R: o.saveToFile(p), lambda p, s: bnbl.BNBL.fromFile(p)), lambda o: o.touchAreas.append(None), lambda R, o: [t.getTopLeft() for t in o.touchAreas])
    add('bncl', lambda R: bncl.BNCL.fromImagePositions([bncl.BNCLImagePosition(R.randrange(99), R.randrange(99), imageID=R.randrange(99)) for _ in range(R.randrange(4))], R.randrange(9)),
        lambda o: (o.save(),), lambda s: bncl.BNCL(s[0]), (lambda o, p, R: o.saveToFile(p), lambda p, s: bncl.BNCL.fromFile(p)), lambda o: o.imagePositions.append(None))
    def gen(R): return texlib.Gen(R)
    def mk_tex(R, empty=True):
        g = gen(R)
        ts = [(f't{i}', g.m_tex(g.tex(True))) for i in range(R.randrange(3))]
        ps = [(f'p{i}', g.m_pal(g.pal())) for i in range(R.randrange(3))]
        if ps and R.random() < .4: ps.insert(0, ('none', texture.Palette.fromColors(0, 0, 0, [])))        # starts where the next one starts
        return texture.NSBTX.fromTexturesAndPalettes(*[R.randrange(99) for _ in range(6)], ts, ps)
    add('nsbtx', mk_tex, lambda o: (o.save(),), lambda s: texture.NSBTX(s[0]), None, None)
    def mk_bmd(R):
        o = model.NSBMD(); o.importNSBTX(mk_tex(R)); return o
    add('nsbmd', mk_bmd, lambda o: (o.save(),), lambda s: model.NSBMD(s[0]), None, None)
    add('palette', lambda R: [tuple(R.randrange(32) for _ in range(3)) + (R.randrange(2),) for _ in range(R.choice([0, 1, 16]))], lambda o: (color.savePalette(o),), lambda s: color.loadPalette(s[0]),
        (lambda o, p, R: color.savePaletteToFile(o, p), lambda p, s: color.loadPaletteFromFile(p)), lambda o: o.append(None))
    def mk_tiles(R):
        return [g2.ImageTile([R.randrange(256) for _ in range(64)], g2.ImageFormat.I8) for _ in range(R.randrange(4))]
    add('tiles', mk_tiles, lambda o: (g2.saveImageTiles(o),), lambda s: g2.loadImageTiles(s[0], g2.ImageFormat.I8),
        (lambda o, p, R: g2.saveImageTilesToFile(o, p), lambda p, s: g2.loadImageTilesFromFile(p, g2.ImageFormat.I8)), lambda o: o.append(None))
    def mk_map(R): return [g2.TilemapTile(R.randrange(65536)) for _ in range(R.randrange(5))]
    add('tilemap', mk_map, lambda o: (g2.saveTilemapTiles(o),), lambda s: g2.loadTilemapTiles(s[0]),
        (lambda o, p, R: g2.saveTilemapTilesToFile(o, p), lambda p, s: g2.loadTilemapTilesFromFile(p)), lambda o: o.append(None))
    # -- sounds
    def mk_events(R):
        p = seqlib.rand_program(R)
        return L.build(p[0] if isinstance(p, tuple) else p)
    def mk_sseq(R):
        o = sq.SSEQ.fromEvents(mk_events(R), R.randrange(9), R.randrange(9), R.randrange(9), R.randrange(9), R.randrange(9), R.randrange(9))
        if R.random() < .5: o = sq.SSEQ(*o.save())
        return o
    add('sseq', mk_sseq, lambda o: tuple(o.save()), lambda s: sq.SSEQ(*s), (lambda o, p, R: o.saveToFile(p), lambda p, s: sq.SSEQ.fromFile(p, *s[1:])), lambda o: setattr(o, 'events', [None]), lambda R, o: o.parsed)
    def mk_ssar(R):
        ev = mk_events(R)
        seqs = [(R.choice([None, 'S1', 'S2']), sa.SSARSequence(R.choice([None, *ev[:2]]), R.randrange(9), R.randrange(9))) for _ in range(R.randrange(3))]
        o = sa.SSAR.fromEventsAndSequences(ev, seqs, R.randrange(9))
        if R.random() < .5: o = sa.SSAR(*o.save())
        return o
    add('ssar', mk_ssar, lambda o: tuple(o.save()), lambda s: sa.SSAR(*s), (lambda o, p, R: o.saveToFile(p), lambda p, s: sa.SSAR.fromFile(p, *s[1:])), lambda o: o.sequences.append(None))
    def mk_sbnk(R):
        nd = lambda: sb.NoteDefinition(R.randrange(9), R.randrange(4), *[R.randrange(128) for _ in range(6)], R.choice([1, 1, 2, 3]))
        I = lambda: R.choice([lambda: None, lambda: sb.SingleNoteInstrument(nd()), lambda: sb.RangeInstrument(R.randrange(1, 50), [nd() for _ in range(R.randrange(1, 4))]),
                              lambda: sb.RegionalInstrument([sb.RegionalInstrument.Region(e, nd()) for e in (30, 60, 127)])])()
        ins = [I() for _ in range(R.randrange(5))]
        if ins and R.random() < .4: ins.append(copy.deepcopy(R.choice(ins)))        # stored once
        o = sb.SBNK.fromInstruments(ins, R.randrange(9), [R.randrange(9) for _ in range(R.randrange(5))])
        if R.random() < .2: o.inaccessibleInstruments = {R.choice([None, 0, 1, 9]): [], 0: [sb.SingleNoteInstrument(nd()) for _ in range(R.randrange(2))]}
        return o
    add('sbnk', mk_sbnk, lambda o: tuple(o.save()), lambda s: sb.SBNK(*s), (lambda o, p, R: o.saveToFile(p), lambda p, s: sb.SBNK.fromFile(p, *s[1:])), lambda o: o.instruments.append(5))
    def mk_swav(R):
        d = R.randbytes(4 * R.randrange(1, 5)); return sw.SWAV.fromData(d, waveType=WaveType(R.randrange(3)), isLooped=R.random() < .5, sampleRate=R.randrange(65536), time=R.randrange(65536), loopOffset=0, totalLength=len(d) // 4)
    add('swav', mk_swav, lambda o: (o.save(),), lambda s: sw.SWAV(s[0]), (lambda o, p, R: o.saveToFile(p), lambda p, s: sw.SWAV.fromFile(p)), lambda o: setattr(o, 'data', None))
    add('swar', lambda R: wa.SWAR.fromWaves([mk_swav(R) for _ in range(R.randrange(4))], R.randrange(9)), lambda o: tuple(o.save()), lambda s: wa.SWAR(*s),
        (lambda o, p, R: o.saveToFile(p), lambda p, s: wa.SWAR.fromFile(p, *s[1:])), lambda o: o.waves.append(None))
    def mk_strm(R):
        n = R.randrange(3); k = R.randrange(1, 4)
        chs = [[R.randbytes(8) for _ in range(k)] for _ in range(n)]
        o = ss.STRM(None, R.randrange(9), R.randrange(9)); o.channels = chs; o.samplesPerBlock = 8; o.sampleRate = R.randrange(65536)
        if R.random() < .4: o = ss.STRM.fromChannels(chs, unk02=R.randrange(9)); o.samplesPerBlock = 8
        return o
    add('strm', mk_strm, lambda o: tuple(o.save()), lambda s: ss.STRM(*s), (lambda o, p, R: o.saveToFile(p), lambda p, s: ss.STRM.fromFile(p, *s[1:])), lambda o: o.channels.append(None))
    def mk_sdat(R):
        o = soundArchive.SDAT()
        nm = lambda: R.choice([None, 'A', 'B', 'C', 'D'])
        o.sequences = [(nm(), R.choice([None, mk_sseq(R)])) for _ in range(R.randrange(3))]
        o.sequenceArchives = [(nm(), mk_ssar(R)) for _ in range(R.randrange(2))]
        o.banks = [(nm(), mk_sbnk(R)) for _ in range(R.randrange(3))]
        o.waveArchives = [(nm(), T['swar'].make(R)) for _ in range(R.randrange(3))]
        o.sequencePlayers = [(nm(), sp.SequencePlayer(R.randrange(9), set(R.sample(range(16), 3)), R.randrange(99))) for _ in range(R.randrange(2))]
        o.groups = [(nm(), [sg.GroupEntry(sg.GroupEntryType.SSEQ, 2, R.randrange(3)) for _ in range(R.randrange(3))]) for _ in range(R.randrange(2))]
        o.streamPlayers = [(nm(), st.StreamPlayer(R.sample(range(16), 2))) for _ in range(R.randrange(2))]
        o.streams = [(nm(), mk_strm(R)) for _ in range(R.randrange(2))]
        for l in (o.sequences, o.sequenceArchives, o.banks, o.waveArchives, o.streams):        # entries stored in one file
            if l and R.random() < .3: l.append((nm(), copy.deepcopy(R.choice(l)[1])))
        if R.random() < .5: o = soundArchive.SDAT(o.save())
        return o
    add('sdat', mk_sdat, lambda o: (o.save(),), lambda s: soundArchive.SDAT(s[0]), (lambda o, p, R: o.saveToFile(p), lambda p, s: soundArchive.SDAT.fromFile(p)), lambda o: o.sequences.append(None))
    add('sequencePlayer', lambda R: sp.SequencePlayer(*([R.randrange(9), set(R.sample(range(16), 3)), R.randrange(99)] if R.random() < .5 else [])), lambda o: tuple(o.save()), lambda s: sp.SequencePlayer(*s))
    add('streamPlayer', lambda R: st.StreamPlayer(*([R.sample(range(16), 2)] if R.random() < .5 else [])), lambda o: (o.save(),), lambda s: st.StreamPlayer(s[0]))
    add('groupEntry', lambda R: sg.GroupEntry(R.randrange(4), R.randrange(16), R.randrange(99)), lambda o: tuple(o.save()), lambda s: sg.GroupEntry(*s))
    # -- whatever can be made without saying anything
    classes = [rom.NintendoDSRom, narc.NARC, fnt.Folder, bmg.BMG, bmg.Message, bnbl.BNBL, bncl.BNCL, texture.NSBTX, model.NSBMD, sq.SSEQ, sa.SSAR, sa.SSARSequence,
               sb.SBNK, sw.SWAV, wa.SWAR, ss.STRM, soundArchive.SDAT, sp.SequencePlayer, st.StreamPlayer]
    saved = set(classes) - {fnt.Folder, bmg.Message} | {g2.ImageTile, sg.GroupEntry}
    classes += [g2.ImageTile, g2.TilemapTile, bnbl.BNBLTouchArea, bncl.BNCLImagePosition, bmg.Message.Escape, sb.NoteDefinition, sg.GroupEntry]
    kind = []
    def mk_default(R):
        if not kind or R.random() < .2: kind[:] = [R.choice(classes)]          # often the same again
        c = kind[0]
        return c(None) if c is sa.SSARSequence else c()
    add('default', mk_default, lambda o: (o.save() if type(o) in saved else str(o), type(o)), lambda s: s[1](None) if s[1] is sa.SSARSequence else s[1]())
    # -- parts of sequences and banks
    add('events', mk_events, lambda o: (b''.join(e.save({x: 0 for x in o}) for e in o),), lambda s: [])
    return T
