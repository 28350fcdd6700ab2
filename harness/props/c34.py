"""C34: printed objects read back as equal objects."""
import re
from vf import bts, text
from props import seqlib
TRACE = 'PrintTrace'
ENUM = re.compile(r'<([\w.]+)\.(\w+): \d+>')       # how enumeration members print


def run(ctx):
    R = ctx.rng
    from ndspy import WaveType, fnt, bmg, code, bnbl, bncl, soundBank as sb, soundGroup as sg, soundSequence as sq, soundSequencePlayer as sp, soundStreamPlayer as st, soundWave as sw, soundStream as ss, narc
    ns = {'WaveType': WaveType}
    for m in (fnt, bmg, code, bnbl, bncl, sb, sg, sq, sp, st, sw, ss, narc): ns.update({k: v for k, v in vars(m).items() if isinstance(v, type)})
    ns.update(Section=code.MainCodeFile.Section, Region=sb.RegionalInstrument.Region, Escape=bmg.Message.Escape)
    def tok(v):
        if v is None: return 'None'
        if isinstance(v, bool): return 'T' if v else 'F'
        if isinstance(v, int): return f'i{int(v)}'
        if isinstance(v, str): return 's' + v
        if isinstance(v, (bytes, bytearray)): return 'b' + bytes(v).hex()
        if isinstance(v, (list, tuple)): return '[' + ','.join(map(tok, v)) + ']'
        if isinstance(v, dict): return '{' + ','.join(tok(k) + ':' + tok(x) for k, x in sorted(v.items())) + '}'
        if isinstance(v, (set, frozenset)): return 'set(' + ','.join(map(str, sorted(v))) + ')'
        if type(v).__module__.split('.')[0] == 'ndspy':
            return type(v).__name__ + '<' + ';'.join(f'{n}={tok(getattr(v, n))}' for n in sorted(vars(v)) if not n.startswith('_')) + '>'
        return type(v).__name__
    attrs = lambda o, names: [{'a': a, 'v': tok(getattr(o, a))} for a in names]

    # ---- bytes
    cases = [bytes(c['d']) for c in ctx.cases('MCPrint', ctx.scale('MCPrint.cfg', 'MCPrintT.cfg'))]
    cases += [bytes([a, b]) for a in range(256) for b in ((R.randrange(256), 48) if not ctx.thorough else range(0, 256, 3))]
    for _ in range(ctx.scale(150, 1500)): cases.append(bytes(R.choice([0, 1, 7, 8, 39, 34, 92, 48, 56, 57, 255, 65, 13, 9]) for _ in range(R.choice([1, 5, 30, 31, 32, 33, 34, 60]))))
    for n, d in enumerate(cases):
        if n % 40 == 0: E = ctx.trace('bytes')['ev']
        exc, t = ctx.call(lambda: text(re.fullmatch(r'SWAV\.fromData\((.*), waveType=.*', repr(sw.SWAV.fromData(d)))[1]))
        E.append({'op': 'bytes', 'exc': exc, 'data': bts(d), 'text': [] if exc else t})

    # ---- objects: one that does not print a part shortened
    table = {}
    for c in ctx.cases('MCCtors'): table[c['cls'], c['how']] = c
    b = lambda n=12: bytes(R.choice([0, 1, 39, 34, 48, 92, R.randrange(256)]) for _ in range(R.randrange(n)))
    u8 = lambda: R.choice([0, 1, 127, 255, R.randrange(256)]); u16 = lambda: R.choice([0, 1, 65535, R.randrange(65536)]); u32 = lambda: R.choice([0, 9, 10, 0xFFFFFFFF, R.randrange(1 << 32)])
    few = lambda f, n=4: [f() for _ in range(R.randrange(n))]
    nd = lambda: sb.NoteDefinition(u16(), u16(), u8(), u8(), u8(), u8(), u8(), u8(), R.choice(list(sb.NoteType)))
    flag = lambda: R.random() < .5
    name = lambda: R.choice(['a', "it's", '"', 'ü', 'x\\y', 'sub', ''.join(R.choice('abc') for _ in range(5))])
    def folder(d=2): return fnt.Folder([(name(), folder(d - 1)) for _ in range(R.randrange(3) if d else 0)], few(name), u16())
    escape = lambda: bmg.Message.Escape(u8(), b()); pair = lambda: (u16(), u16())
    message = lambda: bmg.Message(b(), few(lambda: R.choice([name, escape])()))          # (a print does not tell null messages)
    def bounded():
        p = sorted(R.sample(range(128), R.randrange(1, 9)))
        return sb.RegionalInstrument([sb.RegionalInstrument.Region(x, nd()) for x in p])
    MAKE = {
        ('soundBank.NoteDefinition', ''): nd, ('soundBank.SingleNoteInstrument', ''): lambda: sb.SingleNoteInstrument(nd()),
        ('soundBank.RangeInstrument', ''): lambda: sb.RangeInstrument(u8(), few(nd)), ('soundBank.RegionalInstrument', ''): bounded,
        ('soundBank.RegionalInstrument.Region', ''): lambda: sb.RegionalInstrument.Region(u8(), nd()),
        ('soundGroup.GroupEntry', 'fromFlags'): lambda: sg.GroupEntry.fromFlags(R.choice(list(sg.GroupEntryType)), u32(), flag(), R.choice(list(sg.SWARLoadMethod)), flag(), flag()),
        ('soundSequencePlayer.SequencePlayer', ''): lambda: sp.SequencePlayer(u16(), set(R.sample(range(16), R.randrange(5))), u32()),
        ('soundStreamPlayer.StreamPlayer', ''): lambda: st.StreamPlayer(few(u8)),
        ('soundWave.SWAV', 'fromData'): lambda: sw.SWAV.fromData(b(33), waveType=R.choice(list(WaveType)), isLooped=flag(), sampleRate=u16(), time=u16(), loopOffset=u16(), totalLength=u32()),
        ('soundStream.STRM', 'fromChannels'): lambda: ss.STRM.fromChannels(R.choice([[], [[]], [[b(33)]]]), u16(), u8(), u8(), u8(), u8()),
        ('code.MainCodeFile.Section', ''): lambda: code.MainCodeFile.Section(b(33), u32(), u32(), implicit=flag()),
        ('code.MainCodeFile', 'fromSections'): lambda: code.MainCodeFile.fromSections([code.MainCodeFile.Section(b(33), u32(), u32(), implicit=i == 0) for i in range(R.randrange(1, 4))], u32()),
        ('code.Overlay', ''): lambda: code.Overlay(b(17), u32(), u32(), u32(), u32(), u32(), u32(), u32(), u8()),
        ('bmg.Message', ''): message, ('bmg.Message.Escape', ''): escape,
        ('bmg.BMG', 'fromMessages'): lambda: bmg.BMG.fromMessages(few(message), R.choice([[], few(b)]), R.choice([[], few(pair)]), R.choice([[], few(pair)]), id=u32()),
        ('fnt.Folder', ''): folder, ('narc.NARC', 'fromFilesAndNames'): lambda: narc.NARC.fromFilesAndNames([b(33)][:R.randrange(2)], folder()),
        ('bnbl.BNBLTouchArea', ''): lambda: bnbl.BNBLTouchArea(u8(), u8(), u8(), u8()),
        ('bnbl.BNBL', 'fromTouchAreas'): lambda: bnbl.BNBL.fromTouchAreas(few(lambda: bnbl.BNBLTouchArea(u8(), u8(), u8(), u8())), R.choice([0, u16()])),
        ('bncl.BNCLImagePosition', ''): lambda: bncl.BNCLImagePosition(u8(), u8(), imageID=u32()),
        ('bncl.BNCL', 'fromImagePositions'): lambda: bncl.BNCL.fromImagePositions(few(lambda: bncl.BNCLImagePosition(u8(), u8(), imageID=u32())), R.choice([0, u16()])),
    }
    def tree(f): return {'id': f.firstID, 'files': [text(n) for n in f.files], 'folders': [{'n': text(n), 'f': tree(x)} for n, x in f.folders]}
    def show(o):
        """The print, with enumeration members written so that they can be read."""
        t = repr(o)
        return ENUM.sub(r'\1.\2', t)
    for key in sorted(MAKE):
        c = table[key]; names = sorted({p['attr'] for p in c['params']} - {'-'})
        for _ in range(ctx.scale(60 if key[0] == 'fnt.Folder' else 12, 120)):
            o = MAKE[key]()
            want = attrs(o, names)
            exc, t = ctx.call(lambda: show(o))
            ev = {'op': 'obj', 'ctor': c['ctor'], 'exc': exc, 'want': want, 'backexc': '', 'back': []}
            if not exc:
                ev['backexc'], r = ctx.call(lambda: attrs(eval(t, dict(ns)), names))
                if not ev['backexc']: ev['back'] = r
            E = ctx.trace(' '.join(key) + ' ' + (t or '')[:200])['ev']; E.append(ev)
            if key[0] == 'fnt.Folder':
                exc, t = ctx.call(lambda: [text(x) for x in str(o).split('\n')] if str(o) else [])
                E.append({'op': 'list', 'exc': exc, 'folder': tree(o), 'lines': [] if exc else t})
                continue
            if key[0] == 'bmg.Message': continue                # the text of a message, maybe empty
            exc, t = ctx.call(lambda: text(str(o)))
            E.append({'op': 'text', 'exc': exc, 'text': [] if exc else t})
    # ---- events that do not point to others
    S = seqlib.Lib()
    for _ in range(ctx.scale(300, 3000)):
        e = seqlib.rand_event(R, 0, False)
        if e['ref']: continue
        exc, o = ctx.call(lambda: S.make(e))
        if exc or not isinstance(o, sq.SequenceEvent): continue
        want = [{'a': 'event', 'v': tok(o)}]
        exc, t = ctx.call(lambda: show(o))
        ev = {'op': 'event', 'exc': exc, 'want': want, 'backexc': '', 'back': []}
        if not exc:
            ev['backexc'], r = ctx.call(lambda: [{'a': 'event', 'v': tok(eval(t, dict(ns)))}])
            if not ev['backexc']: ev['back'] = r
        E = ctx.trace('event ' + (t or '')[:200])['ev']; E.append(ev)
        exc, t = ctx.call(lambda: text(str(o)))
        E.append({'op': 'text', 'exc': exc, 'text': [] if exc else t})
