"""C33: constructors give every attribute the value passed for it, or its documented default."""
import importlib
from vf import IllTyped
TRACE = 'CtorsTrace'


def run(ctx):
    R = ctx.rng
    from ndspy import WaveType, fnt, bmg, code, bnbl, bncl, soundBank as sb, soundGroup as sg, soundSequence as sq, soundSequenceArchive as sa, soundWave as sw
    names, keep = {}, []
    def tok(v):
        if isinstance(v, fnt.Folder) and not (v.folders or v.files or v.firstID): return 'Folder()'
        if v is None: return 'None'
        if isinstance(v, bool): return 'T' if v else 'F'
        if isinstance(v, int): return f'i{int(v)}'
        if isinstance(v, str): return 's' + v
        if isinstance(v, (bytes, bytearray)): return 'b' + bytes(v).hex() if any(v) or len(v) < 1000 else f'zeros{len(v)}'
        if isinstance(v, (list, tuple)): return '[' + ','.join(map(tok, v)) + ']'
        if isinstance(v, dict): return '{' + ','.join(tok(k) + ':' + tok(x) for k, x in v.items()) + '}'
        if isinstance(v, (set, frozenset)): return 'set(' + ','.join(map(str, sorted(v))) + ')'
        if type(v).__module__.split('.')[0] == 'ndspy': keep.append(v); return f'#{names.setdefault(id(v), len(names))}'    # the very object
        raise IllTyped(type(v).__name__)
    def few(f):
        xs = [f() for _ in range(R.randrange(1, 4))]
        return xs + [R.choice(xs)] * (R.random() < .4)        # an item may be there twice
    nd = lambda: sb.NoteDefinition(R.randrange(5))
    ev = lambda: R.choice([sq.RestSequenceEvent(R.randrange(99)), sq.EndTrackSequenceEvent()])
    KIND = {
        'u4': lambda: R.randrange(1, 16), 'u8': lambda: R.randrange(1, 256), 'u16': lambda: R.randrange(1, 1 << 16), 'u32': lambda: R.randrange(1, 1 << 32), 'even': lambda: R.randrange(0, 256, 2),
        'bool': lambda: R.random() < .7, 'true': lambda: True, 'none': lambda: None,
        'bytes': lambda: R.randbytes(R.randrange(1, 9)), 'blobs': lambda: few(lambda: R.randbytes(5)), 'messages': lambda: few(lambda: bmg.Message(b'a', ['x'])),
        'instructions': lambda: few(lambda: R.randbytes(8)), 'pairs': lambda: few(lambda: (R.randrange(1, 9), R.randrange(9))), 'parts': lambda: few(lambda: R.choice(['a', 'bc'])),
        'sections': lambda: few(lambda: code.MainCodeFile.Section(R.randbytes(4), 0x2000000, 0)), 'folders': lambda: [('d', fnt.Folder(files=['q']))], 'names': lambda: few(lambda: R.choice('abc')),
        'folder': lambda: fnt.Folder(files=['n']), 'wavetype': lambda: R.choice(list(WaveType)), 'notetype': lambda: sb.NoteType.PCM, 'notedef': nd, 'notedefs': lambda: few(nd),
        'regions': lambda: few(lambda: sb.RegionalInstrument.Region(R.randrange(128), nd())), 'ids': lambda: few(lambda: R.randrange(16)), 'instruments': lambda: few(lambda: sb.SingleNoteInstrument(nd())),
        'grouptype': lambda: R.choice(list(sg.GroupEntryType)), 'swarload': lambda: R.choice(list(sg.SWARLoadMethod)), 'events': lambda: few(ev), 'event': ev,
        'ssarseqs': lambda: few(lambda: (R.choice(['a', None]), sa.SSARSequence(ev()))), 'channelset': lambda: {R.randrange(16) for _ in range(3)}, 'channels': lambda: [[R.randbytes(4)] for _ in range(R.randrange(1, 3))],
        'waves': lambda: few(lambda: sw.SWAV.fromData(b'abcd')), 'touchareas': lambda: few(lambda: bnbl.BNBLTouchArea(1, 2, 3, 4)), 'positions': lambda: few(lambda: bncl.BNCLImagePosition(1, 2)),
    }
    cases = ctx.cases('MCCtors', ctx.scale('MCCtors.cfg', 'MCCtorsT.cfg'))
    for c in cases:
        mod, *path = c['cls'].split('.')
        cls = importlib.import_module('ndspy.' + mod)
        for x in path: cls = getattr(cls, x)
        make = getattr(cls, c['how']) if c['how'] else cls
        kw = sorted(c['kw'])
        for _ in range(ctx.scale(2, 3)):
            vals = [KIND[p['kind']]() for p in c['params']]
            toks = [tok(v) for v in vals]
            order = R.sample(kw, len(kw))
            exc, o = ctx.call(lambda: make(*vals[:c['pos']], **{c['params'][i - 1]['name']: vals[i - 1] for i in order}))
            got = []
            for a in sorted(c['attrs']):
                if exc: break
                exc, v = ctx.call(lambda: tok(getattr(o, a)))
                got.append({'a': a, 'v': v})
            ctx.trace(f"{c['cls']} {c['how']} {c['pos']} {kw}")['ev'].append({'op': 'make', 'ctor': c['ctor'], 'pos': c['pos'], 'kw': kw, 'vals': toks, 'exc': exc, 'got': got if not exc else []})
