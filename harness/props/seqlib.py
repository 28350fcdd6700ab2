"""Sequence events between the specification's records and the library's objects."""
from vf import bts, num, boolean, IllTyped
ARITH = ['VariableAssignment', 'VariableAddition', 'VariableSubtraction', 'VariableMultiplication', 'VariableDivision', 'VariableShift', 'VariableRand',
         'VariableUnknownB7', 'VariableEqual', 'VariableGreaterThanOrEqual', 'VariableGreaterThan', 'VariableLessThanOrEqual', 'VariableLessThan', 'VariableNotEqual']
SIMPLE = {0xC0: 'Pan', 0xC1: 'TrackVolume', 0xC2: 'GlobalVolume', 0xC3: 'Transpose', 0xC4: 'Portamento', 0xC5: 'PortamentoRange', 0xC6: 'TrackPriority',
          0xC7: 'MonoPoly', 0xC8: 'Tie', 0xC9: 'PortamentoFrom', 0xCA: 'VibratoDepth', 0xCB: 'VibratoSpeed', 0xCC: 'VibratoType', 0xCD: 'VibratoRange',
          0xCE: 'PortamentoOnOff', 0xCF: 'PortamentoDuration', 0xD0: 'AttackRate', 0xD1: 'DecayRate', 0xD2: 'SustainRate', 0xD3: 'ReleaseRate',
          0xD4: 'BeginLoop', 0xD5: 'Expression', 0xD6: 'PrintVariable', 0xE0: 'VibratoDelay', 0xE1: 'Tempo', 0xE3: 'SweepPitch'}
NOARG = {0xA2: 'If', 0xFC: 'EndLoop', 0xFD: 'Return', 0xFF: 'EndTrack'}
RAND_ARGS = {**{k: 0 for k in SIMPLE}, **{k: 2 for k in range(0xB0, 0xBE)}, 0x80: 0, 0x81: 0, 0x93: 3, 0x94: 2, 0x95: 2, 0xA0: 5, 0xA1: 1, 0xE1: 1, 0xE3: 1, 0xFE: 1}


def ev(k, a=(), ref=(), raw=()): return {'k': k, 'a': list(a), 'ref': list(ref), 'raw': list(raw)}


class Lib:
    def __init__(self):
        from ndspy import soundSequence as S
        self.S = S
        self.cls = {}
        for i, n in enumerate(ARITH): self.cls[0xB0 + i] = getattr(S, n + 'SequenceEvent')
        for d in (SIMPLE, NOARG):
            for k, n in d.items(): self.cls[k] = getattr(S, n + 'SequenceEvent')
        for k, n in {0x80: 'Rest', 0x81: 'InstrumentSwitch', 0x93: 'BeginTrack', 0x94: 'Jump', 0x95: 'Call', 0xA0: 'Random', 0xA1: 'FromVariable', 0xFE: 'DefineTracks'}.items():
            self.cls[k] = getattr(S, n + 'SequenceEvent')

    def make(self, e, ref=None, set_later=False):
        """An event object; with set_later, attributes are assigned after construction with other values."""
        k, a, S = e['k'], e['a'], self.S
        C = self.cls.get(k)
        if k == -1: return S.RawDataSequenceEvent(bytes(e['raw']))
        if k < 0x80:
            if set_later:
                o = S.NoteSequenceEvent((k + 1) % 128, 5, 1); o.pitch = k; o.velocity = a[0]; o.unknownFlag = bool(a[1]); o.duration = a[2]; return o
            return S.NoteSequenceEvent(k, a[0] | 128 * a[1], a[2])
        if k == 0x80: args = {'duration': a[0]}
        elif k == 0x81: args = {'bankID': a[0], 'instrumentID': a[1]}
        elif k == 0x93: args = {'trackNumber': a[0], 'firstEvent': ref}
        elif k in (0x94, 0x95): args = {'destination': ref}
        elif k == 0xA0: args = {'subType': a[0], 'args': list(e['raw']), 'randMin': a[1], 'randMax': a[2]}
        elif k == 0xA1: args = {'subType': a[0], 'variableID': a[1], **({'unknown': a[2]} if len(a) > 2 else {})}
        elif 0xB0 <= k <= 0xBD: args = {'variableID': a[0], 'value': a[1]}
        elif k == 0xD4: args = {'loopCount': a[0]}
        elif k in SIMPLE: args = {'value': a[0]}
        elif k == 0xFE: args = {'trackNumbers': set(a)}
        else: args = {}
        if k in (0xC8, 0xCE) and a[0] in (0, 1): args = {'value': bool(a[0])}
        if set_later and k not in (0xC7, 0xCC):
            zero = {n: ([0] if n == 'args' else {0} if n == 'trackNumbers' else None if n in ('firstEvent', 'destination') else 1) for n in args}
            o = C(*zero.values())
            for n, v in args.items(): setattr(o, n, v)
            return o
        return C(*args.values())

    def assign(self, o, e):
        """Give an event object the values of e, an event of the same kind without references."""
        k, a = e['k'], e['a']
        if k == -1: o.data = bytes(e['raw'])
        elif k < 0x80: o.pitch = k; o.velocity = a[0]; o.unknownFlag = bool(a[1]); o.duration = a[2]
        elif k == 0x80: o.duration = a[0]
        elif k == 0x81: o.bankID, o.instrumentID = a
        elif k == 0xA0: o.subType, o.randMin, o.randMax = a; o.args = list(e['raw'])
        elif k == 0xA1: o.subType, o.variableID = a[:2]; o.unknown = a[2] if len(a) > 2 else None
        elif 0xB0 <= k <= 0xBD: o.variableID, o.value = a
        elif k == 0xD4: o.loopCount = a[0]
        elif k in (0xC7, 0xCC): o.value = type(o).Value(a[0])
        elif k in SIMPLE: o.value = a[0]
        elif k == 0xFE: o.trackNumbers = set(a)

    def observe(self, o, ref=None):
        """Record of an event object; ref maps the event it leads to into a position or offset."""
        S, t = self.S, type(o)
        R = lambda x: [ref(x)]
        if t is S.RawDataSequenceEvent: return ev(-1, raw=bts(bytes(o.data)))
        k = num(o.type)
        if t is S.NoteSequenceEvent:
            if num(o.pitch) != k: raise IllTyped('pitch differs from type')
            return ev(k, [num(o.velocity), int(boolean(o.unknownFlag)), num(o.duration)])
        if self.cls.get(k) is not t: raise IllTyped(f'{t.__name__} with type {k}')
        if k == 0x80: return ev(k, [num(o.duration)])
        if k == 0x81: return ev(k, [num(o.bankID), num(o.instrumentID)])
        if k == 0x93: return ev(k, [num(o.trackNumber)], R(o.firstEvent))
        if k in (0x94, 0x95): return ev(k, [], R(o.destination))
        if k == 0xA0: return ev(k, [num(o.subType), num(o.randMin), num(o.randMax)], raw=[num(x) for x in o.args])
        if k == 0xA1: return ev(k, [num(o.subType), num(o.variableID) % 256] + ([num(o.unknown) % 256] if o.unknown is not None else []))
        if 0xB0 <= k <= 0xBD: return ev(k, [num(o.variableID), num(o.value)])
        if k == 0xD4: return ev(k, [num(o.loopCount)])
        if k in SIMPLE: return ev(k, [int(o.value)])
        if k == 0xFE: return ev(k, sorted(num(x) for x in o.trackNumbers))
        return ev(k)

    def build(self, prog, R=None):
        """Event objects of a program whose references are positions."""
        objs = [self.make(e, set_later=bool(R) and R.random() < .2) for e in prog]
        for o, e in zip(objs, prog): self.link(o, e, objs)
        return objs

    def link(self, o, e, objs):
        if e['ref']:
            t = objs[e['ref'][0] - 1]
            if e['k'] == 0x93: o.firstEvent = t
            else: o.destination = t

    def listing(self, objs):
        """Program of a list of event objects (positions by identity; 0 if not in the list)."""
        pos = {}
        for i, o in enumerate(objs): pos.setdefault(id(o), i + 1)
        return [self.observe(o, lambda x: pos.get(id(x), 0)) for o in objs]


def rand_event(R, n=0, refs=True, ops=None):
    """A random event; references to positions 1..n."""
    k = R.choice(ops) if ops else R.choice(['note'] * 4 + ['rest'] * 2 + ['simple'] * 3 + ['arith', 'inst', 'rand', 'var', 'word', 'def', 'loop'])
    dur = lambda: R.choice([0, 1, 48, 127, 128, 200, 16383, 16384, R.randrange(3000), R.randrange(2**21), R.randrange(2**31)])
    s16 = lambda: R.choice([0, -1, 32767, -32768, R.randrange(-32768, 32768)])
    if k == 'note': return ev(R.randrange(128), [R.randrange(128), R.choice([0, 0, 1]), dur()])
    if k == 'rest': return ev(0x80, [dur()])
    if k == 'inst': return ev(0x81, [R.choice([0, 1, 127, 128, R.randrange(2**16)]), R.randrange(128)])
    if k == 'simple':
        t = R.choice([x for x in SIMPLE if x not in (0xE1, 0xE3)])
        return ev(t, [R.randrange({0xC7: 2, 0xCC: 3}.get(t, 256))])
    if k == 'word': return ev(R.choice([0xE1, 0xE3]), [R.randrange(65536)])
    if k == 'arith': return ev(R.randrange(0xB0, 0xBE), [R.randrange(256), s16()])
    if k == 'rand':
        s = R.choice([R.randrange(128), R.choice(list(RAND_ARGS))])
        return ev(0xA0, [s, s16(), s16()], raw=R.randbytes(RAND_ARGS.get(s, 1)))
    if k == 'var':
        s = R.choice([R.randrange(128), *SIMPLE, *range(0xB0, 0xBE)])
        return ev(0xA1, [s, R.randrange(128)] + ([R.randrange(128)] if 0xB0 <= s <= 0xBD else []))
    if k == 'def': return ev(0xFE, sorted(R.sample(range(16), R.randrange(17))))
    if k == 'loop': return ev(0xFC)
    if k == 'if': return ev(0xA2)
    if k == 'end': return ev(0xFF)
    if k == 'ret': return ev(0xFD)
    if k == 'raw': return ev(-1, raw=R.randbytes(R.randrange(1, 6)))
    t = R.randrange(1, n + 1)
    return ev(0x93, [R.randrange(16)], [t]) if k == 'track' else ev({'jump': 0x94, 'call': 0x95}[k], [], [t])


def rand_program(R, size=None):
    """Structured: main code, routines, tracks, conditional jumps, unreachable data; returns (program, entry positions)."""
    nt, ns = R.choice([0, 0, 1, 2]), R.choice([0, 1, 2, 3])
    blocks = ['main'] + ['track'] * nt + ['sub'] * ns + ['raw'] * R.choice([0, 0, 1, 2]) + ['main'] * R.choice([0, 0, 1, 2])
    dead = R.random() < .25    # one routine never returns, and unreadable data follows the calls to it
    if dead: blocks.append('dead')
    first, rest = blocks[0], blocks[1:]
    R.shuffle(rest)
    blocks = [first] + rest
    out = []; label = {}
    def add(e, *ref): out.append((e, ref)); return len(out) - 1
    for b, kind in enumerate(blocks):
        s = len(out); label[b] = s
        if kind == 'raw': add(ev(-1, raw=R.choice([bytes(3), R.randbytes(4), b'\xff', b'\x94\0\0\0']))); continue
        if kind == 'main' and b == 0 and nt and R.random() < .7: add(ev(0xFE, sorted(R.sample(range(16), 3))))
        if kind == 'main' and b == 0:
            for j, k2 in enumerate(blocks):
                if k2 == 'track': add(ev(0x93, [R.randrange(16)]), 'block', j)
        closed = False
        for _ in range(R.choice([0, 1, 2, 4, 6])):
            r = R.random()
            if r < .15 and dead and kind != 'dead' and len(out) and out[-1][0]['k'] != 0xA2:
                add(ev(0x95), 'block', blocks.index('dead'))
                if R.random() < .8: add(ev(-1, raw=R.choice([b'\x82', b'\x90\x3c', b'\x3c\x40\x82']))); closed = True; break
                continue
            if r < .15 and ns:
                subs = [j for j, k2 in enumerate(blocks) if k2 == 'sub' and (kind != 'sub' or j > b)]
                if subs:
                    if R.random() < .3: add(ev(0xA2))
                    add(ev(0x95), 'block', R.choice(subs)); continue
            if r < .3 and len(out) > s:
                add(ev(0xA2)); add(ev(0x94), 'within', s, len(out) - 1); continue
            if r < .35: add(ev(0xA2)); add(rand_event(R)); continue
            if r < .42 and kind != 'sub':
                add(ev(0xA2)); mains = [j for j, k2 in enumerate(blocks) if k2 in ('main', 'track')]; add(ev(0x94), 'block', R.choice(mains)); continue
            add(rand_event(R))
        if closed: continue
        if kind == 'sub':
            later = [j for j, k2 in enumerate(blocks) if k2 == 'sub' and j > b]
            if later and R.random() < .4: add(ev(0x94), 'block', R.choice(later))
            else: add(ev(0xFD))
        elif R.random() < .4 and len(out) > s: add(ev(0x94), 'within', s, len(out))
        else: add(ev(0xFF))
    prog = []
    for e, ref in out:
        e = dict(e)
        if ref:
            if ref[0] == 'block': e['ref'] = [label[ref[1]] + 1]
            else:
                c = [i for i in range(ref[1], ref[2]) if i == ref[1] or (out[i - 1][0]['k'] != 0xA2)]
                e['ref'] = [R.choice(c) + 1]
        prog.append(e)
    return prog, [label[b] + 1 for b, k in enumerate(blocks) if k == 'main']
