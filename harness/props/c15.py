from . import seqlib, seqfile
from props import large
TRACE = 'SeqFileTrace'


def run(ctx):
    L = seqlib.Lib(); R = ctx.rng

    def play(h, ops):
        for op in ops:
            if op == 'parse': h.parse()
            elif op == 'save': h.save()
            elif op == 'reload':
                r = h.save()
                if r is None or not h.load(h.kind, r[0], r[1] if h.kind == 'ssar' else None): return
            elif op == 'insert':
                if h.o.parsed: h.insert()
            elif op == 'value':
                if h.o.parsed: h.value()
            elif op == 'mutate' and h.kind == 'ssar':
                if not h.mutate(): return
            elif op == 'mixed' and h.kind == 'ssar':
                if not h.mutate(mixed=True): return
                h.save(); return
            elif op == 'data' and not h.o.parsed:
                w = h.state(); d = R.choice([b'\xff', b'\x3c\1\1\xff', b'', b'\x82', h.o.eventsData + b'\0'])
                w['data'] = list(d)
                if not h.edit(w, lambda: setattr(h.o, 'eventsData', d)): return

    cases = ctx.cases('MCSeqFile', ctx.scale('MCSeqFile.cfg', 'MCSeqFileT.cfg'))
    for c in R.sample(cases, min(len(cases), ctx.scale(2500, 20000))):
        s = c['s0']; h = seqfile.H(ctx, L, 'tlc-history', s['kind'] == 'sseq')
        f = seqfile.sseq_file(s['data']) if s['kind'] == 'sseq' else seqfile.ssar_file(s['data'], s['seqs'])
        if h.load(s['kind'], f, [q['name'] for q in s['seqs']] if s['kind'] == 'ssar' else None): play(h, c['h'])
    # data that parses and data that does not, with failures in later sequences
    for i in range(ctx.scale(900, 9000)):
        good = b''.join(R.choice([b'\x3c\x64\x18', b'\x80\x30', b'\xc0\x40', b'\xe1\x78\x00']) for _ in range(R.randrange(5))) + b'\xff'
        bad = R.choice([b'\x82', b'\x3c', b'\x80', b'\xfd', b'\x94\xff\xff\xff', b'\x95\xff\0\0', b'\xc7\x09\xff', b'\xcc\x03\xff', b'\x3c\x64\x18', b'', b'\xa0\xff\0\0\0\0\xff', b'\x93\1\xff\xff\0\xff'])
        d = b''; offs = []
        for _ in range(R.choice([1, 1, 2, 3])):
            offs.append(len(d)); d += good
        if R.random() < .6: offs.append(len(d)); d += bad
        R.shuffle(offs)
        kind = R.choice(['sseq', 'ssar'])
        h = seqfile.H(ctx, L, 'history', kind == 'sseq')
        if kind == 'sseq': ok = h.load('sseq', seqfile.sseq_file(R.choice([good, bad, good[:-1] + bad, good + bad]), **seqfile.foreign(R)))
        else: ok = h.load('ssar', seqfile.ssar_file(d, [h.rand_seq([], False, offs) for _ in range(R.choice([0, 1, 2, 4]))], **seqfile.foreign(R)), R.choice([None, [], [[[65]]]]))
        if ok: play(h, [R.choice(['parse', 'parse', 'save', 'save', 'reload', 'insert', 'value', 'value', 'mutate', 'mixed', 'data']) for _ in range(R.choice([2, 4, 6, 9]))])
    large.run(ctx, large.SseqRaw, large.Sseq)
