from . import seqlib, seqfile
from props import large
TRACE = 'SeqFileTrace'


def run(ctx):
    L = seqlib.Lib(); R = ctx.rng

    def play(h, ops):
        for op in ops:
            if op == 'parse':
                if not h.parse(): return
            elif op == 'save':
                if h.save() is None: return
            elif op == 'reload':
                r = h.save()
                if r is None or not h.load(h.kind, r[0], r[1] if h.kind == 'ssar' else None): return
            elif op == 'insert':
                if h.o.parsed and h.insert() is None: return
            elif op == 'value':
                if h.o.parsed: h.value()
            elif op == 'mutate' and h.kind == 'ssar':
                if not h.mutate(): return
            elif op == 'mixed' and h.kind == 'ssar':
                if not h.mutate(mixed=True): return
                h.save(); return

    cases = [c for c in ctx.cases('MCSeqFile', ctx.scale('MCSeqFile.cfg', 'MCSeqFileT.cfg')) if c['s0']['kind'] == 'ssar']
    for c in R.sample(cases, min(len(cases), ctx.scale(1500, 15000))):
        s = c['s0']; h = seqfile.H(ctx, L, 'tlc-history', True)
        if h.load('ssar', seqfile.ssar_file(s['data'], s['seqs'], **seqfile.foreign(R)), [q['name'] for q in s['seqs']][:R.choice([0, 1, 9, 9])]): play(h, c['h'])
    for i in range(ctx.scale(900, 9000)):
        h = seqfile.H(ctx, L, 'archive', True)
        prog, ent = seqlib.rand_program(R)
        if R.random() < .1: prog, ent = [], []
        if R.random() < .12:
            if not h.create(prog, [], 'sseq'): continue
        else:
            n = R.choice([0, 1, 2, 3, 6])
            seqs = [h.rand_seq(ent) for _ in range(n)]
            if not h.create(prog, seqs): continue
        play(h, ['save', 'reload'] + [R.choice(['parse', 'parse', 'save', 'reload', 'insert', 'value', 'mutate', 'mutate']) for _ in range(R.choice([2, 4, 6, 8]))] + ['parse', 'save', R.choice(['save', 'save', 'save', 'mixed'])])
    # many sequences, many of them alike
    for n in [9, 12, 200, 255, 256, 257, 300]:
        for same in (False, True):
            h = seqfile.H(ctx, L, 'many', True)
            prog, ent = seqlib.rand_program(R)
            seqs = [h.rand_seq(ent) for _ in range(n)]
            if same:
                for q in seqs: q['par'] = list(seqs[0]['par']); q['first'] = list(seqs[0]['first'])
            if not h.create(prog, seqs): continue
            play(h, ['save', 'reload', 'parse', 'save', 'mutate', 'reload', 'parse', 'save'])
    # archives of other writers whose names are only partly known
    for i in range(ctx.scale(60, 600)):
        h = seqfile.H(ctx, L, 'foreign', True)
        prog, ent = seqlib.rand_program(R)
        exc, r = ctx.call(lambda: L.S.saveSequenceEvents(o := L.build(prog), [o[i - 1] for i in ent]))
        if exc: continue
        d, offs = bytes(r[0]), list(r[1])
        qs = [h.rand_seq([], False, offs) for _ in range(R.choice([1, 2, 3, 6]))]
        names = [q['name'] for q in qs]
        if h.load('ssar', seqfile.ssar_file(d, qs, **seqfile.foreign(R)), R.choice([None, [], names[:1], names[:2], names])): play(h, ['save', 'parse', 'save', 'reload', 'mutate', 'save'])
        h = seqfile.H(ctx, L, 'foreign', True)
        if h.load('sseq', seqfile.sseq_file(d, **seqfile.foreign(R))): play(h, ['save', 'parse', 'insert', 'save', 'reload'])
    large.run(ctx, large.Ssar)
