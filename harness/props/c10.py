import copy
from props import bmglib
from props.bmglib import H, rand_file, foreign
from props.c09 import cycle
from props import large
TRACE = 'BmgTrace'


def run(ctx):
    from ndspy import bmg
    R = ctx.rng
    mk = lambda name: H(ctx, bmg, name, 'scr')
    cases = ctx.cases('MCBmg', 'MCBmgS.cfg')
    n = ctx.scale(600, 3000)
    if len(cases) > n: cases = R.sample(cases, n)
    for c in cases:
        h = mk('tlc-file')
        if h.assign(c['f']): cycle(h)
        if c['ok']:
            h = mk('tlc-canonical')
            h.load(bytes(c['data']))
    for i in range(ctx.scale(220, 1800)):
        f = rand_file(R, R.random() < .4, True)
        h = mk('generated')
        if R.random() < .5:
            if not h.assign(f): continue
        else:
            try: data = foreign(R, f)
            except UnicodeEncodeError: continue
            if not h.load(data): continue
            f = copy.deepcopy(h.ev[-1]['obj'])
        for _ in range(R.choice([1, 2, 3])):
            if cycle(h) is None: break
            f = copy.deepcopy(h.ev[-1]['obj'])
            k = R.randrange(6)
            if k == 0: f['insts'].insert(R.randrange(len(f['insts']) + 1), list(R.choice([bytes(8), R.randbytes(8)])))
            elif k == 1 and f['insts']: f['insts'].pop(R.randrange(len(f['insts'])))
            elif k == 2: f['labels'] = [[R.randrange(-128, 128), R.randrange(-5, 300)] for _ in range(R.randrange(20))]
            elif k == 3: f['scripts'].append([list(R.randbytes(4)), R.randrange(65536)])
            elif k == 4: f['end'] = '<' if f['end'] == '>' else '>'
            elif k == 5: f[R.choice(['insts', 'labels', 'scripts'])] = []
            if not h.assign(f): break
    for ni, nl, ns in [(300, 0, 0), (1, 300, 0), (0, 257, 300), (257, 256, 256)] + ([(5000, 4000, 3000)] if ctx.thorough else []):
        f = copy.deepcopy(bmglib.EMPTY)
        f['end'] = R.choice('<>'); f['insts'] = [list(R.randbytes(8)) for _ in range(ni)]
        f['labels'] = [[R.randrange(-128, 128), R.randrange(-32768, 32768)] for _ in range(nl)]
        f['scripts'] = [[list(R.randbytes(4)), R.randrange(65536)] for _ in range(ns)]
        h = mk('many')
        if h.assign(f): cycle(h)
    for i in range(ctx.scale(40, 200)):
        f = rand_file(R, False, True)
        k = R.randrange(4)
        if k == 0: f['insts'].append(list(R.randbytes(R.choice([0, 7, 9, 16]))))
        elif k == 1: f['labels'].append(R.choice([[128, 0], [0, 32768], [-129, 3]]))
        elif k == 2: f['scripts'].append([[1, 2, 3, 4], R.choice([65536, 70000, -1])])
        elif k == 3: f['insts'].insert(0, list(bytes(R.choice([4, 12]))))
        h = mk('unstorable')
        if h.assign(f): cycle(h)
    large.run(ctx, large.BmgScript)
