from vf import bts, num, text, opt, boolean, IllTyped
from props import fntlib
from props import large
TRACE = 'FntTrace'


def s_(codes): return ''.join(map(chr, codes))


def run(ctx):
    from ndspy import fnt
    R = ctx.rng

    class H:
        """One history of a table."""
        def __init__(self, name, t=None, data=None):
            self.ev = ctx.trace(name)['ev']
            if t is not None:
                exc, self.f = ctx.call(lambda: fntlib.build(fnt, t))
                self.put({'op': 'new', 'want': t}, exc)
            else:
                exc, f = ctx.call(lambda: fnt.load(data))
                self.f = f
                self.put({'op': 'load', 'data': list(data)}, exc)
            self.ok = not exc

        def put(self, e, exc):
            e['exc'] = exc
            x, t = ctx.call(lambda: fntlib.tree(self.f)) if self.f is not None else ('none', None)
            if x: e['exc'] = exc or x; t = {'first': 0, 'files': [], 'dirs': []}
            e['tree'] = t
            self.ev.append(e)

        def look(self, op, path=None, id=None):
            key = s_(path) if path is not None else id
            f = self.f
            e = {'op': op, 'path': path or [], 'id': 0 if id is None else id, 'kind': '', 'r': []}
            if op == 'idOf': fn = lambda: opt(f.idOf(key), num)
            elif op == 'filenameOf': fn = lambda: opt(f.filenameOf(key), text)
            elif op == 'subfolder': fn = lambda: opt(f.subfolder(key), fntlib.tree)
            elif op.startswith('has'): fn = lambda: boolean(key in f)
            else:
                def fn():
                    r = f[key]
                    if isinstance(r, str): e['kind'] = 'name'; return [text(r)]
                    if isinstance(r, int): e['kind'] = 'id'; return [num(r)]
                    e['kind'] = 'folder'; return [fntlib.tree(r)]
            exc, r = ctx.call(fn)
            if not exc: e['r'] = r
            elif op.startswith('has'): e['r'] = False
            self.put(e, exc)

        def save(self):
            exc, r = ctx.call(lambda: bts(fnt.save(self.f)))
            self.put({'op': 'save', 'out': [] if exc else r}, exc)
            return None if exc else bytes(r)

        def add(self, path, name):
            def fn():
                d = self.f.subfolder(s_(path)) if path else self.f
                d.files.append(s_(name))
            exc, _ = ctx.call(fn)
            self.put({'op': 'add', 'path': path, 'name': name}, exc)

    def lookups(h, t, many=True):
        ps = fntlib.paths(t)
        n = sum(1 for k, _ in ps if k == 'f')
        absent = [[], [47], [122, 122], [97, 47, 122], [47, 47]]
        if ps:
            k, p = R.choice(ps); absent += [p + [120], p + [47, 97], p[:-1]]
            for k, p in ps:
                if 47 in p: absent.append(p[:p.index(47)] + [47] + p[p.index(47):]); break
        paths = [p for _, p in ps] if many else [p for _, p in R.sample(ps, min(len(ps), 6))]
        for p in paths + absent:
            v = R.choice([p, p, p, [47] + p, p + [47], [47, 47] + p + [47]])
            for op in ('idOf', 'subfolder', 'getStr', 'hasStr') if R.random() < .5 else (R.choice(['idOf', 'subfolder']), R.choice(['getStr', 'hasStr'])):
                h.look(op, path=v)
        base = t['first']
        ids = range(base - 1, base + n + 2) if many else [base, base + n - 1, base + n, R.randrange(base, base + n + 1)]
        for i in ids:
            h.look('filenameOf', id=i)
            if R.random() < .5: h.look(R.choice(['getInt', 'hasInt']), id=i)

    for t in ctx.cases('MCFnt', ctx.scale('MCFnt.cfg', 'MCFntT.cfg')):
        h = H('tlc-tree', t)
        d = h.save()
        lookups(h, t, many=False)
        if d is not None: H('tlc-tree-reload', data=d)

    for i in range(ctx.scale(120, 900)):
        t = fntlib.rand_tree(R, R.choice([3, 6, 12, 25, 40]), R.choice([0, 0, 1, 100, 65000]))
        h = H('random-tree', t)
        lookups(h, t, many=i % 4 == 0)
        d = h.save()
        # edit through what subfolder() returns
        for _ in range(2):
            dirs = [p for k, p in fntlib.paths(t) if k == 'd']
            h.add(R.choice(dirs) if dirs else [], fntlib.rand_name(R))
        h.save()
        if d is not None:
            h2 = H('random-tree-reload', data=d)
            if h2.ok: lookups(h2, t, many=False)
    # unnumbered / overlapping ID ranges, duplicate names
    for i in range(ctx.scale(60, 400)):
        t = fntlib.rand_tree(R, R.choice([4, 8, 12]), 0, unique=False)
        def scramble(x):
            x['first'] = R.choice([0, 1, 2, 65535, R.randrange(65536)])
            for d in x['dirs']: scramble(d['sub'])
        scramble(t)
        h = H('odd-ids', t); h.save(); lookups(h, t, many=False)
        for q in R.sample(range(0, 12), 4): h.look('filenameOf', id=q)
    for i in range(ctx.scale(150, 1200)):
        t = fntlib.rand_tree(R, R.choice([1, 3, 6, 12, 25]), R.choice([0, 5, 300]))
        h = H('foreign-table', data=fntlib.foreign(R, t))
        if h.ok: h.save(); lookups(h, t, many=False)
    # shapes: long chain, many siblings, long names, more than 256 folders
    chain = {'first': 0, 'files': [[97]], 'dirs': []}
    for i in range(ctx.scale(30, 60)): chain = {'first': 0, 'files': [[98]], 'dirs': [{'name': [97], 'sub': chain}]}
    fntlib.number(chain, 7)
    wide = {'first': 0, 'files': [[97 + i % 26, 97 + i // 26] for i in range(300)],
            'dirs': [{'name': [65 + i % 26, 65 + i // 26], 'sub': {'first': 0, 'files': [[97]], 'dirs': []}} for i in range(280)]}
    fntlib.number(wide, 0)
    long_ = {'first': 9, 'files': [[97] * 127, [98] * 126], 'dirs': [{'name': [99] * 127, 'sub': {'first': 11, 'files': [[255] * 127], 'dirs': []}}]}
    for nm, t in (('chain', chain), ('wide', wide), ('long-names', long_)):
        h = H(nm, t); d = h.save(); lookups(h, t, many=False)
        if d is not None: H(nm + '-reload', data=d)
    # not storable
    for nm in ([97] * 128, [97] * 255, [97] * 256, [0x100], [0x3042, 97]):
        for t in ({'first': 0, 'files': [nm], 'dirs': []},
                  {'first': 0, 'files': [[97]], 'dirs': [{'name': nm, 'sub': {'first': 1, 'files': [], 'dirs': []}}]}):
            h = H('bad-name', t); h.save()
    for first in (65536, 100000, -1):
        h = H('bad-id', {'first': first, 'files': [[97]], 'dirs': []}); h.save()
    large.run(ctx, large.Fnt)
