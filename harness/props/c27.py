from vf import num, IllTyped
TRACE = 'NamedListTrace'


def run(ctx):
    import ndspy
    R = ctx.rng

    class Val:
        """A value that is only equal to itself."""
        def __init__(self, i): self.i = i

    class Weird(Val):
        """A value that claims to be equal to everything."""
        def __eq__(self, o): return True
        __hash__ = None

    POOLS = [{'a': 'a', 'b': 'b', 'none': None, 'c': 'c', 'd': '', 'e': 'A'},
             {'a': 0x640001, 'b': 2, 'none': 0, 'c': -1, 'd': 6553602, 'e': 5},
             {'a': 'SEQ_A', 'b': 'SEQ_AB', 'none': None, 'c': 'SEQ_', 'd': 'seq_a', 'e': 'SEQ_A '}]

    def go(name, names, ops, nv=0):
        pool = R.choice(POOLS); back = {v: k for k, v in pool.items()}
        kinds = [Val, Val, Weird, None]
        vals = {}
        def mkval(i):
            k = R.choice(kinds)
            if k is None: return None if nv and R.random() < .2 else i
            return k(i)
        def obsval(v):
            if v is None: return 0
            return v.i if isinstance(v, Val) else num(v)
        L = []
        for i, n in enumerate(names):
            e = (pool[n], mkval(nv and i)); L.append(list(e) if R.random() < .1 else e)
        def obs():
            if not isinstance(L, list): raise IllTyped('list')
            return [{'n': back[e[0]], 'v': obsval(e[1])} for e in L if len(e) == 2 or (_ for _ in ()).throw(IllTyped('pair'))]
        t = ctx.trace(name)
        t['ev'].append({'op': 'list', 'name': '', 'v': 0, 'out': 0, 'exc': '', 'obj': obs()})
        for k, n in enumerate(ops):
            for op in R.choice([('set',), ('index', 'set', 'find'), ('find', 'set', 'index'), ('index',), ('find',)]) if nv else ('index', 'set', 'find'):
                key = pool[n]
                if isinstance(key, str): key = ''.join(list(key))     # equal, not identical
                v = k + 1
                if op == 'index': exc, r = ctx.call(lambda: num(ndspy.indexInNamedList(L, key)))
                elif op == 'find': exc, r = ctx.call(lambda: obsval(ndspy.findInNamedList(L, key)))
                else:
                    val = mkval(v); v = obsval(val)
                    exc, r = ctx.call(lambda: ndspy.setInNamedList(L, key, val)); r = 0
                x, o = ctx.call(obs)
                t['ev'].append({'op': op, 'name': n, 'v': v, 'out': 0 if exc else r, 'exc': x or exc, 'obj': [] if x else o})

    for c in ctx.cases('MCNamedList', ctx.scale('MCNamedList.cfg', 'MCNamedListT.cfg')):
        go('tlc-history', c['l'], c['ops'])
    for i in range(ctx.scale(300, 3000)):
        names = [R.choice(['a', 'b', 'none', 'd', 'e']) for _ in range(R.choice([0, 1, 2, 4, 9, 30]))]
        go('generated', names, [R.choice(['a', 'b', 'none', 'c', 'd', 'e']) for _ in range(R.randrange(1, 8))], 1)
