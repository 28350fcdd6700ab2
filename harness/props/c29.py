"""C29: saving and inspecting never change an object; objects never share state."""
import copy
from props import objlib
TRACE = 'ObjectsTrace'


def run(ctx):
    R = ctx.rng
    T = objlib.types()
    cases = ctx.cases('MCObjects', ctx.scale('MCObjects.cfg', 'MCObjectsT.cfg'))
    toks = {}
    tok = lambda x: toks.setdefault(x, len(toks) + 1)

    def history(ts, ops):
        objs, kinds, clean, bufs = [], [], [], []
        E = ctx.trace(f'{"/".join(t.name for t in ts)} {[(o["op"], o["i"]) for o in ops]}')['ev']
        def log(op, **kw):
            E.append({'op': op, **kw, 'obs': [tok(objlib.describe(o)) for o in objs], 'buf': [tok(bytes(b)) for b in bufs]})
        for o in ops:
            op, i = o['op'], o['i'] - 1
            if op == 'create':
                t = ts[len(objs) % len(ts)]
                exc, x = ctx.call(lambda: t.make(R))
                objs.append(x); kinds.append(t); clean.append(True)
                log(op, exc=exc)
            elif op == 'load':
                t = kinds[i]
                exc, s = ctx.call(lambda: t.save(objs[i]))
                if exc:
                    s = t.save(t.make(R))
                b = bytearray(s[0]) if isinstance(s[0], bytes) and R.random() < .5 else s[0]
                given = tok(bytes(b)) if isinstance(b, (bytes, bytearray)) else 0
                args = [copy.deepcopy(a) for a in s[1:]]
                for a in args:
                    if isinstance(a, list) and a and isinstance(a[0], (str, type(None))): del a[R.randrange(len(a)):]      # names may be missing
                before = tok(objlib.describe(args))
                exc, x = ctx.call(lambda: t.load((b, *args)))
                after = tok(objlib.describe(args))
                objs.append(x); kinds.append(t); clean.append(clean[i])
                bufs.append(b if isinstance(b, (bytes, bytearray)) else b'')
                if not clean[i] and exc: return
                log(op, exc=exc, b=len(bufs), given=given if isinstance(b, (bytes, bytearray)) else tok(b''), argsBefore=before, argsAfter=after)
            elif op == 'edit':
                clean[i] = False
                if kinds[i].bad and R.random() < .2: ctx.call(lambda: kinds[i].bad(objs[i]))
                else: objlib.scribble(R, objs[i], objs[:i] + objs[i + 1:])
                log(op, i=i + 1)
            elif op == 'scribble':
                for b in bufs:
                    if isinstance(b, bytearray):
                        for j in range(len(b)): b[j] ^= 0x55
                log(op)
            elif op == 'look':
                ctx.call(lambda: kinds[i].look(R, objs[i]))
                log(op)
            elif op == 'print':
                exc, _ = ctx.call(lambda: (str(objs[i]), repr(objs[i]), f'{objs[i]}'))
                log(op, exc=exc, sure=clean[i])
            elif op == 'save':
                exc, s = ctx.call(lambda: kinds[i].save(objs[i]))
                log(op, i=i + 1, exc=exc, sure=clean[i], r=tok('exc' if exc else objlib.describe(s)))

    # a part of a code file: what it is made from stays the caller's
    from ndspy import code
    sec = objlib.Type('section'); sec.file = sec.bad = None; sec.look = lambda R, o: o.implicit
    sec.make = lambda R: code.MainCodeFile.Section(R.randbytes(R.choice([0, 1, 8])), R.randrange(999), R.randrange(99), implicit=R.random() < .3)
    sec.save = lambda o: (bytes(o.data), o.ramAddress, o.bssSize)
    sec.load = lambda s: code.MainCodeFile.Section(*s)
    T['section'] = sec

    def items(t):
        """Items of one loaded file are independent as well."""
        exc, o = ctx.call(lambda: t.load(t.save(t.make(R))))
        groups = [] if exc else objlib.siblings(o)
        for xs in [groups[0], R.choice(groups)] if groups else []:
            E = ctx.trace(f'{t.name} {len(xs)} items {type(xs[0]).__name__}')['ev']
            def log(op, **kw): E.append({'op': op, 'exc': '', **kw, 'obs': [tok(objlib.describe(x)) for x in xs], 'buf': []})
            log('open')
            for _ in range(3):
                i = R.randrange(len(xs)); objlib.scribble(R, xs[i], xs[:i] + xs[i + 1:])
                log('edit', i=i + 1)

    names = sorted(T)
    for n in names:
        if n in ('default', 'section', 'groupEntry', 'sequencePlayer', 'streamPlayer', 'overlay', 'events', 'swav'): continue
        for _ in range(ctx.scale(40, 600)): items(T[n])
    for n in names:
        for ops in R.sample(cases, min(len(cases), ctx.scale(90, 1500))): history([T[n]], ops)
    for _ in range(ctx.scale(300, 5000)): history([T[R.choice(names)], T[R.choice(names)]], R.choice(cases))
