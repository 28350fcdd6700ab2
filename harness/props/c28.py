"""C28: files on disk hold exactly what was saved; the command lines."""
import contextlib, copy, io, os, pathlib, shutil, subprocess, sys
import vf
from vf import text
from props import objlib, lzgen
from props import large
TRACE = 'FilesTrace'


class Dir:
    """A scratch directory, observed completely after each operation."""
    def __init__(self, ctx, toks):
        self.root = os.path.join(ctx.scratch, 'fs'); self.toks = toks
        shutil.rmtree(self.root, ignore_errors=True); os.mkdir(self.root)
    def tok(self, b): return self.toks.setdefault(b, len(self.toks) + 1)
    def path(self, rel): return os.path.join(self.root, rel)
    def fs(self):
        out = []
        for d, _, fs in os.walk(self.root):
            for f in fs:
                with open(os.path.join(d, f), 'rb') as h: out.append({'p': text(os.path.relpath(os.path.join(d, f), self.root)), 't': self.tok(h.read())})
        return sorted(out, key=lambda x: x['p'])


def run(ctx):
    R = ctx.rng
    T = {n: t for n, t in objlib.types().items() if t.file}
    cases = ctx.cases('MCFiles', ctx.scale('MCFiles.cfg', 'MCFilesT.cfg'))
    toks = {}
    otok = {}

    def obj(fn):
        """Token of the object a call gives."""
        exc, o = ctx.call(fn)
        if exc: return exc, 0
        return '', otok.setdefault(objlib.describe(o), len(otok) + 1)

    def history(t, ops):
        d = Dir(ctx, toks); E = ctx.trace(f'{t.name} {ops}')['ev']
        objs = {}
        for i in (1, 2):
            for _ in range(10):
                objs[i] = t.make(R)
                if i == 1 or t.save(objs[1]) != t.save(objs[2]): break
        saved = {}      # relative path -> what was saved there
        for o in ops:
            rel = ''.join(map(chr, o['path'])); p = d.path(rel)
            arg = p if R.random() < .5 else pathlib.Path(p)
            if o['op'] == 'load':
                s = saved.get(rel)
                exc, got = obj(lambda: t.file[1](arg, s or (b'',)))
                mem = []
                if s is not None:
                    x, m = obj(lambda: t.load(s))
                    if not x: mem = [m]
                E.append({'op': 'load', 'path': o['path'], 'exc': exc, 'mem': mem, 'got': got, 'fs': d.fs()})
                continue
            x = objs[o['obj']]
            if o['op'] == 'bad':
                x = copy.deepcopy(x); t.bad(x)
            exc0, s = ctx.call(lambda: t.save(x))
            exc, _ = ctx.call(lambda: t.file[0](x, arg, R))
            E.append({'op': 'save', 'path': o['path'], 'exc': exc, 'mem': [] if exc0 else [d.tok(bytes(s[0]))], 'can': o['op'] != 'nodir', 'fs': d.fs()})
            if not exc0 and not exc and o['op'] != 'nodir': saved[rel] = s

    for name, t in sorted(T.items()):
        for ops in R.sample(cases, min(len(cases), ctx.scale(60, 1500))): history(t, ops)

    # options of the saving functions
    def saves(name, mk, mem, tofile, n):
        for _ in range(n):
            d = Dir(ctx, toks); E = ctx.trace(f'{name} options')['ev']; x = mk()
            exc0, s = ctx.call(lambda: mem(copy.deepcopy(x)))
            exc, _ = ctx.call(lambda: tofile(x, d.path('o')))
            E.append({'op': 'save', 'path': text('o'), 'exc': exc, 'mem': [] if exc0 else [d.tok(bytes(s))], 'can': True, 'fs': d.fs()})
    n = ctx.scale(8, 80)
    def wave():
        w = T['swav'].make(R); w.totalLength = w.loopOffset + R.randrange(40); w.time = R.randrange(9); return w
    saves('rom', lambda: T['rom'].make(R), lambda o: o.save(updateDeviceCapacity=True), lambda o, p: o.saveToFile(p, updateDeviceCapacity=True), n)
    saves('strm', lambda: T['strm'].make(R), lambda o: o.save(updateTime=True)[0], lambda o, p: o.saveToFile(p, updateTime=True), n)
    for a in (False, True):
        for b in (False, True):
            saves('swav', wave, lambda o: o.save(updateTime=a, updateTotalLength=b), lambda o, p: o.saveToFile(p, updateTime=a, updateTotalLength=b), n)
    saves('code', lambda: T['code'].make(R), lambda o: o.save(compress=True), lambda o, p: o.saveToFile(p, compress=True), n)

    # formats of the loading functions
    from ndspy import graphics2D as g2
    for _ in range(n):
        for load, lf, fmts in ((g2.loadImageTiles, g2.loadImageTilesFromFile, g2.ImageFormat), (g2.loadTilemapTiles, g2.loadTilemapTilesFromFile, g2.TilemapFormat)):
            for f in fmts:
                d = Dir(ctx, toks); E = ctx.trace('formats')['ev']; data = R.randbytes(64 * R.randrange(4))
                with open(d.path('i'), 'wb') as h: h.write(data)
                E.append({'op': 'given', 'fs': d.fs()})
                exc, got = obj(lambda: lf(d.path('i'), f))
                x, m = obj(lambda: load(data, f))
                E.append({'op': 'load', 'path': text('i'), 'exc': exc, 'mem': [] if x else [m], 'got': got, 'fs': d.fs()})

    # the compression functions and command lines
    from ndspy import lz10, codeCompression as cc
    def data(cmd, mod, bad):
        raw = R.choice([b'', b'a' * R.randrange(1, 300), R.randbytes(R.randrange(1, 300)), bytes(R.choice(b'ab') for _ in range(R.randrange(1, 400))), bytes(0x4000) + b'abab' * R.randrange(1, 200)])
        if cmd == 'compress': return raw
        if bad: return R.choice([b'', b'\x11abc', b'\x10\xff\xff\xff', R.randbytes(20)])
        try: return mod.compress(raw)
        except Exception: return b''
    def memory(mod, cmd, d, arm9):
        if cmd == 'decompress': return mod.decompress(d)
        return mod.compress(d, arm9) if mod is cc and arm9 else mod.compress(d)
    names = ['in', 'in.bin', 'in.tar.gz', '.hid', 'sub.d/in', 'sub.d/x.y', 'in.dec.cmp.z']
    def place(d, name, dat):
        os.makedirs(os.path.dirname(d.path(name)), exist_ok=True)
        with open(d.path(name), 'wb') as f: f.write(dat)
    def functions(mod, mname):
        d = Dir(ctx, toks); E = ctx.trace(f'{mname} functions')['ev']
        for _ in range(R.randrange(1, 5)):
            cmd = R.choice(['compress', 'decompress']); dat = data(cmd, mod, R.random() < .3); arm9 = mod is cc and R.random() < .3
            exc0, m = ctx.call(lambda: memory(mod, cmd, dat, arm9 and cmd == 'compress'))
            kw = {'isArm9': True} if arm9 and cmd == 'compress' else {}
            arg = lambda p: p if R.random() < .5 else pathlib.Path(p)
            if R.random() < .5:
                if R.random() < .2:           # not data at all
                    dat = R.choice([None, 5])
                    exc0, m = ctx.call(lambda: memory(mod, cmd, dat, arm9 and cmd == 'compress'))
                nodir = R.random() < .15; rel = 'no/o' if nodir else R.choice(['o', 'q'])
                exc, _ = ctx.call(lambda: getattr(mod, cmd + 'ToFile')(dat, arg(d.path(rel)), **kw))
                E.append({'op': 'save', 'path': text(rel), 'exc': exc, 'mem': [] if exc0 else [d.tok(bytes(m))], 'can': not nodir, 'fs': d.fs()})
            else:
                rel = R.choice(['i', 'j'])
                missing = R.random() < .1 and not os.path.exists(d.path(rel))
                if not missing: place(d, rel, dat)
                E.append({'op': 'given', 'fs': d.fs()})
                exc, r = ctx.call(lambda: getattr(mod, cmd + 'FromFile')(arg(d.path(rel)), **kw))
                E.append({'op': 'load', 'path': text(rel), 'exc': exc, 'mem': [] if exc0 else [d.tok(bytes(m))], 'got': 0 if exc else d.tok(bytes(r)), 'fs': d.fs()})
    def cli(mod, mname, sub):
        d = Dir(ctx, toks); E = ctx.trace(f'{mname} command line')['ev']
        for _ in range(1 if sub else R.randrange(1, 4)):
            cmd = R.choice(['compress', 'decompress']); name = R.choice(names); bad = R.random() < .3
            dat = data(cmd, mod, bad); arm9 = mod is cc and cmd == 'compress' and R.random() < .4
            missing = R.random() < .1 and not os.path.exists(d.path(name))
            if not missing: place(d, name, dat)
            if R.random() < .4: place(d, 'other', R.randbytes(5))
            out = R.choice([[], [], ['out'], ['sub.d/o.bin'], ['other'], ['no/out']])
            out = [o for o in out if o != name]
            if out == ['sub.d/o.bin']: os.makedirs(d.path('sub.d'), exist_ok=True)
            can = out != ['no/out']
            E.append({'op': 'given', 'fs': d.fs()})
            exc0, m = ctx.call(lambda: memory(mod, cmd, dat, arm9))
            args = [R.choice([cmd, cmd[0]]), d.path(name)] + [d.path(o) for o in out]
            if arm9: args.insert(R.choice([1, len(args)]), '--is_arm9')      # argparse does not take an optional positional after an option
            if sub:
                p = subprocess.run([sys.executable, '-B', '-m', 'ndspy.' + mname, *args], cwd=d.root, env={**os.environ, 'PYTHONPATH': vf.REPO}, capture_output=True, timeout=60)
                exc = '' if p.returncode == 0 else 'exit'
            else:
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()): exc, _ = ctx.call(lambda: mod.main(args))
            E.append({'op': 'cli', 'cmd': cmd, 'in': text(name), 'out': [text(o) for o in out], 'exc': exc, 'mem': [] if exc0 else [d.tok(bytes(m))], 'can': can, 'fs': d.fs()})
        if not sub and R.random() < .3:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                exc, _ = ctx.call(lambda: mod.main(R.choice([[], ['-h'], ['frobnicate'], ['compress'], ['d'], ['compress', 'a', 'b', 'c']])))
            E.append({'op': 'usage', 'exc': exc, 'fs': d.fs()})
    for mod, mname in ((lz10, 'lz10'), (cc, 'codeCompression')):
        for _ in range(ctx.scale(200, 3000)): functions(mod, mname); cli(mod, mname, False)
        for _ in range(ctx.scale(6, 60)): cli(mod, mname, True)
    large.run(ctx, large.Narc, large.Rom, large.Lz, large.CodeLz, large.Bmg, large.Sdat, large.Sseq, large.Ssar, large.Bank, large.Swar, large.Swav, large.StrmA, large.Tiles, large.Tilemap, disk=True)
