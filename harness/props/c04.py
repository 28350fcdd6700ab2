import copy, struct
from vf import bts
from props import fntlib
from props import large
TRACE = 'NarcTrace'
EMPTY = {'big': False, 'files': [], 'names': {'first': 0, 'files': [], 'dirs': []}}


def s_(codes): return ''.join(map(chr, codes))


def foreign(R, n):
    """A valid archive laid out differently: files shuffled, unaligned, with gaps or shared."""
    img = bytearray(R.randbytes(R.choice([0, 4, 3])))
    ext = [None] * len(n['files'])
    done = {}
    for i in R.sample(range(len(ext)), len(ext)):
        d = bytes(n['files'][i])
        if d in done and R.random() < .6: ext[i] = done[d]; continue
        img += R.randbytes(R.choice([0, 0, 1, 4]))
        ext[i] = done[d] = (len(img), len(img) + len(d)); img += d
    img += R.randbytes(R.choice([0, 2]))
    names = fntlib.foreign(R, n['names'])
    body = b'BTAF' + struct.pack('<II', 12 + 8 * len(ext), len(ext)) + b''.join(struct.pack('<II', *e) for e in ext)
    body += b'BTNF' + struct.pack('<I', 8 + len(names)) + names
    body += b'GMIF' + struct.pack('<I', 8 + len(img)) + img
    return b'NARC' + (b'\xFE\xFF\0\1' if n['big'] else b'\xFF\xFE\1\0') + struct.pack('<IHH', 16 + len(body), 16, 3) + body


def run(ctx):
    from ndspy import narc, fnt
    R = ctx.rng

    def observe(o):
        return {'big': {'<': False, '>': True}[o.endiannessOfBeginning], 'files': [bts(f) for f in o.files], 'names': fntlib.tree(o.filenames)}

    class H:
        def __init__(self, name, want=None, data=None):
            self.ev = ctx.trace(name)['ev']
            self.m = copy.deepcopy(want) if want else None
            if data is None:
                def mk():
                    o = narc.NARC.fromFilesAndNames([bytes(f) for f in want['files']], fntlib.build(fnt, want['names'])) if want else narc.NARC()
                    if want and want['big']: o.endiannessOfBeginning = '>'
                    return o
                exc, self.o = ctx.call(mk)
                self.put({'op': 'new', 'want': want or EMPTY}, exc)
            else:
                exc, self.o = ctx.call(lambda: narc.NARC(data))
                self.put({'op': 'load', 'data': list(data)}, exc)
            self.ok = not self.ev[-1]['exc']

        def put(self, e, exc):
            x, o = ctx.call(lambda: observe(self.o)) if self.o is not None and not isinstance(self.o, str) else ('none', None)
            e['exc'] = exc or x
            e['obj'] = EMPTY if x else o
            self.ev.append(e)

        def save(self):
            exc, r = ctx.call(lambda: bts(self.o.save()))
            self.put({'op': 'save', 'out': [] if exc else r}, exc)
            return None if exc else bytes(r)

        def get(self, path):
            exc, r = ctx.call(lambda: bts(self.o.getFileByName(s_(path))))
            self.put({'op': 'get', 'path': path, 'out': [] if exc else r}, exc)

        def set(self, path, d):
            exc, r = ctx.call(lambda: self.o.setFileByName(s_(path), bytes(d)))
            self.put({'op': 'set', 'path': path, 'data': list(d)}, exc)

        def assign(self, fn, want):
            exc, _ = ctx.call(fn)
            self.put({'op': 'assign', 'want': want}, exc)

    # spec-generated histories
    for hist in ctx.cases('MCNarc', ctx.scale('MCNarc.cfg', 'MCNarcT.cfg')):
        h = H('tlc-history'); m = copy.deepcopy(EMPTY)
        for op in hist:
            o = h.o
            if op['op'] == 'add':
                m['files'].append(op['data']); m['names']['files'].append(op['path'])
                def f(): o.files.append(bytes(op['data'])); o.filenames.files.append(s_(op['path']))
                h.assign(f, copy.deepcopy(m))
            elif op['op'] == 'set':
                h.set(op['path'], op['data']); m = copy.deepcopy(h.ev[-1]['obj'])
            elif op['op'] == 'drop':
                m['files'].pop(); h.assign(lambda: o.files.pop(), copy.deepcopy(m))
            elif op['op'] == 'endian':
                m['big'] = op['big']
                def f(): o.endiannessOfBeginning = '>' if op['big'] else '<'
                h.assign(f, copy.deepcopy(m))
            else:
                d = h.save()
                if d is None: break
                exc, o2 = ctx.call(lambda: narc.NARC(d))
                if not exc: h.o = o2
                h.put({'op': 'load', 'data': list(d)}, exc)
        h.save(); h.get([97])

    def rand_narc():
        nodes = R.choice([0, 1, 3, 6, 12, 20])
        base = R.choice([0, 0, 0, 2])
        t = fntlib.rand_tree(R, nodes, base)
        nf = base + sum(1 for k, _ in fntlib.paths(t) if k == 'f') + R.choice([0, 0, 1, 3])
        fs = [list(R.randbytes(R.choice([0, 1, 2, 3, 4, 5, 7, 8, 33]))) for _ in range(nf)]
        if nf > 1 and R.random() < .4: fs[-1] = fs[0]
        return {'big': R.random() < .5, 'files': fs, 'names': t}

    for i in range(ctx.scale(160, 1200)):
        n = rand_narc()
        h = H('random', n) if i % 2 else H('foreign', data=foreign(R, n))
        if not h.ok: continue
        cur = n
        for step in range(R.randrange(2, 7)):
            ps = [p for k, p in fntlib.paths(cur['names']) if k == 'f']
            ds = [p for k, p in fntlib.paths(cur['names']) if k == 'd']
            a = R.choice(['set', 'set', 'get', 'get', 'unknown', 'add', 'remove', 'files', 'reopen', 'save'])
            if a == 'set' and ps: h.set(R.choice(ps), list(R.randbytes(R.choice([0, 1, 4, 6, 50]))))
            elif a == 'get' and ps: h.get(R.choice([R.choice(ps), [47] + R.choice(ps)]))
            elif a == 'unknown':
                p = R.choice(([[120, 120]] + [q + [120] for q in ps] + ds + [[]]))
                if R.random() < .5: h.get(p)
                else: h.set(p, [1])
            elif a == 'add':
                cur = copy.deepcopy(cur); nm = fntlib.rand_name(R); d = list(R.randbytes(R.randrange(6)))
                # a new folder at the end, holding the new last file
                cur['files'].append(d)
                cur['names']['dirs'].append({'name': nm, 'sub': {'first': len(cur['files']) - 1, 'files': [[110]], 'dirs': []}})
                def f(o=h.o, d=d, nm=nm):
                    o.files.append(bytes(d)); o.filenames.folders.append((s_(nm), fnt.Folder(files=['n'], firstID=len(o.files) - 1)))
                h.assign(f, cur)
            elif a == 'remove' and cur['files']:
                cur = copy.deepcopy(cur); cur['files'].pop(0)
                h.assign(lambda o=h.o: o.files.pop(0), cur)
            elif a == 'files' and cur['files']:
                cur = copy.deepcopy(cur); j = R.randrange(len(cur['files'])); d = list(R.randbytes(R.randrange(20)))
                cur['files'][j] = d
                def f(o=h.o, j=j, d=d): o.files[j] = bytes(d)
                h.assign(f, cur)
            elif a in ('reopen', 'save'):
                d = h.save()
                if d is None: break
                if a == 'reopen':
                    exc, o2 = ctx.call(lambda: narc.NARC(d))
                    if exc: h.put({'op': 'load', 'data': list(d)}, exc); break
                    h.o = o2; h.put({'op': 'load', 'data': list(d)}, '')
            cur = copy.deepcopy(h.ev[-1]['obj'])
        h.save()
    for count in (0, 1, 300):
        n = {'big': False, 'files': [[i % 256] * (i % 7) for i in range(count)], 'names': {'first': 0, 'files': [], 'dirs': []}}
        h = H(f'unnamed-{count}', n); d = h.save()
        if d is not None: H('unnamed-reload', data=d)
    n = {'big': True, 'files': [[5] * 70000, [6]], 'names': {'first': 0, 'files': [[97], [98]], 'dirs': []}}
    h = H('large-file', n); d = h.save()
    if d is not None: H('large-file-reload', data=d)
    large.run(ctx, large.Narc)
