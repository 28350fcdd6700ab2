"""Folder trees for the drivers."""
from vf import num, text


def tree(f):
    return {'first': num(f.firstID), 'files': [text(n) for n in f.files],
            'dirs': [{'name': text(n), 'sub': tree(s)} for n, s in f.folders]}


def build(fnt, t):
    return fnt.Folder([(''.join(map(chr, d['name'])), build(fnt, d['sub'])) for d in t['dirs']],
                      [''.join(map(chr, n)) for n in t['files']], t['first'])


def number(t, base):
    t['first'] = base
    base += len(t['files'])
    for d in t['dirs']: base = number(d['sub'], base)
    return base


def rand_name(R, latin=True):
    n = R.choice([1, 1, 2, 3, 5, 8, 12, 12, 126, 127]) if R.random() < .2 else R.randrange(1, 9)
    lo, hi = (1, 255) if latin and R.random() < .3 else (97, 122)
    while True:
        s = [R.randrange(lo, hi + 1) for _ in range(n)]
        if 47 not in s: return s


def rand_tree(R, nodes, base=0, unique=True):
    root = {'first': 0, 'files': [], 'dirs': []}
    all_ = [root]
    for _ in range(nodes):
        d = R.choice(all_[-4:] if R.random() < .5 else all_)
        names = [tuple(n) for n in d['files']] + [tuple(x['name']) for x in d['dirs']]
        while True:
            nm = R.choice([[97], [98], rand_name(R), rand_name(R)])
            if tuple(nm) not in names or not unique and R.random() < .3: break
        if R.random() < .4:
            s = {'first': 0, 'files': [], 'dirs': []}
            d['dirs'].append({'name': nm, 'sub': s}); all_.append(s)
        else: d['files'].append(nm)
    number(root, base)
    return root


def paths(t, pre=()):
    out = [('f', list(pre) + n) for n in t['files']]
    for d in t['dirs']:
        out.append(('d', list(pre) + d['name']))
        out += paths(d['sub'], tuple(pre) + tuple(d['name']) + (47,))
    return out


def foreign(R, t):
    """A valid table for t laid out differently: shuffled folder IDs, shuffled
    sub-tables with gaps, files and folders interleaved."""
    folders = []
    def walk(x):
        folders.append(x)
        for d in x['dirs']: walk(d['sub'])
    walk(t)
    order = [0] + R.sample(range(1, len(folders)), len(folders) - 1)
    ids = {id(folders[j]): 0xF000 + i for i, j in enumerate(order)}
    tabs = {}
    for x in folders:
        items = [('f', n) for n in x['files']]
        dirs = [('d', d) for d in x['dirs']]
        merged = []
        while items or dirs:
            src = items if items and (not dirs or R.random() < .5) else dirs
            merged.append(src.pop(0))
        b = bytearray()
        for k, v in merged:
            if k == 'f': b += bytes([len(v)]) + bytes(v)
            else: b += bytes([128 + len(v['name'])]) + bytes(v['name']) + ids[id(v['sub'])].to_bytes(2, 'little')
        tabs[id(x)] = bytes(b) + b'\0'
    pos, blob = {}, bytearray(8 * len(folders))
    for x in R.sample(folders, len(folders)):
        blob += R.randbytes(R.choice([0, 0, 1, 5]))
        pos[id(x)] = len(blob); blob += tabs[id(x)]
    for x in folders:
        i = ids[id(x)] - 0xF000
        blob[8 * i:8 * i + 8] = pos[id(x)].to_bytes(4, 'little') + x['first'].to_bytes(2, 'little') + (0xF000).to_bytes(2, 'little')
    return bytes(blob + R.randbytes(R.choice([0, 3])))
