import os
from vf import bts, num, boolean, opt
from props import large
TRACE = 'TilesTrace'


def run(ctx):
    from ndspy import graphics2D as G
    from ndspy import color as C
    R = ctx.rng
    IF = {'I8': G.ImageFormat.I8, 'I4': G.ImageFormat.I4}; MF = {'I10': G.TilemapFormat.I10H1V1P4, 'I8': G.TilemapFormat.I8}
    IN = {v: k for k, v in IF.items()}; MN = {v: k for k, v in MF.items()}
    def o_tile(t): return {'pix': [num(p) for p in t.pixels], 'fmt': IN[t.format]}
    def o_map(m): return {'num': num(m.tileNum), 'h': boolean(m.hFlip), 'v': boolean(m.vFlip), 'pal': num(m.paletteNum), 'fmt': MN[m.format]}
    def path(): return os.path.join(ctx.scratch, 'tiles.bin')

    def r_tile(fmt=None):
        f = fmt or R.choice(['I4', 'I8']); n = 16 if f == 'I4' else 256
        k = R.randrange(4)
        return {'pix': [R.randrange(n) if k else R.choice([0, 1, n - 1]) for _ in range(64)] if k != 1 else [(i * 5 + 1) % n for i in range(64)], 'fmt': f}

    def m_tile(t):
        if R.random() < .5: return G.ImageTile.fromPixels(list(t['pix']), IF[t['fmt']])
        x = G.ImageTile(format=IF[t['fmt']])
        x.pixels = list(t['pix'])
        return x

    def r_map(fmt=None, n=1024):
        f = fmt or R.choice(['I10', 'I10', 'I8'])
        return {'num': R.randrange(min(n, 256 if f == 'I8' else 1024)), 'h': R.random() < .5, 'v': R.random() < .5, 'pal': R.randrange(16), 'fmt': f}

    def m_map(m):
        if R.random() < .5: return G.TilemapTile.fromParameters(m['num'], MF[m['fmt']], m['h'], m['v'], m['pal'])
        t = G.TilemapTile(0, MF[m['fmt']]); t.tileNum = m['num']; t.hFlip = m['h']; t.vFlip = m['v']; t.paletteNum = m['pal']
        return t

    def r_colors(n): return [[R.randrange(32), R.randrange(32), R.randrange(32), R.randrange(2)] if R.random() < .9 else R.choice([[0, 0, 0, 0], [31, 31, 31, 0], [0, 0, 0, 1]]) for _ in range(n)]

    def py_colors(cs): return [R.choice([tuple, lambda c: C.ColorTuple(*c) if hasattr(C, 'ColorTuple') else tuple(c)])(c) for c in cs]

    def add(op, e, fn):
        exc, r = ctx.call(fn)
        ev = ctx.trace(op)['ev']
        ev.append({'op': op, **e, **({} if exc else r), 'exc': exc})
        return not exc

    def drawing(op, e, plain, image):
        im = R.random() < .35
        def go():
            if im:
                i = image()
                if i.mode != 'RGBA': i = i.convert('RGBA')
                return {'out': [list(p) for p in i.getdata()], 'size': list(i.size)}
            return {'out': [[num(x) for x in p] for p in plain()]}
        add(op, {**e, 'image': im, 'out': [], 'size': [0, 0]}, go)

    # codecs
    for v in range(0, 65536, 2048):
        data = b''.join(x.to_bytes(2, 'little') for x in range(v, v + 2048))
        if not ctx.thorough and v % 4096: data = data[:400]
        add('map', {'data': list(data), 'fmt': 'I10', 'maps': []}, lambda: {'maps': [o_map(m) for m in G.loadTilemapTiles(data, MF['I10'])]})
    for c in ctx.cases('MCTiles', ctx.scale('MCTiles.cfg', 'MCTilesT.cfg')):
        f = c['m']['fmt']
        def go():
            if R.random() < .5: t = G.TilemapTile(c['v'], MF[f]) if f == 'I8' or R.random() < .5 else G.TilemapTile(c['v'])
            else:
                t = G.TilemapTile(R.choice([0, 65535]) if f == 'I10' else 0, MF[f]); t.value = c['v']
            return {'tile': o_map(t)}
        add('maptile', {'v': c['v'], 'fmt': f, 'tile': {}}, go)
        add('mapsave', {'maps': [c['m']], 'out': [], 'values': []}, lambda: (lambda t: {'values': [num(t.value)], 'out': bts(G.saveTilemapTiles([t]))})(m_map(c['m'])))
    for _ in range(ctx.scale(40, 400)):
        v = R.randrange(65536)
        add('maptile', {'v': v, 'fmt': 'I8', 'tile': {}}, lambda: {'tile': o_map(G.TilemapTile(v, MF['I8']))})
    for _ in range(ctx.scale(150, 2000)):
        f = R.choice(['I4', 'I8']); n = R.choice([0, 1, 2, 5]); data = R.randbytes(n * (32 if f == 'I4' else 64))
        def load():
            if R.random() < .25:
                with open(path(), 'wb') as h: h.write(data)
                return G.loadImageTilesFromFile(path(), IF[f])
            if f == 'I8' and R.random() < .3: return G.loadImageTiles(data)
            return G.loadImageTiles(data, IF[f])
        add('tiles', {'data': list(data), 'fmt': f, 'tiles': []}, lambda: {'tiles': [o_tile(t) for t in load()]})
        ts = [r_tile(f) for _ in range(n)]
        if n > 1 and R.random() < .2: ts[R.randrange(n)] = r_tile('I4' if f == 'I8' else 'I8')
        def save():
            o = [m_tile(t) for t in ts]
            if R.random() < .25:
                G.saveImageTilesToFile(o, path())
                with open(path(), 'rb') as h: return {'out': list(h.read())}
            if len(o) == 1 and R.random() < .5: return {'out': bts(bytes(o[0].save()))}
            return {'out': bts(bytes(G.saveImageTiles(o)))}
        add('tilesave', {'tiles': ts, 'out': []}, save)
        f = R.choice(['I10', 'I8']); data = R.randbytes(R.choice([0, 2, 6, 40]))
        def mload():
            if R.random() < .25:
                with open(path(), 'wb') as h: h.write(data)
                return G.loadTilemapTilesFromFile(path(), MF[f])
            return G.loadTilemapTiles(data, MF[f])
        add('map', {'data': list(data), 'fmt': f, 'maps': []}, lambda: {'maps': [o_map(t) for t in mload()]})
        ms = [r_map(f) for _ in range(R.choice([0, 1, 3, 8]))]
        if len(ms) > 1 and R.random() < .2: ms[R.randrange(len(ms))] = r_map('I8' if f == 'I10' else 'I10')
        def msave():
            o = [m_map(t) for t in ms]
            vs = [num(t.value) for t in o]
            if R.random() < .25:
                G.saveTilemapTilesToFile(o, path())
                with open(path(), 'rb') as h: return {'out': list(h.read()), 'values': vs}
            return {'out': bts(bytes(G.saveTilemapTiles(o))), 'values': vs}
        add('mapsave', {'maps': ms, 'out': [], 'values': []}, msave)
    # drawing
    for _ in range(ctx.scale(200, 2500)):
        t = r_tile(); pal = R.choice([0, 0, 1, R.randrange(16)]) if t['fmt'] == 'I4' else R.choice([0, 0, 1])
        cs = r_colors((16 if t['fmt'] == 'I4' else 256) * (pal + 1) - R.choice([0, 0, 0, 0, 0, 7]))
        x = m_tile(t)
        k = {} if not pal and R.random() < .5 else {'paletteNum': pal}
        drawing('draw', {'tile': t, 'colors': cs, 'pal': pal}, lambda: x.render(py_colors(cs), **k), lambda: x.renderAsImage(py_colors(cs), **k))
        tiles = [r_tile(t['fmt']) for _ in range(R.choice([1, 2, 4]))]; off = R.choice([0, 0, 1, 3, 255, 256, 700])
        m = r_map(R.choice(['I10', None]) if off < 255 else 'I10', len(tiles) + off + (1 if R.random() < .1 else 0))
        cs = r_colors(256 if t['fmt'] == 'I4' else 256 * (m['pal'] + 1 if m['pal'] < 2 else 1))
        if t['fmt'] == 'I8' and m['fmt'] == 'I10' and m['pal'] >= 2: m['pal'] = 0
        if m['num'] < off and R.random() < .8: m['num'] = off + R.randrange(len(tiles))
        if m['fmt'] == 'I8': m['num'] &= 255
        x = m_map(m); it = [m_tile(q) for q in tiles]
        e = {'map': m, 'tiles': tiles, 'colors': cs, 'off': off}
        if R.random() < .3 and off <= m['num'] < off + len(tiles):
            drawing('drawmap', e, lambda: x.renderSingle(it[m['num'] - off], py_colors(cs)), lambda: x.renderSingleAsImage(it[m['num'] - off], py_colors(cs)))
        else:
            k = {} if not off and R.random() < .5 else {'tileNumOffset': off}
            drawing('drawmap', e, lambda: x.render(it, py_colors(cs), **k), lambda: x.renderAsImage(it, py_colors(cs), **k))
    for _ in range(ctx.scale(120, 1200)):
        f = R.choice(['I4', 'I8']); w = R.choice([1, 2, 3, 5, 32]); n = R.choice([0, 1, 2, 3, 4, 6, 7]); pal = R.randrange(3) if f == 'I4' else 0
        tiles = [r_tile(f) for _ in range(n)]; cs = r_colors((16 if f == 'I4' else 256) * (pal + 1))
        it = [m_tile(t) for t in tiles]
        k = {} if w == 32 and R.random() < .5 else {'width': w}
        if pal or R.random() < .5: k['paletteNum'] = pal
        if n or True: drawing('sheet', {'tiles': tiles, 'colors': cs, 'pal': pal, 'width': w}, lambda: G.renderImageTiles(it, py_colors(cs), **k), lambda: G.renderImageTilesAsImage(it, py_colors(cs), **k))
        off = R.choice([0, 0, 2, 300])
        maps = [r_map('I10', n + off) for _ in range(R.choice([0, 1, 2, 4, 5]))] if n else []
        for m in maps:
            if m['num'] < off and R.random() < .95: m['num'] = off + R.randrange(n)
            if f == 'I8': m['pal'] = 0
        cs = r_colors(256); x = [m_map(m) for m in maps]; w = R.choice([1, 2, 3, 4])
        k = {'tileNumOffset': off} if off else {}
        drawing('drawmaps', {'maps': maps, 'tiles': tiles, 'colors': cs, 'width': w, 'off': off}, lambda: G.renderTilemapTiles(x, it, py_colors(cs), w, **k), lambda: G.renderTilemapTilesAsImage(x, it, py_colors(cs), w, **k))
    # placement
    for _ in range(ctx.scale(150, 1500)):
        w = R.choice([1, 2, 3, 8, 32]); L = [R.randrange(1000) for _ in range(R.choice([0, 1, 5, 8, 20, 64, 70]))]
        ev = ctx.trace('place')['ev']; ev.append({'op': 'list', 'list': list(L), 'exc': ''})
        for _ in range(8):
            x, y = R.choice([R.randrange(-1, w + 1), R.randrange(w)]), R.choice([-1, 0, R.randrange(len(L) // w + 2), R.randrange(len(L) // w + 1)])
            k = {} if w == 32 and R.random() < .5 else {'width': w}
            if R.random() < .5:
                exc, r = ctx.call(lambda: opt(G.tileAt(L, x, y, **k), num)); ev.append({'op': 'at', 'x': x, 'y': y, 'width': w, 'got': [] if exc else r, 'list': list(L), 'exc': exc})
            else:
                t = R.randrange(1000, 2000)
                exc, r = ctx.call(lambda: boolean(G.putTile(L, x, y, t, **k))); ev.append({'op': 'put', 'x': x, 'y': y, 't': t, 'width': w, 'got': False if exc else r, 'list': list(L), 'exc': exc})
    large.run(ctx, large.Tiles, large.Tiles4, large.Tilemap, large.Tilemap8, large.TilemapPicture)
