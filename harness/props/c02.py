import struct
from vf import bts
from props import lzgen
from props import large
TRACE = 'LzTrace'


def footer_at(b, amt):
    e = len(b) - amt
    if e < 8: return False
    hl, cl = b[e - 5], int.from_bytes(b[e - 8:e - 5], 'little')
    return 8 <= hl <= cl <= e and all(x == 255 for x in b[e - hl:e - 8])


def codefile(R, its, o, prefix=b'', appended=b'', pad=None):
    """A compressed code file, built by hand; `o` in output (backwards) order."""
    body = prefix + lzgen.stream(its, 3)[::-1]
    hl = 8 + (-len(body) % 4 if pad is None else pad)
    extra = len(prefix) + len(o) - len(body) - hl
    if extra <= 0: return None
    cl = len(body) - len(prefix) + hl
    return body + b'\xFF' * (hl - 8) + cl.to_bytes(3, 'little') + bytes([hl]) + struct.pack('<I', extra) + appended


def run(ctx):
    from ndspy import codeCompression as cc
    R = ctx.rng

    def decompress(name, s, legal=False):
        exc, r = ctx.call(lambda: bts(cc.decompress(s)))
        ctx.trace(name)['ev'].append({'op': 'cdecompress', 'stream': list(s), 'exc': exc,
                                      'out': [] if exc else r, 'legal': legal})

    def compress(name, d, arm9):
        exc, r = ctx.call(lambda: bts(cc.compress(d, isArm9=arm9) if arm9 else cc.compress(d)))
        ctx.trace(name)['ev'].append({'op': 'ccompress', 'data': list(d), 'arm9': arm9, 'exc': exc,
                                      'out': [] if exc else r})
        if exc: return
        # data that itself looks like a compressed file cannot be told apart once stored raw
        clean = not any(footer_at(bytes(r), a) for a in range(4, 32, 4))
        exc2, r2 = ctx.call(lambda: bts(cc.decompress(bytes(r))))
        ctx.trace(name + '-back')['ev'].append({'op': 'croundtrip', 'data': list(d), 'exc': exc2,
                                                'out': [] if exc2 else r2, 'clean': clean})

    for c in ctx.cases('MCLz', ctx.scale('MCLzCode.cfg', 'MCLzCodeT.cfg')):
        # spec-generated item sequences, continued by a run so that they are worth a footer
        its, o = [tuple(t) for t in c['t']], bytearray(c['o'])
        while len(o) < 3: its.append((0, 7, 0)); o.append(7)
        for _ in range(3):
            for _ in range(18): o.append(o[-3])
            its.append((1, 18, 3))
        decompress('tlc-stream', codefile(R, its, bytes(o), R.randbytes(R.choice([0, 0, 3])),
                                          R.randbytes(R.choice([0, 0, 4, 8, 12, 28]))))

    for name, d in lzgen.datas(ctx):
        compress(name, d, False)
        if R.random() < .1: compress(name + '-arm9short', d, True)
    for n in (0x3FFF, 0x4000, 0x4001, 0x4004, 0x4000 + 64, 0x4000 + 333):
        compress(f'arm9-{n:x}', bytes(R.choice(b'ab') for _ in range(n)), True)
        compress(f'arm9-rep-{n:x}', bytes(n), True)
    # compressible by just about nothing: every size around the break-even point
    for n in range(1, 48):
        for tail in (0, 1, 2, 3, 5):
            compress(f'zeros{n}+{tail}', bytes(n) + bytes(range(1, tail + 1)), False)
            compress(f'{tail}+zeros{n}', bytes(range(1, tail + 1)) + bytes(n), False)
    for i in range(ctx.scale(200, 2000)):
        d = bytearray(R.randbytes(R.randrange(0, 30)))
        d += bytes([R.randrange(256)]) * R.randrange(8, 40)
        d += R.randbytes(R.randrange(0, 30))
        compress('breakeven', bytes(d), False)

    # hand-made legal files
    for i in range(ctx.scale(300, 3000)):
        its, o = lzgen.items(R, 3, R.choice([3, 8, 9, 16, 24, 40]))
        while len(o) < len(lzgen.stream(its, 3)) + 24 and len(o) >= 3:
            disp = R.randrange(3, min(len(o), 0x1002) + 1)
            o = bytearray(o)
            for _ in range(18): o.append(o[-disp])
            o = bytes(o); its.append((1, 18, disp))
        prefix = R.randbytes(R.choice([0, 0, 1, 4, 20]))
        f = codefile(R, its, o, prefix, R.randbytes(R.choice([0, 0, 4, 12, 28])), R.choice([None, None, 0, 1, 4, 9]))
        if f is not None: decompress('legal-file', f)
    for i in range(ctx.scale(2, 10)):
        fill = [(0, R.randrange(256), 0) for _ in range(0x1003)]
        o2 = bytearray(x[1] for x in fill); its2 = list(fill)
        for _ in range(80):
            disp = R.choice([0x1002, 0x1001, 0x1000, 3, 4, 255, 257, 258, 259]); ln = R.choice([18, R.randrange(3, 19)])
            for _ in range(ln): o2.append(o2[-disp])
            its2.append((1, ln, disp))
        f = codefile(R, its2, bytes(o2))
        if f is not None: decompress('far-file', f, True)

    # not compressed at all
    for n in range(0, 45):
        decompress(f'zeros{n}', bytes(n))
        decompress(f'random{n}', R.randbytes(n))
        decompress(f'ff{n}', b'\xFF' * n)
    for i in range(ctx.scale(300, 3000)):
        # near-footers: one field off
        n = R.randrange(8, 60)
        b = bytearray(R.randbytes(n))
        hl = R.choice([0, 7, 8, 9, 11, 12, n, n + 1, 255])
        cl = R.choice([0, 7, 8, 12, n - 1, n, n + 1, n + 4, 0xFFFFFF, 0x10000])
        extra = R.choice([0, 0, 1, 40])
        amt = R.choice([0, 0, 4, 8, 12, 28, 32])
        foot = b'\xFF' * R.choice([0, 1, 3, 4]) + (cl & 0xFFFFFF).to_bytes(3, 'little') + bytes([hl & 255]) + struct.pack('<I', extra)
        decompress('near-footer', bytes(b) + foot + R.randbytes(amt))
    for i in range(ctx.scale(100, 1000)):
        decompress('plain', R.randbytes(R.randrange(0, 300)))
    large.run(ctx, large.CodeLz, large.CodeLz9)
