from vf import bts
from props import lzgen
from props import large
TRACE = 'LzTrace'


def run(ctx):
    from ndspy import lz10
    R = ctx.rng

    def compress(name, d):
        exc, r = ctx.call(lambda: bts(lz10.compress(d)))
        ctx.trace(name)['ev'].append({'op': 'compress', 'data': list(d), 'exc': exc, 'out': [] if exc else r})
        if not exc: decompress(name + '-back', bytes(r))

    def decompress(name, s):
        exc, r = ctx.call(lambda: bts(lz10.decompress(s)))
        ctx.trace(name)['ev'].append({'op': 'decompress', 'stream': list(s), 'exc': exc, 'out': [] if exc else r})

    for c in ctx.cases('MCLz', ctx.scale('MCLz10.cfg', 'MCLz10T.cfg')):
        n = len(c['o'])
        decompress('tlc-stream', bytes([0x10, n & 255, n >> 8, 0]) + bytes(c['s']))
    for name, d in lzgen.datas(ctx): compress(name, d)
    # streams no compressor here would write
    for i in range(ctx.scale(150, 1500)):
        its, o = lzgen.items(R, 1, R.choice([1, 2, 7, 8, 9, 15, 16, 17, 40, 90]))
        s = b'\x10' + len(o).to_bytes(3, 'little') + lzgen.stream(its, 1) + bytes(R.randrange(0, 4))
        decompress('legal-stream', s)
    for n in range(12): decompress('empty-stream', b'\x10\0\0\0' + R.randbytes(n))
    for i in range(ctx.scale(3, 20)):   # maximal distance
        its, o = lzgen.items(R, 1, 500)
        fill = [(0, R.randrange(256), 0) for _ in range(4096 + R.randrange(0, 3))]
        o2 = bytearray(x[1] for x in fill); its2 = list(fill)
        for _ in range(20):
            disp = R.choice([4096, 4095, 1, 2, 256, 255, 257]); ln = R.randrange(3, 19)
            for _ in range(ln): o2.append(o2[-disp])
            its2.append((1, ln, disp))
        decompress('far-stream', b'\x10' + len(o2).to_bytes(3, 'little') + lzgen.stream(its2, 1))
    for b0 in range(256):
        if b0 == 0x10: continue
        s = bytes([b0, 4, 0, 0, 0, 1, 2, 3, 4])
        exc, r = ctx.call(lambda: bts(lz10.decompress(s)))
        ctx.trace(f'refuse-{b0:02x}')['ev'].append({'op': 'refuse', 'stream': list(s), 'exc': exc, 'out': []})
    # bytes-like inputs and independence of the argument
    for typ in (bytearray,):
        d = typ(b'abcabcabcabcx' * 3)
        exc, r = ctx.call(lambda: bts(lz10.compress(d)))
        ctx.trace('bytearray-input')['ev'].append({'op': 'compress', 'data': list(b'abcabcabcabcx' * 3), 'exc': exc, 'out': [] if exc else r})
    large.run(ctx, large.Lz, *([large.Lz24] if ctx.thorough else []))
