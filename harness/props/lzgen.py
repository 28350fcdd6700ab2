"""Inputs for the compression checks."""
import itertools


def datas(ctx):
    """Byte strings chosen to reach every region of an LZ compressor."""
    R = ctx.rng
    out = []
    def add(name, d): out.append((name, bytes(d)))
    for n in range(0, 7):
        for t in itertools.product((0, 1), repeat=n): add(f'bin{n}', t)
    for period in list(range(1, 22)) + [31, 64, 255]:
        unit = R.randbytes(period)
        for reps in (2, 3, 5):
            add(f'period{period}x{reps}', unit * reps + unit[:R.randrange(period)])
    for n in (3, 17, 18, 19, 20, 36, 37, 40, 100, 257):
        add(f'run{n}', b'\x41' * n)
        add(f'run-tail{n}', R.randbytes(5) + b'\0' * n + R.randbytes(3))
    for i in range(ctx.scale(250, 2500)):
        n = R.choice([R.randrange(0, 40), R.randrange(0, 200), R.randrange(100, 600)])
        kk = R.choice([1, 2, 2, 3, 3, 4, 5, 8, 16, 256])
        add(f'alpha{kk}', (R.randrange(kk) for _ in range(n)))
    for i in range(ctx.scale(120, 1200)):
        # random material with planted repeats of chosen length and distance
        d = bytearray(R.randbytes(R.randrange(4, 120)))
        for _ in range(R.randrange(1, 8)):
            ln = R.choice([2, 3, 4, 5, 8, 16, 17, 18, 19, 20, 35, 36, 37])
            o = R.randrange(0, len(d))
            for q in range(ln): d.append(d[o + q] if o + q < len(d) else 0)
            d += R.randbytes(R.choice([0, 0, 1, 2, 3, 7, 8, 9, 12]))
        add('planted', d)
    # window boundary: a repeat at every critical distance
    for dist in (0xFFD, 0xFFE, 0xFFF, 0x1000, 0x1001, 0x1002, 0x1003, 0x1004):
        for ln in (3, 4, 18):
            mark = bytes([200 + q for q in range(ln)])
            fill = bytes(R.choice(range(0, 150)) for _ in range(dist - ln))
            add(f'window{dist:x}-{ln}', bytes([7]) * R.randrange(3) + mark + fill + mark + bytes([9]) * R.randrange(3))
            # the same in material that is worth compressing, near the start and far into it
            for run in (40, 0x10010):
                if run > 40 and (ln != 4 or dist < 0x1000): continue
                add(f'run-window{dist:x}-{ln}-{run:x}', bytes(run) + mark + bytes(dist - ln) + mark + bytes(run))
    for i in range(ctx.scale(2, 12)):
        add('long', bytes(R.choice(b'abcdefgh') for _ in range(R.randrange(4000, 9000))))
    add('u16-length', (b'0123456789abcdef' * 4200)[:65536 + 13])
    add('u21-length', bytes([5]) * 0x100003)
    return out


def items(R, sub, nitems, maxout=10**9, start=b''):
    """A random legal item sequence; returns (items, output)."""
    o = bytearray(start); its = []
    for _ in range(nitems):
        if len(o) >= sub and R.random() < .55:
            ln = R.choice([3, 4, 5, 17, 18, R.randrange(3, 19)])
            disp = R.choice([sub, sub + 1, min(len(o), 4095 + sub), R.randrange(sub, min(len(o), 4095 + sub) + 1)])
            disp = max(sub, min(disp, len(o), 4095 + sub))
            if len(o) + ln > maxout: break
            for _ in range(ln): o.append(o[-disp])
            its.append((1, ln, disp))
        else:
            if len(o) + 1 > maxout: break
            v = R.randrange(256); o.append(v); its.append((0, v, 0))
    return its, bytes(o)


def stream(its, sub):
    out = bytearray()
    for g in range(0, len(its), 8):
        grp = its[g:g + 8]; flags = 0; body = bytearray()
        for i, (ref, a, b) in enumerate(grp):
            if ref:
                flags |= 0x80 >> i
                body += bytes([(a - 3) << 4 | (b - sub) >> 8, (b - sub) & 0xFF])
            else: body.append(a)
        out.append(flags); out += body
    return bytes(out)


def greedy(data, sub):
    """Items of a straightforward compressor (independent of the code under test)."""
    its, i, n = [], 0, len(data)
    while i < n:
        best = (0, 0)
        for disp in range(sub, min(i, 4095 + sub) + 1):
            ln = 0
            while ln < 18 and i + ln < n and data[i + ln - disp] == data[i + ln]: ln += 1
            if ln > best[0]: best = (ln, disp)
            if ln == 18: break
        if best[0] >= 3: its.append((1, *best)); i += best[0]
        else: its.append((0, data[i], 0)); i += 1
    return its


def code_file(data, prefix=0, appended=b''):
    """data[:prefix] kept, the rest compressed backwards; None if that is not smaller."""
    import struct
    body = stream(greedy(data[prefix:][::-1], 3), 3)[::-1]
    hl = 8 + -(prefix + len(body)) % 4
    extra = len(data) - prefix - len(body) - hl
    if extra <= 0: return None
    return data[:prefix] + body + b'\xFF' * (hl - 8) + (len(body) + hl).to_bytes(3, 'little') + bytes([hl]) + struct.pack('<I', extra) + appended
