import struct
from vf import bts, num, boolean
NOWAVE = {'type': 0, 'looped': False, 'rate': 8000, 'time': 0, 'loop': 0, 'total': 0, 'data': []}


def observe(w):
    return {'type': num(w.waveType), 'looped': boolean(w.isLooped), 'rate': num(w.sampleRate), 'time': num(w.time),
            'loop': num(w.loopOffset), 'total': num(w.totalLength), 'data': bts(w.data)}


def make(soundWave, WT, w):
    return soundWave.SWAV.fromData(bytes(w['data']), waveType=WT(w['type']) if w['type'] in (0, 1, 2) else w['type'], isLooped=w['looped'], sampleRate=w['rate'],
                                   time=w['time'], loopOffset=w['loop'], totalLength=w['total'])


def rand_wave(R, aligned=None):
    if aligned is None: aligned = R.random() < .7
    n = R.choice([0, 1, 2, 3, 5, 8]) * 4 + (0 if aligned else R.randrange(4))
    loop = R.choice([0, 0, 1, 7, 65535, R.randrange(65536)])
    return {'type': R.randrange(3), 'looped': R.random() < .5, 'rate': R.choice([8000, 32728, 0, 1, 65535, R.randrange(65536)]),
            'time': R.choice([0, 1, 65535, R.randrange(65536), R.randrange(65536)]), 'loop': loop, 'total': loop + R.choice([0, 1, n // 4, 65536, 2**30]), 'data': list(R.randbytes(n))}


def info(w): return struct.pack('<BBHHHI', w['type'], w['looped'], w['rate'], w['time'], w['loop'], w['total'] - w['loop'])


def foreign_swav(R, w):
    b = b'SWAV' + struct.pack('<HHIHH', 0xFEFF, 0x100, 0x24 + len(w['data']), 16, 1) + b'DATA' + struct.pack('<I', 0x14 + len(w['data'])) + info(w) + bytes(w['data'])
    return b + (R.randbytes(R.choice([0, 0, 4])))


def foreign_swar(R, ws):
    offs, body = [], b''
    base = 0x3C + 4 * len(ws)
    for w in ws:
        offs.append(base + len(body)); body += info(w) + bytes(w['data'])
    n = base + len(body)
    return b'SWAR' + struct.pack('<HHIHH', 0xFEFF, 0x100, n, 16, 1) + b'DATA' + struct.pack('<I32xI', n - 16, len(ws)) + b''.join(struct.pack('<I', o) for o in offs) \
        + body + bytes(R.choice([0, 0, 4, 28]))
