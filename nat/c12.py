"""The real tree pool under concurrent callers."""
import ctypes as C
import hashlib
from dv import ref
from dv.nat import differ, Buf


def seed_of(base, i):
    x = i + 1
    b = x.to_bytes((x.bit_length() + 7) // 8, 'little') if x else b''
    return hashlib.shake_256(base + b).digest(48)


def run(L, base, h, start, size, threads, per, query, root):
    o, cur = Buf(), C.c_size_t(0)
    b = L.b(base)
    rc = L.l.q_pool(b, C.c_size_t(len(base)), h, C.c_size_t(start), C.c_size_t(size), threads, per, query, C.byref(o), C.byref(cur))
    if rc:
        return {'got': 'exception %d: %s' % (rc, L.l.q_err())}
    data = C.string_at(o.p, o.n)
    L.l.q_free(C.byref(o))
    n = threads * per
    rec = [data[83 * i:83 * i + 83] for i in range(n)]
    want = {seed_of(base, start + i): start + i for i in range(n)}
    got = [want.get(r[:48]) for r in rec]
    if None in got or len(set(got)) != n:
        return {'got': 'indices handed out (by caller, in order): %s' % got, 'expected': 'each of %d..%d once' % (start, start + n - 1), 'seeds': [r[:48].hex() for r in rec][:6]}
    for t in range(threads):
        g = got[t * per:t * per + per]
        if g != sorted(g):
            return {'got': 'one caller received %s' % g, 'expected': 'increasing indices'}
    if cur.value != start + n:
        return {'got': 'current index %d' % cur.value, 'expected': start + n}
    for r in rec:
        if r[48:51] != bytes([1, h // 2, 0]):
            return {'got': 'descriptor %s' % r[48:51].hex(), 'expected': bytes([1, h // 2, 0]).hex()}
    for r in rec[:root]:
        d = differ(r[51:], ref.Key(1, r[:48], h).root, what='root')
        if d:
            return d


def single(L, R, rng, thorough):
    starts = [0, 1, 254, 255, 256, 257, 65534, 65535, 65536, (1 << 24) - 2, (1 << 24) - 1, (1 << 32) - 2, (1 << 32) - 1, 1 << 32, (1 << 40) + 3, (1 << 56) - 1]
    for st in starts:
        for size in (0, 1, 3) if not thorough else (0, 1, 2, 3, 5):
            base = rng.randbytes(rng.choice([0, 1, 32, 48, 51, 100]))
            yield {'base seed': base.hex(), 'height': 4, 'start': st, 'size': size, 'callers': 1, 'trees': 3, 'queries': True}, lambda: run(L, base, 4, st, size, 1, 3, 1, 1)
    base = rng.randbytes(48)
    yield {'base seed': base.hex(), 'height': 6, 'start': 5, 'size': 2, 'callers': 1, 'trees': 2}, lambda: run(L, base, 6, 5, 2, 1, 2, 0, 2)


def threads(L, R, rng, thorough):
    for rep in range(12 if thorough else 3):
        for th, per, size in ((2, 6, 0), (4, 4, 1), (8, 3, 2), (8, 4, 0), (6, 3, 7)):
            st = rng.choice([0, 250, 65530, rng.getrandbits(40)])
            base = rng.randbytes(48)
            q = rng.randrange(2)
            yield {'base seed': base.hex(), 'height': 4, 'start': st, 'size': size, 'callers': th, 'trees': per, 'queries': q}, lambda: run(L, base, 4, st, size, th, per, q, 0)


PARTS = ['single', 'threads']
