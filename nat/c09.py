"""Basic signatures of the real code against the reference signer."""
import ctypes as C
from dv import nat, ref
from dv.nat import differ


def sigs(L, R, rng, thorough):
    plan = [(f, 4, 16, range(16)) for f in (0, 1, 2)] + [(1, 6, 16, None), (2, 6, 16, None), (0, 4, 4, None), (1, 4, 2, None), (2, 4, 256, [9]), (1, 10, 4, [255, 256, 1023])]
    if thorough:
        plan += [(0, 12, 4, None)] + [(f, 6, 16, range(64)) for f in (0, 1, 2)] + [(1, 8, 16, None)]
    for f, h, w, idxs in plan:
        s = rng.randbytes(48)
        key = None
        rc, k = L.new(s, h, f, 0, 0, w)
        if rc:
            yield {'hash': f, 'height': h, 'w': w}, lambda: {'got': 'exception'}
            continue
        if idxs is None:
            idxs = [0, 1, 2, (1 << h) - 2, (1 << h) - 1] + [rng.randrange(1 << h) for _ in range(3)]
        idxs = list(idxs)
        if not thorough and h == 4 and w == 16:
            idxs = rng.sample(idxs, 9) + [15]
        for i in idxs:
            m = rng.randbytes(70001 if i == (1 << h) - 1 else rng.choice([0, 1, 31, 32, 33, 64, 100, 135, 136, 200, 1000]))

            def t():
                key = ref.Key(f, s, h, w)
                rc, r = k.setindex(i)
                if rc or r != i or k.index() != i:
                    return {'got': 'setIndex: code %d, returned %d, index %d' % (rc, r, k.index())}
                rc, sg = k.sign(m)
                if rc:
                    return {'got': 'exception %d from sign' % rc}
                r = differ(sg, key.sign(i, m), what='signature') or differ(k.get('sk'), ref.tb(i + 1, 4) + key.sk[4:], what='secret key after signing') \
                    or differ(L.verify(m, sg, k.get('pk'), w), True, what='verifies')
                return r
            yield {'hash': f, 'height': h, 'w': w, 'seed': s.hex(), 'index': i, 'message': m.hex()}, t
        k.free()


def tallsigs(L, R, rng, thorough):
    """every even height up to 18 (thorough: 22) with cheap hashes, against the full tree"""
    for h in range(4, 23 if thorough else 19, 2):
        n = 1 << h
        idx = [0, n - 1, n // 2, n // 2 - 1] + [rng.randrange(n) for _ in range(4)] + [x for x in (255, 256, 257, 4095, 65535, 65536, 65537, 0x1ff00) if x < n]
        if h > 14:
            idx = rng.sample(idx, 6) + [n - 1]
        if h > 18:
            idx = idx[-3:]
        for w in ((2, 4, 16, 256) if h < 12 else (rng.choice((2, 4, 16, 256)),)):
            for i in idx:
                a = ('sign', h, w, rng.randrange(3), rng.randrange(1 << 30), i)
                yield {'tall': a, 'what': 'native/tall.cpp MODE HEIGHT W HASH SEED INDEX (cheap hashes)'}, lambda: nat.tall(*a)


TALL = True
PARTS = ['sigs', 'tallsigs']
