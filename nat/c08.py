"""Verification and size conversions on malformed input."""
import ctypes as C
from dv import ref
from dv.nat import differ
from nat.c07 import craft, desc

WS = (2, 4, 16, 256)
BADW = [0, 1, 3, 5, 6, 7, 8, 9, 12, 15, 17, 31, 32, 33, 64, 65, 100, 127, 128, 129, 255, 257, 512, 1000, 1024, 4096, 65535, 65536, 65537, 1 << 20, (1 << 24), 0x7fffffff, 0x80000000, 0x80000010,
        0xfffffff0, 0xffffffff, 0x10000010 & 0xffffffff, 0x100000 + 16, 0xff10]


def malformed(L, R, rng, thorough):
    m = b'message'
    for w in WS:
        p = ref.W(w)
        for f, h in ((1, 4), (0, 6), (2, 10)):
            pk, sig = craft(rng, f, w, h, 3, m)
            ep = desc(f, h) + pk
            base = {'w': w, 'hash': f, 'height': h}

            def lens():
                for n in list(range(0, 67)) + list(range(68, 140)) + [1000]:
                    q = (ep * (n // 67 + 1))[:n]
                    if L.verify(m, sig, q, w) is not False:
                        return {'got': L.verify(m, sig, q, w), 'expected': False, 'public key length': n}
            yield dict(base, what='public keys of other lengths'), lens

            def descs():
                # every descriptor: only the right hash and height may be accepted
                for b0 in range(256):
                    for b1 in (h // 2, h // 2 | 16, h // 2 ^ 1, h // 2 ^ 8) + (tuple(rng.sample(range(256), 3))):
                        q = bytes([b0, b1, rng.choice([0, 1, 255])]) + pk
                        if (b0 & 15) == f and b0 >> 4 == 0 and (b1 & 15) == h // 2:
                            continue
                        if b0 < 3 and (b1 & 15) == h // 2 and rng.random() > 0.2:
                            continue
                        if L.verify(m, sig, q, w) is not False:
                            return {'got': L.verify(m, sig, q, w), 'expected': False, 'descriptor': q[:3].hex()}
            yield dict(base, what='other descriptors'), descs

            def sizes():
                n = len(sig)
                for k in [0, 1, 3, 4, 5, 35, 36, 37, 68, p.size, 36 + p.size - 32, 36 + p.size - 1, 36 + p.size, 36 + p.size + 1, 36 + p.size + 32, n - 64, n - 33, n - 32, n - 31, n - 1, n + 1, n + 31,
                          n + 32, n + 33, n + 64, 36 + p.size + 32 * 30, 36 + p.size + 32 * 31, 36 + p.size + 32 * 32, 36 + p.size + 32 * (256 + h), 36 + p.size + 32 * 256, 100000] + [rng.randrange(0, n + 200) for _ in range(40)]:
                    if k == n or k < 0:
                        continue
                    s = (sig * (k // n + 1))[:k]
                    if L.verify(m, s, ep, w) is not False:
                        return {'got': L.verify(m, s, ep, w), 'expected': False, 'signature length': k}
            yield dict(base, what='other signature lengths'), sizes
        # every height nibble with a signature sized for it: never an error, and false for random content
        for h2 in range(16):
            def hh():
                h = 2 * h2
                for n in (36 + p.size + 32 * h, 36 + p.size + 32 * (h + 1), 36 + p.size + 32 * (h + 256)):
                    ep = bytes([rng.randrange(3), h2 | rng.choice([0, 16, 0xf0]), 0]) + rng.randbytes(64)
                    r = L.verify(m, rng.randbytes(n), ep, w)
                    if r is not False:
                        return {'got': r, 'expected': False, 'signature length': n, 'pk': ep.hex()}
            yield {'w': w, 'what': 'random signature for every height', 'height': 2 * h2}, hh
    f, h = 1, 4
    pk, sig = craft(rng, f, 16, h, 3, m)
    ep = desc(f, h) + pk
    for w in BADW + [rng.getrandbits(32) for _ in range(40)]:
        if w in WS:
            continue

        def ww():
            for n in (len(sig), 36 + 32 * 4, 36 + 32 * 8, 36 + 32 * 16, 36 + 32 * 40, 36 + 32 * 56, 36 + 32 * 57, 36 + 32 * 58, 36 + 32 * 90, 4, 0, rng.randrange(6000)):
                s = (sig + bytes(n))[:n]
                r = L.verify(m, s, ep, w)
                if r is not False:
                    return {'got': r, 'expected': False, 'signature length': n}
            o = C.c_uint32(0)
            if L.l.q_basesize(C.c_uint32(w), C.byref(o)) != 1:
                return {'got': 'size %d' % o.value, 'expected': 'invalid_argument'}
            if L.l.q_hfromsize(C.c_size_t(len(sig)), C.c_uint32(w), C.byref(o)) != 1:
                return {'got': 'height %d' % o.value, 'expected': 'invalid_argument'}
        yield {'what': 'unsupported width', 'w': w}, ww


def sizes(L, R, rng, thorough):
    for w in WS:
        p = ref.W(w)
        b = 36 + p.size

        def t():
            o = C.c_uint32(0)
            rc = L.l.q_basesize(C.c_uint32(w), C.byref(o))
            r = differ((rc, o.value), (0, b), what='base size')
            if r:
                return r
            for n in list(range(0, b + 40 * 32 + 5)) + [b + 32 * (256 + k) for k in range(-2, 40)] + [b + 32 * (1 << 32), (1 << 64) - 28, (1 << 63) + b % 32 + 4, b + 32 * 65536, (1 << 32) + b, (1 << 32) + b + 128]:
                rc = L.l.q_hfromsize(C.c_size_t(n), C.c_uint32(w), C.byref(o))
                ok = n >= b and (n - b) % 32 == 0 and (n - b) // 32 <= 30
                r = differ((rc, o.value if rc == 0 else None), (0, (n - b) // 32) if ok else (1, None), size=n)
                if r:
                    return r
        yield {'what': 'size and height conversions', 'w': w}, t
        for h in (4, 6, 8):
            def g():
                rc, k = L.new(bytes(48), h, 1, 0, 0, w)
                if rc:
                    return {'got': 'exception'}
                r = differ(k.num('sigsize', w), b + 32 * h)
                k.free()
                return r
            if w <= 16 and h == 4 or h == 4:
                yield {'what': 'signature size', 'w': w, 'height': h}, g


PARTS = ['malformed', 'sizes']
