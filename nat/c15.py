"""Hex conversions of the real code."""
import ctypes as C
from dv.nat import differ


def want(d, wrap):
    h = d.hex()
    if not wrap:
        return h
    return '\n'.join(h[i:i + 2 * wrap] for i in range(0, len(h), 2 * wrap))


def enc(L, R, rng, thorough):
    for n in list(range(0, 40)) + [64, 100, 257, 3000, 70001]:
        for wrap in (0, 1, 2, 3, 7, 16, n, n + 1, max(0, n - 1), 0x7fffffff, 0x80000000, 0xffffffff) if n < 3000 else (0, 1, 16, 127, 128, 129, 255, 256, 257, 1000, n - 1, n, 65535, 65536):
            d = bytes(range(256))[n % 200:][:n] if n < 57 and rng.random() < 0.3 else rng.randbytes(n)

            def t():
                for s in (0, 1):
                    rc, r = L.call('q_bin2hstr', s, L.b(d), C.c_size_t(n), C.c_uint32(wrap))
                    e = differ((rc, r), (0, want(d, wrap).encode()), string=bool(s))
                    if e:
                        return e
                if wrap == 0:
                    rc, r = L.call('q_hstr2bin', L.b(want(d, 0).encode()), C.c_size_t(2 * n))
                    e = differ((rc, r), (0, d), what='decoded')
                    if e:
                        return e
                    u = want(d, 0).upper().encode()
                    rc, r = L.call('q_hstr2bin', L.b(u), C.c_size_t(2 * n))
                    return differ((rc, r), (0, d), what='decoded upper case')
                rc, r = L.call('q_str2bin', L.b(d), C.c_size_t(n))
                return differ((rc, r), (0, d), what='str2bin')
            yield {'bytes': d.hex(), 'wrap': wrap}, t


def dec(L, R, rng, thorough):
    hexd = b'0123456789abcdefABCDEF'
    for a in range(256):
        def t():
            for b in list(hexd) + [rng.randrange(256) for _ in range(6)] + [0, 10, 32, 0x2f, 0x3a, 0x40, 0x47, 0x60, 0x67, 0x78, 0x80, 0xb0, 0xe1, 0xff]:
                for s in (bytes([a, b]), bytes([b, a]), b'00' + bytes([a, b]) + b'ff', b'1234' + bytes([b, a])):
                    ok = all(c in hexd for c in s)
                    rc, r = L.call('q_hstr2bin', L.b(s), C.c_size_t(len(s)))
                    e = differ((rc, r), (0, bytes.fromhex(s.decode())) if ok else (1, None), text=s.hex())
                    if e:
                        return e
        yield {'what': 'decode pairs with character', 'character': a}, t
    for n in (1, 3, 5, 7, 101):
        s = bytes(rng.choice(hexd) for _ in range(n))

        def odd():
            rc, r = L.call('q_hstr2bin', L.b(s), C.c_size_t(n))
            return differ(rc, 1, what='odd length')
        yield {'text': s.decode()}, odd


PARTS = ['enc', 'dec']
