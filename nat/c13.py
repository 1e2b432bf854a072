"""Descriptors of the real code, all first two bytes."""
import ctypes as C
from dv.nat import differ, Buf


def want(d):
    if len(d) != 3 or d[0] & 15 > 2 or d[0] >> 4:
        return None
    return [d[0] & 15, 0, (d[1] & 15) * 2, d[1] >> 4]


def cpp_call(L, how, d):
    o, b = (C.c_int * 4)(), Buf()
    i = L.b(d)
    rc = L.l.q_desc(how, i, C.c_size_t(len(d)), o, C.byref(b))
    if rc:
        return ('error', rc)
    r = C.string_at(b.p, b.n)
    L.l.q_free(C.byref(b))
    return (list(o), r)


def cpp(L, R, rng, thorough):
    for b0 in range(256):
        def t():
            for b1 in range(256):
                for b2 in (0, rng.randrange(256)):
                    d = bytes([b0, b1, b2])
                    w = want(d)
                    for how in (0, 1, 2):
                        x = d + (b'' if how == 0 else rng.randbytes(48 if how == 1 else 64))
                        got = cpp_call(L, how, x)
                        exp = (w, bytes([b0, b1, 0])) if w else ('error', 1)
                        if got != exp:
                            return {'got': repr(got), 'expected': repr(exp), 'bytes': x.hex(), 'from': ['bytes', 'extended seed', 'public key'][how]}
        yield {'lang': 'C++', 'first byte': b0, 'other bytes': 'all 256 second bytes'}, t

    def lens():
        for how, n in ((0, 3), (1, 51), (2, 67)):
            for k in list(range(0, 140)) + [256 + n, 65536 + n]:
                if k != n:
                    got = cpp_call(L, how, bytes(k))
                    if got != ('error', 1):
                        return {'got': repr(got), 'expected': 'invalid_argument', 'from': ['bytes', 'extended seed', 'public key'][how], 'length': k}
    yield {'lang': 'C++', 'what': 'lengths'}, lens

    def make():
        for h in (0, 1, 2):
            for ht in range(0, 31, 2):
                for f in range(16):
                    o, b = (C.c_int * 4)(), Buf()
                    L.l.q_descmake(h, 0, ht, f, o, C.byref(b))
                    r = C.string_at(b.p, b.n)
                    L.l.q_free(C.byref(b))
                    exp = [h, 0, ht, f]
                    if list(o) != exp or r != bytes([h, f << 4 | ht >> 1, 0]) or cpp_call(L, 0, r) != (exp, r):
                        return {'got': repr((list(o), r.hex(), cpp_call(L, 0, r))), 'expected': repr(exp)}
    yield {'lang': 'C++', 'what': 'encode then decode'}, make


def rust(L, R, rng, thorough):
    if R is None:
        return

    def call(how, d):
        o, b = (C.c_int * 4)(), (C.c_ubyte * 16)()
        n = R.r_desc(how, L.b(d), C.c_size_t(len(d)), o, b)
        return ('error',) if n < 0 else (list(o), bytes(b)[:n])
    for b0 in range(256):
        def t():
            for b1 in range(256):
                d = bytes([b0, b1, rng.randrange(256)])
                w = want(d)
                for how in (0, 1, 2):
                    x = d + (b'' if how == 0 else rng.randbytes(48 if how == 1 else 64))
                    got = call(how, x)
                    # the crate knows one address format; other formats cannot be represented and are rejected
                    exp = (w, bytes([b0, b1, 0])) if w and w[3] == 0 else ('error',)
                    if got != exp:
                        return {'got': repr(got), 'expected': repr(exp), 'bytes': x.hex(), 'from': ['bytes', 'extended seed', 'public key'][how]}
        yield {'lang': 'Rust', 'first byte': b0, 'other bytes': 'all 256 second bytes'}, t

    def lens():
        for how, n in ((0, 3), (1, 51), (2, 67)):
            for k in list(range(0, 140)) + [256 + n, 65536 + n]:
                if k != n and call(how, bytes(k)) != ('error',):
                    return {'got': repr(call(how, bytes(k))), 'expected': 'error', 'length': k, 'from': how}
    yield {'lang': 'Rust', 'what': 'lengths'}, lens

    def make():
        for h in (0, 1, 2):
            for ht in range(0, 31, 2):
                o, b = (C.c_int * 4)(), (C.c_ubyte * 16)()
                n = R.r_descmake(h, ht, o, b)
                exp = [h, 0, ht, 0]
                r = bytes(b)[:n]
                if list(o) != exp or r != bytes([h, ht >> 1, 0]) or call(0, r) != (exp, r):
                    return {'got': repr((list(o), r.hex(), call(0, r))), 'expected': repr(exp)}
    yield {'lang': 'Rust', 'what': 'encode then decode'}, make


PARTS = ['cpp', 'rust']
RUST = True
