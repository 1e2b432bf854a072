"""Addresses of the real code."""
import ctypes as C
import hashlib
from dv.nat import differ, Buf


def sha(x):
    return hashlib.sha256(x).digest()


def addr(pk):
    a = bytes([pk[0], pk[1], 0]) + sha(pk)
    return a + sha(a)[28:]


def okdesc(d):
    return d[0] in (0, 1, 2) and d[1] >> 4 == 0


def valid(L, a):
    r = C.c_int(-1)
    rc = L.l.q_addrvalid(L.b(a), C.c_size_t(len(a)), C.byref(r))
    return 'exception %d' % rc if rc else bool(r.value)


def derive(L, R, rng, thorough):
    for b0 in list(range(20)) + [0x10, 0x11, 0x21, 0x82, 0xf1, 0xff]:
        for b1 in range(256) if b0 < 3 else (0, 5, 16):
            pk = bytes([b0, b1, rng.choice([0, 0, 1, 255])]) + rng.randbytes(64)

            def t():
                rc, a = L.call('q_addr', L.b(pk), C.c_size_t(67))
                if not okdesc(pk):
                    return differ(rc, 1, what='address of a key with an unsupported descriptor')
                return differ((rc, a), (0, addr(pk))) or differ(valid(L, a), True, what='address check of a derived address')
            yield {'public key': pk.hex()}, t

    def lens():
        for n in list(range(0, 67)) + list(range(68, 140)):
            rc, a = L.call('q_addr', L.b(bytes(n)), C.c_size_t(n))
            if rc != 1:
                return {'got': 'code %d' % rc, 'expected': 'invalid_argument', 'public key length': n}
    yield {'what': 'public keys of other lengths'}, lens


def check(L, R, rng, thorough):
    for t in range(300 if thorough else 60):
        h = bytes([rng.choice([0, 1, 2]), rng.randrange(16), rng.choice([0, rng.randrange(256)])]) + rng.randbytes(32)
        a = h + sha(h)[28:]

        def ok():
            r = differ(valid(L, a), True)
            if r:
                return r
            for i in range(39):
                b = bytearray(a)
                b[i] ^= 1 << rng.randrange(8)
                b = bytes(b)
                if b[35:] == sha(b[:35])[28:]:
                    continue
                if valid(L, b) is not False:
                    return {'got': valid(L, b), 'expected': False, 'address': b.hex()}
            for i in range(4):
                b = a[:35] + sha(h)[i:i + 4]
                if b != a and valid(L, b) is not False:
                    return {'got': True, 'expected': False, 'address': b.hex()}
        yield {'address': a.hex()}, ok
    for b0 in range(256):
        def d():
            for b1 in (0, 5, 15, 16, 0x25, 0x80, 0xf0, 0xff):
                h = bytes([b0, b1, rng.randrange(256)]) + rng.randbytes(32)
                a = h + sha(h)[28:]
                r = differ(valid(L, a), okdesc(h), address=a.hex())
                if r:
                    return r
        yield {'what': 'descriptor first byte', 'byte': b0}, d

    def lens():
        h = bytes([1, 5, 0]) + rng.randbytes(32)
        a = h + sha(h)[28:]
        for n in list(range(0, 39)) + list(range(40, 100)) + [256 + 39, 65536 + 39]:
            x = (a * (n // 39 + 1))[:n]
            if valid(L, x) is not False:
                return {'got': valid(L, x), 'expected': False, 'length': n}
    yield {'what': 'lengths'}, lens


PARTS = ['derive', 'check']
