"""Keyed hashes of the real code against hashlib."""
import ctypes as C
import hashlib
from dv import ref
from dv.nat import differ


def H(f, d, n):
    return ref.H(f, d, n)


def rnd_addr(rng):
    return [rng.choice([0, 1, 2, 255, 256, 65535, 65536, 0x01020304, 0x80000000, 0xffffffff, rng.getrandbits(32)]) for _ in range(8)]


def keyed(L, R, rng, thorough):
    combos = [(0, 32), (1, 32), (2, 32), (1, 64), (2, 64)]
    for f, n in combos:
        for t in range(60 if thorough else 12):
            key, m32 = rng.randbytes(n), rng.randbytes(32)

            def p():
                o, i, k = L.o(n), L.b(m32), L.b(key)
                rc = L.l.q_prf(f, o, i, k, n)
                return differ((rc, bytes(o)[:n]), (0, H(f, ref.tb(3, n) + key + m32, n))) or differ((bytes(i), bytes(k)[:n]), (m32, key), what='input changed')
            yield {'function': 'prf', 'hash': f, 'n': n, 'key': key.hex(), 'in': m32.hex()}, p
        for ml in list(range(0, 40)) + [64, 71, 72, 73, 135, 136, 137, 168, 200, 1000] + [4096, 65535, 65536, 70001]:
            key, m = rng.randbytes(3 * n), rng.randbytes(ml)

            def q():
                o, i, k = L.o(n), L.b(m), L.b(key)
                rc = L.l.q_hmsg(f, o, i, C.c_ulonglong(ml), k, 3 * n, n)
                return differ((rc, bytes(o)[:n]), (0, H(f, ref.tb(2, n) + key + m, n))) or differ(bytes(i)[:ml], m, what='message changed')
            yield {'function': 'h_msg', 'hash': f, 'n': n, 'key': key.hex(), 'message length': ml}, q
        for kl in [0, 1, 31, 32, 33, 64, 95, 96, 97, 128, 191, 192, 193, 288]:
            if kl == 3 * n:
                continue

            def w():
                o, i, k = L.o(n), L.b(b'abc'), L.b(bytes(kl))
                rc = L.l.q_hmsg(f, o, i, C.c_ulonglong(3), k, kl, n)
                return differ((rc != 0, bytes(o)[:n]), (True, b'\xa5' * n))
            yield {'function': 'h_msg', 'hash': f, 'n': n, 'key length': kl}, w
        for t in range(40 if thorough else 10):
            for name, m, typ in (('q_hashf', n, 0), ('q_hashh', 2 * n, 1)):
                for inplace in (False, True):
                    a, seed, inp = rnd_addr(rng), rng.randbytes(n), rng.randbytes(m)

                    def x():
                        h = ref.adrs(a[:7])
                        ks = [H(f, ref.tb(3, n) + seed + h + ref.tb(i, 4), n) for i in range(m // n + 1)]
                        want = H(f, ref.tb(typ, n) + ks[0] + ref.xor(inp, b''.join(ks[1:])), n)
                        ad, i, s = L.addr(a), L.b(inp), L.b(seed)
                        o = i if inplace else L.o(n)
                        rc = getattr(L.l, name)(f, o, i, s, ad, n)
                        return differ((rc, bytes(o)[:n]), (0, want)) or differ(list(ad)[:7], a[:7], what='address changed') \
                            or differ(bytes(s)[:n], seed, what='seed changed') or (None if inplace else differ(bytes(i)[:m], inp, what='input changed'))
                    yield {'function': name[2:], 'hash': f, 'n': n, 'address': a, 'in': inp.hex(), 'seed': seed.hex(), 'in place': inplace}, x


def sha(L, R, rng, thorough):
    for n in list(range(0, 20)) + [55, 56, 63, 64, 65, 127, 128, 1000]:
        d = rng.randbytes(n)

        def t():
            o, i = L.o(32), L.b(d)
            L.l.q_sha256wrap(o, i, C.c_size_t(n))
            return differ(bytes(o), hashlib.sha256(d).digest())
        yield {'function': 'sha2_256', 'message': d.hex()}, t


PARTS = ['keyed', 'sha']
