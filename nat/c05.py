"""Signed digits of the real code, read off the signature, for many digests."""
import ctypes as C
from dv import ref
from dv.nat import differ

WS = (2, 4, 16, 256)


def digests(rng, p, n):
    yield bytes(32)
    yield b'\xff' * 32
    for i in range(32):
        yield bytes(i) + bytes([rng.randrange(1, 256)]) + bytes(31 - i)
    for k in (1, 2, 15, 16, 17, 31, 32):
        yield b'\xff' * k + bytes(32 - k)
    # checksums near powers of the base
    mx = p.l1 * (p.w - 1)
    for t in sorted(set([0, 1, mx - 1, mx] + [p.w ** i + d for i in range(1, p.l2 + 1) for d in (-1, 0, 1)] + [256 * k + d for k in range(1, 40) for d in (-1, 0)])):
        if 0 <= t <= mx:
            s = mx - t
            ds = []
            for i in range(p.l1):
                x = min(p.w - 1, s)
                ds.append(x)
                s -= x
            rng.shuffle(ds)
            v = 0
            for x in ds:
                v = v << p.lw | x
            yield v.to_bytes(32, 'big')
    for i in range(n):
        yield rng.randbytes(32)


def digits(L, R, rng, thorough):
    for w in WS:
        p = ref.W(w)
        f = 1
        sk, seed, a = rng.randbytes(32), rng.randbytes(32), [0] * 8
        pos = []
        for i, x in enumerate(ref.expand(f, sk, p.len)):
            b = ref.with_(a, 5, i)
            m = {x: 0}
            for k in range(w - 1):
                b[6] = k
                x = ref.F(f, seed, b, x)
                m[x] = k + 1
            pos.append(m)
        seen = []
        for d in digests(rng, p, 300 if thorough else 40):
            def t():
                o, i, m, s, ad = L.o(p.size), L.b(sk), L.b(d), L.b(seed), L.addr(a)
                L.l.q_wots(1, f, o, i, m, w, s, ad)
                sig = bytes(o)
                got = [pos[i].get(sig[32 * i:32 * i + 32]) for i in range(p.len)]
                r = differ(got, ref.digits(p, d), what='signed digits')
                if r:
                    return r
                for e, g in seen[-60:]:
                    if e != d and (not any(x < y for x, y in zip(got, g)) or not any(y < x for x, y in zip(got, g))):
                        return {'what': 'digits of two digests are comparable', 'other digest': e.hex(), 'got': got, 'other': g}
                seen.append((d, got))
            yield {'w': w, 'digest': d.hex(), 'sk': sk.hex(), 'pub_seed': seed.hex()}, t


PARTS = ['digits']
