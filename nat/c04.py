"""WOTS+ of the real code against the reference chains."""
import ctypes as C
from dv import ref
from dv.nat import differ

WS = (2, 4, 16, 256)


def digests(rng, n):
    yield bytes(32)
    yield b'\xff' * 32
    yield bytes(range(32))
    yield b'\x80' + bytes(31)
    yield bytes(31) + b'\x01'
    for i in range(n):
        yield rng.randbytes(32)


def addr(rng):
    return [rng.choice([0, 1, rng.getrandbits(32)]), rng.getrandbits(32), rng.getrandbits(32), 0, rng.choice([0, 5, rng.getrandbits(32)]), rng.getrandbits(32), rng.getrandbits(32), rng.getrandbits(32)]


def call(L, op, f, w, inp, msg, seed, a):
    p = ref.W(w)
    o, i, m, s, ad = L.o(p.size), L.b(inp), L.b(msg), L.b(seed), L.addr(a)
    L.l.q_wots(op, f, o, i, m, w, s, ad)
    bad = differ((bytes(i), bytes(m)[:32], bytes(s)[:32], list(ad)[:5]), (inp, msg, seed, a[:5]), what='an input changed (or an address word other than chain, hash, key-and-mask)')
    return bytes(o), bad


def wots(L, R, rng, thorough):
    for w in WS:
        p = ref.W(w)
        for f in (0, 1, 2):
            for rep in range(3 if thorough else 1):
                sk, seed, a = rng.randbytes(32), rng.randbytes(32), addr(rng)
                if rep == 0 and f == 1:
                    a = [0, 0, 0, 0, 7, 0, 0, 0]
                x = ref.expand(f, sk, p.len)
                cols = []
                for i in range(p.len):
                    c = [x[i]]
                    b = ref.with_(a, 5, i)
                    for k in range(w - 1):
                        b[6] = k
                        c.append(ref.F(f, seed, b, c[-1]))
                    cols.append(c)
                pk = b''.join(c[-1] for c in cols)
                base = {'hash': f, 'w': w, 'sk': sk.hex(), 'pub_seed': seed.hex(), 'address': a}

                def gen():
                    got, bad = call(L, 0, f, w, sk, bytes(32), seed, a)
                    return bad or differ(got, pk, what='public key')
                yield dict(base, function='wots_pkgen'), gen
                for d in digests(rng, (12 if thorough else 4) if w < 256 else 2):
                    dg = ref.digits(p, d)

                    def sign():
                        got, bad = call(L, 1, f, w, sk, d, seed, a)
                        if bad:
                            return bad
                        bad = differ(got, b''.join(cols[i][dg[i]] for i in range(p.len)), what='signature')
                        if bad:
                            return bad
                        got, bad = call(L, 2, f, w, got, d, seed, a)
                        return bad or differ(got, pk, what='public key from signature')
                    yield dict(base, function='wots_sign, wots_pkFromSig', digest=d.hex()), sign
                # arbitrary signatures
                sig, d = rng.randbytes(p.size), rng.randbytes(32)

                def frm():
                    got, bad = call(L, 2, f, w, sig, d, seed, a)
                    return bad or differ(got, b''.join(ref.wots_from_sig(f, p, d, sig, seed, a)), what='public key from an arbitrary signature')
                yield dict(base, function='wots_pkFromSig', digest=d.hex(), signature='random'), frm


PARTS = ['wots']
