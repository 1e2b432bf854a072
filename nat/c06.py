"""Key generation of the real code against the full reference tree."""
import ctypes as C
from dv import nat, ref
from dv.nat import differ


def seeds(rng):
    yield bytes(48)
    while True:
        yield rng.randbytes(48)


def keys(L, R, rng, thorough):
    sd = seeds(rng)
    combos = [(f, h) for f in (0, 1, 2) for h in (4, 6)] + [(1, 8), (1, 10)]
    if thorough:
        combos += [(0, 8), (2, 8), (2, 10), (1, 12)]
    for f, h in combos:
        s = next(sd)

        def t():
            want = ref.Key(f, s, h).sk
            for fast in (1, 0, 1):
                rc, k = L.new(s, h, f, fast)
                if rc:
                    return {'got': 'exception %d' % rc, 'signer': 'fast' if fast else 'basic'}
                r = differ(k.get('sk'), want, signer='fast' if fast else 'basic', what='secret key')
                k.free()
                if r:
                    return r
        yield {'hash': f, 'height': h, 'seed': s.hex()}, t
    for w in (2, 4, 256):
        for f in ((0, 1, 2) if w < 256 else (1,)):
            s = next(sd)

            def t2():
                rc, k = L.new(s, 4, f, 0, 0, w)
                if rc:
                    return {'got': 'exception %d' % rc}
                r = differ(k.get('sk'), ref.Key(f, s, 4, w).sk, what='secret key')
                k.free()
                return r
            yield {'hash': f, 'height': 4, 'w': w, 'seed': s.hex(), 'signer': 'basic'}, t2


def clevel(L, R, rng, thorough):
    """C-level key generation leaves only pk and sk changed"""
    for f in (0, 1, 2):
        for h in (4, 6):
            s = rng.randbytes(48)

            def t():
                pk, sk, sd = L.o(64), L.o(132), L.b(s)
                rc = L.l.q_genkey(f, h, 16, pk, sk, sd)
                k = ref.Key(f, s, h)
                return differ((rc, bytes(pk), bytes(sk), bytes(sd)), (0, k.pk, k.sk, s))
            yield {'function': 'xmss_Genkeypair', 'hash': f, 'height': h, 'seed': s.hex()}, t


def tallkeys(L, R, rng, thorough):
    """every even height up to 20 (thorough: 22) with cheap hashes, against the full tree"""
    for h in range(4, 23 if thorough else 21, 2):
        for mode in ('fastkey', 'key') if h < 20 or thorough else ('fastkey',):
            for w in ((2, 4, 16, 256) if h < 12 else (rng.choice((2, 4, 16, 256)),)):
                a = (mode, h, w, rng.randrange(3), rng.randrange(1 << 30))
                yield {'tall': a, 'what': 'native/tall.cpp MODE HEIGHT W HASH SEED (cheap hashes)'}, lambda: nat.tall(*a)


TALL = True
PARTS = ['keys', 'clevel', 'tallkeys']
