"""Derived seeds of the real code."""
import ctypes as C
import hashlib
from dv.nat import differ, envs


def chains(L, R, rng, thorough):
    for n in (0, 1, 31, 32, 48, 51, 100, 127, 128, 129, 136, 200, 70001):
        for shift, count in ((0, 3), (1, 1), (255, 2), (256, 2), (65535, 1), (65536, 3), (1 << 24, 1), (0xffffffff, 2), (rng.getrandbits(32), 0), (rng.getrandbits(32), 5)) + (((7, 300),) if n == 48 else ()) + \
                (((5, 66000),) if n == 32 else ()):
            s = rng.randbytes(n)

            def t():
                rc, r = L.call('q_hashchain', L.b(s), C.c_size_t(n), C.c_uint32(shift), C.c_uint32(count))
                w = b''.join(hashlib.shake_256(s + shift.to_bytes(4, 'little') + i.to_bytes(4, 'little')).digest(32) for i in range(count))
                return differ((rc, r), (0, w))
            yield {'seed': s.hex(), 'shift': shift, 'count': count}, t


def rand(L, R, rng, thorough):
    """the generator itself is random: two calls differ, and the output has the requested size"""
    for n in (16, 31, 32, 48, 51, 100, 500):
        for e in (b'', b'abc', rng.randbytes(40), b'a\0b'):
            def t():
                rc, a = L.call('q_random', C.c_uint32(n), L.b(e), C.c_size_t(len(e)))
                rc2, b = L.call('q_random', C.c_uint32(n), L.b(e), C.c_size_t(len(e)))
                if rc or rc2 or len(a) != n or len(b) != n:
                    return {'got': 'codes %d %d' % (rc, rc2)}
                if a == b or a == bytes(n) or a == hashlib.shake_256(bytes(n) + e).digest(n) or a == hashlib.shake_256(e).digest(n):
                    return {'got': 'seed does not depend on the generator', 'seed': a.hex()}
            yield {'size': n, 'entropy': e.hex()}, t


def replay(L, R, rng, thorough):
    """the verifier's assignments"""
    for e in envs():
        n, shift, count = e.get('seedlen'), e.get('shift'), e.get('count')
        if n is None or n > 1 << 20:
            continue
        if '#m' in e:
            count = e['#m'] + 1
        if count is None or shift is None or count > 1 << 20:
            continue
        s = (bytes.fromhex(e.get('[seed]', '')) + bytes(n))[:n]

        def t():
            rc, r = L.call('q_hashchain', L.b(s), C.c_size_t(n), C.c_uint32(shift), C.c_uint32(count))
            w = b''.join(hashlib.shake_256(s + shift.to_bytes(4, 'little') + i.to_bytes(4, 'little')).digest(32) for i in range(count))
            return differ((rc, r), (0, w))
        yield {'seed': s.hex(), 'shift': shift, 'count': count}, t


PARTS = ['chains', 'rand']
