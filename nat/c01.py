import ctypes as C
import hashlib
from dv.nat import differ

REF = {128: hashlib.shake_128, 256: hashlib.shake_256}
RATE = {128: 168, 256: 136}


def lengths(which, rng, thorough):
    r = RATE[which]
    ins = list(range(0, 2 * r + 3)) + [3 * r - 1, 3 * r, 3 * r + 1, 7 * r, 1000, 4096]
    outs = [0, 1, 7, 8, 31, 32, 33, 48, 64, 96, r - 1, r, r + 1, 2 * r - 1, 2 * r, 2 * r + 1, 3 * r + 5]
    for n in ins:
        yield n, 32 if n % 2 else r + 1
    for o in outs:
        for n in (0, 5, r - 1, r, r + 1):
            yield n, o
    for _ in range(400 if thorough else 60):
        yield rng.randrange(0, 5 * r), rng.randrange(0, 5 * r)
    # lengths that do not fit 16, 17, 24 bits, at and off the block boundary
    for n in (65535, 65536, 65537, 500 * r, 65536 + r - 1, 3 * 65536 + 77):
        yield n, 32
        yield 40, n
    yield (1 << 24) + 2 * r + 5, (1 << 24) + 3 * r + 9


def shown(data):
    return data.hex() if len(data) < 300000 else '%d bytes, byte i of them (i * 7 + 3) mod 251' % len(data)


def made(rng, n):
    return rng.randbytes(n) if n < 300000 else (bytes((i * 7 + 3) % 251 for i in range(251)) * (n // 251 + 1))[:n]


def cpp(L, R, rng, thorough):
    for which in (128, 256):
        for n, o in lengths(which, rng, thorough):
            data = made(rng, n)

            def t():
                got, inp = L.shake(which, data, o)
                again, _ = L.shake(which, data, o)
                return differ(got, REF[which](data).digest(o)) or differ(inp, data, what='message changed') or differ(again, got, what='second evaluation')
            yield {'lang': 'C++', 'function': 'shake%d' % which, 'message': shown(data), 'outlen': o}, t


def vectors(L, R, rng, thorough):
    for n in list(range(0, 10)) + [55, 56, 63, 64, 65, 119, 120, 135, 136, 137, 300]:
        data = rng.randbytes(n)
        for which in (128, 256):
            for o in (0, 1, 32, 64, 200):
                yield {'function': 'std::vector shake%d' % which, 'message': data.hex(), 'outlen': o}, lambda: differ(vh(L, which, o, data), (0, REF[which](data).digest(o)))
        yield {'function': 'sha2_256', 'message': data.hex()}, lambda: differ(vh(L, 0, 0, data), (0, hashlib.sha256(data).digest()))
        for c in range(0, 4):
            w = data
            for _ in range(c):
                w = hashlib.sha256(w).digest()
            yield {'function': 'sha2_256_n', 'message': data.hex(), 'count': c}, lambda: differ(vh(L, 1, c, data), (0, w) if c else (1, None))


def vh(L, which, count, data):
    from dv.nat import Buf
    i = L.b(data)
    return L.call('q_vhash', which, C.c_size_t(count), i, C.c_size_t(len(data)))


def rust(L, R, rng, thorough):
    if R is None:
        return
    for which in (128, 256):
        for n, o in lengths(which, rng, thorough):
            data = made(rng, n)

            def t():
                i, b = L.b(data), L.o(o)
                R.r_shake(which, b, C.c_size_t(o), i, C.c_size_t(n))
                return differ(bytes(b)[:o], REF[which](data).digest(o)) or differ(bytes(i)[:n], data, what='message changed')
            yield {'lang': 'Rust', 'function': 'shake%d' % which, 'message': shown(data), 'outlen': o}, t
