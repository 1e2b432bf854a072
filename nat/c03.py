"""Hash address setters and byte form of the real code."""
import ctypes as C
from dv import ref
from dv.nat import differ

NAMES = ['layer', 'tree', 'type', 'key and mask', 'ots', 'chain', 'hash', 'ltree', 'tree height', 'tree index']
POS = [0, 1, 3, 7, 4, 5, 6, 4, 5, 6]
VALS = [0, 1, 2, 3, 7, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x01020304, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff]


def want(k, a, v):
    b = list(a)
    if k == 1:
        b[1], b[2] = v >> 32, v & 0xffffffff
    elif k == 2:
        b[3] = v
        b[4:] = [0] * 4
    else:
        b[POS[k]] = v
    return b


def cases(rng, thorough):
    for k in range(10):
        vals = list(VALS) + [rng.getrandbits(32) for _ in range(20)]
        if k == 1:
            vals += [x << 32 for x in VALS] + [0x0102030405060708] + [rng.getrandbits(64) for _ in range(40)]
        for v in vals:
            for a in ([0] * 8, [0xffffffff] * 8, [rng.getrandbits(32) for _ in range(8)]):
                yield k, a, v


def run(lib, setname, bytename, L, lang, rng, thorough):
    for k, a, v in cases(rng, thorough):
        def t():
            ad = L.addr(a)
            getattr(lib, setname)(k, ad, C.c_uint64(v))
            r = differ(list(ad), want(k, a, v))
            if r:
                return r
            o = L.o(32)
            getattr(lib, bytename)(o, ad)
            return differ(bytes(o), ref.adrs(want(k, a, v)), what='byte form')
        yield {'lang': lang, 'field': NAMES[k], 'address': a, 'value': v}, t


def cpp(L, R, rng, thorough):
    return run(L.l, 'q_setaddr', 'q_addrbytes', L, 'C++', rng, thorough)


def rust(L, R, rng, thorough):
    if R is None:
        return iter(())
    return run(R, 'r_setaddr', 'r_addrbytes', L, 'Rust', rng, thorough)


PARTS = ['cpp', 'rust']
RUST = True
