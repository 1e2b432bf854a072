"""Index life cycle of the real signers against a counter."""
import ctypes as C
from dv import ref
from dv.nat import differ


def run(L, f, h, fast, s, ops, w=16):
    rc, k = L.new(s, h, f, fast, 0, w)
    if rc:
        return {'got': 'exception'}
    n = 1 << h
    try:
        idx = 0
        used = set()
        moved = False
        sk0 = k.get('sk')[4:]
        for op in ops:
            before = k.get('sk')
            if k.index() != idx:
                return {'got': 'index %d' % k.index(), 'expected': idx, 'before': op}
            if k.num('remaining') != n - idx or k.num('nsig') != n:
                return {'got': 'remaining %d of %d' % (k.num('remaining'), k.num('nsig')), 'expected': '%d of %d' % (n - idx, n), 'before': op}
            if op[0] == 'm':
                t = op[1]
                ok = t < n and (not fast or t >= idx)
                rc, r = k.setindex(t)
                if ok:
                    if rc or r != t:
                        return {'got': 'setIndex(%d) code %d returned %d at index %d' % (t, rc, r, idx), 'expected': 'moved'}
                    moved = moved or t < idx
                    idx = t
                elif not rc:
                    return {'got': 'setIndex(%d) accepted at index %d' % (t, idx), 'expected': 'refused'}
                elif k.get('sk') != before:
                    return {'got': 'secret key changed by a refused setIndex(%d)' % t}
            else:
                m = bytes([idx & 255])
                rc, sg = k.sign(m)
                if idx >= n:
                    if not rc:
                        return {'got': 'signature at index %d of %d' % (idx, n), 'expected': 'refused'}
                    if k.get('sk') != before:
                        return {'got': 'secret key changed by a refused sign', 'index': idx}
                    continue
                if rc:
                    return {'got': 'sign refused at index %d of %d' % (idx, n)}
                if sg[:4] != ref.tb(idx, 4):
                    return {'got': 'signature carries index %s' % sg[:4].hex(), 'expected': idx}
                if not moved and idx in used:
                    return {'got': 'index %d used twice' % idx}
                used.add(idx)
                idx += 1
            if k.get('sk')[4:] != sk0:
                return {'got': 'secret parts of the key changed', 'after': op}
        if fast and idx < n:
            # refused moves must not have disturbed the state
            rc, sg = k.sign(b'z')
            if rc or L.verify(b'z', sg, k.get('pk'), w) is not True:
                return {'got': 'signature after refused moves does not verify', 'index': idx}
    finally:
        k.free()


def ops(rng, n, steps):
    pos = 0
    out = []
    for _ in range(steps):
        x = rng.random()
        if x < 0.55:
            out.append(('s',))
        else:
            out.append(('m', rng.choice([n, n + 1, 0xffffffff, 0x80000000, 2 * n, n << 8, n << 16, 1 << 31, 0, 1, n - 1, rng.randrange(n), rng.randrange(n), n - 2, 256, 65536, 1 << 24])))
    return out


def life(L, R, rng, thorough):
    for fast in (0, 1):
        for f in (0, 1, 2):
            s = rng.randbytes(48)
            n = 16
            yield {'fast': fast, 'hash': f, 'height': 4, 'seed': s.hex(), 'history': 'sign 20 times'}, lambda: run(L, f, 4, fast, s, [('s',)] * 20)
            yield {'fast': fast, 'hash': f, 'height': 4, 'seed': s.hex(), 'history': 'last index, sign 3 times, moves'}, lambda: run(
                L, f, 4, fast, s, [('m', 15), ('s',), ('s',), ('s',), ('m', 16), ('s',), ('m', 15), ('m', 0), ('m', 17), ('s',), ('m', 0xffffffff), ('s',)])
            for r in range(12 if thorough else 3):
                o = ops(rng, n, 14 if not fast else 30)
                yield {'fast': fast, 'hash': f, 'height': 4, 'seed': s.hex(), 'history': o}, lambda: run(L, f, 4, fast, s, o)
        for h in (6, 8) if thorough or fast else (6,):
            s = rng.randbytes(48)
            n = 1 << h
            o = [('m', n), ('s',), ('m', n - 3), ('s',), ('m', n), ('s',), ('m', n + 1), ('s',), ('s',), ('m', n - 1), ('m', n), ('s',)]
            yield {'fast': fast, 'hash': 1, 'height': h, 'seed': s.hex(), 'history': o}, lambda: run(L, 1, h, fast, s, o)
        s = rng.randbytes(48)
        o = [('m', 254), ('s',), ('m', 255), ('s',), ('s',), ('m', 256), ('s',)]
        yield {'fast': fast, 'hash': 1, 'height': 8, 'seed': s.hex(), 'history': o}, lambda: run(L, 1, 8, fast, s, o)
    # index bytes beyond the first carry, moves only (no signatures)
    s = rng.randbytes(48)
    o = [('m', 255), ('m', 256), ('m', 257), ('m', 511), ('m', 512), ('m', 1023), ('m', 1024), ('m', 1 << 16)] + [('m', x) for x in (rng.randrange(1024), 0x102, 3)]
    yield {'fast': 0, 'hash': 1, 'height': 10, 'w': 4, 'seed': s.hex(), 'history': o}, lambda: run(L, 1, 10, 0, s, o, 4)


PARTS = ['life']
