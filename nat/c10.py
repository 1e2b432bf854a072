"""Histories of the real fast signer against the full-tree reference signer."""
import ctypes as C
from dv import nat, ref
from dv.nat import differ


def check(key, i, m, sg, full):
    """full comparison, or everything but the one-time signature"""
    if full:
        return differ(sg, key.sign(i, m), what='signature', index=i)
    b = 36 + key.p.size
    R = ref.prf(key.f, key.sk_prf, ref.tb(i, 32))
    auth = b''.join(key.tree[l][(i >> l) ^ 1] for l in range(key.h))
    return differ(sg[:36], ref.tb(i, 4) + R, what='index and randomiser', index=i) or differ(sg[b:], auth, what='authentication path', index=i)


def history(L, key, s, f, h, ops, full_every):
    rc, k = L.new(s, h, f, 1)
    if rc:
        return {'got': 'exception'}
    try:
        pos = 0
        n = 0
        for op in ops:
            if op[0] == 'm':
                rc, r = k.setindex(op[1])
                if rc or r != op[1] or k.index() != op[1]:
                    return {'got': 'setIndex(%d): code %d, returned %d, index %d' % (op[1], rc, r, k.index())}
                pos = op[1]
            else:
                m = bytes([pos & 255, n & 255]) * (n % 5)
                rc, sg = k.sign(m)
                if rc:
                    return {'got': 'exception %d from sign at index %d' % (rc, pos)}
                d = check(key, pos, m, sg, n % full_every == 0)
                if d:
                    return d
                n += 1
                pos += 1
                if k.get('sk') != ref.tb(pos, 4) + key.sk[4:]:
                    return {'got': k.get('sk').hex(), 'what': 'secret key after signing', 'expected': (ref.tb(pos, 4) + key.sk[4:]).hex()}
    finally:
        k.free()


def rand_ops(rng, h, dens):
    n = 1 << h
    pos = 0
    ops = []
    while pos < n:
        x = rng.random()
        if x < dens:
            ops.append(('s',))
            pos += 1
        elif x < dens + 0.1:
            ops.append(('m', pos))
            if rng.random() < 0.5:
                continue
        else:
            to = min(n - 1, pos + rng.choice([1, 1, 2, 3, rng.randrange(1, max(2, n // 4))]))
            ops.append(('m', to))
            pos = to
            if to == n - 1 or rng.random() < 0.7:
                ops.append(('s',))
                pos += 1
    return ops


def histories(L, R, rng, thorough):
    for f in (0, 1, 2):
        s = rng.randbytes(48)
        key = ref.Key(f, s, 4)
        for i in range(16):
            yield {'hash': f, 'height': 4, 'seed': s.hex(), 'history': 'move to %d, then sign to the end' % i}, lambda: history(L, key, s, f, 4, [('m', i)] + [('s',)] * (16 - i), 4)
        yield {'hash': f, 'height': 4, 'seed': s.hex(), 'history': 'sign all'}, lambda: history(L, key, s, f, 4, [('s',)] * 16, 1)
        for r in range(60 if thorough else 12):
            ops = rand_ops(rng, 4, rng.choice([0.1, 0.5, 0.8]))
            yield {'hash': f, 'height': 4, 'seed': s.hex(), 'history': ops}, lambda: history(L, key, s, f, 4, ops, 3)


def tall(L, R, rng, thorough):
    for f, h, reps in ((1, 6, 6), (2, 6, 2), (0, 6, 2), (1, 8, 1)) if not thorough else ((1, 6, 30), (2, 6, 10), (0, 6, 10), (1, 8, 8), (2, 8, 4), (0, 8, 2), (1, 10, 2)):
        s = rng.randbytes(48)
        key = ref.Key(f, s, h)
        n = 1 << h
        yield {'hash': f, 'height': h, 'seed': s.hex(), 'history': 'sign all'}, lambda: history(L, key, s, f, h, [('s',)] * n, 40)
        for r in range(reps):
            ops = rand_ops(rng, h, rng.choice([0.1, 0.4, 0.8]))
            yield {'hash': f, 'height': h, 'seed': s.hex(), 'history': ops}, lambda: history(L, key, s, f, h, ops, 30)
        t = rng.randrange(n // 2, n)
        yield {'hash': f, 'height': h, 'seed': s.hex(), 'history': 'move to %d, then sign to the end' % t}, lambda: history(L, key, s, f, h, [('m', t)] + [('s',)] * (n - t), 40)
        yield {'hash': f, 'height': h, 'seed': s.hex(), 'history': 'move to the last index'}, lambda: history(L, key, s, f, h, [('m', n - 1), ('s',)], 1)


def tallwalks(L, R, rng, thorough):
    """full and random histories on taller trees with cheap hashes, against the full tree"""
    for h in range(4, 17, 2):
        n = 1 << h
        plans = [['s%d' % n]] + [['r%d' % n, 's%d' % n] for _ in range(40 if h < 8 else 12 if h < 12 else 2)] + [['m%d' % (n - 1), 's1'], ['s1', 'm%d' % (n // 2), 's%d' % n], ['m%d' % rng.randrange(n), 's%d' % n]]
        for pl in plans if h < 16 or thorough else plans[:1]:
            a = ('object' if rng.random() < 0.5 and h < 12 else 'walk', h, 16, rng.randrange(3), rng.randrange(1 << 30)) + tuple(pl)
            yield {'tall': a, 'what': 'native/tall.cpp MODE HEIGHT W HASH SEED STEPS (sN: sign N times, mI: move to I, rN: N random steps; cheap hashes)'}, lambda: nat.tall(*a)
    for h, pl in ((18, ['m65000', 's1200', 'r300']),) + (((18, ['s262144']), (20, ['m70000', 's1000', 'm%d' % ((1 << 20) - 500), 's500'])) if thorough else ()):
        a = ('walk', h, 16, rng.randrange(3), rng.randrange(1 << 30)) + tuple(pl)
        yield {'tall': a, 'what': 'native/tall.cpp MODE HEIGHT W HASH SEED STEPS (cheap hashes)'}, lambda: nat.tall(*a)


TALL = True
PARTS = ['histories', 'tall', 'tallwalks']
