"""Verification of the real code against the reference root computation."""
import ctypes as C
from dv import ref
from dv.nat import differ


def craft(rng, f, w, h, idx, msg, auth=None):
    """a public key and a signature that verifies, at any height and index: the path above one known leaf is free"""
    p = ref.W(w)
    sk_seed, seed, R = rng.randbytes(32), rng.randbytes(32), rng.randbytes(32)
    auth = auth or [rng.randbytes(32) for _ in range(h)]
    x = ref.leaf(f, p, sk_seed, seed, idx)
    for i in range(h):
        a = auth[i]
        l, r = (a, x) if (idx >> i) & 1 else (x, a)
        x = ref.node(f, seed, i, idx >> (i + 1), l, r)
    d = ref.hmsg(f, R + x + ref.tb(idx, 32), msg)
    s = ref.wots_sign(f, p, d, ref.ots_seed(f, sk_seed, idx), seed, [0, 0, 0, 0, idx, 0, 0, 0])
    return x + seed, ref.tb(idx, 4) + R + b''.join(s) + b''.join(auth)


def desc(f, h, third=0):
    return bytes([f, h // 2, third])


def flips(rng, n, regions, per):
    out = []
    for a, b in regions:
        ks = [a, b - 1] + [rng.randrange(a, b) for _ in range(per)]
        for k in ks:
            out.append((k, rng.choice([1, 2, 0x40, 0x80])))
    return out


def verify(L, R, rng, thorough):
    hs = [4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30]
    combos = [(f, 16, h) for h in hs for f in ((0, 1, 2) if thorough else (rng.choice([0, 1, 2]),))]
    combos += [(0, 16, 4), (1, 16, 4), (2, 16, 4), (1, 4, 6), (2, 2, 4), (0, 4, 30), (1, 256, 4), (1, 2, 8)]
    for f, w, h in combos:
        p = ref.W(w)
        idxs = [0, (1 << h) - 1, rng.randrange(1 << h)]
        if h == 30:
            idxs += [1 << 29, 0x01020304]
        if h == 4:
            idxs += list(range(1, 8))
            idxs += [1 << h, 0xffffffff, 0x80000000 | 5]
        if w == 256:
            idxs = idxs[:3]
        for idx in idxs:
            m = rng.randbytes(70001 if h == 4 and idx == 15 else rng.choice([0, 1, 32, 100, 200]))
            pk, sig = craft(rng, f, w, h, idx, m)
            ep = desc(f, h, rng.choice([0, 0, 7])) + pk
            base = {'hash': f, 'w': w, 'height': h, 'index': idx, 'message': m.hex(), 'pk': ep.hex(), 'signature': sig.hex() if len(sig) < 5000 else '(%d bytes)' % len(sig)}

            def ok():
                return differ(L.verify(m, sig, ep, w), True, what='valid signature')
            yield dict(base, signature_kind='valid'), ok
            n = len(sig)
            b = 36 + p.size
            regs = [(0, 4), (4, 36), (36, b)] + [(b + 32 * i, b + 32 * i + 32) for i in range(h)]
            fl = flips(rng, n, regs, 1 if not thorough else 3)
            if w == 256 or not thorough and idx not in idxs[:2]:
                rng.shuffle(fl)
                fl = fl[:8]

            def bad():
                for k, x in fl:
                    s = bytearray(sig)
                    s[k] ^= x
                    if L.verify(m, bytes(s), ep, w) is not False:
                        return {'got': 'accepted', 'expected': 'refused', 'changed signature byte': k, 'xor': x}
                for k in [3 + i for i in (0, 1, 15, 30, 31, 32, 50, 63)]:
                    q = bytearray(ep)
                    q[k] ^= rng.choice([1, 0x80])
                    if L.verify(m, sig, bytes(q), w) is not False:
                        return {'got': 'accepted', 'expected': 'refused', 'changed public key byte': k}
                for m2 in (m + b'\0', m[:-1] if m else b'x', bytes([m[0] ^ 1]) + m[1:] if m else b'\0\0'):
                    if L.verify(m2, sig, ep, w) is not False:
                        return {'got': 'accepted', 'expected': 'refused', 'other message': m2.hex()}
                for g in (0, 1, 2):
                    if g != f and L.verify(m, sig, desc(g, h) + pk, w) is not False:
                        return {'got': 'accepted', 'expected': 'refused', 'hash in descriptor': g}
                return differ(L.verify(m, sig, ep, w), True, what='valid signature, second time')
            yield dict(base, signature_kind='%d variants with one bit changed' % len(fl)), bad
        # sibling equal nodes and swapped halves
        idx = rng.randrange(1 << h)
        m = rng.randbytes(20)
        pk, sig = craft(rng, f, w, h, idx, m)
        ep = desc(f, h) + pk

        def swap():
            b = 36 + p.size
            for i in range(h - 1):
                s = sig[:b + 32 * i] + sig[b + 32 * i + 32:b + 32 * i + 64] + sig[b + 32 * i:b + 32 * i + 32] + sig[b + 32 * i + 64:]
                if L.verify(m, s, ep, w) is not False:
                    return {'got': 'accepted', 'expected': 'refused', 'swapped path nodes': i}
            for i in range(h):
                s = ref.tb(idx ^ (1 << i), 4) + sig[4:]
                if L.verify(m, s, ep, w) is not False:
                    return {'got': 'accepted', 'expected': 'refused', 'index': idx ^ (1 << i)}
        yield {'hash': f, 'w': w, 'height': h, 'index': idx, 'pk': ep.hex(), 'signature_kind': 'path nodes swapped, index bits flipped'}, swap


def own(L, R, rng, thorough):
    """signatures of the library's own signers"""
    for f in (0, 1, 2):
        for fast in (0, 1):
            s = rng.randbytes(48)

            def t():
                rc, k = L.new(s, 4, f, fast)
                if rc:
                    return {'got': 'exception'}
                pk = k.get('pk')
                for i in range(6):
                    m = rng.randbytes(10 * i)
                    rc, sig = k.sign(m)
                    if rc:
                        return {'got': 'exception %d from sign' % rc}
                    want = ref.root_from_sig(f, 16, 4, m, sig, pk[3:]) == pk[3:35]
                    r = differ((L.verify(m, sig, pk), want), (True, True), index=i)
                    if r:
                        return r
            yield {'hash': f, 'fast': fast, 'height': 4, 'seed': s.hex(), 'signature_kind': 'own signatures'}, t


PARTS = ['verify', 'own']
