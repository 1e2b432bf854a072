"""Executable reference (RFC 8391 as parametrised by the library), written on hashlib.  Used only by the bounded native runs."""
import hashlib

SHA2, SHAKE128, SHAKE256 = 0, 1, 2


def H(f, data, n=32):
    if f == SHA2:
        return hashlib.sha256(data).digest()
    return (hashlib.shake_128 if f == SHAKE128 else hashlib.shake_256)(data).digest(n)


def tb(x, n):
    return (x % (1 << (8 * n))).to_bytes(n, 'big')


T0, T1, T2, T3 = (tb(i, 32) for i in range(4))


def adrs(a):
    return b''.join(tb(x, 4) for x in a)


def prf(f, key, m):
    return H(f, T3 + key + m)


def hmsg(f, key, m):
    return H(f, T2 + key + m)


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def xor32(a, b):
    return (int.from_bytes(a, 'big') ^ int.from_bytes(b, 'big')).to_bytes(len(a), 'big')


def F(f, seed, a, m):
    h = adrs(a[:7])
    key = H(f, T3 + seed + h + b'\0\0\0\0')
    bm = H(f, T3 + seed + h + b'\0\0\0\1')
    return H(f, T0 + key + xor32(m, bm))


def HH(f, seed, a, m):
    h = adrs(a[:7])
    key = H(f, T3 + seed + h + b'\0\0\0\0')
    bm = H(f, T3 + seed + h + b'\0\0\0\1') + H(f, T3 + seed + h + b'\0\0\0\2')
    return H(f, T1 + key + xor32(m, bm))


class W(object):
    def __init__(self, w):
        self.w = w
        self.lw = {2: 1, 4: 2, 16: 4, 256: 8}[w]
        self.l1 = 256 // self.lw
        m = self.l1 * (w - 1)
        self.l2 = 1
        while w ** self.l2 <= m:
            self.l2 += 1
        self.len = self.l1 + self.l2
        self.size = 32 * self.len


def basew(x, n, lw):
    """n digits of the big-endian bit string x"""
    v = int.from_bytes(x, 'big')
    t = 8 * len(x)
    return [(v >> (t - lw * (i + 1))) & ((1 << lw) - 1) for i in range(n)]


def digits(p, d):
    b = basew(d, p.l1, p.lw)
    c = sum(p.w - 1 - x for x in b)
    return b + [(c // p.w ** (p.l2 - 1 - i)) % p.w for i in range(p.l2)]


def chain(f, x, start, steps, seed, a, w):
    a = list(a)
    for i in range(start, min(start + steps, w)):
        a[6] = i
        x = F(f, seed, a, x)
    return x


def expand(f, sk, n):
    return [prf(f, sk, tb(i, 32)) for i in range(n)]


def with_(a, i, v):
    a = list(a)
    a[i] = v
    return a


def wots_pk(f, p, sk, seed, a):
    return [chain(f, x, 0, p.w - 1, seed, with_(a, 5, i), p.w) for i, x in enumerate(expand(f, sk, p.len))]


def wots_sign(f, p, d, sk, seed, a):
    dg = digits(p, d)
    return [chain(f, x, 0, dg[i], seed, with_(a, 5, i), p.w) for i, x in enumerate(expand(f, sk, p.len))]


def wots_from_sig(f, p, d, sig, seed, a):
    dg = digits(p, d)
    return [chain(f, sig[32 * i:32 * i + 32], dg[i], p.w - 1 - dg[i], seed, with_(a, 5, i), p.w) for i in range(p.len)]


def ltree(f, nodes, seed, a):
    nodes = list(nodes)
    h = 0
    while len(nodes) > 1:
        r = [HH(f, seed, with_(with_(a, 5, h), 6, i), nodes[2 * i] + nodes[2 * i + 1]) for i in range(len(nodes) // 2)]
        if len(nodes) % 2:
            r.append(nodes[-1])
        nodes = r
        h += 1
    return nodes[0]


def ots_seed(f, sk_seed, idx):
    return prf(f, sk_seed, adrs([0, 0, 0, 0, idx, 0, 0, 0]))


_leaf = {}


def leaf(f, p, sk_seed, seed, idx):
    k = (f, p.w, sk_seed, seed, idx)
    if k not in _leaf:
        _leaf[k] = ltree(f, wots_pk(f, p, ots_seed(f, sk_seed, idx), seed, [0, 0, 0, 0, idx, 0, 0, 0]), seed, [0, 0, 0, 1, idx, 0, 0, 0])
    return _leaf[k]


def node(f, seed, level, i, l, r):
    """node at height level+1, index i"""
    return HH(f, seed, [0, 0, 0, 2, 0, level, i, 0], l + r)


_tree = {}


class Key(object):
    def __init__(self, f, seed48, h, w=16):
        self.f, self.h, self.p = f, h, W(w)
        r = hashlib.shake_256(seed48).digest(96)
        self.sk_seed, self.sk_prf, self.seed = r[:32], r[32:64], r[64:]
        k = (f, seed48, h, w)
        if k not in _tree:
            t = [[leaf(f, self.p, self.sk_seed, self.seed, i) for i in range(1 << h)]]
            for lv in range(h):
                x = t[-1]
                t.append([node(f, self.seed, lv, i, x[2 * i], x[2 * i + 1]) for i in range(len(x) // 2)])
            _tree[k] = t
        self.tree = _tree[k]
        self.root = self.tree[-1][0]
        self.sk = b'\0\0\0\0' + self.sk_seed + self.sk_prf + self.seed + self.root
        self.pk = self.root + self.seed

    def sign(self, idx, msg):
        R = prf(self.f, self.sk_prf, tb(idx, 32))
        d = hmsg(self.f, R + self.root + tb(idx, 32), msg)
        s = wots_sign(self.f, self.p, d, ots_seed(self.f, self.sk_seed, idx), self.seed, [0, 0, 0, 0, idx, 0, 0, 0])
        auth = [self.tree[i][(idx >> i) ^ 1] for i in range(self.h)]
        return tb(idx, 4) + R + b''.join(s) + b''.join(auth)


def root_from_sig(f, w, h, msg, sig, pk):
    """root recomputed from a signature; pk = root || seed"""
    p = W(w)
    idx = int.from_bytes(sig[:4], 'big')
    R = sig[4:36]
    root, seed = pk[:32], pk[32:]
    d = hmsg(f, R + root + tb(idx, 32), msg)
    k = wots_from_sig(f, p, d, sig[36:36 + p.size], seed, [0, 0, 0, 0, idx, 0, 0, 0])
    x = ltree(f, k, seed, [0, 0, 0, 1, idx, 0, 0, 0])
    auth = sig[36 + p.size:]
    for i in range(h):
        a = auth[32 * i:32 * i + 32]
        l, r = (a, x) if (idx >> i) & 1 else (x, a)
        x = node(f, seed, i, idx >> (i + 1), l, r)
    return x
