"""XMSS contracts and specification functions, as terms over opaque hash applications.

Layers (each function is proved against the layer below and used by its callers through the layer above):
  SHAKE128 / SHAKE256 / SHA256 (uninterpreted; SHAKE = FIPS 202 is C01)
  PRF, HMSG, F, H     keyed hashes, C02
  CHAIN, WOTS+        C04, C05
  LTREE, LEAF, NODE   C06, C07
"""
from . import term as tm
from . import seq
from . import exec as E
from .term import T

HF = {0: 'SHA256', 1: 'SHAKE128', 2: 'SHAKE256'}
HNAME = {0: 'SHA2_256', 1: 'SHAKE_128', 2: 'SHAKE_256'}


def tb(x, n):
    """toByte(x, n) of a constant"""
    return list((x % (1 << (8 * n))).to_bytes(n, 'big'))


def tb32(x, n=32):
    """toByte of a 32-bit term"""
    return [0] * (n - 4) + [tm.extract(x, 24 - 8 * i, 8) for i in range(4)]


def adrs_bytes(a):
    return [b for x in a for b in tb32(x, 4)]


def arr(name, n):
    """n bytes of an arbitrary array, as a blob variable's bytes"""
    return tm.blob_bytes(tm.blobvar(name, n))


def h_of(f, ps, n):
    return tm.app(HF[f], (seq.canon(ps), n), n)


# ------------------------------------------------------------------ C02 definitions
def core(f, typ, key, m, n):
    return h_of(f, tb(typ, n) + list(key) + list(m), n)


def prf_def(f, key, m, n=32):
    return core(f, 3, key, m, n)


def hmsg_def(f, key, m, n=32):
    return core(f, 2, key, m, n)


def xor(a, b):
    return [tm.xor(x, y, 8) for x, y in zip(a, b)]


def bb(B):
    return tm.blob_bytes(B)


def f_def(f, seed, a7, m, n=32):
    k = [prf_def(f, seed, adrs_bytes(list(a7) + [i]), n) for i in range(2)]
    return core(f, 0, bb(k[0]), xor(m, bb(k[1])), n)


def hh_def(f, seed, a7, m, n=32):
    k = [prf_def(f, seed, adrs_bytes(list(a7) + [i]), n) for i in range(3)]
    return core(f, 1, bb(k[0]), xor(m, bb(k[1]) + bb(k[2])), n)


# ------------------------------------------------------------------ opaque applications
def PRF(f, key, m, n=32):
    return tm.app('PRF%d' % f, (seq.canon(key), seq.canon(m)), n)


def HMSG(f, key, m, n=32):
    return tm.app('HMSG%d' % f, (seq.canon(key), seq.canon(m)), n)


def F(f, seed, a7, m, n=32):
    return tm.app('F%d' % f, (seq.canon(seed), tuple(a7), seq.canon(m)), n)


def HH(f, seed, a7, m, n=32):
    return tm.app('H%d' % f, (seq.canon(seed), tuple(a7), seq.canon(m)), n)


# ------------------------------------------------------------------ helpers for contracts
def con(x, what):
    if x.__class__ is not int:
        raise E.Unsupported('contract argument %s is not constant' % what)
    return x


def readb(ex, st, p, n):
    """canonical pieces of n bytes at p"""
    if n.__class__ is int:
        return seq.canon(st.read_vals(p, n)) if n else ()
    if p.__class__ is int and ex.decide(st, tm.eq(n, 0, 64)) is True:
        return ()
    return seq.read_range(ex, st, p, n)


def put(st, p, blob):
    st.write_bytes(p, list(tm.blob_bytes(blob)))


def words(st, p, n=7):
    out = []
    for i in range(n):
        v = st.load(E.addp(p, 4 * i), 4)
        if v is E.U:
            raise E.Viol('uninit', 'address word %d is not initialised' % i)
        out.append(v)
    return out


def alias(st, out, n, p, m, same_ok=True, at=()):
    """contract precondition: [out, n) and [p, m) disjoint (or, if allowed, out is p)"""
    if out.__class__ is E.Ptr and p.__class__ is E.Ptr and out.o == p.o and m:
        if out.f.__class__ is int and p.f.__class__ is int:
            if out.f + n <= p.f or p.f + m <= out.f or (same_ok and out.f == p.f) or out.f - p.f in at:
                return
        d = tm.sub(p.f, out.f, 64)
        if d.__class__ is int and (n <= d <= (1 << 64) - m or same_ok and d == 0):
            return
        if d.__class__ is not int and st.ex.decide(st, tm.and_(tm.ule(n, d, 64), tm.ule(d, (1 << 64) - m, 64), 1)) is True:
            return
        raise E.Unsupported('contract used with overlapping buffers')


# ------------------------------------------------------------------ contracts: hash primitives
def shake_contract(f):
    def c(ex, st, a):
        out, n, p, ln = a
        con(n, 'output length')
        ps = readb(ex, st, p, ln)
        put(st, out, tm.app(HF[f], (ps, n), n)) if n else None
        return None
    return c


def sha_contract(ex, st, a):
    out, p, ln = a
    put(st, out, tm.app('SHA256', (readb(ex, st, p, ln), 32), 32))
    return None


def primitives():
    return {'shake128': shake_contract(1), 'shake256': shake_contract(2), 'sha2_256': sha_contract}


# ------------------------------------------------------------------ contracts: keyed hashes (proved by C02)
def c_prf(ex, st, a):
    f, out, p, key, n = a
    con(f, 'hash'), con(n, 'n')
    if f not in HF or n != 32:
        raise E.Unsupported('prf contract outside its domain')
    alias(st, out, n, key, n, False)
    alias(st, out, n, p, 32, False)
    put(st, out, PRF(f, readb(ex, st, key, n), readb(ex, st, p, 32), n))
    return 0


def c_hmsg(ex, st, a):
    f, out, p, ln, key, kl, n = a
    con(f, 'hash'), con(n, 'n'), con(kl, 'key length')
    if f not in HF or n != 32:
        raise E.Unsupported('h_msg contract outside its domain')
    if kl != 3 * n:
        return 1
    alias(st, out, n, key, kl, False)
    k = readb(ex, st, key, kl)
    m = readb(ex, st, p, ln)
    put(st, out, HMSG(f, k, m, n))
    return 0


def havoc7(st, ad):
    st.store(E.addp(ad, 28), tm.fresh('km', 32), 4)


def c_hf(ex, st, a):
    f, out, p, seed, ad, n = a
    con(f, 'hash'), con(n, 'n')
    if f not in HF or n != 32:
        raise E.Unsupported('hash_f contract outside its domain')
    alias(st, out, n, p, n)
    alias(st, out, n, seed, n, False)
    r = F(f, readb(ex, st, seed, n), words(st, ad), readb(ex, st, p, n), n)
    havoc7(st, ad)
    put(st, out, r)
    return 0


def c_hh(ex, st, a):
    f, out, p, seed, ad, n = a
    con(f, 'hash'), con(n, 'n')
    if f not in HF or n != 32:
        raise E.Unsupported('hash_h contract outside its domain')
    alias(st, out, n, p, 2 * n, at=(n,))
    alias(st, out, n, seed, n, False)
    r = HH(f, readb(ex, st, seed, n), words(st, ad), readb(ex, st, p, 2 * n), n)
    havoc7(st, ad)
    put(st, out, r)
    return 0


def keyed():
    return {'prf': c_prf, 'h_msg': c_hmsg, 'hash_f': c_hf, 'hash_h': c_hh}


# ------------------------------------------------------------------ state helpers for proofs
def buf(st, name, n, ro=True, bytes_=None):
    """n initialised bytes (arbitrary when bytes_ is None): (pointer, byte terms)"""
    p = st.alloc(n, name=name)
    bs = bytes_ if bytes_ is not None else arr(name, n)
    st.write_bytes(p, list(bs))
    if ro:
        st.obj(p, True).ro = True
    return p, list(bs)


def outbuf(st, name, n):
    return st.alloc(n, name=name)


def addrbuf(st, name='addr', vals=None):
    p = st.alloc(32, name=name)
    v = vals or [tm.var('%s%d' % (name, i), 32) for i in range(8)]
    for i in range(8):
        st.store(E.addp(p, 4 * i), v[i], 4)
    return p, v


def symbuf(st, name, n, ro=True):
    """buffer of symbolic length"""
    p = st.alloc(n, name=name)
    st.obj(p).sym.log.append(('base', name))
    if ro:
        st.obj(p).ro = True
    return p, [('seq', name, 0, n)]


# ------------------------------------------------------------------ evaluation of the opaque layers by their definitions
# (so that two terms of different layers with the same meaning are never told apart by evaluation)
def _defs():
    from . import vc
    O = vc.ORACLE

    def byt(ev, ps):
        return ev.piecebytes(ps)

    def prim(ev, name, data, n):
        return O[name](ev, (tuple(data), n), n)

    def xor_(a, b):
        return bytes(x ^ y for x, y in zip(a, b))

    def mk(f):
        nm = HF[f]

        def ecore(ev, typ, key, m, n):
            return prim(ev, nm, bytes(tb(typ, n)) + key + m, n)

        def eprf(ev, a, n):
            return ecore(ev, 3, byt(ev, a[0]), byt(ev, a[1]), n)

        def ehmsg(ev, a, n):
            return ecore(ev, 2, byt(ev, a[0]), byt(ev, a[1]), n)

        def mask(ev, seed, a7, k, n):
            h = b''.join((ev.val(x) & 0xffffffff).to_bytes(4, 'big') for x in a7)
            return [ecore(ev, 3, seed, h + bytes([0, 0, 0, i]), n) for i in range(k)]

        def ef(ev, seed, a7, m, n):
            k = mask(ev, seed, a7, 2, n)
            return ecore(ev, 0, k[0], xor_(m, k[1]), n)

        def eh(ev, seed, a7, m, n):
            k = mask(ev, seed, a7, 3, n)
            return ecore(ev, 1, k[0], xor_(m, k[1] + k[2]), n)

        def echain(ev, a, n):
            seed, a6, m, start, steps = a
            s, c = ev.val(start), ev.val(steps)
            if c > 4096:
                raise OverflowError('chain too long')
            x, sd = byt(ev, m), byt(ev, seed)
            a6 = [ev.val(t) for t in a6]
            for i in range(s, s + c):
                x = ef(ev, sd, a6 + [i], x, n)
            return x
        O['PRF%d' % f] = eprf
        O['HMSG%d' % f] = ehmsg
        O['F%d' % f] = lambda ev, a, n: ef(ev, byt(ev, a[0]), a[1], byt(ev, a[2]), n)
        O['H%d' % f] = lambda ev, a, n: eh(ev, byt(ev, a[0]), a[1], byt(ev, a[2]), n)
        O['CHAIN%d' % f] = echain
    for f in HF:
        mk(f)


_defs()


# ------------------------------------------------------------------ WOTS+ (C04, C05)
W = (2, 4, 16, 256)


class WP(object):
    def __init__(self, w):
        self.w = w
        self.lw = {2: 1, 4: 2, 16: 4, 256: 8}[w]
        self.l1 = 256 // self.lw
        self.l2 = 1
        while w ** self.l2 <= self.l1 * (w - 1):
            self.l2 += 1
        self.len = self.l1 + self.l2
        self.size = 32 * self.len

    def words(self):
        """the wots_params structure: len_1, len_2, len, n, w, log_w, keysize"""
        return [self.l1, self.l2, self.len, 32, self.w, self.lw, self.size]


def CHAIN(f, seed, a6, m, start, steps, n=32):
    """steps applications of F to m, at hash addresses start, start+1, ..."""
    if steps.__class__ is int and steps == 0:
        c = seq.canon(m)
        return c[0] if len(c) == 1 and c[0].__class__ is T and c[0].w == 8 * n else tm.cat(expandb(m))
    return tm.app('CHAIN%d' % f, (seq.canon(seed), tuple(a6), seq.canon(m), start, steps), n)


def expandb(ps):
    from . import vc
    return vc.expand(ps)


def chain_def(f, seed, a6, m, start, steps, n=32):
    """definition of CHAIN for a constant number of steps"""
    x = tm.cat(expandb(m))
    for i in range(steps):
        x = F(f, seed, list(a6) + [tm.add(start, i, 32)], tm.blob_bytes(x), n)
    return x


def digits(p, d):
    """the signed digits of the 32 digest bytes d (32-bit terms): base-w digits, most significant first, then those of the checksum"""
    D = []
    for b in d:
        for j in range(8 // p.lw):
            x = b if p.lw == 8 else tm.extract(b, 8 - p.lw * (j + 1), p.lw)
            D.append(tm.zext(x, p.lw, 32) if x.__class__ is T else x)
    c = 0
    for x in D:
        c = tm.add(c, tm.sub(p.w - 1, x, 32), 32)
    for i in range(p.l2):
        sh = p.lw * (p.l2 - 1 - i)
        x = tm.extract(c, sh, p.lw)
        D.append(tm.zext(x, p.lw, 32) if x.__class__ is T else x)
    return D


def c_chain(ex, st, a):
    """gen_chain(hash, out, in, start, steps, params, pub_seed, addr): out = CHAIN(in, start, steps); needs start+steps <= w-1"""
    f, out, p, start, steps, par, seed, ad = a
    con(f, 'hash')
    n = con(st.load(E.addp(par, layout(st)[3]), 4), 'n')
    w = con(st.load(E.addp(par, layout(st)[4]), 4), 'w')
    if f not in HF or n != 32 or start is E.U or steps is E.U:
        raise E.Unsupported('gen_chain contract outside its domain')
    for c in (tm.ule(start, w - 1, 32), tm.ule(steps, tm.sub(w - 1, start, 32), 32)):
        if ex.decide(st, c) is not True:
            raise E.Unsupported('gen_chain contract: start + steps <= w - 1 not established')
    alias(st, out, n, p, n)
    alias(st, out, n, seed, n, False)
    r = CHAIN(f, readb(ex, st, seed, n), words(st, ad, 6), readb(ex, st, p, n), start, steps, n)
    st.store(E.addp(ad, 24), tm.fresh('ha', 32), 4)
    havoc7(st, ad)
    put(st, out, r)
    return None


def wots_callees():
    d = keyed()
    d['gen_chain'] = c_chain
    return d


def layout(st):
    """offsets of len_1, len_2, len, n, w, log_w, keysize in the parameter structure"""
    return getattr(st.ex, 'wots_layout', range(0, 28, 4))


def params_buf(st, p, name='wots_params'):
    b = st.alloc(28, name=name)
    for i, x in zip(layout(st), p.words()):
        st.store(E.addp(b, i), x, 4)
    st.obj(b, True).ro = True
    return b


# ------------------------------------------------------------------ WOTS+ and L-tree as opaque functions (C04, C06 connect them to their definitions)
def WOTSPK(f, w, sk, seed, a5):
    """concatenation over i of CHAIN(seed, a5||i, PRF(sk, toByte(i)), 0, w-1)   (postcondition of wots_pkgen, C04)"""
    return tm.app('WOTSPK%d' % f, (w, seq.canon(sk), seq.canon(seed), tuple(a5)), WP(w).size)


def WOTSSIG(f, w, d, sk, seed, a5):
    """concatenation over i of CHAIN(seed, a5||i, PRF(sk, toByte(i)), 0, digit_i(d))   (wots_sign, C04)"""
    return tm.app('WOTSSIG%d' % f, (w, seq.canon(d), seq.canon(sk), seq.canon(seed), tuple(a5)), WP(w).size)


def WOTSREC(f, w, sig, d, seed, a5):
    """concatenation over i of CHAIN(seed, a5||i, sig_i, digit_i(d), w-1-digit_i(d))   (wots_pkFromSig, C04)"""
    return tm.app('WOTSREC%d' % f, (w, seq.canon(sig), seq.canon(d), seq.canon(seed), tuple(a5)), WP(w).size)


def LTREE(f, w, pk, seed, a5):
    """L-tree root of the one-time public key pk (l_tree, C06)"""
    return tm.app('LTREE%d' % f, (w, seq.canon(pk), seq.canon(seed), tuple(a5)), 32)


def ltree_def(f, nodes, seed, a5):
    """nodes: list of 32-byte byte lists"""
    h = 0
    while len(nodes) > 1:
        r = [list(tm.blob_bytes(HH(f, seed, list(a5) + [h, i], nodes[2 * i] + nodes[2 * i + 1]))) for i in range(len(nodes) // 2)]
        if len(nodes) % 2:
            r.append(nodes[-1])
        nodes = r
        h += 1
    return nodes[0]


def get_params(st, par, what='wots parameters'):
    """read a wots_params structure; contract precondition: it is the one of a supported width, n = 32"""
    v = [st.load(E.addp(par, i), 4) for i in layout(st)]
    w = con(v[4], 'w')
    if w not in W or v != WP(w).words():
        raise E.Unsupported('contract needs consistent ' + what)
    return w


def havoc(st, ad, ws):
    for i in ws:
        st.store(E.addp(ad, 4 * i), tm.fresh('hv', 32), 4)


def apart(st, out, n, *bufs):
    for p, m in bufs:
        alias(st, out, n, p, m, False)


def c_wots_pkgen(ex, st, a):
    f, pk, sk, par, seed, ad = a
    con(f, 'hash')
    w = get_params(st, par)
    size = WP(w).size
    apart(st, pk, size, (sk, 32), (seed, 32))
    r = WOTSPK(f, w, readb(ex, st, sk, 32), readb(ex, st, seed, 32), words(st, ad, 5))
    words(st, ad, 8)
    havoc(st, ad, (5, 6, 7))
    put(st, pk, r)


def c_wots_sign(ex, st, a):
    f, sig, d, sk, par, seed, ad = a
    con(f, 'hash')
    w = get_params(st, par)
    size = WP(w).size
    apart(st, sig, size, (sk, 32), (seed, 32), (d, 32))
    r = WOTSSIG(f, w, readb(ex, st, d, 32), readb(ex, st, sk, 32), readb(ex, st, seed, 32), words(st, ad, 5))
    words(st, ad, 8)
    havoc(st, ad, (5, 6, 7))
    put(st, sig, r)


def c_wots_rec(ex, st, a):
    f, pk, sig, d, par, seed, ad = a
    con(f, 'hash')
    w = get_params(st, par)
    size = WP(w).size
    apart(st, pk, size, (sig, size), (seed, 32), (d, 32))
    r = WOTSREC(f, w, readb(ex, st, sig, size), readb(ex, st, d, 32), readb(ex, st, seed, 32), words(st, ad, 5))
    words(st, ad, 8)
    havoc(st, ad, (5, 6, 7))
    put(st, pk, r)


def c_ltree(ex, st, a):
    f, par, leaf, pk, seed, ad = a
    con(f, 'hash')
    w = get_params(st, par)
    size = WP(w).size
    apart(st, leaf, 32, (pk, size), (seed, 32))
    apart(st, pk, size, (seed, 32))
    r = LTREE(f, w, readb(ex, st, pk, size), readb(ex, st, seed, 32), words(st, ad, 5))
    words(st, ad, 8)
    havoc(st, ad, (5, 6, 7))
    st.write_bytes(pk, list(tm.blob_bytes(tm.fresh('pkjunk', 8 * size))))
    put(st, leaf, r)


def tree_callees():
    d = keyed()
    d.update(primitives())
    d.update({'wots_pkgen': c_wots_pkgen, 'wots_sign': c_wots_sign, 'wots_pkFromSig': c_wots_rec, 'l_tree': c_ltree})
    return d


def LEAF(f, w, sk_seed, seed, idx):
    """compressed one-time public key idx of the tree"""
    ots = PRF(f, sk_seed, adrs_bytes([0, 0, 0, 0, idx, 0, 0, 0]))
    pk = WOTSPK(f, w, bb(ots), seed, [0, 0, 0, 0, idx])
    return LTREE(f, w, bb(pk), seed, [0, 0, 0, 1, idx])


def NODE(f, seed, level, index, l, r):
    """parent, at height level+1 and position index, of the blobs l and r"""
    return HH(f, seed, [0, 0, 0, 2, 0, level, index], list(bb(l)) + list(bb(r)))


class Tree(object):
    """the XMSS tree of height h over LEAF"""
    def __init__(self, f, w, h, sk_seed, seed):
        self.a = (f, w, sk_seed, seed)
        self.h = h
        self.m = {}

    def node(self, level, i):
        k = (level, i)
        r = self.m.get(k)
        if r is None:
            f, w, sk, seed = self.a
            if level == 0:
                r = LEAF(f, w, sk, seed, i)
            else:
                r = NODE(f, seed, level - 1, i, self.node(level - 1, 2 * i), self.node(level - 1, 2 * i + 1))
            self.m[k] = r
        return r

    def root(self):
        return self.node(self.h, 0)


def _tdefs():
    from . import vc
    O = vc.ORACLE

    def mk(f):
        ev_f, ev_h, ev_prf = O['F%d' % f], O['H%d' % f], O['PRF%d' % f]

        def parts(ev, a5):
            return [ev.val(x) for x in a5]

        def chain(ev, seed, a6, x, s, c):
            for i in range(s, s + c):
                x = ev_f(ev, (tuple(seed), tuple(a6) + (i,), tuple(x)), 32)
            return x

        def dig(p, d):
            v = int.from_bytes(d, 'big')
            b = [(v >> (256 - p.lw * (i + 1))) & (p.w - 1) for i in range(p.l1)]
            c = sum(p.w - 1 - x for x in b)
            return b + [(c // p.w ** (p.l2 - 1 - i)) % p.w for i in range(p.l2)]

        def pk(ev, a, n):
            w, sk, seed, a5 = a
            sk, seed, a5 = ev.piecebytes(sk), ev.piecebytes(seed), parts(ev, a5)
            p = WP(w)
            return b''.join(chain(ev, seed, a5 + [i], ev_prf(ev, (tuple(sk), tuple(tb(i, 32))), 32), 0, w - 1) for i in range(p.len))

        def sig(ev, a, n):
            w, d, sk, seed, a5 = a
            sk, seed, a5 = ev.piecebytes(sk), ev.piecebytes(seed), parts(ev, a5)
            p = WP(w)
            D = dig(p, ev.piecebytes(d))
            return b''.join(chain(ev, seed, a5 + [i], ev_prf(ev, (tuple(sk), tuple(tb(i, 32))), 32), 0, D[i]) for i in range(p.len))

        def rec(ev, a, n):
            w, sg, d, seed, a5 = a
            sg, seed, a5 = ev.piecebytes(sg), ev.piecebytes(seed), parts(ev, a5)
            p = WP(w)
            D = dig(p, ev.piecebytes(d))
            return b''.join(chain(ev, seed, a5 + [i], sg[32 * i:32 * i + 32], D[i], w - 1 - D[i]) for i in range(p.len))

        def ltree(ev, a, n):
            w, pk_, seed, a5 = a
            b, seed, a5 = ev.piecebytes(pk_), ev.piecebytes(seed), parts(ev, a5)
            nodes = [b[i:i + 32] for i in range(0, len(b), 32)]
            h = 0
            while len(nodes) > 1:
                r = [ev_h(ev, (tuple(seed), tuple(a5) + (h, i), tuple(nodes[2 * i] + nodes[2 * i + 1])), 32) for i in range(len(nodes) // 2)]
                if len(nodes) % 2:
                    r.append(nodes[-1])
                nodes = r
                h += 1
            return nodes[0]
        O['WOTSPK%d' % f], O['WOTSSIG%d' % f], O['WOTSREC%d' % f], O['LTREE%d' % f] = pk, sig, rec, ltree
    for f in HF:
        mk(f)


_tdefs()
