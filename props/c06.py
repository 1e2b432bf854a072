"""C06: key generation (basic and fast) gives the XMSS tree root and the stated key layout; compressed one-time keys are L-trees."""
from dv import build, cut, frame, xm, term as tm, vc, seq
from dv import exec as E
from props.c04 import need
from props import rs

SRCS = ['xmss-alt/algsxmss.c', 'xmss-alt/algsxmss_fast.c', 'xmss-alt/xmss_common.c', 'xmss-alt/hash_address.c', 'xmss-alt/wots.c', 'xmss-alt/hash.c']
NOTE = ('l_tree proved for every width and hash; xmss_Genkeypair and xmssfast_Genkeypair proved to give the tree root and key layout for all seeds at every height 4, 6, .., 30 '
        '(loop invariant of the tree hash, one induction step over the leaves; contracts for wots_pkgen, l_tree, hash_h, prf, shake256), and again by unrolling the whole tree at small heights. The Rust crate\'s l_tree and xmss_gen_keypair likewise (its fast key generation: C10). Differential run beside it.')
ASSUMPTIONS = ['wots_pkgen by contract (C04), prf and hash_h by contract (C02), shake256 by contract (C01)',
               'the loop invariant is learned from the first executions of the loop and then checked; where the code has another shape, only the unrolled heights remain',
               'the Rust files are compiled with stand-ins for the absent sha2 crate, from copies in which #[inline(never)] is inserted before the functions that have contracts']
BOUNDED = {r'w=\d+ h=': 'the whole tree unrolled at a small height (cases of the unbounded obligations)'}


def mods():
    return build.modules(SRCS)


def ltree(f, w):
    def go(ctx):
        p = xm.WP(w)
        ex = ctx.executor(mods(), xm.keyed())
        ex.max_unroll = 300
        v = vc.VC('l_tree', '%s w=%d' % (xm.HNAME[f], w))
        st = ex.new_state()
        par = xm.params_buf(st, p)
        seed, S = xm.buf(st, 'pub_seed', 32)
        ad, A = xm.addrbuf(st)
        pk, P = xm.buf(st, 'wots_pk', p.size, ro=False)
        leaf = xm.outbuf(st, 'leaf', 32)
        want = xm.ltree_def(f, [P[32 * i:32 * i + 32] for i in range(p.len)], S, A[:5])
        for s in v.outcomes('memory safe and returns', ex.call_function(st, need(ex, 'l_tree'), [f, par, leaf, pk, seed, ad])):
            v.bytes('L-tree root', s.pc, s.bytes_at(leaf, 32), want)
            v.bytes('canary', s.pc, s.bytes_at(leaf, 32), P[:32])
            for i in range(5):
                v.eq('address word %d unchanged' % i, s.pc, s.load(E.addp(ad, 4 * i), 4), A[i], 32)
        return [v], [ex]
    return go


def rust_ltree(f, w):
    def go(ctx):
        p = xm.WP(w)
        ex = rs.executor(ctx, xm.keyed(), ['l_tree'], ['hash_h'])
        ex.max_unroll = 300
        v = vc.VC('l_tree', 'Rust %s w=%d' % (xm.HNAME[f], w))
        st = ex.new_state()
        par = xm.params_buf(st, p)
        seed, S = xm.buf(st, 'pub_seed', 32)
        ad, A = xm.addrbuf(st)
        pk, P = xm.buf(st, 'wots_pk', p.size, ro=False)
        ll = tm.add(tm.zext(tm.var('leaflen', 40), 40, 64), 32, 64)
        leaf, L0 = xm.symbuf(st, 'leaf', ll, ro=False)
        want = xm.ltree_def(f, [P[32 * i:32 * i + 32] for i in range(p.len)], S, A[:5])
        for s in v.outcomes('memory safe, returns, no panic', ex.call_function(st, rs.need(ex, 'l_tree'), [rs.hf(st, f), par, leaf, ll, pk, p.size, seed, 32, ad])):
            v.bytes('L-tree root', s.pc, s.bytes_at(leaf, 32), want)
            v.bytes('canary', s.pc, s.bytes_at(leaf, 32), P[:32])
            rest = tm.sub(ll, 32, 64)
            v.pieces('rest of the output slice untouched', s.pc, seq.read_range(ex, s, E.addp(leaf, 32), rest), (('seq', 'leaf', 32, rest),))
            for i in range(5):
                v.eq('address word %d unchanged' % i, s.pc, s.load(E.addp(ad, 4 * i), 4), A[i], 32)
        return [v], [ex]
    return go


def rust_genkey(f, w, h):
    def go(ctx):
        ex = rs.executor(ctx, xm.tree_callees(), ['xmss_gen_keypair'], rs.TREE)
        ex.max_unroll = 5000
        ex.max_steps = 1 << 40
        v = vc.VC('xmss_gen_keypair', 'Rust %s w=%d h=%d' % (xm.HNAME[f], w, h))
        st = ex.new_state()
        par = params_xmss(st, w, h)
        sd, S = xm.buf(st, 'seed', 48)
        pk, _ = xm.buf(st, 'pk0', 64, ro=False)
        sk, _ = xm.buf(st, 'sk0', 132, ro=False)
        a, b, c = keyseeds(S)
        root = xm.bb(xm.Tree(f, w, h, a, c).root())
        for s in v.outcomes('memory safe, returns, no panic', ex.call_function(st, rs.need(ex, 'xmss_gen_keypair'), [rs.hf(st, f), par, pk, 64, sk, 132, sd, 48])):
            v.bytes('public key is root and public seed', s.pc, s.bytes_at(pk, 64), list(root) + c)
            v.bytes('secret key is index 0, secret seed, PRF seed, public seed, root', s.pc, s.bytes_at(sk, 132), [0] * 4 + a + b + c + list(root))
        return [v], [ex]
    return go


def params_xmss(st, w, h, k=2):
    b = st.alloc(40, name='params')
    at = getattr(st.ex, 'xmss_layout', (0, 28, 32, 36))
    for o, x in zip([at[0] + o for o in xm.layout(st)] + list(at[1:]), xm.WP(w).words() + [32, h, k]):
        st.store(E.addp(b, o), x, 4)
    return b


class Bds(object):
    """the traversal state as XmssFast::initialize_tree lays it out"""
    def __init__(self, st, h, k=2):
        a = lambda nm, n: xm_zero(st, nm, n)
        self.h, self.k = h, k
        self.stack = a('stack', 32 * (h + 1))
        self.levels = a('stacklevels', h + 1)
        self.auth = a('auth', 32 * h)
        self.keep = a('keep', 32 * (h >> 1))
        self.th = a('treehash', 24 * (h - k))
        self.nodes = a('th_nodes', 32 * (h - k))
        self.retain = a('retain', 32 * ((1 << k) - k - 1))
        for i in range(h - k):
            st.store(E.addp(self.th, 24 * i + 16), E.addp(self.nodes, 32 * i), 8)
        b = self.p = st.alloc(64, name='bds_state')
        st.write_bytes(b, [0] * 64)
        for off, x, n in ((0, self.stack, 8), (8, 0, 4), (16, self.levels, 8), (24, self.auth, 8), (32, self.keep, 8), (40, self.th, 8), (48, self.retain, 8), (56, 0, 4)):
            st.store(E.addp(b, off), x, n)


def xm_zero(st, name, n):
    p = st.alloc(n, name=name)
    st.write_bytes(p, [0] * n)
    return p


def keyseeds(S48):
    """(sk_seed, sk_prf, pub_seed) derived from the 48-byte seed"""
    r = list(tm.blob_bytes(xm.h_of(2, S48, 96)))
    return r[:32], r[32:64], r[64:]


def genkey(f, w, h, fast):
    def go(ctx):
        ex = ctx.executor(mods(), xm.tree_callees())
        ex.max_unroll = 5000
        ex.max_steps = 1 << 40
        name = 'xmssfast_Genkeypair' if fast else 'xmss_Genkeypair'
        v = vc.VC(name, '%s w=%d h=%d' % (xm.HNAME[f], w, h))
        st = ex.new_state()
        par = params_xmss(st, w, h)
        sd, S = xm.buf(st, 'seed', 48)
        # the API hands zeroed buffers; the result must not depend on what is there before
        pk, _ = xm.buf(st, 'pk0', 64, ro=False)
        sk, _ = xm.buf(st, 'sk0', 132, ro=False)
        args = [f, par, pk, sk] + ([Bds(st, h).p] if fast else []) + [sd]
        a, b, c = keyseeds(S)
        root = xm.bb(xm.Tree(f, w, h, a, c).root())
        for s in v.outcomes('memory safe and returns', ex.call_function(st, need(ex, name), args)):
            v.bytes('public key is root and public seed', s.pc, s.bytes_at(pk, 64), list(root) + c)
            v.bytes('secret key is index 0, secret seed, PRF seed, public seed, root', s.pc, s.bytes_at(sk, 132), [0] * 4 + a + b + c + list(root))
            if h == 4:
                v.bytes('canary', s.pc, s.bytes_at(pk, 32), c)
        return [v], [ex]
    return go


def anyheight(f, w, h, fast, rust=False):
    def go(ctx):
        ex = rs.executor(ctx, xm.tree_callees(), ['xmss_gen_keypair'], rs.TREE) if rust else ctx.executor(mods(), xm.tree_callees())
        ex.max_unroll = 5000
        ex.max_steps = 1 << 40
        name = 'xmssfast_Genkeypair' if fast else 'xmss_Genkeypair'
        name = 'xmss_gen_keypair' if rust else name
        v = vc.VC(name, '%s%s w=%d h=%d, by induction over the leaves' % ('Rust ' if rust else '', xm.HNAME[f], w, h))
        a, b, c = keyseeds(xm.arr('seed', 48))
        ptr = {}

        def start(e, stop):
            st = e.new_state()
            par = params_xmss(st, w, h)
            sd, S = xm.buf(st, 'seed', 48)
            pk, _ = xm.buf(st, 'pk0', 64, ro=False)
            sk, _ = xm.buf(st, 'sk0', 132, ro=False)
            ptr.update(pk=pk, sk=sk)
            if rust:
                fr = e.push(st, rs.need(e, name), [rs.hf(st, f), par, pk, 64, sk, 132, sd, 48])
            else:
                fr = e.push(st, need(e, name), [f, par, pk, sk] + ([Bds(st, h).p] if fast else []) + [sd])
            fr.ret = 'TOP'
            return e.explore(st, stop, 0)

        def finish(states, root):
            for s in v.outcomes('memory safe and returns', states):
                v.bytes('public key is root and public seed', s.pc, s.bytes_at(ptr['pk'], 64), list(root) + c)
                v.bytes('secret key is index 0, secret seed, PRF seed, public seed, root', s.pc, s.bytes_at(ptr['sk'], 132), [0] * 4 + a + b + c + list(root))
        try:
            cut.treehash(ex, v, start, xm.Tree(f, w, h, a, c), h, finish)
        except cut.Lost as e:
            v.undecided('induction over the leaves', str(e))
        return [v], [ex]
    return go


def lemmas(ctx):
    """what the induction over the leaves uses of the bits of an index: i = hi 0 1..1 (t ones)"""
    v = vc.VC('bits of a leaf index', 'below 2^30')
    for t in range(31):
        for p in (0, 1) if t < 29 else (0,):
            i, pc = cut.index(30, t, p)
            i1 = tm.add(i, 1, 32)
            nm = 't=%d%s' % (t, ' with higher bits' if p else '')
            v.eq('%s: the bits set in i+1 are those of i above t, and t' % nm, pc, i1, tm.or_(tm.and_(i, ((1 << 32) - 1) ^ ((1 << (t + 1)) - 1), 32), 1 << t, 32), 32)
            v.eq('%s: the new node is TN(t, ((i+1) >> t) - 1)' % nm, pc, tm.lshr(i, t, 32), tm.sub(tm.lshr(i1, t, 32), 1, 32), 32)
            if p == 0 or t:
                v.holds('%s: children of the merged nodes' % nm, pc, tm.conj([1] + [tm.eq(tm.add(tm.shl(tm.lshr(i, j + 1, 32), 1, 32), 1, 32), tm.lshr(i, j, 32), 32) for j in range(t)]))
            if p:
                v.holds('%s: lower nodes keep their position' % nm, pc, tm.conj([tm.eq(tm.lshr(i, b, 32), tm.lshr(i1, b, 32), 32) for b in range(t + 1, 31)]))
                v.holds('canary', pc, tm.eq(tm.lshr(i, t, 32), tm.lshr(i1, t, 32), 32))
    return [v], []


def tasks(ctx):
    build.warm(SRCS)
    rs.warm('l_tree'), rs.warm('xmss_gen_keypair')
    t = [('bits of a leaf index', lemmas, 100)]
    for h in range(30, 2, -2):
        for f in (1, 0, 2):
            for fast in (True, False):
                if not fast or f == 1 or h in (30, 16) or ctx.thorough:
                    t.append(('%s %s w=16 every leaf h=%d' % ('fast' if fast else 'basic', xm.HNAME[f], h), anyheight(f, 16, h, fast), 500))
    for w in (2, 4, 256):
        for fast in (False, True):
            t.append(('%s %s w=%d every leaf h=12' % ('fast' if fast else 'basic', xm.HNAME[1], w), anyheight(1, w, 12, fast), 200))
    hs = (4, 6, 8, 10) if not ctx.thorough else (4, 6, 8, 10, 12, 14)
    for f in (1, 0, 2):
        for w in (256, 16, 4, 2):
            t.append(('l_tree %s w=%d' % (xm.HNAME[f], w), ltree(f, w), 100))
            t.append(('Rust l_tree %s w=%d' % (xm.HNAME[f], w), rust_ltree(f, w), 100))
        for h in range(30, 2, -2):
            if f == 1 or h in (4, 10, 20, 30) or ctx.thorough:
                t.append(('Rust %s w=16 every leaf h=%d' % (xm.HNAME[f], h), anyheight(f, 16, h, False, True), 500))
        t.append(('Rust %s w=16 h=4' % xm.HNAME[f], rust_genkey(f, 16, 4), 200))
    for h in reversed(hs):
        for fast in (False, True):
            for f in (1, 0, 2):
                if h < 10 or f == 1 or ctx.thorough:
                    t.append(('%s %s w=16 h=%d' % ('fast' if fast else 'basic', xm.HNAME[f], h), genkey(f, 16, h, fast), 400))
    for w in (2, 4, 256):
        for fast in (False, True):
            t.append(('%s %s w=%d h=4' % ('fast' if fast else 'basic', xm.HNAME[1], w), genkey(1, w, 4, fast), 200))
    return t


def native(ctx):
    return build.native_run(ctx)
