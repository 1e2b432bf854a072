"""C04: recovering the WOTS+ public key from a signature gives the generated public key."""
from dv import build, frame, xm, term as tm, vc, solve
from dv import exec as E
from dv import seq
from props import rs

SRCS = ['xmss-alt/wots.c', 'xmss-alt/hash_address.c', 'xmss-alt/xmss_common.c']
NOTE = ('Proved for w in {2,4,16,256}, each hash, n=32, all seeds, digests, addresses: gen_chain is the iterated chain hash; key generation, signing and recovery '
        'produce the stated chain values, so the recovered key is the generated one; inputs unmodified. Keyed hashes by contract (C02). The Rust functions under the same contracts (w = 4, 16, 256). Bounded differential run beside it.')
ASSUMPTIONS = ['prf and hash_f are used through their contracts, proved in C02', 'output buffers are disjoint from the inputs; n = 32',
               'Rust wots_sign and wots_pk_from_sig are given a signature slice that goes on for 96 bytes',
               'the Rust files are compiled with stand-ins for the absent sha2 crate, from copies in which #[inline(never)] is inserted before the functions that have contracts']


def mods():
    return build.modules(SRCS)


def need(ex, name):
    g = frame.fn(ex, name)
    if g is None:
        raise E.Unsupported('function %s not found' % name)
    return g


def params(ctx):
    """wots_set_params for each width: the structure, and every other width refused"""
    ex = ctx.executor(mods())
    v = vc.VC('wots_set_params')
    g = need(ex, 'wots_set_params')
    for w in xm.W:
        p = xm.WP(w)
        st = ex.new_state()
        b = xm.outbuf(st, 'params', 28)
        for s in v.outcomes('w=%d memory safe and returns' % w, ex.call_function(st, g, [b, 32, w])):
            for i, (nm, x) in enumerate(zip(('len_1', 'len_2', 'len', 'n', 'w', 'log_w', 'keysize'), p.words())):
                v.eq('w=%d %s' % (w, nm), s.pc, s.load(E.addp(b, 4 * i), 4), x, 32)
    return [v], [ex]


def chain(f, w):
    def go(ctx):
        ex = ctx.executor(mods(), xm.keyed())
        ex.nomerge = True
        ex.max_unroll = 300
        v = vc.VC('gen_chain', '%s w=%d' % (xm.HNAME[f], w))
        p = xm.WP(w)
        for inplace in (True, False):
            st = ex.new_state()
            par = xm.params_buf(st, p)
            seed, S = xm.buf(st, 'pub_seed', 32)
            ad, A = xm.addrbuf(st)
            x, X = xm.buf(st, 'in', 32, ro=not inplace)
            out = x if inplace else xm.outbuf(st, 'out', 32)
            start, steps = tm.var('start', 32), tm.var('steps', 32)
            st.assume(tm.ule(start, w - 1, 32))
            st.assume(tm.ule(steps, tm.sub(w - 1, start, 32), 32))
            solve.HINTS[:] = [solve.Evaluator(None, {'start': a, 'steps': k}) for k in range(w) for a in {0, w - 1 - k}]
            outs = v.outcomes('memory safe and returns', ex.call_function(st, need(ex, 'gen_chain'), [f, out, x, start, steps, par, seed, ad]))
            # number of F applications on each path = value of steps there
            for s in outs:
                got = s.bytes_at(out, 32)
                k = 0
                t = vc.expand(got)[0]
                while t.__class__ is tm.T and t.op == 'byte' and t.a[0].op == 'app' and t.a[0].a[0] == 'F%d' % f:
                    k += 1
                    m = t.a[0].a[1][2]
                    t = m[0] if m and m[0].__class__ is tm.T and m[0].w == 8 else tm.byte(m[0], 0)
                sub = (' in place' if inplace else '') + ' %d steps' % k
                v.holds('exactly steps applications' + sub, s.pc, tm.eq(steps, k, 32))
                v.bytes('iterated chain hash' + sub, s.pc, got, [xm.chain_def(f, S, A[:6], X, start, k)])
                for i in range(6):
                    v.eq('address word %d unchanged%s' % (i, sub), s.pc, s.load(E.addp(ad, 4 * i), 4), A[i], 32)
        return [v], [ex]
    return go


def lemma(f):
    """CHAIN(CHAIN(x, 0, d), d, w-1-d) = CHAIN(x, 0, w-1), by unfolding the definition for each d"""
    def go(ctx):
        v = vc.VC('lemma: chains compose', xm.HNAME[f])
        X, S = xm.arr('x', 32), xm.arr('seed', 32)
        A = [tm.var('a%d' % i, 32) for i in range(6)]
        for w in xm.W:
            whole = xm.chain_def(f, S, A, X, 0, w - 1)
            for d in range(w):
                v.bytes('w=%d d=%d' % (w, d), [], [xm.chain_def(f, S, A, tm.blob_bytes(xm.chain_def(f, S, A, X, 0, d)), d, w - 1 - d)], [whole])
        return [v], []
    return go


def setup(ex, st, p):
    seed, S = xm.buf(st, 'pub_seed', 32)
    ad, A = xm.addrbuf(st)
    return xm.params_buf(st, p), seed, S, ad, A


def frame_ok(v, s, ad, A, what):
    for i in range(5):
        v.eq('%s: address word %d unchanged' % (what, i), s.pc, s.load(E.addp(ad, 4 * i), 4), A[i], 32)


def wots(f, w, check_digits=False):
    def go(ctx):
        p = xm.WP(w)
        ex = ctx.executor(mods(), xm.wots_callees())
        ex.max_unroll = 300
        vs = []
        sub = '%s w=%d' % (xm.HNAME[f], w)
        secret = lambda K, i: tm.blob_bytes(xm.PRF(f, K, xm.tb(i, 32)))
        # key generation
        v = vc.VC('wots_pkgen', sub)
        vs.append(v)
        st = ex.new_state()
        par, seed, S, ad, A = setup(ex, st, p)
        sk, K = xm.buf(st, 'sk_seed', 32)
        pk = xm.outbuf(st, 'pk', p.size)
        a6 = lambda i: A[:5] + [i]
        for s in v.outcomes('memory safe and returns', ex.call_function(st, need(ex, 'wots_pkgen'), [f, pk, sk, par, seed, ad])):
            for i in range(p.len):
                v.bytes('element %d' % i, s.pc, s.bytes_at(E.addp(pk, 32 * i), 32), [xm.CHAIN(f, S, a6(i), secret(K, i), 0, w - 1)])
            frame_ok(v, s, ad, A, 'frame')
        # signing
        v = vc.VC('wots_sign', sub)
        vs.append(v)
        st = ex.new_state()
        par, seed, S, ad, A = setup(ex, st, p)
        sk, K = xm.buf(st, 'sk_seed', 32)
        dg, D = xm.buf(st, 'digest', 32)
        dd = xm.digits(p, D)
        sig = xm.outbuf(st, 'sig', p.size)
        for s in v.outcomes('memory safe and returns', ex.call_function(st, need(ex, 'wots_sign'), [f, sig, dg, sk, par, seed, ad])):
            for i in range(p.len):
                v.bytes('element %d' % i, s.pc, s.bytes_at(E.addp(sig, 32 * i), 32), [xm.CHAIN(f, S, a6(i), secret(K, i), 0, dd[i])])
            v.bytes('canary', s.pc, s.bytes_at(sig, 32), [xm.CHAIN(f, S, a6(0), secret(K, 0), 0, dd[1])])
            frame_ok(v, s, ad, A, 'frame')
        # recovery, from an arbitrary signature
        v = vc.VC('wots_pkFromSig', sub)
        vs.append(v)
        st = ex.new_state()
        par, seed, S, ad, A = setup(ex, st, p)
        dg, D = xm.buf(st, 'digest', 32)
        sig, G = xm.buf(st, 'sig', p.size)
        pk = xm.outbuf(st, 'pk', p.size)
        for s in v.outcomes('memory safe and returns', ex.call_function(st, need(ex, 'wots_pkFromSig'), [f, pk, sig, dg, par, seed, ad])):
            for i in range(p.len):
                v.bytes('element %d' % i, s.pc, s.bytes_at(E.addp(pk, 32 * i), 32), [xm.CHAIN(f, S, a6(i), G[32 * i:32 * i + 32], dd[i], tm.sub(w - 1, dd[i], 32))])
            frame_ok(v, s, ad, A, 'frame')
        return vs, [ex]
    return go

def rust_chain(f, w):
    """Rust gen_chain; output and input slices of any length of at least 32 bytes"""
    def go(ctx):
        ex = rs.layout(rs.contracts(ctx.executor(rs.mods('gen_chain')), xm.keyed(), 'hash_f'))
        ex.nomerge = True
        ex.max_unroll = 300
        v = vc.VC('gen_chain', 'Rust %s w=%d' % (xm.HNAME[f], w))
        p = xm.WP(w)
        st = ex.new_state()
        par = xm.params_buf(st, p)
        seed, S = xm.buf(st, 'pub_seed', 32)
        ad, A = xm.addrbuf(st)
        il, ol = [tm.add(32, tm.zext(tm.var(t, 30), 30, 64), 64) for t in ('inmore', 'outmore')]
        x, _ = xm.symbuf(st, 'in', il)
        X = vc.expand(st.bytes_at(x, 32))
        out, _ = xm.symbuf(st, 'out', ol, ro=False)
        start, steps = tm.var('start', 32), tm.var('steps', 32)
        st.assume(tm.ule(start, w - 1, 32))
        st.assume(tm.ule(steps, tm.sub(w - 1, start, 32), 32))
        hints = [{'start': a, 'steps': k, 'inmore': 0, 'outmore': 8} for k in range(w) for a in {0, w - 1 - k}]
        solve.HINTS[:] = [solve.Evaluator(None, h) for h in hints]
        for s in v.outcomes('memory safe, returns, no panic', ex.call_function(st, rs.need(ex, 'gen_chain'), [rs.hf(st, f), out, ol, x, il, start, steps, par, seed, 32, ad]), hints=hints):
            got = s.bytes_at(out, 32)
            k = 0
            t = vc.expand(got)[0]
            while t.__class__ is tm.T and t.op == 'byte' and t.a[0].op == 'app' and t.a[0].a[0] == 'F%d' % f:
                k += 1
                m = t.a[0].a[1][2]
                t = m[0] if m and m[0].__class__ is tm.T and m[0].w == 8 else tm.byte(m[0], 0) if m and m[0].__class__ is tm.T else None
            sub = ' %d steps' % k
            v.holds('exactly steps applications' + sub, s.pc, tm.eq(steps, k, 32))
            v.bytes('iterated chain hash' + sub, s.pc, got, [xm.chain_def(f, S, A[:6], X, start, k)])
            v.pieces('rest of the output slice untouched' + sub, s.pc, seq.read_range(ex, s, E.addp(out, 32), tm.sub(ol, 32, 64)), (('seq', 'out', 32, tm.sub(ol, 32, 64)),), hints)
            for i in range(6):
                v.eq('address word %d unchanged%s' % (i, sub), s.pc, s.load(E.addp(ad, 4 * i), 4), A[i], 32)
        return [v], [ex]
    return go


def rust_wots(f, w):
    def go(ctx):
        p = xm.WP(w)
        prims = xm.primitives()         # (prf may be inlined into its callers: its definition stands for it)
        ex = ctx.executor(rs.mods('wots_pkgen', 'wots_sign', 'wots_pk_from_sig'), {'verif_sha256': prims['sha2_256']})
        rs.layout(rs.contracts(ex, dict(prims, **xm.wots_callees()), 'shake128', 'shake256', 'gen_chain'))
        ex.max_unroll = 300
        vs = []
        sub = 'Rust %s w=%d' % (xm.HNAME[f], w)
        secret = lambda K, i: tm.blob_bytes(xm.prf_def(f, K, xm.tb(i, 32)))
        what = 'memory safe, returns, no panic'
        v = vc.VC('wots_pkgen', sub)
        vs.append(v)
        st = ex.new_state()
        par, seed, S, ad, A = setup(ex, st, p)
        sk, K = xm.buf(st, 'sk_seed', 32)
        pk, _ = xm.buf(st, 'pk', p.size, ro=False)
        a6 = lambda i: A[:5] + [i]
        for s in v.outcomes(what, ex.call_function(st, rs.need(ex, 'wots_pkgen'), [rs.hf(st, f), pk, p.size, sk, 32, par, seed, 32, ad])):
            for i in range(p.len):
                v.bytes('element %d' % i, s.pc, s.bytes_at(E.addp(pk, 32 * i), 32), [xm.CHAIN(f, S, a6(i), secret(K, i), 0, w - 1)])
            frame_ok(v, s, ad, A, 'frame')
        v = vc.VC('wots_sign', sub)
        vs.append(v)
        st = ex.new_state()
        par, seed, S, ad, A = setup(ex, st, p)
        sk, K = xm.buf(st, 'sk_seed', 32)
        dg, D = xm.buf(st, 'digest', 32)
        dd = xm.digits(p, D)
        more = 96       # (the slice goes on: the authentication path of a signature)
        sig, G = xm.buf(st, 'sig', p.size + more, ro=False)
        for s in v.outcomes(what, ex.call_function(st, rs.need(ex, 'wots_sign'), [rs.hf(st, f), sig, p.size + more, dg, 32, sk, 32, par, seed, 32, ad])):
            for i in range(p.len):
                v.bytes('element %d' % i, s.pc, s.bytes_at(E.addp(sig, 32 * i), 32), [xm.CHAIN(f, S, a6(i), secret(K, i), 0, dd[i])])
            v.bytes('canary', s.pc, s.bytes_at(sig, 32), [xm.CHAIN(f, S, a6(0), secret(K, 0), 0, dd[1])])
            v.bytes('rest of the output slice untouched', s.pc, s.bytes_at(E.addp(sig, p.size), more), G[p.size:])
            frame_ok(v, s, ad, A, 'frame')
        v = vc.VC('wots_pk_from_sig', sub)
        vs.append(v)
        st = ex.new_state()
        par, seed, S, ad, A = setup(ex, st, p)
        dg, D = xm.buf(st, 'digest', 32)
        sig, G = xm.buf(st, 'sig', p.size + more)
        pk, _ = xm.buf(st, 'pk', p.size, ro=False)
        for s in v.outcomes(what, ex.call_function(st, rs.need(ex, 'wots_pk_from_sig'), [rs.hf(st, f), pk, p.size, sig, p.size + more, dg, 32, par, seed, 32, ad])):
            for i in range(p.len):
                v.bytes('element %d' % i, s.pc, s.bytes_at(E.addp(pk, 32 * i), 32), [xm.CHAIN(f, S, a6(i), G[32 * i:32 * i + 32], dd[i], tm.sub(w - 1, dd[i], 32))])
            frame_ok(v, s, ad, A, 'frame')
        return vs, [ex]
    return go


def tasks(ctx):
    build.warm(SRCS)
    rs.warm('gen_chain'), rs.warm('wots_pkgen', 'wots_sign', 'wots_pk_from_sig')
    t = [('parameters', params, 60)]
    for f in (1, 0, 2):
        t.append(('lemma ' + xm.HNAME[f], lemma(f), 100))
        for w in (256, 16, 4, 2):
            t.append(('gen_chain %s w=%d' % (xm.HNAME[f], w), chain(f, w), 300))
            t.append(('wots %s w=%d' % (xm.HNAME[f], w), wots(f, w), 300))
            if w == 256 and f != 0 and ctx.tier == 'quick':
                pass                # (two minutes each, and the hash function is only passed on)
            else:
                t.append(('Rust gen_chain %s w=%d' % (xm.HNAME[f], w), rust_chain(f, w), 300))
            if w != 2:
                t.append(('Rust wots %s w=%d' % (xm.HNAME[f], w), rust_wots(f, w), 300))
    return t


def native(ctx):
    return build.native_run(ctx)
