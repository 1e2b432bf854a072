"""C02: prf, h_msg, hash_h, hash_f are the XMSS keyed hashes."""
from dv import build, frame, xm, term as tm, seq, vc
from dv import exec as E
from props import rs

SRCS = ['xmss-alt/hash.c', 'xmss-alt/hash_address.c', 'xmss-alt/xmss_common.c']
NOTE = 'Proved for n=32 and n=64 and each hash: prf, h_msg, hash_f, hash_h equal the XMSS definitions for every key, input, address (message length below 2^60), in place or apart, with frame. SHAKE/SHA-2 are opaque functions of their exact input bytes (SHAKE itself is C01). The Rust crate\'s functions under the same contracts, output slices of any length. Bounded differential run of the real code beside it.'
ASSUMPTIONS = ['SHAKE128/SHAKE256/SHA2-256 are opaque functions of the exact bytes handed to them (SHAKE against FIPS 202 is C01; SHA2-256 is the PicoSHA2 submodule, absent here)',
               'hash_f and hash_h: out is disjoint from every input or out == in; message length below 2^60',
               'the Rust files are compiled with stand-ins for the absent sha2 crate, from copies in which #[inline(never)] is inserted before the functions that have contracts; message lengths there are 31-bit']


def prove(f, n):
    def go(ctx):
        mods = build.modules(SRCS)
        vs = []
        ex = ctx.executor(mods, xm.primitives())
        ex.summarise = True
        P = xm.HNAME[f]

        def fn(name):
            g = frame.fn(ex, name)
            if g is None:
                raise E.Unsupported('function %s not found' % name)
            return g
        # prf
        v = vc.VC('prf', '%s n=%d' % (P, n))
        vs.append(v)
        st = ex.new_state()
        out = xm.outbuf(st, 'out', n)
        key, K = xm.buf(st, 'key', n)
        p, I = xm.buf(st, 'in', 32)
        for s in v.outcomes('memory safe and returns', ex.call_function(st, fn('prf'), [f, out, p, key, n])):
            v.eq('returns 0', s.pc, s.retval, 0, 32)
            v.bytes('PRF(key, in)', s.pc, s.bytes_at(out, n), [xm.prf_def(f, K, I, n)])
            v.bytes('canary', s.pc, s.bytes_at(out, n), [xm.prf_def(f, I + K[32:], I, n)])
        # h_msg
        v = vc.VC('h_msg', '%s n=%d' % (P, n))
        vs.append(v)
        st = ex.new_state()
        out = xm.outbuf(st, 'out', n)
        key, K = xm.buf(st, 'key', 3 * n)
        L = tm.var('inlen', 64)
        st.assume(tm.ult(L, 1 << 60, 64))
        p, I = xm.symbuf(st, 'in', L)
        for s in v.outcomes('memory safe and returns', ex.call_function(st, fn('h_msg'), [f, out, p, L, key, 3 * n, n])):
            v.eq('returns 0', s.pc, s.retval, 0, 32)
            v.bytes('H_msg(key, in)', s.pc, s.bytes_at(out, n), [xm.hmsg_def(f, K, I, n)])
        v = vc.VC('h_msg, wrong key length', '%s n=%d' % (P, n))
        vs.append(v)
        st = ex.new_state()
        kl = tm.var('keylen', 32)
        st.assume(tm.ne(kl, 3 * n, 32))
        st.assume(tm.ult(kl, 1 << 20, 32))
        st.assume(tm.ult(L, 1 << 60, 64))
        out, O = xm.buf(st, 'out', n, ro=False)
        key, K = xm.symbuf(st, 'key', tm.zext(kl, 32, 64))
        p, I = xm.symbuf(st, 'in', L)
        for s in v.outcomes('memory safe and returns', ex.call_function(st, fn('h_msg'), [f, out, p, L, key, kl, n])):
            v.holds('reports failure', s.pc, tm.ne(s.retval, 0, 32))
            v.bytes('output untouched', s.pc, s.bytes_at(out, n), O)
        # hash_f, hash_h
        for name, d, m in (('hash_f', xm.f_def, n), ('hash_h', xm.hh_def, 2 * n)):
            for off in (None, 0) + ((n,) if m > n else ()):
                inplace = off is not None
                v = vc.VC(name, '%s n=%d%s' % (P, n, ' output at input+%d' % off if inplace else ''))
                vs.append(v)
                st = ex.new_state()
                seed, S = xm.buf(st, 'pub_seed', n)
                ad, A = xm.addrbuf(st)
                p, I = xm.buf(st, 'in', m, ro=not inplace)
                out = E.addp(p, off) if inplace else xm.outbuf(st, 'out', n)
                for s in v.outcomes('memory safe and returns', ex.call_function(st, fn(name), [f, out, p, seed, ad, n])):
                    v.eq('returns 0', s.pc, s.retval, 0, 32)
                    v.bytes('%s(seed, address, in)' % name, s.pc, s.bytes_at(out, n), [d(f, S, A[:7], I, n)])
                    for i in range(7):
                        v.eq('address word %d unchanged' % i, s.pc, s.load(E.addp(ad, 4 * i), 4), A[i], 32)
                    if inplace and m > n:
                        v.bytes('rest of the input untouched', s.pc, s.bytes_at(E.addp(p, n - off), n), I[n - off:2 * n - off])
        return vs, [ex]
    return go


def prove_sha(ctx):
    """sha2_256 hands exactly its input range to the SHA-256 implementation"""
    mods = build.modules(['shasha/shasha.cpp'])

    def prim(ex, st, a):
        out, p, n = a
        xm.put(st, out, tm.app('SHA256', (xm.readb(ex, st, p, n), 32), 32))
    ex = ctx.executor(mods, {'verif_sha256': prim})
    v = vc.VC('sha2_256')
    st = ex.new_state()
    L = tm.var('inlen', 64)
    st.assume(tm.ult(L, 1 << 60, 64))
    out = xm.outbuf(st, 'out', 32)
    p, I = xm.symbuf(st, 'in', L)
    g = frame.fn(ex, 'sha2_256')
    for s in v.outcomes('memory safe and returns', ex.call_function(st, g, [out, p, L])):
        v.bytes('SHA-256 of the input', s.pc, s.bytes_at(out, 32), [tm.app('SHA256', (seq.canon(I), 32), 32)])
    return [v], [ex]

RFNS = ('prf', 'h_msg', 'hash_f', 'hash_h')


def prove_rust(f, n):
    """the same postconditions for the Rust functions; output slices of any length of at least n bytes"""
    def go(ctx):
        vs = []
        P = xm.HNAME[f]
        prims = xm.primitives()
        hints = [{'outlen': n + a, 'inlen': b} for a in (0, 1, 70) for b in (0, 1, 31, 32, 100)]

        def new():
            ex = ctx.executor(rs.mods(*RFNS), {'verif_sha256': prims['sha2_256']})
            ex.summarise = True
            return rs.contracts(ex, prims, 'shake128', 'shake256')
        ex = new()

        def outslice(st):
            ol = tm.var('outlen', 64)
            st.assume(tm.ule(n, ol, 64))
            st.assume(tm.ult(ol, 1 << 40, 64))
            p, O = xm.symbuf(st, 'out', ol, ro=False)
            return p, ol

        def result(v, s, out, ol, want, bad=None):
            v.bytes('output', s.pc, s.bytes_at(out, n), [want], hints)
            if bad is not None:
                v.bytes('canary', s.pc, s.bytes_at(out, n), [bad], hints)
            v.pieces('rest of the output slice untouched', s.pc, seq.read_range(ex, s, E.addp(out, n), tm.sub(ol, n, 64)), (('seq', 'out', n, tm.sub(ol, n, 64)),), hints)
        v = vc.VC('prf', 'Rust %s n=%d' % (P, n))
        vs.append(v)
        st = ex.new_state()
        out, ol = outslice(st)
        key, K = xm.buf(st, 'key', n)
        p, I = xm.buf(st, 'in', 32)
        for s in v.outcomes('memory safe, returns, no panic', ex.call_function(st, rs.need(ex, 'prf'), [rs.hf(st, f), out, ol, p, 32, key, n, n]), hints=hints):
            v.eq('returns 0', s.pc, s.retval, 0, 32)
            result(v, s, out, ol, xm.prf_def(f, K, I, n), xm.prf_def(f, I + K[32:], I, n))
        v = vc.VC('h_msg', 'Rust %s n=%d' % (P, n))
        vs.append(v)
        st = ex.new_state()
        out, ol = outslice(st)
        key, K = xm.buf(st, 'key', 3 * n)
        L = tm.zext(tm.var('inlen', 31), 31, 64)
        p, I = xm.symbuf(st, 'in', L)
        for s in v.outcomes('memory safe, returns, no panic', ex.call_function(st, rs.need(ex, 'h_msg'), [rs.hf(st, f), out, ol, p, L, L, key, 3 * n, 3 * n, n]), hints=hints):
            v.eq('returns 0', s.pc, s.retval, 0, 32)
            result(v, s, out, ol, xm.hmsg_def(f, K, I, n))
        for name, d, m in (('hash_f', xm.f_def, n), ('hash_h', xm.hh_def, 2 * n)):
            v = vc.VC(name, 'Rust %s n=%d' % (P, n))
            vs.append(v)
            st = ex.new_state()
            seed, S = xm.buf(st, 'pub_seed', n)
            ad, A = xm.addrbuf(st)
            p, I = xm.buf(st, 'in', m)
            out, ol = outslice(st)
            for s in v.outcomes('memory safe, returns, no panic', ex.call_function(st, rs.need(ex, name), [rs.hf(st, f), out, ol, p, m, seed, n, ad, n]), hints=hints):
                v.eq('returns 0', s.pc, s.retval, 0, 32)
                result(v, s, out, ol, d(f, S, A[:7], I, n))
                for i in range(7):
                    v.eq('address word %d unchanged' % i, s.pc, s.load(E.addp(ad, 4 * i), 4), A[i], 32)
        return vs, [ex]
    return go


def tasks(ctx):
    build.warm(SRCS), build.warm(['shasha/shasha.cpp'])
    rs.warm(*RFNS)
    t = [('keyed hashes %s n=%d' % (xm.HNAME[f], n), prove(f, n), 200) for f, n in ((0, 32), (1, 32), (2, 32), (1, 64), (2, 64))]
    t.append(('sha2_256', prove_sha, 60))
    t += [('Rust keyed hashes %s n=%d' % (xm.HNAME[f], n), prove_rust(f, n), 200) for f, n in ((0, 32), (1, 32), (2, 32), (1, 64), (2, 64))]
    return t


def native(ctx):
    return build.native_run(ctx, ['keyed', 'sha'])
