"""C18: what a signer reports about its key, and what it refuses to be built from."""
from dv import build, frame, xm, term as tm, vc, seq
from dv import exec as E
from props.c04 import need
from props import c08, c11, c14
from props.c07 import be32

NOTE = ('Proved on the real constructors and accessors (with libstdc++ executed) for every seed, hash function and address format at every permitted height: key generation receives exactly the seed, '
        'hash function, height and width; public key, extended seed, descriptor, seeds, root, index and sizes are the stated bytes of the key; the signer rebuilt from the extended seed '
        'passes the same arguments to key generation and so has the same key, public key and address. Seeds of every other length and every other height are refused, for all 256 height bytes. '
        'Key generation is a contract (any deterministic function of its arguments; C06 says which).')
ASSUMPTIONS = ['key generation by contract: the 132 key bytes are a function of hash function, parameters and seed (C06)',
               'SHA-256 opaque (C14)', 'operator new/delete and the C++ exception runtime by contract', 'seed lengths below 2^48']
NAMES = ('basic', 'fast', 'fast from extended seed')
FIELDS = ('secret key', 'public key', 'descriptor bytes', 'seed', 'extended seed', 'root', 'public seed', 'secret seed', 'PRF seed')


def KEY(f, h, w, S):
    return tm.app('KEYGEN', (f, h, w, seq.canon(S)), 132)


def c_gen(n):
    def c(ex, st, a):
        if len(a) != n:
            raise E.Unsupported('key generation contract: arguments')
        w, h = c11.params(st, a[1])
        S = xm.readb(ex, st, a[-1], 48)
        if ex.decide(st, tm.ule(a[0], 2, 32)) is not True:
            raise E.Unsupported('key generation contract: hash function')
        xm.put(st, a[2], tm.blobvar('pk', 64))
        st.write_bytes(a[3], list(tm.blob_bytes(KEY(a[0], h, w, S))))
        return 0
    return c


def new(ctx):
    ex = ctx.executor(c11.mods(), {'xmss_Genkeypair': c_gen(5), 'xmssfast_Genkeypair': c_gen(6), 'verif_sha256': c14.prim})
    ex.nomerge = True
    ex.max_unroll = 5000
    return ex


def outs(st, sizes):
    """array of (pointer, length) records"""
    r = st.alloc(16 * len(sizes), name='records')
    ps = []
    for i, n in enumerate(sizes):
        p = xm.outbuf(st, 'part%d' % i, n)
        st.store(E.addp(r, 16 * i), p, 8)
        st.store(E.addp(r, 16 * i + 8), 0, 8)
        ps.append(p)
    return r, ps


def inputs(st, kind, h):
    """(arguments, seed bytes, hash, format, descriptor bytes) of a valid construction"""
    if kind == 2:
        f, fmt = tm.var('hash', 2), tm.var('fmt', 4)
        st.assume(tm.ule(f, 2, 2))
        B = list(xm.arr('eseed', 51))
        B[:2] = [tm.zext(f, 2, 8), tm.or_(tm.shl(tm.zext(fmt, 4, 8), 4, 8), h // 2, 8)]
        p, B = xm.buf(st, 'eseed', 51, bytes_=B)
        return [2, p, 51, 0, 0, 0], B[3:], tm.zext(f, 2, 32), tm.zext(fmt, 4, 32), p, B
    p, B = xm.buf(st, 'seed', 48)
    f = tm.zext(tm.var('hash', 2), 2, 32)
    st.assume(tm.ule(f, 2, 32))
    fmt = tm.zext(tm.var('fmt', 4), 4, 32)
    return [kind, p, 48, h, f, fmt], B, f, fmt, p, B


def desc(f, h, fmt):
    return [tm.extract(f, 0, 8), tm.or_(tm.shl(tm.extract(fmt, 0, 8), 4, 8), h // 2, 8), 0]


def report(kind, h, w):
    def go(ctx):
        ex = new(ctx)
        v = vc.VC('parts of a %s signer' % NAMES[kind], 'w=%d h=%d' % (w, h))
        st = ex.new_state()
        args, S, f, fmt, p, B = inputs(st, kind, h)
        sizes = (132, 67, 3, 48, 51, 32, 32, 32, 32)
        rec, ps = outs(st, sizes)
        num = xm.outbuf(st, 'num', 44)
        K = list(tm.blob_bytes(KEY(f, h, w, S)))
        D = desc(f, h, fmt)
        want = [K, D + K[100:132] + K[68:100], D, list(S), D + list(S), K[100:132], K[68:100], K[4:36], K[36:68]]
        idx = be32(K[:4])
        N = 1 << h
        nums = [('height', h), ('number of signatures', N), ('index', idx), ('remaining signatures', tm.sub(N, idx, 32)), ('signature size', 36 + xm.WP(16).size + 32 * h),
                ('secret key size', 132), ('public key size', 67), ('hash function', f), ('scheme', 0), ('descriptor height', h), ('address format', fmt)]
        ok = 0
        for s in v.outcomes('memory safe and returns', ex.call_function(st, need(ex, 'v_parts'), args + [w, rec, num])):
            v.eq('built', s.pc, s.retval, 0, 32)
            if s.retval != 0:
                continue
            ok += 1
            for i, nm in enumerate(FIELDS):
                v.eq(nm + ' size', s.pc, s.load(E.addp(rec, 16 * i + 8), 8), sizes[i], 64)
                v.bytes(nm, s.pc, s.bytes_at(ps[i], sizes[i]), want[i])
            for i, (nm, x) in enumerate(nums):
                v.eq(nm, s.pc, s.load(E.addp(num, 4 * i), 4), x, 32)
            v.bytes('argument unchanged', s.pc, s.bytes_at(p, len(B)), B)
            if h == 4:
                v.bytes('canary', s.pc, s.bytes_at(ps[1], 67), D + K[68:132])
        if not ok:
            v.undecided('report', 'no path builds the signer')
        v2 = vc.VC('address of a %s signer' % NAMES[kind], 'w=%d h=%d' % (w, h))
        st = ex.new_state()
        args, S, f, fmt, p, B = inputs(st, kind, h)
        rec, ps = outs(st, (39,))
        bad = tm.ne(fmt, 0, 32)
        got = 0
        for s in v2.outcomes('memory safe and returns', ex.call_function(st, need(ex, 'v_signer_address'), args + [w, rec])):
            v2.holds('refused exactly for an unknown address format', s.pc, tm.eq(tm.eq(s.retval, 1, 32), bad, 1))
            v2.holds('no other exception', s.pc, tm.ule(s.retval, 1, 32))
            if s.retval == 0:
                got += 1
                K = list(tm.blob_bytes(KEY(f, h, w, S)))
                pk = desc(f, h, fmt) + K[100:132] + K[68:100]
                v2.eq('size', s.pc, s.load(E.addp(rec, 8), 8), 39, 64)
                v2.bytes('the address of the public key', s.pc, s.bytes_at(ps[0], 39), c14.spec(pk))
        if not got:
            v2.undecided('address', 'no path returns an address')
        return [v, v2], [ex]
    return go


def refused(title, setup, hints=()):
    def go(ctx):
        ex = new(ctx)
        v = vc.VC('construction', title)
        st = ex.new_state()
        args = setup(st)
        rec, ps = outs(st, (132, 67, 3, 48, 51, 32, 32, 32, 32))
        num = xm.outbuf(st, 'num', 44)
        for s in v.outcomes('memory safe and returns', ex.call_function(st, need(ex, 'v_parts'), args + [rec, num]), hints=hints):
            v.eq('refused with an error', s.pc, s.retval, 1, 32, hints)
        return [v], [ex]
    return go


def badlen(kind, h):
    n = 51 if kind == 2 else 48

    def setup(st):
        p, ln, B = c08.symlen(st, 'seed')
        st.assume(tm.ne(ln, n, 64))
        f = tm.zext(tm.var('hash', 2), 2, 32)
        st.assume(tm.ule(f, 2, 32))
        return [kind, p, ln, h, f, tm.zext(tm.var('fmt', 4), 4, 32), 16]
    return refused('%s, seed of another length' % NAMES[kind], setup, [{'seedlen': k} for k in list(range(0, 120)) + [304, 65584] if k != n])


def badheight(kind):
    def setup(st):
        p, B = xm.buf(st, 'seed', 48)
        h = tm.var('h', 8)
        for k in range(4, 31, 2):
            st.assume(tm.ne(h, k, 8))
        f = tm.zext(tm.var('hash', 2), 2, 32)
        st.assume(tm.ule(f, 2, 32))
        return [kind, p, 48, h, f, tm.zext(tm.var('fmt', 4), 4, 32), 16]
    return refused('%s, height that the traversal cannot handle' % NAMES[kind], setup, [{'h': k} for k in range(256) if k not in range(4, 31, 2)])


def baddesc(setup2, title):
    def setup(st):
        p, B = xm.buf(st, 'eseed', 51)
        setup2(st, B)
        return [2, p, 51, 0, 0, 0, 16]
    return refused(title, setup)


def badwidth(st):
    p, B = xm.buf(st, 'seed', 48)
    w = tm.var('w', 32)
    for x in xm.W:
        st.assume(tm.ne(w, x, 32))
    return [0, p, 48, 4, 1, 0, w]


def unknown(st, B):
    from props.c13 import valid
    st.assume(tm.not_(valid(B[0]), 1))


def low(k):
    return lambda st, B: st.assume(tm.eq(tm.extract(B[1], 0, 4), k, 4))


def tasks(ctx):
    c11.mods()
    t = []
    for kind in (0, 1, 2):
        for h in range(4, 31, 2):
            for w in (16, 2, 4, 256) if kind == 0 else (16,):
                t.append(('%s w=%d h=%d' % (NAMES[kind], w, h), report(kind, h, w), 200))
        t.append((NAMES[kind] + ' length', badlen(kind, 10), 200))
    t.append(('basic height', badheight(0), 200))
    t.append(('fast height', badheight(1), 200))
    for k in (0, 1):
        t.append(('extended seed of height %d' % (2 * k), baddesc(low(k), 'extended seed of height %d' % (2 * k)), 200))
    t.append(('extended seed descriptor', baddesc(unknown, 'extended seed with an unknown hash function or scheme'), 200))
    t.append(('width', refused('basic, unsupported width', badwidth, [{'w': x} for x in (0, 1, 3, 5, 8, 15, 17, 32, 64, 65, 128, 255, 257, 512, 1 << 16, (1 << 16) + 16, 1 << 31, (1 << 32) - 1)]), 200))
    return t


def native(ctx):
    return build.native_run(ctx)
