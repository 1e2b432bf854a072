"""C08: XmssBase::verify is total and refuses what is malformed; size and height conversions are inverse."""
from dv import build, frame, xm, term as tm, vc, seq
from dv import exec as E
from props.c04 import need
from props.c13 import valid

NOTE = ('Proved for keys, signatures and messages of every length and content and every 32-bit width: verify never throws, never reads outside its arguments, returns false for '
        'every malformed combination, and otherwise the verdict of xmss_Verifysig (by contract, C07) on exactly the message, signature, key bytes, height and width given. '
        'Size/height conversions proved inverse for all 64-bit sizes. Bounded differential run beside it.')
ASSUMPTIONS = ['xmss_Verifysig by contract (C07): total for consistent parameters, a buffer of the size of the height and a 64-byte key',
               'operator new/delete (never out of memory), memmove and the C++ exception runtime by contract', 'buffer lengths below 2^48']

BOUND = 1 << 48


def mods():
    return build.library('tu_base.cpp')


def c_verifysig():
    """xmss_Verifysig(hash, wots params, msg, msglen, sig, pk, h): result 0 or -1, nothing modified (C07)"""
    def c(ex, st, a):
        f, par, msg, n, sig, pk, h = a
        w = xm.get_params(st, par)
        hh = xm.con(h, 'height')
        if hh not in range(4, 31, 2):
            raise E.Unsupported('xmss_Verifysig contract: height')
        if ex.decide(st, tm.ule(f, 2, 32)) is not True:
            raise E.Unsupported('xmss_Verifysig contract: hash function')
        size = xm.WP(w).size + 36 + 32 * hh
        r = tm.var('verdict', 32)
        st.assume(tm.or_(tm.eq(r, 0, 32), tm.eq(r, 0xffffffff, 32), 1))
        st.ghost['verifysig'] = st.ghost.get('verifysig', ()) + ((f, w, hh, xm.readb(ex, st, msg, n), xm.readb(ex, st, sig, size), xm.readb(ex, st, pk, 64)),)
        return r
    return c


def new(ctx, extra=()):
    d = {'xmss_Verifysig': c_verifysig()}
    d.update(dict(extra))
    ex = ctx.executor(mods(), d)
    ex.nomerge = True
    return ex


def sizes(w):
    return [36 + xm.WP(w).size + 32 * h for h in range(31)]


def symlen(st, name, lo=0):
    n = tm.var(name + 'len', 64)
    st.assume(tm.ule(n, BOUND, 64))
    p, M = xm.symbuf(st, name, n)
    return p, n, M


def anyw(st):
    w = tm.var('w', 32)
    return w


def run(ctx, title, setup, expect_false, hints=()):
    ex = new(ctx)
    v = vc.VC('XmssBase::verify', title)
    st = ex.new_state()
    args = setup(st)
    out = xm.outbuf(st, 'out', 1)
    for s in v.outcomes('memory safe and returns', ex.call_function(st, need(ex, 'v_verify'), args + [out])):
        v.eq('no exception', s.pc, s.retval, 0, 32, hints)
        if s.retval == 0:
            v.eq('returns false', s.pc, s.load(out, 1), 0, 8, hints)
    return [v], [ex]


def hint(**kw):
    base = {'msglen': 3, 'siglen': 2500, 'pklen': 67, 'w': 16}
    out = []
    for k, vals in kw.items():
        for x in vals:
            d = dict(base)
            d[k] = x
            out.append(d)
    return out


def badkey(ctx):
    def setup(st):
        m, ml, _ = symlen(st, 'msg')
        s, sl, _ = symlen(st, 'sig')
        p, pl, _ = symlen(st, 'pk')
        st.assume(tm.ne(pl, 67, 64))
        return [m, ml, s, sl, p, pl, anyw(st)]
    return run(ctx, 'key of another length', setup, True, hint(pklen=[k for k in range(0, 140) if k != 67], siglen=(0, 1, 2500, 2287)))


def badwidth(ctx):
    def setup(st):
        m, ml, _ = symlen(st, 'msg')
        s, sl, _ = symlen(st, 'sig')
        p, _ = xm.buf(st, 'pk', 67)
        w = anyw(st)
        for x in xm.W:
            st.assume(tm.ne(w, x, 32))
        return [m, ml, s, sl, p, 67, w]
    return run(ctx, 'unsupported width', setup, True, hint(w=(0, 1, 3, 5, 8, 15, 17, 32, 64, 65, 128, 255, 257, 512, 1 << 16, 1 << 31, (1 << 32) - 1)))


def badsize(w):
    def go(ctx):
        S = sizes(w)

        def setup(st):
            m, ml, _ = symlen(st, 'msg')
            s, sl, _ = symlen(st, 'sig')
            for x in S:
                st.assume(tm.ne(sl, x, 64))
            p, _ = xm.buf(st, 'pk', 67)
            return [m, ml, s, sl, p, 67, w]
        hs = []
        for x in [0, 1, 35, 36] + [y + d for y in S for d in (-32, -1, 1, 16, 31, 32, 64)]:
            if x not in S and x >= 0:
                hs.append({'msglen': 3, 'siglen': x})
        return run(ctx, 'w=%d, size of no height' % w, setup, True, hs)
    return go


def sized(w, hs):
    def go(ctx):
        ex = new(ctx)
        vs = []
        for h in hs:
            v = vc.VC('XmssBase::verify', 'w=%d, size of height %d' % (w, h))
            vs.append(v)
            st = ex.new_state()
            m, ml, M = symlen(st, 'msg')
            n = sizes(w)[h]
            s_, S = xm.buf(st, 'sig', n)
            p, P = xm.buf(st, 'pk', 67)
            out = xm.outbuf(st, 'out', 1)
            match = tm.and_(valid(P[0]), tm.eq(tm.extract(P[1], 0, 4), h // 2, 4), 1) if h % 2 == 0 and h >= 4 else 0
            called = 0
            hints = [{'msglen': k} for k in (0, 1, 32, 100)]
            for s in v.outcomes('memory safe and returns', ex.call_function(st, need(ex, 'v_verify'), [m, ml, s_, n, p, 67, w, out])):
                v.eq('no exception', s.pc, s.retval, 0, 32, hints)
                if s.retval != 0:
                    continue
                r = s.load(out, 1)
                calls = s.ghost.get('verifysig', ())
                if calls:
                    called += 1
                    f, cw, ch, cm, cs, ck = calls[-1]
                    v.holds('verified only if key and size agree', s.pc, match, hints)
                    v.eq('hash function of the key', s.pc, f, tm.zext(tm.extract(P[0], 0, 4), 4, 32), 32, hints)
                    v.holds('width and height passed on', s.pc, 1 if (cw, ch) == (w, h) else 0, hints)
                    v.pieces('message passed on', s.pc, cm, M, hints)
                    v.pieces('signature passed on', s.pc, cs, seq.canon(S), hints)
                    v.pieces('root and seed passed on', s.pc, ck, seq.canon(P[3:]), hints)
                    v.holds('the verdict is returned', s.pc, tm.eq(r, tm.zext(tm.eq(tm.var('verdict', 32), 0, 32), 1, 8), 8), hints)
                else:
                    v.holds('refused without verification only if malformed', s.pc, tm.not_(match, 1), hints)
                    v.eq('returns false', s.pc, r, 0, 8, hints)
                if h == 10:
                    v.eq('canary', s.pc, r, 1, 8, hints)
            if match.__class__ is not int and not called:
                v.undecided('verification', 'no path verifies')
        return vs, [ex]
    return go


def convert(ctx):
    """getHeightFromSigSize and calculateSignatureBaseSize, every size and width"""
    ex = new(ctx)
    vs = []
    for w in xm.W:
        base = 36 + xm.WP(w).size
        v = vc.VC('calculateSignatureBaseSize', 'w=%d' % w)
        vs.append(v)
        st = ex.new_state()
        out = xm.outbuf(st, 'out', 4)
        for s in v.outcomes('returns', ex.call_function(st, need(ex, 'v_base_size'), [w, out])):
            v.eq('no exception', s.pc, s.retval, 0, 32)
            v.eq('4 + 32 + 32 len', s.pc, s.load(out, 4), base, 32)
        v = vc.VC('getHeightFromSigSize', 'w=%d' % w)
        vs.append(v)
        st = ex.new_state()
        n = tm.var('n', 64)
        out = xm.outbuf(st, 'out', 4)
        ok = 0
        for x in sizes(w):
            ok = tm.or_(ok, tm.eq(n, x, 64), 1)
        hints = [{'n': y + d} for y in sizes(w) for d in (0, 1, -1, 32, -32, 1 << 32, 1 << 13, 8192)] + [{'n': base + 32 * 256 * k} for k in (1, 2, 1 << 24)]
        for s in v.outcomes('returns', ex.call_function(st, need(ex, 'v_h_from_size'), [n, w, out]), hints=hints):
            v.holds('accepted exactly for a size that belongs to a height', s.pc, tm.eq(tm.eq(s.retval, 0, 32), ok, 1), hints)
            v.holds('no other exception', s.pc, tm.ule(s.retval, 1, 32), hints)
            if s.retval == 0:
                h = s.load(out, 4)
                v.holds('the height of that size', s.pc, tm.eq(n, tm.add(base, tm.mul(32, tm.zext(h, 32, 64), 64), 64), 64), hints)
                v.eq('canary', s.pc, h, 7, 32, hints)
    for w in xm.W:
        v = vc.VC('getSignatureSize', 'w=%d' % w)
        vs.append(v)
        st = ex.new_state()
        h = tm.var('h', 8)
        out = xm.outbuf(st, 'out', 4)
        hints = [{'h': k} for k in range(0, 64)] + [{'h': 255}]
        for s in v.outcomes('returns', ex.call_function(st, need(ex, 'v_sig_size'), [h, w, out]), hints=hints):
            v.holds('refused exactly above 30', s.pc, tm.eq(tm.eq(s.retval, 0, 32), tm.ule(h, 30, 8), 1), hints)
            if s.retval == 0:
                v.eq('4 + 32 + 32 len + 32 h', s.pc, s.load(out, 4), tm.add(36 + xm.WP(w).size, tm.mul(32, tm.zext(h, 8, 32), 32), 32), 32, hints)
    w = tm.var('w', 32)
    for nm, fn, args in (('calculateSignatureBaseSize', 'v_base_size', []), ('getHeightFromSigSize', 'v_h_from_size', [tm.var('n', 64)])):
        v = vc.VC(nm, 'unsupported width')
        vs.append(v)
        st = ex.new_state()
        for x in xm.W:
            st.assume(tm.ne(w, x, 32))
        out = xm.outbuf(st, 'out', 4)
        hints = [{'w': k} for k in (0, 1, 3, 8, 32, 64, 255, 257, 1 << 31)]
        for s in v.outcomes('returns', ex.call_function(st, need(ex, fn), args + [w, out]), hints=hints):
            v.eq('refused', s.pc, s.retval, 1, 32, hints)
    return vs, [ex]


def tasks(ctx):
    mods()
    t = [('key length', badkey, 300), ('width', badwidth, 300), ('conversions', convert, 300)]
    for w in xm.W:
        t.append(('size w=%d' % w, badsize(w), 300))
        for part in range(4):
            t.append(('sized w=%d part %d' % (w, part), sized(w, range(part, 31, 4)), 400))
    return t


def native(ctx):
    return build.native_run(ctx)
