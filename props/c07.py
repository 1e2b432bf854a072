"""C07: xmss_Verifysig returns 0 exactly when the recomputed root equals the root in the key."""
from dv import build, frame, xm, term as tm, vc, seq
from dv import exec as E
from props.c04 import need
from props import c06, rs

NOTE = ('Proved for every even height 4..30, each w and hash, every message of any length, index, signature and key: result 0 iff all 32 bytes of the recomputed root equal '
        'the key root; arguments unmodified. wots_pkFromSig, l_tree, hash_h, h_msg by contract (C02, C04, C06). The Rust crate\'s verifier under the same contract at every even height (w=16, each hash). Differential run through the API beside it.')
ASSUMPTIONS = ['wots_pkFromSig by contract (C04), l_tree by contract (C06), h_msg and hash_h by contract (C02)',
               'the wrapper XmssBase::verify is C08; here the arguments it passes (67-byte key, signature of the size of the height)',
               'the Rust files are compiled with stand-ins for the absent sha2 crate, from copies in which #[inline(never)] is inserted before the functions that have contracts; message lengths there are 31-bit']


def path_root(f, seed, leaf, idx, auth, h):
    """spec: root from a leaf blob, a 32-bit index term and h authentication nodes (byte lists)"""
    x = leaf
    for i in range(h):
        b = tm.extract(idx, i, 1)
        up = tm.lshr(idx, i + 1, 32)
        a = auth[i]
        l = [tm.ite(b, p, q, 8) for p, q in zip(a, xm.bb(x))]
        r = [tm.ite(b, q, p, 8) for p, q in zip(a, xm.bb(x))]
        x = xm.HH(f, seed, [0, 0, 0, 2, 0, i, up], l + r)
    return x


def spec_root(f, w, h, msg, sig, pk):
    """recomputed root for signature bytes sig, message pieces msg, public key bytes pk = root || seed"""
    p = xm.WP(w)
    root, seed = pk[:32], pk[32:]
    idx = be32(sig[:4])
    R = sig[4:36]
    ots = sig[36:36 + p.size]
    auth = [sig[36 + p.size + 32 * i:68 + p.size + 32 * i] for i in range(h)]
    md = xm.HMSG(f, R + root + xm.tb32(idx), msg)
    pkb = xm.WOTSREC(f, w, ots, xm.bb(md), seed, [0, 0, 0, 0, idx])
    leaf = xm.LTREE(f, w, xm.bb(pkb), seed, [0, 0, 0, 1, idx])
    return path_root(f, seed, leaf, idx, auth, h)


def be32(b):
    x = 0
    for i in range(4):
        x = tm.or_(x, tm.shl(tm.zext(b[i], 8, 32) if b[i].__class__ is not int else b[i], 24 - 8 * i, 32), 32)
    return x


def compared(ts, P):
    """the 32 byte terms that the conditions compare with the root bytes of the key (None unless there is one for each)"""
    d, seen, todo = {}, set(), [t for t in ts if t.__class__ is tm.T]
    at = {b: i for i, b in enumerate(P[:32])}
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'eq':
            for x, y in (t.a, t.a[::-1]):
                if x in at and y.__class__ is tm.T:
                    d.setdefault(at[x], set()).add(y)
        if t.op in ('app', 'byte', 'cat', 'bite'):
            continue
        for x in t.a:
            for y in x if x.__class__ is tuple else (x,):
                if y.__class__ is tm.T:
                    todo.append(y)
    if len(d) == 32 and all(len(x) == 1 for x in d.values()):
        return [list(d[i])[0] for i in range(32)]
    return None


def mentions(t, vs):
    """a condition on one of the variables vs outside of hash inputs"""
    vs, seen, todo = set(vs), set(), [t]
    while todo:
        t = todo.pop()
        if t.__class__ is tuple:
            todo.extend(t)
            continue
        if t.__class__ is not tm.T or t in seen:
            continue
        if t in vs:
            return True
        seen.add(t)
        if t.op not in ('app', 'cat', 'bite'):
            todo.extend(t.a)
    return False


HINTS = [{'msglen': k} for k in (0, 1, 2, 31, 64, 100, 3, 200, 137, 168, 55, 32)]


def verify(f, w, h, rust=False):
    def go(ctx):
        p = xm.WP(w)
        ex = rs.executor(ctx, xm.tree_callees(), ['xmss_verify_sig'], rs.TREE) if rust else ctx.executor(c06.mods(), xm.tree_callees())
        ex.max_unroll = 5000
        v = vc.VC('xmss_verify_sig' if rust else 'xmss_Verifysig', '%s%s w=%d h=%d' % ('Rust ' if rust else '', xm.HNAME[f], w, h))
        v.provefirst = True
        st = ex.new_state()
        par = xm.params_buf(st, p)
        if rust:
            n = tm.zext(tm.var('msglen', 31), 31, 64)       # (lengths are 32-bit numbers there)
        else:
            n = tm.var('msglen', 64)
            st.assume(tm.ule(n, (1 << 62) - 1, 64))
        msg, M = xm.symbuf(st, 'msg', n)
        pk, P = xm.buf(st, 'pk', 64)
        size = 36 + p.size + 32 * h
        sig, G = xm.buf(st, 'sig', size)
        if rust:
            fn, args = rs.need(ex, 'xmss_verify_sig'), [rs.hf(st, f), par, msg, n, n, sig, size, pk, 64, h]
        else:
            fn, args = need(ex, 'xmss_Verifysig'), [f, par, msg, n, sig, pk, h]
        want = spec_root(f, w, h, M, G, P)
        wb = xm.bb(want)
        outs = v.outcomes('memory safe, returns, no panic' if rust else 'memory safe and returns', ex.call_function(st, fn, args))
        for s in outs:
            ok = tm.eq(s.retval, 0, 32)
            got = compared([s.retval] + list(s.pc), P)
            eq = [tm.eq(a, b, 8) for a, b in zip(got or wb, P[:32])]
            base = [t for t in s.pc if not mentions(t, P[:32])]      # (how the paths differ apart from the comparison itself)
            if got and len(outs) > 1 and len(base) < len(s.pc) and not all(vc.same(a, b) for a, b in zip(got, wb)):
                v.undecided('the value compared with the key is the recomputed root', 'several paths, told apart by the comparison itself')
            elif got:
                v.bytes('the value compared with the key is the recomputed root', base, got, wb, HINTS)
            for i, e in enumerate(eq):
                v.holds('accepted only if root byte %d agrees' % i, list(s.pc) + [ok], e)
            v.holds('accepted if the roots agree', list(s.pc) + eq, ok)
        if outs:
            v.bytes('canary', [], wb, G[36:68], HINTS)
        return [v], [ex]
    return go


def tasks(ctx):
    build.warm(c06.SRCS)
    rs.warm('xmss_verify_sig')
    t = []
    for h in range(30, 2, -2):
        for f in (1, 0, 2):
            t.append(('Rust %s w=16 h=%d' % (xm.HNAME[f], h), verify(f, 16, h, True), 300))
        for f in (1, 0, 2):
            for w in (256, 16, 4, 2):
                if w == 16 or h in (4, 30) or ctx.thorough:
                    t.append(('%s w=%d h=%d' % (xm.HNAME[f], w, h), verify(f, w, h), 300))
    return t


def native(ctx):
    return build.native_run(ctx)
