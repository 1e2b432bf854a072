"""C09: every basic signature is well formed for its index."""
from dv import build, cut, frame, xm, term as tm, vc, seq, solve
from dv import exec as E
from props.c04 import need
from props import c06, rs
from props.c07 import be32

NOTE = ('Proved for every key, message (any length) and every index below 2^h, at every height 4, 6, .., 30: signature bytes are index, randomiser, one-time signature and the '
        'authentication path of that leaf, and of the key only the index changes, by one. The tree is covered level by level: one loop invariant per level, checked by one iteration from an arbitrary state. '
        'wots_sign, wots_pkgen, l_tree, hash_h, prf, h_msg by contract. Small heights once more by unrolling; the Rust crate\'s signer by unrolling only (h = 4, 6, 8). Differential run beside it.')
ASSUMPTIONS = ['wots_sign, wots_pkgen by contract (C04), l_tree by contract (C06), prf, h_msg, hash_h by contract (C02)',
               'the loop invariants are learned from the first executions of each loop and then checked; where the code has another shape, only the unrolled heights remain',
               'the Rust files are compiled with stand-ins for the absent sha2 crate, from copies in which #[inline(never)] is inserted before the functions that have contracts; message lengths there are 31-bit']
BOUNDED = {r'w=\d+ h=': 'the whole tree unrolled at a small height (cases of the unbounded obligations; Rust: h = 4, 6, 8 only)'}
HINTS = [{'msglen': k} for k in (0, 1, 2, 31, 64, 100, 3, 200, 137, 168, 55, 32)]


def secret(st, h, idx):
    """132-byte secret key with index idx (32-bit term or constant) and arbitrary seeds and root"""
    rest = xm.arr('key', 128)
    ib = xm.tb32(idx)[28:] if idx.__class__ is not int else xm.tb(idx, 4)
    p, _ = xm.buf(st, 'sk', 132, ro=False, bytes_=ib + rest)
    return p, ib, rest


def message(st, rust=False):
    if rust:
        n = tm.zext(tm.var('msglen', 31), 31, 64)       # (lengths are 32-bit numbers there)
    else:
        n = tm.var('msglen', 64)
        st.assume(tm.ule(n, (1 << 60) - 1, 64))
    p, M = xm.symbuf(st, 'msg', n)
    return p, n, M


def spec_head(f, w, idx, rest, M):
    """index, randomiser and one-time signature: list of bytes"""
    sks, prf, seed, root = rest[:32], rest[32:64], rest[64:96], rest[96:]
    R = xm.bb(xm.PRF(f, prf, xm.tb32(idx) if idx.__class__ is not int else xm.tb(idx, 32)))
    md = xm.HMSG(f, R + root + (xm.tb32(idx) if idx.__class__ is not int else xm.tb(idx, 32)), M)
    ots = xm.PRF(f, sks, xm.adrs_bytes([0, 0, 0, 0, idx, 0, 0, 0]))
    s = xm.WOTSSIG(f, w, xm.bb(md), xm.bb(ots), seed, [0, 0, 0, 0, idx])
    return (xm.tb32(idx)[28:] if idx.__class__ is not int else xm.tb(idx, 4)) + R + xm.bb(s)


def sign(f, w, h, rust=False):
    def go(ctx):
        p = xm.WP(w)
        ex = rs.executor(ctx, xm.tree_callees(), ['xmss_sign_msg'], rs.TREE) if rust else ctx.executor(c06.mods(), xm.tree_callees())
        ex.max_unroll = 5000
        ex.max_steps = 1 << 40
        v = vc.VC('xmss_sign_msg' if rust else 'xmss_Signmsg', '%s%s w=%d h=%d' % ('Rust ' if rust else '', xm.HNAME[f], w, h))
        v.provefirst = True
        st = ex.new_state()
        par = c06.params_xmss(st, w, h)
        idx = tm.zext(tm.var('idx', h), h, 32)
        sk, ib, rest = secret(st, h, idx)
        msg, n, M = message(st, rust)
        size = 36 + p.size + 32 * h
        sig = xm.outbuf(st, 'sig', size)
        if rust:
            st.write_bytes(sig, [0] * size)
            fn, args = rs.need(ex, 'xmss_sign_msg'), [rs.hf(st, f), par, sk, 132, sig, size, msg, n, n]
        else:
            fn, args = need(ex, 'xmss_Signmsg'), [f, par, sk, sig, msg, n]
        tree = xm.Tree(f, w, h, rest[:32], rest[64:96])
        hints = [dict(d, idx=i) for i, d in zip((0, 1, (1 << h) - 1, 5 % (1 << h), (1 << h) - 2, 1 << (h - 1)) * 2, HINTS)]
        for s in v.outcomes('memory safe, returns, no panic' if rust else 'memory safe and returns', ex.call_function(st, fn, args)):
            v.eq('returns 0', s.pc, s.retval, 0, 32)
            head = spec_head(f, w, idx, rest, M)
            v.bytes('index, randomiser, one-time signature', s.pc, s.bytes_at(sig, 36 + p.size), head, hints)
            for i in range(h):
                v.cases('authentication path level %d' % i, s.bytes_at(E.addp(sig, 36 + p.size + 32 * i), 32), 'idx', range(1 << h),
                        lambda c, i=i: xm.bb(tree.node(i, (c >> i) ^ 1)), hints)
            v.bytes('index grows by one', s.pc, s.bytes_at(sk, 4), xm.tb32(tm.add(idx, 1, 32))[28:], hints)
            v.bytes('rest of the key unchanged', s.pc, s.bytes_at(E.addp(sk, 4), 128), rest, hints)
            v.bytes('canary', s.pc, s.bytes_at(sk, 4), ib, hints)
        return [v], [ex]
    return go


def anyheight(f, w, h):
    def go(ctx):
        p = xm.WP(w)
        ex = ctx.executor(c06.mods(), xm.tree_callees())
        ex.max_unroll = 5000
        ex.max_steps = 1 << 40
        v = vc.VC('xmss_Signmsg', '%s w=%d h=%d, level by level' % (xm.HNAME[f], w, h))
        v.provefirst = True
        rest = xm.arr('key', 128)
        idx = tm.zext(tm.var('idx', h), h, 32)
        ptr = {}

        def start(e, stop):
            st = e.new_state()
            par = c06.params_xmss(st, w, h)
            sk, ib, r = secret(st, h, idx)
            msg, n, M = message(st)
            sig = xm.outbuf(st, 'sig', 36 + p.size + 32 * h)
            ptr.update(sk=sk, ib=ib, sig=sig, M=M)
            fr = e.push(st, need(e, 'xmss_Signmsg'), [f, par, sk, sig, msg, n])
            fr.ret = 'TOP'
            return e.explore(st, stop, 0)

        def finish(states):
            sk, sig = ptr['sk'], ptr['sig']
            for s in v.outcomes('memory safe and returns', states):
                v.eq('returns 0', s.pc, s.retval, 0, 32)
                v.bytes('index, randomiser, one-time signature', s.pc, s.bytes_at(sig, 36 + p.size), spec_head(f, w, idx, rest, ptr['M']))
                for i in range(h):
                    got = s.bytes_at(E.addp(sig, 36 + p.size + 32 * i), 32)
                    v.bytes('authentication path level %d' % i, s.pc, got, W.tn(i, tm.xor(tm.lshr(idx, i, 32), 1, 32)))
                v.bytes('index grows by one', s.pc, s.bytes_at(sk, 4), xm.tb32(tm.add(idx, 1, 32))[28:])
                v.bytes('rest of the key unchanged', s.pc, s.bytes_at(E.addp(sk, 4), 128), rest)
                v.bytes('canary', s.pc, s.bytes_at(E.addp(sig, 36 + p.size), 32), W.tn(0, idx))
        W = cut.Whole(ex, v, xm.Tree(f, w, h, rest[:32], rest[64:96]), h).install(64 << h)
        try:
            W.run(start, finish)
        except cut.Lost as e:
            v.undecided('levels by induction', str(e))
        return [v], [ex]
    return go


def tasks(ctx):
    build.warm(c06.SRCS)
    t = []
    for h in range(30, 2, -2):
        for f in (1, 0, 2):
            t.append(('%s w=16 every node h=%d' % (xm.HNAME[f], h), anyheight(f, 16, h), 300))
    for w in (2, 4, 256):
        t.append(('%s w=%d every node h=12' % (xm.HNAME[1], w), anyheight(1, w, 12), 300))
    for f in (1, 0, 2):
        for h in (10, 8, 6, 4) if not ctx.thorough else (14, 12, 10, 8, 6, 4):
            t.append(('%s w=16 h=%d' % (xm.HNAME[f], h), sign(f, 16, h), 400))
    rs.warm('xmss_sign_msg')
    for f in (1, 0, 2):
        for h in (4, 6, 8):
            t.append(('Rust %s w=16 h=%d' % (xm.HNAME[f], h), sign(f, 16, h, True), 300))
    for w in (2, 4, 256):
        t.append(('%s w=%d h=4' % (xm.HNAME[1], w), sign(1, w, 4), 300))
    return t


def native(ctx):
    return build.native_run(ctx)
