"""C05: the digits that are signed are base-w digits of the digest and of its full checksum, hence incomparable for distinct digests."""
import time
import z3
from dv import build, frame, xm, solve, term as tm, vc
from dv import exec as E
from props import c04

NOTE = ('Proved for w in {2,4,16,256}, all 32-byte digests: the chain positions used by signing and by recovery are the base-w digits of digest and full checksum; '
        'incomparability of distinct digests follows by lemmas over integers discharged by z3 (any two digests). Bounded differential run beside it.')
ASSUMPTIONS = ['prf and hash_f by contract (C02); gen_chain by contract (C04)',
               'incomparability is stated over the digit functions proved of the code; the lemmas use unbounded integers, the digits are below w and sums below 2^31 (also proved)']


def positions(which, f, w):
    def go(ctx):
        p = xm.WP(w)
        calls = []

        def chain(ex, st, a):
            ad = a[7]
            st.ghost['n'] = st.ghost.get('n', 0) + 1
            calls.append((st.load(E.addp(ad, 20), 4), a[3], a[4], list(st.pc)))
            return xm.c_chain(ex, st, a)
        cs = xm.wots_callees()
        cs['gen_chain'] = chain
        ex = ctx.executor(c04.mods(), cs)
        ex.max_unroll = 300
        v = vc.VC('wots_sign' if which == 'sign' else 'wots_pkFromSig', 'w=%d' % w)
        st = ex.new_state()
        par, seed, S, ad, A = c04.setup(ex, st, p)
        dg, D = xm.buf(st, 'digest', 32)
        dd = xm.digits(p, D)
        if which == 'sign':
            sk, K = xm.buf(st, 'sk_seed', 32)
            sig = xm.outbuf(st, 'sig', p.size)
            args = [f, sig, dg, sk, par, seed, ad]
        else:
            sig, G = xm.buf(st, 'sig', p.size)
            pk = xm.outbuf(st, 'pk', p.size)
            args = [f, pk, sig, dg, par, seed, ad]
        outs = v.outcomes('memory safe and returns', ex.call_function(st, c04.need(ex, v.fn), args))
        if not calls:
            v.undecided('chain positions', 'gen_chain is not called under its contract')
        for s in outs:
            v.eq('one chain per digit', s.pc, s.ghost.get('n', 0), p.len, 32)
        for i, (c, start, steps, pc) in enumerate(calls):
            if c.__class__ is not int or c >= p.len:
                v.undecided('chain number', 'chain address %s' % tm.show(c, 3))
                continue
            pos = steps if which == 'sign' else start
            v.eq('position of chain %d is its digit' % c, pc, pos, dd[c], 32)
            if which == 'sign':
                v.eq('chain %d starts at 0' % c, pc, start, 0, 32)
            else:
                v.eq('chain %d runs to w-1' % c, pc, tm.add(start, steps, 32), w - 1, 32)
        return [v], [ex]
    return go


def zcheck(v, name, hyps, goal):
    s = z3.Solver()
    s.set('timeout', 60000)
    s.add(*hyps)
    s.add(z3.Not(goal))
    t0 = time.time()
    r = s.check()
    solve.STATS['z3_time'] += time.time() - t0
    solve.STATS['z3_queries'] += 1
    if r == z3.unsat:
        return v.add(name, 'discharged', 'z3')
    return v.add(name, 'refuted' if r == z3.sat else 'undecided', 'z3', str(s.model())[:400] if r == z3.sat else s.reason_unknown())


def lemmas(w):
    def go(ctx):
        p = xm.WP(w)
        v = vc.VC('lemma: incomparable digits', 'w=%d' % w)
        # 1. the message digits determine the digest
        D, D2 = xm.arr('d', 32), xm.arr('e', 32)
        a, b = xm.digits(p, D), xm.digits(p, D2)
        same = [tm.eq(x, y, 32) for x, y in zip(a[:p.l1], b[:p.l1])]
        k = 8 // p.lw
        for i in range(32):
            v.holds('equal digits give equal byte %d' % i, same[k * i:k * i + k], tm.eq(D[i], D2[i], 8))
        # 2. over the integers: pointwise >= and somewhere > makes the checksum smaller
        X = [z3.Int('x%d' % i) for i in range(p.l1)]
        Y = [z3.Int('y%d' % i) for i in range(p.l1)]
        ge = [z3.And(y >= x, x >= 0, y <= p.w - 1) for x, y in zip(X, Y)]
        csum = lambda V: z3.Sum([p.w - 1 - t for t in V])
        for j in range(p.l1):
            zcheck(v, 'digit %d larger and none smaller: checksum smaller' % j, ge + [Y[j] > X[j]], csum(Y) < csum(X))
        # 3. a smaller number (below w^len_2) has a smaller digit
        C = [z3.Int('c%d' % i) for i in range(p.l2)]
        E2 = [z3.Int('e%d' % i) for i in range(p.l2)]
        num = lambda V: z3.Sum([t * w ** (p.l2 - 1 - i) for i, t in enumerate(V)])
        rng = [z3.And(t >= 0, t < w) for t in C + E2]
        zcheck(v, 'smaller checksum has a smaller digit', rng + [num(E2) < num(C)], z3.Or([y < x for x, y in zip(C, E2)]))
        # 4. the digits of the checksum are those of the whole checksum (nothing truncated), in the machine's arithmetic
        zcheck(v, 'checksum fits its digits', [z3.And(x >= 0, x <= p.w - 1) for x in X], z3.And(csum(X) >= 0, csum(X) < w ** p.l2))
        c = tm.var('checksum', 32)
        val = 0
        for i in range(p.l2):
            sh = p.lw * (p.l2 - 1 - i)
            val = tm.add(val, tm.mul(tm.zext(tm.extract(c, sh, p.lw), p.lw, 32), 1 << sh, 32), 32)
        v.holds('the digits of a checksum below w^len_2 add up to it', [tm.ult(c, w ** p.l2, 32)], tm.eq(val, c, 32))
        # 5. together: message digits of the second >= those of the first, digests different, all signed digits >= : impossible
        S1, S2 = z3.Int('s1'), z3.Int('s2')
        zcheck(v, 'distinct digests are incomparable', rng + [S1 == num(C), S2 == num(E2), z3.And([y >= x for x, y in zip(C, E2)]), S2 < S1], z3.BoolVal(False))
        v.holds('canary', [], tm.eq(a[0], a[1], 32))
        return [v], []
    return go


def tasks(ctx):
    t = []
    for w in (2, 4, 16, 256):
        t.append(('signing w=%d' % w, positions('sign', 1, w), 200))
        t.append(('recovery w=%d' % w, positions('verify', 1, w), 200))
        t.append(('lemmas w=%d' % w, lemmas(w), 200))
        t.append(('gen_chain w=%d' % w, c04.chain(1, w), 200))
    t.append(('parameters', c04.params, 60))
    return t


def native(ctx):
    return build.native_run(ctx)
