"""C10: the fast signer's traversal state yields the right signature at every index after any history."""
import random
from dv import build, frame, xm, term as tm, vc, seq
from dv import exec as E
from props.c04 import need
from props import c06, c09, rs

NOTE = ('Proved at the listed heights for all keys and messages and EVERY index: from the state reached by i moves, signing gives the full-tree signature of index i and '
        'leaves exactly the state of i+1 moves; hence (induction over the history) every mix of signatures and moves is right. The Rust crate\'s fast signer in the same way at h = 4, 6, 8. Larger heights are outside the bound. Differential run beside it.')
ASSUMPTIONS = ['wots_sign, wots_pkgen by contract (C04), l_tree by contract (C06), prf, h_msg, hash_h by contract (C02)',
               'height bound: the traversal is unrolled over all 2^h indices of each listed height',
               'the signer object hands its own buffers to xmssfast_update / xmssfast_Signmsg (C11, C18 cover the wrapper)',
               'Rust: the traversal state is built as XMSSFast::initialize_tree builds it (native/rustshim3.rs)',
               'the Rust files are compiled with stand-ins for the absent sha2 crate, from copies in which #[inline(never)] is inserted before the functions that have contracts; message lengths there are 31-bit']


class Run(object):
    """executes the real functions on one symbolic key; every call must have exactly one outcome, a normal return"""
    def __init__(self, ctx, f, w, h, v):
        self.f, self.w, self.h, self.v = f, w, h, v
        self.setup(ctx, f, w, h)
        a, b, c = c06.keyseeds(self.S)
        self.tree = xm.Tree(f, w, h, a, c)
        self.rest = a + b + c + list(xm.bb(self.tree.root()))
        self.st = self.start()
        self.hints = [{'msglen': k} for k in (0, 1, 2, 31, 64, 100, 3, 200)]

    def setup(self, ctx, f, w, h):
        ex = self.ex = ctx.executor(c06.mods(), xm.tree_callees())
        ex.max_unroll = 5000
        ex.max_steps = 1 << 40
        st = ex.new_state()
        self.par = c06.params_xmss(st, w, h)
        sd, self.S = xm.buf(st, 'seed', 48)
        self.pk, _ = xm.buf(st, 'pk0', 64, ro=False)
        self.sk, _ = xm.buf(st, 'sk0', 132, ro=False)
        self.bds = c06.Bds(st, h)
        self.live = [self.bds.stack, self.bds.levels, self.bds.auth, self.bds.keep, self.bds.th, self.bds.nodes, self.bds.retain, self.bds.p, self.sk, self.par]
        self.msg, self.n, self.M = c09.message(st)
        self.st0, self.sd = st, sd

    def start(self):
        return self.call('key generation returns', self.st0, 'xmssfast_Genkeypair', [self.f, self.par, self.pk, self.sk, self.bds.p, self.sd])

    def call(self, what, st, name, args):
        st = st.fork()
        st.frames = []
        outs = self.v.outcomes(what, self.ex.call_function(st, need(self.ex, name), args))
        if len(outs) != 1:
            raise E.Unsupported('%s: %d outcomes' % (name, len(outs)))
        return outs[0]

    def update(self, st, j):
        return self.call('move to %d is memory safe and returns' % j, st, 'xmssfast_update', [self.f, self.par, self.sk, self.bds.p, j])

    def sign(self, st, i):
        p = xm.WP(self.w)
        st = st.fork()
        self.sig = xm.outbuf(st, 'sig%d' % i, 36 + p.size + 32 * self.h)
        return self.call('signing at %d is memory safe and returns' % i, st, 'xmssfast_Signmsg', [self.f, self.par, self.sk, self.bds.p, self.sig, self.msg, self.n])

    def image(self, st):
        return [tuple(st.obj(p).data) for p in self.live]

    def check_sign(self, s, i):
        p, v, h = xm.WP(self.w), self.v, self.h
        v.bytes('index, randomiser, one-time signature at %d' % i, [], s.bytes_at(self.sig, 36 + p.size), c09.spec_head(self.f, self.w, i, self.rest, self.M), self.hints)
        auth = [b for l in range(h) for b in xm.bb(self.tree.node(l, (i >> l) ^ 1))]
        v.bytes('authentication path at %d' % i, [], s.bytes_at(E.addp(self.sig, 36 + p.size), 32 * h), auth, self.hints)
        v.bytes('key after signing at %d' % i, [], s.bytes_at(self.sk, 132), xm.tb(i + 1, 4) + self.rest, self.hints)

    def same_state(self, name, a, b):
        ia, ib = self.image(a), self.image(b)
        if [len(x) for x in ia] != [len(x) for x in ib]:
            return self.v.undecided(name, 'states differ in shape')
        for x, y in zip(ia, ib):
            for p, q in zip(x, y):
                if not vc.same(p, q) and p != q:
                    if p.__class__ is tuple and q.__class__ is tuple and E.cellbyte(p) == E.cellbyte(q):
                        continue
                    return self.v.undecided(name, 'states differ in representation')
        return self.v.add(name, 'discharged', 'normal-form')


class RustRun(Run):
    """the Rust crate's fast signer, its state as XMSSFast lays it out"""
    FNS = ('r_bds_size', 'r_bds_new', 'r_fast_gen', 'r_fast_update', 'r_fast_sign')

    def setup(self, ctx, f, w, h):
        ex = self.ex = rs.executor(ctx, xm.tree_callees(), self.FNS, rs.TREE)
        ex.max_unroll = 5000
        ex.max_steps = 1 << 40
        st = ex.new_state()
        self.par = c06.params_xmss(st, w, h)
        self.sd, self.S = xm.buf(st, 'seed', 48, ro=False)
        self.pk = st.alloc(64, name='pk0')
        st.write_bytes(self.pk, [0] * 64)
        self.sk = st.alloc(132, name='sk0')
        st.write_bytes(self.sk, [0] * 132)
        self.hf = rs.hf(st, f)
        self.msg, self.n, self.M = c09.message(st, True)
        n, = ex.call_function(st, rs.need(ex, 'r_bds_size'), [])
        st = n
        st.frames = []
        self.state = st.alloc(n.retval, name='bds_state')
        self.st0 = self.call('state', st, 'r_bds_new', [self.state, h])

    def start(self):
        return self.call('key generation returns', self.st0, 'r_fast_gen', [self.hf, self.par, self.pk, self.sk, self.state, self.sd], 0)

    def call(self, what, st, name, args, ret=None):
        st = st.fork()
        st.frames = []
        outs = self.v.outcomes(what, self.ex.call_function(st, rs.need(self.ex, name), args))
        if len(outs) != 1:
            raise E.Unsupported('%s: %d outcomes' % (name, len(outs)))
        if ret is not None:
            self.v.eq('%s: value' % what, [], outs[0].retval, ret, 32)
        return outs[0]

    def image(self, st):
        """every object reachable from the key, the parameters and the traversal state"""
        out, todo, seen = [], [self.sk, self.par, self.state], set()
        while todo:
            p = todo.pop(0)
            if p.o in seen:
                continue
            seen.add(p.o)
            row = [p.o]
            for c in st.obj(p).data:
                if c.__class__ is tuple and c[0].__class__ is E.Ptr:
                    if c[1] == 0 and c[0].o in st.mem:
                        todo.append(c[0])
                    c = (c[0].o, c[0].f) + c[1:]
                row.append(c)
            out.append(row)
        return out

    def update(self, st, j):
        return self.call('move to %d is memory safe and returns' % j, st, 'r_fast_update', [self.hf, self.par, self.sk, self.state, j], 0)

    def sign(self, st, i):
        n = 36 + xm.WP(self.w).size + 32 * self.h
        st = st.fork()
        self.sig = xm.outbuf(st, 'sig%d' % i, n)
        st.write_bytes(self.sig, [0] * n)
        return self.call('signing at %d is memory safe and returns' % i, st, 'r_fast_sign', [self.hf, self.par, self.sk, self.state, self.sig, n, self.msg, self.n], 0)


def rust_histories(f, w, h, n, seed):
    """all signatures in order; every single move and jump followed by a signature; mixed histories"""
    def go(ctx):
        v = vc.VC('Rust fast signer', '%s w=%d h=%d' % (xm.HNAME[f], w, h))
        r = RustRun(ctx, f, w, h, v)
        rng = random.Random(seed)
        N = 1 << h
        v.bytes('generated key', [], r.st.bytes_at(r.sk, 132), [0] * 4 + r.rest)
        cur = r.st
        for i in range(N):
            if i == 3:
                v.bytes('canary', [], cur.bytes_at(r.sk, 4), [0] * 4, r.hints)
            cur = r.sign(cur, i)
            r.check_sign(cur, i)
        S = [r.st]
        for i in range(N):
            r.check_sign(r.sign(S[i], i), i)
            if i + 1 < N:
                S.append(r.update(S[i], i + 1))
        for i, j in [(0, N - 1)] + [tuple(sorted(rng.sample(range(N), 2))) for _ in range(n)]:
            r.check_sign(r.sign(r.update(S[i], j), j), j)
        for _ in range(n // 4):
            cur, i = r.st, 0
            while i < N:
                if rng.random() < 0.4:
                    cur = r.sign(cur, i)
                    r.check_sign(cur, i)
                    i += 1
                else:
                    i = min(N - 1, i + rng.choice([0, 1, 1, 2, 3, 5, 8]))
                    cur = r.update(cur, i)
                    if i == N - 1:
                        r.check_sign(r.sign(cur, i), i)
                        break
        return [v], [r.ex]
    return go


def steps(f, w, h, lo, hi, rust=False):
    """signing and moving from S_i, lo <= i < hi"""
    def go(ctx):
        v = vc.VC('Rust fast signer' if rust else 'fast signer', '%s w=%d h=%d' % (xm.HNAME[f], w, h))
        r = (RustRun if rust else Run)(ctx, f, w, h, v)
        N = 1 << h
        cur = r.st
        if lo == 0:
            v.bytes('generated key', [], cur.bytes_at(r.sk, 132), [0] * 4 + r.rest)
        i = 0
        while i < lo:
            cur = r.update(cur, i + 1)
            i += 1
        if hi - lo < 8:
            v.bytes('canary', [], cur.bytes_at(r.bds.auth, 32), xm.bb(r.tree.node(0, lo)), r.hints)
        while i < hi:
            v.bytes('index before %d' % i, [], cur.bytes_at(r.sk, 132), xm.tb(i, 4) + r.rest)
            t = r.sign(cur, i)
            r.check_sign(t, i)
            u = r.update(cur, i)
            r.same_state('move from %d to itself changes nothing' % i, u, cur)
            if i + 1 < N:
                nx = r.update(cur, i + 1)
                r.same_state('signing at %d leaves the state of a move' % i, t, nx)
                cur = nx
            i += 1
        return [v], [r.ex]
    return go


def histories(f, w, h, seed, n):
    """mixed histories: jumps of several steps and signatures, every signature compared with the full-tree one"""
    def go(ctx):
        v = vc.VC('fast signer', '%s w=%d h=%d' % (xm.HNAME[f], w, h))
        r = Run(ctx, f, w, h, v)
        rng = random.Random(seed)
        N = 1 << h
        S = [r.st]
        while len(S) < N:
            S.append(r.update(S[-1], len(S)))
        pairs = [(i, j) for i in range(N) for j in range(i + 2, N)] if h == 4 else [(0, N - 1)] + [tuple(sorted(rng.sample(range(N), 2))) for _ in range(n)]
        for i, j in pairs:
            r.same_state('move from %d to %d is %d single moves' % (i, j, j - i), r.update(S[i], j), S[j])
        # only signatures, from the start to the end
        cur = r.st
        for i in range(N):
            cur = r.sign(cur, i)
            r.check_sign(cur, i)
        for _ in range(n // 4):
            cur, i = r.st, 0
            while i < N:
                if rng.random() < 0.4:
                    cur = r.sign(cur, i)
                    r.check_sign(cur, i)
                    i += 1
                else:
                    j = min(N, i + rng.choice([0, 1, 1, 2, 3, 5, 8]))
                    if j == N:
                        break
                    cur = r.update(cur, j)
                    i = j
        return [v], [r.ex]
    return go


def tasks(ctx):
    build.warm(c06.SRCS)
    rs.warm(*RustRun.FNS)
    t = [('Rust histories h=%d' % h, rust_histories(1, 16, h, 8, ctx.seed), 300) for h in (4, 6)]
    t += [('Rust %s w=16 h=%d' % (xm.HNAME[f], h), steps(f, 16, h, 0, 1 << h, True), 300) for f, h in ((1, 4), (0, 4), (2, 4), (1, 6))]
    t += [('Rust %s w=%d h=4' % (xm.HNAME[1], w), steps(1, w, 4, 0, 16, True), 300) for w in (4, 256)]
    t += [('Rust %s w=16 h=8 from %d' % (xm.HNAME[1], lo), steps(1, 16, 8, lo, lo + 32, True), 300) for lo in range(0, 256, 32)]
    if ctx.thorough:
        t += [('Rust %s w=16 h=10 from %d' % (xm.HNAME[1], lo), steps(1, 16, 10, lo, lo + 64, True), 600) for lo in range(0, 1024, 64)]
    big = [(1, 16, 8)] + ([(0, 16, 8), (2, 16, 8)] if ctx.thorough else [])
    if ctx.thorough:
        t += [('%s w=16 h=12 from %d' % (xm.HNAME[1], lo), steps(1, 16, 12, lo, lo + 64), 850) for lo in range(0, 4096, 64)]
    t += [('%s w=16 h=10 from %d' % (xm.HNAME[1], lo), steps(1, 16, 10, lo, lo + 64), 400) for lo in range(960, -1, -64)]
    for f, w, h in big:
        t += [('%s w=%d h=%d from %d' % (xm.HNAME[f], w, h, lo), steps(f, w, h, lo, lo + 32), 300) for lo in range(0, 1 << h, 32)]
    for f in (1, 0, 2):
        t.append(('%s w=16 h=6' % xm.HNAME[f], steps(f, 16, 6, 0, 64), 300))
        t.append(('%s w=16 h=4' % xm.HNAME[f], steps(f, 16, 4, 0, 16), 200))
    for w in (2, 4, 256):
        t.append(('%s w=%d h=4' % (xm.HNAME[1], w), steps(1, w, 4, 0, 16), 300))
    t.append(('canary', steps(1, 16, 4, 3, 4), 200))
    t.append(('histories h=4', histories(1, 16, 4, ctx.seed, 8), 300))
    t.append(('histories h=6', histories(1, 16, 6, ctx.seed, 12), 300))
    return t


def native(ctx):
    return build.native_run(ctx)
