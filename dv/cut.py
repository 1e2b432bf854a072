"""Cut point at the main loop of a tree-hash computation: an inductive invariant over the real code, for heights whose trees cannot be unrolled.

The loop is the outermost one from which the first one-time key is generated.  Its state at the header is learned from its first executions
(which register follows the index, which the number of stack entries, which object holds the nodes, which their levels), then checked:

  state(i):  the stack holds, top last, TN(b, (i >> b) - 1) for the bits b set in i, highest first, and beside it those b; the index is i.

One iteration is executed by the engine from an ARBITRARY such state, for each number t of trailing ones of i and each number p of bits set above;
it must reach the header again in state(i+1).  From state(2^h) the rest of the function is executed; the stack's entry is then TN(h, 0).
What else the loop changes is havocked (arbitrary where the code leaves it initialised, unreadable otherwise).
TN(0, j) = LEAF(j), TN(l+1, j) = NODE(l, j, TN(l, 2j), TN(l, 2j+1)): the tree of the specification."""
from . import term as tm, xm, exec as E, loops, seq

LEARN = 8


class Lost(Exception):
    """the code does not have the expected shape: nothing is claimed"""


class Found(Exception):
    pass


def locate(ctx_exec, run, names=('wots_pkgen',)):
    """(depth, function, header) of the outermost loop around the first call of one of the functions"""
    ex = ctx_exec
    hit = []

    def watch(name):
        name = ex.alias.get(name, name)
        old = ex.contracts[name]

        def probe(ex_, st, a):
            if hit:
                return old(ex_, st, a)
            hit.append([(d + 1, f.fn, f.b) for d, f in enumerate(st.frames)])
            raise E.Unsupported('located')
        ex.contracts[name] = probe
    for name in names:
        watch(name)
    outs = run(ex)
    if not hit:
        raise Lost('%s is not called: %s' % (names[0], [(s.out, str(s.exc)[:200]) for s in outs]))
    for d, c, b in hit[0]:
        best = None
        for hd, body in c.loops.items():
            if b in body and (best is None or len(body) > len(best[1])):
                best = (hd, body)
        if best:
            return d, c, best[0]
    raise Lost('no loop around the leaf computation')


def pop(i):
    return bin(i).count('1')


def bits(i):
    return [b for b in range(40, -1, -1) if i >> b & 1]


def only(states, want):
    if len(states) != 1 or states[0].out != want:
        raise Lost('outcomes %s' % [(s.out, str(s.exc)[:200]) for s in states])
    return states[0]


def fit(vals, w):
    """(a, b, c) with vals[i-1] = a*i + b*popcount(i) + c mod 2^w for i = 1.., or None"""
    if any(v.__class__ is not int for v in vals):
        return None
    M = (1 << w) - 1
    s = [v if v < (1 << (w - 1)) else v - (1 << w) for v in vals]
    # i=1: a+b+c, i=2: 2a+b+c, i=3: 3a+2b+c
    a = s[1] - s[0]
    b = s[2] - s[1] - a
    c = s[0] - a - b
    if all((a * i + b * pop(i) + c - v) & M == 0 for i, v in enumerate(s, 1)):
        return a, b, c
    return None


class Shape(object):
    pass


def learn(ex, S, depth, tree):
    """S[1..LEARN]: states at the header.  -> Shape"""
    sh = Shape()
    live = loops.liveness(S[1].frames[depth - 1].fn)[S[1].frames[depth - 1].b]
    sh.live = live
    sh.regs, sh.dead = {}, []
    for r in sorted(live):
        vals = [s.frames[depth - 1].R[r] for s in S[1:]]
        if all(loops.same(v, vals[0]) for v in vals):
            continue
        if all(v.__class__ is E.Ptr and v.o == vals[0].o for v in vals):
            k = fit([v.f for v in vals], 64)
            if k is not None:
                sh.regs[r] = (vals[0].o,) + k
                continue
        else:
            k = fit(vals, S[1].frames[depth - 1].fn.rw[r] or 64)
            if k is not None:
                sh.regs[r] = (None,) + k
                continue
        sh.dead.append(r)
    if not any(k[1] for k in sh.regs.values()):
        raise Lost('no register follows the index')
    sh.stack, sh.levels, sh.havoc = None, None, {}
    for o, ob in S[1].mem.items():
        if not ob.alive or ob.ro:
            continue
        obs = [s.mem.get(o) for s in S[1:]]
        if any(x is None or not x.alive or x.size != ob.size for x in obs):
            continue
        if all(x is ob for x in obs):
            continue
        if any(x.data is None for x in obs):
            raise Lost('object %s of symbolic size' % ob.name)
        if sh.stack is None and ob.size >= 32 * 3:
            if all(list(s.bytes_at(E.Ptr(o, 32 * k), 32)) == list(xm.bb(tree.node(b, (i >> b) - 1)))
                   for i, s in list(enumerate(S))[1:] for k, b in enumerate(bits(i))):
                sh.stack = o
                continue
        if sh.levels is None:
            for es in (1, 2, 4, 8):
                if ob.size >= 3 * es and all(s.load(E.Ptr(o, es * k), es) == b for i, s in list(enumerate(S))[1:] for k, b in enumerate(bits(i))):
                    sh.levels = (o, es)
                    break
            if sh.levels is not None and sh.levels[0] == o:
                continue
        for j in range(ob.size):
            cs = [x.data[j] for x in obs]
            if any(not eqc(c, cs[0]) for c in cs):
                sh.havoc.setdefault(o, {})[j] = all(init(c) for c in cs)
    if sh.stack is None or sh.levels is None:
        raise Lost('stack of nodes not recognised' if sh.stack is None else 'levels of the stack not recognised')
    return sh


def init(c):
    return c is not None and c.__class__ is not E.Maybe and not (c.__class__ is tuple and c[0].__class__ is not E.T and c[0].__class__ is not int)


def eqc(a, b):
    if a is b:
        return True
    if a.__class__ is tuple and b.__class__ is tuple:
        return a[1:] == b[1:] and (a[0] is b[0] or a[0].__class__ is b[0].__class__ and a[0].__class__ is not E.T and a[0] == b[0])
    return a.__class__ is b.__class__ and a.__class__ is int and a == b


def build(sh, base, depth, i, n, entries, levels):
    """the state of the invariant at index i with n stack entries"""
    s = base.fork()
    s.out = None
    fr = s.frames[depth - 1]
    for r, (o, a, b, c) in sh.regs.items():
        x = base.frames[depth - 1].R[r]
        val = x.f if o is not None else x
        w = 64 if o is not None else fr.fn.rw[r]
        if not w:
            raise Lost('width of a live register')
        m = (1 << w) - 1
        k = (b * n + c) & m
        if a:
            iw = tm.zext(i, 32, w) if w > 32 else tm.trunc(i, 32, w) if w < 32 else i
            if i.__class__ is int:
                iw = i & m
            k = tm.add(tm.mul(iw, a & m, w), k, w)
        fr.R[r] = E.Ptr(o, k) if o is not None else k
    for r in sh.dead:
        fr.R[r] = E.U
    for o, cells in sh.havoc.items():
        d = s.obj(E.Ptr(o, 0), True).data
        for j, ini in cells.items():
            d[j] = None
        for j, ini in sorted(cells.items()):
            if ini:
                d[j] = tm.fresh('old', 8)
    if sh.stack is None:
        return s
    ob = s.obj(E.Ptr(sh.stack, 0), True)
    ob.data[:] = [None] * ob.size
    for k, e in enumerate(entries):
        s.write_bytes(E.Ptr(sh.stack, 32 * k), list(e))
    o, es = sh.levels
    ob = s.obj(E.Ptr(o, 0), True)
    ob.data[:] = [None] * ob.size
    for k, l in enumerate(levels):
        s.store(E.Ptr(o, es * k), l if l.__class__ is int else tm.zext(l, 8, 8 * es) if es > 1 else l, es)
    return s


def index(h, t, p):
    """a symbolic index with exactly t trailing ones, bit t clear and (p > 0) some higher bit set, below 2^h; and its constraints"""
    if p == 0:
        return (1 << t) - 1, []
    n = h - t - 1
    hi = tm.var('hi', n)
    i = tm.or_(tm.shl(tm.zext(hi, n, 32), t + 1, 32), (1 << t) - 1, 32)
    return i, [tm.ne(hi, 0, n)]


def treehash(ex, v, start, tree, h, finish):
    """v: VC that receives the obligations; start(): state and function call up to the outcome states: start(ex, stop) -> states;
    finish(states, root): obligations about the states after the loop, root = 32 bytes standing for TN(h, 0)"""
    depth, fn, head = locate(ex, lambda e: start(e, None))
    at = (depth, head, fn)
    S = [only(start(ex, at), 'stop')]
    base = 0
    for _ in range(LEARN):
        s = S[-1].fork()
        S.append(only(ex.explore(s, at, base), 'stop'))
    sh = learn(ex, S, depth, tree)
    fs, w, sk, seed = tree.a
    for _ in range(6):
        grown = False
        for t in range(h + 1):
            for p in range(0, h - t if t < h else 1):
                if p and h - t - 1 < 1:
                    continue
                grown |= step(ex, v, sh, S[1], at, h, t, p, tree)
        if not grown:
            break
        v.obs, v.nref = [], 0
    else:
        raise Lost('the set of changed memory does not settle')
    root = list(tm.blob_bytes(tm.blobvar('root', 32)))
    s = build(sh, S[1], depth, 1 << h, 1, [root], [h])
    finish(ex.explore(s, None, base), root)


def step(ex, v, sh, S1, at, h, t, p, tree):
    depth = at[0]
    f, w, sk, seed = tree.a
    i, pc = index(h, t, p)
    low = [list(tm.blob_bytes(tm.blobvar('T%d' % j, 32))) for j in range(t)]
    high = [list(tm.blob_bytes(tm.blobvar('S%d' % j, 32))) for j in range(p)]
    L = [tm.var('L%d' % j, 8) for j in range(p)]
    s = build(sh, S1, depth, i, p + t, high + low[::-1], L + list(range(t - 1, -1, -1)))
    for c in pc + ([tm.ult(t, L[-1], 8), tm.ult(L[0], h, 8)] if p else []) + [tm.ult(b, a, 8) for a, b in zip(L, L[1:])]:
        s.assume(c)
    n0 = ex.nobj
    outs = ex.explore(s, at, 0)
    nm = 't=%d p=%d' % (t, p)
    x = xm.LEAF(f, w, sk, seed, i)
    for j in range(t):
        x = xm.NODE(f, seed, j, tm.lshr(i, j + 1, 32), tm.cat(low[j]), x)
    x = list(xm.bb(x))
    i1 = tm.add(i, 1, 32)
    # what the loop leaves behind, compared with the invariant at i + 1
    ref = build(sh, S1, depth, i1, p + 1, high + [x], L + [t])
    for o in outs:
        if o.out != 'stop':
            raise Lost('iteration %s: %s %s' % (nm, o.out, str(o.exc)[:300]))
    for s in outs:
        a, b = s.frames[depth - 1], ref.frames[depth - 1]
        for r in sh.live:
            if r in sh.dead:
                continue
            q, u = a.R[r], b.R[r]
            if loops.same(q, u):
                continue
            if r not in sh.regs:
                raise Lost('register changed in a later iteration')
            if q.__class__ is E.Ptr:
                if u.__class__ is not E.Ptr or q.o != u.o:
                    raise Lost('pointer register')
                q, u = q.f, u.f
            v.eq('iteration %s: loop registers of the next index' % nm, s.pc, q, u, a.fn.rw[r])
        v.bytes('iteration %s: stack holds the merged node on the lower ones' % nm, s.pc, s.bytes_at(E.Ptr(sh.stack, 0), 32 * (p + 1)), [y for e in high + [x] for y in e])
        o, es = sh.levels
        got = [s.load(E.Ptr(o, es * k), es) for k in range(p + 1)]
        if any(g.__class__ not in (int, E.T) for g in got):
            raise Lost('levels of a later iteration')
        v.holds('iteration %s: levels of the stack' % nm, s.pc, tm.conj([tm.eq(g, u if u.__class__ is int else tm.zext(u, 8, 8 * es) if es > 1 else u, 8 * es) for g, u in zip(got, L + [t])]))
        g = grow(sh, S1, s)
        if g:
            return True
    return False


def grow(sh, S1, s, skip=()):
    """memory changed by the iteration beyond what the invariant lets change: add it (True), or nothing (False)"""
    ch = False
    for o, ob in S1.mem.items():
        if not ob.alive or o in (sh.stack, sh.levels[0]) or o in skip:
            continue
        x = s.mem.get(o)
        if x is ob:
            continue
        if x is None or not x.alive or x.size != ob.size:
            raise Lost('object released in a later iteration')
        hv = sh.havoc.get(o, {})
        if x.sym is not None:
            if ob.sym is not None:
                raise Lost('object of symbolic size')
            for j in range(ob.size):
                if hv.get(j, True):
                    sh.havoc.setdefault(o, {})[j] = False
                    ch = True
            continue
        for j in range(ob.size):
            if j in hv:
                if hv[j] and not init(x.data[j]):
                    hv[j] = False
                    ch = True
            elif not eqc(x.data[j], ob.data[j]):
                sh.havoc.setdefault(o, {})[j] = init(x.data[j]) and init(ob.data[j])
                ch = True
    return ch


def tidy(ex, s):
    """objects wholly equal to one range: described as that range"""
    for o, ob in list(s.mem.items()):
        if not ob.alive or ob.sym is None or ob.ro or len(ob.sym.log) < 2 or ob.size.__class__ is int:
            continue
        try:
            ps = seq.canon(seq.read_range(ex, s, E.Ptr(o, 0), ob.size))
        except E.Unsupported:
            continue
        if len(ps) == 1 and ps[0].__class__ is tuple:
            d = E.SymData()
            d.log = [('cp', 0, ob.size, None, ps)]
            s.obj(E.Ptr(o, 0), True).sym = d
    return s


# ------------------------------------------------------------------ text with line breaks
class Lines(object):
    """Invariant of the loop that writes n bytes as text, with a break before each byte whose line is full.  With T(0) empty and
      T(i+1) = T(i) . (break if c(i) = wrap) . text of byte i,     c(0) = 0, c(i+1) = 1 if c(i) = wrap else c(i) + 1,
    at position i > 0: the buffer holds T(i) (opaque, of length 2i + q, q breaks), 1 <= c <= wrap, every register and changed word is the linear
    function of i, c, q learned from first executions with wrap = 2 and wrap = 3.  Checked: one iteration from an arbitrary such state, and the exit."""
    def __init__(self, ex, v, wrap, n):
        self.ex, self.v, self.wrap, self.n = ex, v, wrap, n

    def sample(self, S1, at, w):
        """values at positions 1.. with wrap = w: [(i, c, q, state)]"""
        s = S1.fork()
        s.assume(tm.eq(self.wrap, w, 32))
        s.assume(tm.ule(16, self.n, 64))
        out = [(1, 1, 0, s)]
        for i in range(2, 2 * w + 3):
            s = only(self.ex.explore(s.fork(), at, 0), 'stop')
            out.append((i, (i - 1) % w + 1, (i - 1) // w, s))
        return out

    def fit(self, A, B, vals, w):
        """(a, b, d, e) with value = a*i + b*c + d*q + e on all samples (A: wrap 2, B: wrap 3; vals in that order), or None"""
        if any(x.__class__ is not int for x in vals):
            return None
        a2, a3 = vals[:len(A)], vals[len(A):]
        s1 = a3[1] - a3[0]                  # a + b
        s2 = a2[2] - a2[1]                  # a - b + d
        s3 = a3[3] - a3[2]                  # a - 2b + d
        b = s2 - s3
        a = s1 - b
        d = s2 - a + b
        e = a2[0] - a - b
        M = (1 << w) - 1
        if all((a * i + b * c + d * q + e - x) & M == 0 for (i, c, q, _), x in zip(A + B, vals)):
            return a & M, b & M, d & M, e & M
        return None

    def value(self, k, w, i, c, q):
        t = k[3]
        for x, f in zip((i, c, q), k):
            if f:
                x = x & ((1 << w) - 1) if x.__class__ is int else x if w == 64 else tm.trunc(x, 64, w)
                t = tm.add(t, tm.mul(x, f, w), w)
        return t

    def learn(self, S1, at):
        A, B = self.sample(S1, at, 2), self.sample(S1, at, 3)
        states = [x[3] for x in A + B]
        fr = states[0].frames[at[0] - 1]
        self.live = loops.liveness(fr.fn)[fr.b]
        self.regs, self.words, self.buf, self.dead, self.havoc = {}, {}, None, [], {}
        for r in sorted(self.live):
            vals = [s.frames[at[0] - 1].R[r] for s in states]
            if all(loops.same(x, vals[0]) for x in vals):
                continue
            ptr = all(x.__class__ is E.Ptr and x.o == vals[0].o for x in vals)
            w = 64 if ptr else fr.fn.rw[r] or 64
            k = self.fit(A, B, [x.f for x in vals] if ptr else vals, w)
            if k is None:
                self.dead.append(r)
            else:
                self.regs[r] = (vals[0].o if ptr else None, w, k)
        for o, ob in S1.mem.items():
            obs = [s.mem.get(o) for s in states]
            if not ob.alive or ob.ro or all(x is ob for x in obs):
                continue
            if any(x is None or not x.alive or x.size != ob.size for x in obs):
                raise Lost('object released in the loop')
            if ob.sym is not None:
                if self.buf is not None:
                    raise Lost('two texts')
                self.buf = o
                continue
            if ob.data is None or any(x.data is None for x in obs):
                raise Lost('object %s of symbolic size' % ob.name)
            if all(eqc(c, d) for x in obs for c, d in zip(x.data, ob.data)):
                continue
            at_ = 0
            while at_ < ob.size:
                for sz in (8, 4, 2, 1):
                    if at_ % sz or at_ + sz > ob.size:
                        continue
                    if sz == 1 or all(eqc(c, d) for x in obs for c, d in zip(x.data[at_:at_ + sz], ob.data[at_:at_ + sz])):
                        k = None
                        break
                    if any(c is None or c.__class__ is E.Maybe for x in obs for c in x.data[at_:at_ + sz]):
                        continue
                    try:
                        vals = [s.load(E.Ptr(o, at_), sz) for s in states]
                    except E.Unsupported:
                        continue
                    ptr = all(x.__class__ is E.Ptr and x.o == vals[0].o for x in vals)
                    k = self.fit(A, B, [x.f for x in vals] if ptr else vals, 8 * sz)
                    if k is not None:
                        self.words[o, at_] = (sz, vals[0].o if ptr else None, k)
                        break
                if k is None:
                    for j in range(at_, at_ + sz):
                        if any(not eqc(x.data[j], ob.data[j]) for x in obs):
                            self.havoc.setdefault(o, {})[j] = all(init(x.data[j]) for x in obs)
                at_ += sz
        if self.buf is None or not any(k == (2, 0, 1, 0) for _, _, k in self.words.values()):
            raise Lost('length of the text not recognised')

    def at_pos(self, S1, depth, i, c, q, ln, text):
        s = S1.fork()
        s.out = None
        fr = s.frames[depth - 1]
        for r, (o, w, k) in self.regs.items():
            x = self.value(k, w, i, c, q)
            fr.R[r] = E.Ptr(o, x) if o is not None else x
        for r in self.dead:
            fr.R[r] = E.U
        for (o, f), (n, t, k) in self.words.items():
            x = self.value(k, 8 * n, i, c, q)
            s.store(E.Ptr(o, f), E.Ptr(t, x) if t is not None else x, n)
        for o, cells in self.havoc.items():
            d = s.obj(E.Ptr(o, 0), True).data
            for j, ini in cells.items():
                d[j] = tm.fresh('old', 8) if ini else None
        ob = s.obj(E.Ptr(self.buf, 0), True)
        ob.sym = E.SymData()
        ob.sym.log = [('cp', 0, ln, None, text)]
        return s

    def text(self, name, ln):
        return (('seq', name, 0, ln),)

    def run(self, at, S0, item, breaks, finish):
        """S0: at the loop, nothing written.  item(i): pieces of byte i; finish(states, length, text)"""
        ex, v, depth = self.ex, self.v, at[0]
        n, wrap = self.n, tm.zext(self.wrap, 32, 64)
        S0 = tidy(ex, S0.fork())
        S1 = only(ex.explore(S0.fork(), at, 0), 'stop')
        self.learn(S1, at)
        v.pieces('text of the first byte', S1.pc, seq.read_range(ex, S1, E.Ptr(self.buf, 0), 2), seq.canon(item(0)))
        one = self.at_pos(S1, depth, 1, 1, 0, 2, self.text('T', 2))
        self.compare('first byte', S1, one, depth)
        i, c, q = tm.var('i', 64), tm.var('c', 64), tm.var('q', 64)
        for _ in range(4):
            pc = [tm.ule(1, i, 64), tm.ule(1, c, 64), tm.ule(c, wrap, 64), tm.ule(c, i, 64), tm.ult(q, i, 64), tm.ule(i, n, 64), tm.eq(i, tm.add(tm.mul(q, wrap, 64), c, 64), 64)]
            ln = tm.add(tm.mul(i, 2, 64), q, 64)
            s = self.at_pos(S1, depth, i, c, q, ln, self.text('T', ln))
            for x in pc + self.division(i, c, q):
                s.assume(x)
            s.assume(tm.ult(i, n, 64))
            keep = list(v.obs), v.nref
            grown = False
            seen = 0
            for full in (0, 1):
                t = s.fork()
                x = tm.eq(c, wrap, 64)
                t.assume(x if full else tm.not_(x, 1))
                c1, q1 = (1, tm.add(q, 1, 64)) if full else (tm.add(c, 1, 64), q)
                i1 = tm.add(i, 1, 64)
                ln1 = tm.add(tm.mul(i1, 2, 64), q1, 64)
                ref = self.at_pos(S1, depth, i1, c1, q1, ln1, self.text('T', ln1))
                nm = 'line full' if full else 'room in the line'
                for o in ex.explore(t, at, 0):
                    if o.out != 'stop':
                        raise Lost('iteration: %s %s' % (o.out, str(o.exc)[:300]))
                    seen += 1
                    self.compare('iteration, %s' % nm, o, ref, depth)
                    v.pieces('iteration, %s: text' % nm, o.pc, seq.read_range(ex, o, E.Ptr(self.buf, 0), ln1), seq.canon(self.text('T', ln) + (tuple(breaks) if full else ()) + tuple(item(i))))
                    if full:
                        v.pieces('canary: no break', o.pc, seq.read_range(ex, o, E.Ptr(self.buf, 0), ln1), seq.canon(self.text('T', ln) + tuple(item(i)) + tuple(breaks)))
                    grown |= self.more(S1, o)
            if not grown:
                break
            v.obs, v.nref = keep
        else:
            raise Lost('the set of changed memory does not settle')
        if not seen:
            raise Lost('no iteration')
        i = n
        pc = [tm.ule(1, c, 64), tm.ule(c, wrap, 64), tm.ule(c, i, 64), tm.ult(q, i, 64), tm.eq(i, tm.add(tm.mul(q, wrap, 64), c, 64), 64)]
        ln = tm.add(tm.mul(n, 2, 64), q, 64)
        s = self.at_pos(S1, depth, n, c, q, ln, self.text('T', ln))
        for x in pc + self.division(n, c, q):
            s.assume(x)
        finish(ex.explore(s, None, 0), ln, self.text('T', ln))

    def division(self, i, c, q):
        """consequences of i = q * wrap + c, 1 <= c <= wrap (integer lemmas, proved apart): quotients and remainders of i and i - 1"""
        out = []
        full = tm.eq(c, tm.zext(self.wrap, 32, 64), 64)
        for w in (32, 64):
            W = tm.zext(self.wrap, 32, 64) if w == 64 else self.wrap
            I, C, Q = [x if w == 64 else tm.trunc(x, 64, 32) for x in (i, c, q)]
            out += [tm.eq(tm.urem(I, W, w), tm.ite(full, 0, C, w), w), tm.eq(tm.udiv(I, W, w), tm.add(Q, tm.ite(full, 1, 0, w), w), w),
                    tm.eq(tm.urem(tm.sub(I, 1, w), W, w), tm.sub(C, 1, w), w), tm.eq(tm.udiv(tm.sub(I, 1, w), W, w), Q, w)]
        return out

    def compare(self, nm, s, ref, depth):
        a, b = s.frames[depth - 1], ref.frames[depth - 1]
        for r in self.live:
            x, y = a.R[r], b.R[r]
            if r in self.dead or loops.same(x, y):
                continue
            if r not in self.regs:
                raise Lost('register changed in a later iteration')
            o, w, k = self.regs[r]
            if o is not None:
                if x.__class__ is not E.Ptr or x.o != o:
                    raise Lost('pointer register')
                x, y = x.f, y.f
            self.v.eq('%s: loop registers' % nm, s.pc, x, y, w)
        for (o, f), (n, _, _) in self.words.items():
            x, y = s.load(E.Ptr(o, f), n), ref.load(E.Ptr(o, f), n)
            if y.__class__ is E.Ptr:
                if x.__class__ is not E.Ptr or x.o != y.o:
                    raise Lost('pointer in memory')
                x, y = x.f, y.f
            self.v.eq('%s: length of the text and other words' % nm, s.pc, x, y, 8 * n)

    def more(self, S1, s):
        ch = False
        for o, ob in S1.mem.items():
            x = s.mem.get(o)
            if not ob.alive or o == self.buf or x is ob:
                continue
            if x is None or not x.alive or x.size != ob.size or x.data is None or ob.data is None:
                raise Lost('object released or grown in a later iteration')
            hv = self.havoc.get(o, {})
            known = set(f + j for (b, f), (n, _, _) in self.words.items() if b == o for j in range(n))
            for j in range(ob.size):
                if j in known:
                    continue
                if j in hv:
                    if hv[j] and not init(x.data[j]):
                        hv[j] = False
                        ch = True
                elif not eqc(x.data[j], ob.data[j]):
                    self.havoc.setdefault(o, {})[j] = init(x.data[j]) and init(ob.data[j])
                    ch = True
        return ch


# ------------------------------------------------------------------ the whole tree in one object (basic signer)
class TreeData(object):
    """Contents of an object that holds 32-byte nodes: regions (first slot, count, level) whose slot q is TN(level, q - first), and a log of
    slot writes on top, newest last.  Reading a slot that was never written is not supported (nor is the initial fill kept for that)."""
    __slots__ = ('regions', 'log', 'tn', 'filled')

    def __init__(self, tn):
        self.tn = tn
        self.regions, self.log, self.filled = [], [], {}

    def clone(self):
        d = TreeData(self.tn)
        d.regions, d.log, d.filled = list(self.regions), list(self.log), self.filled
        return d

    def slot(self, f):
        if f.__class__ is int:
            return f >> 5, f & 31
        lo = tm.extract(f, 0, 5)
        if lo.__class__ is not int:
            raise E.Unsupported('node offset %s' % tm.show(f))
        return tm.lshr(f, 5, 64), lo

    def cells(self, st, q):
        for x, cs in reversed(self.log):
            e = tm.eq(x, q, 64)
            d = e if e.__class__ is int else st.ex.decide(st, e)
            if d is None:
                raise E.Unsupported('node that may have been overwritten')
            if d:
                return cs
        for first, count, level in self.regions:
            e = tm.and_(tm.ule(first, q, 64), tm.ult(tm.sub(q, first, 64), count, 64), 1)
            d = bool(e) if e.__class__ is int else st.ex.decide(st, e)
            if d is None:
                raise E.Unsupported('node in or out of a level')
            if d:
                i = tm.sub(q, first, 64)
                return self.tn(level, tm.trunc(i, 64, 32))
        raise E.Unsupported('node that was not computed')

    def read(self, st, o, f, n):
        st.inb(o, f, n, 'read')
        if not self.log and not self.regions and f.__class__ is int and all(f + j in self.filled for j in range(n)):
            return [self.filled[f + j] for j in range(n)]
        out, cur, cs = [], None, None
        for j in range(n):
            q, lo = self.slot(tm.add(f, j, 64))
            if cs is None or q is not cur and q != cur:
                cur, cs = q, self.cells(st, q)
            out.append(cs[lo])
        return out

    def write(self, st, o, f, cells):
        st.inb(o, f, len(cells), 'write')
        if not self.log and not self.regions and all(c.__class__ is int for c in cells):
            if f.__class__ is not int or len(self.filled) > 64:
                raise E.Unsupported('initial contents of the nodes')
            self.filled = dict(self.filled)
            for j, c in enumerate(cells):
                self.filled[f + j] = c
            return
        q, lo = self.slot(f)
        if lo or len(cells) % 32:
            raise E.Unsupported('part of a node written')
        for k in range(0, len(cells), 32):
            self.log.append((tm.add(q, k >> 5, 64), tuple(cells[k:k + 32])))

    def copyrange(self, st, o, f, ln, fn, tag=None):
        st.inb(o, f, ln, 'range write')
        if self.log or self.regions:
            raise E.Unsupported('range write over nodes')
        self.filled = {}


class Whole(object):
    """the invariant of each loop that fills a level: the slots of the level written so far hold its nodes"""
    def __init__(self, ex, v, tree, h):
        self.ex, self.v, self.tree, self.h = ex, v, tree, h
        self.obj = None

    def tn(self, level, i):
        return list(tm.blob_bytes(tm.app('TN', (level, i), 32)))

    def install(self, least):
        old = self.ex.contracts.get('_Znwm') or self.ex.model_for('_Znwm')

        def new(ex, st, a):
            n = a[0]
            if n.__class__ is int and n >= least:
                p = st.alloc(0, 'heap', 'nodes', None, 16)
                o = st.obj(p, True)
                o.size, o.data, o.sym = n, None, TreeData(self.tn)
                return p
            return old(ex, st, a)
        self.ex.contracts['_Znwm'] = new
        return self

    def td(self, s, write=False):
        return s.obj(E.Ptr(self.obj, 0), write).sym

    def spec(self, level, i):
        f, w, sk, seed = self.tree.a
        if level == 0:
            return list(xm.bb(xm.LEAF(f, w, sk, seed, i)))
        x = tm.shl(i, 1, 32)
        return list(xm.bb(xm.NODE(f, seed, level - 1, i, tm.cat(self.tn(level - 1, x)), tm.cat(self.tn(level - 1, tm.add(x, 1, 32))))))

    def fill(self, S0, at, level):
        """S0: at the header with nothing of the level computed; returns the state with all of it computed, at the header"""
        h, ex, v = self.h, self.ex, self.v
        depth = at[0]
        first, N = 1 << (h - level), 1 << (h - level)
        S = [S0]
        for _ in range(LEARN):
            S.append(only(ex.explore(S[-1].fork(), at, 0), 'stop'))
        sh = learn_affine(S, depth, self.obj)
        n0 = len(self.td(S0).log)
        for i, s in enumerate(S):
            log = self.td(s).log[n0:]
            if len(log) != i or any(q != first + k or list(cs) != self.spec(level, k) for k, (q, cs) in enumerate(log)):
                raise Lost('level %d: the nodes computed first are not the expected ones' % level)
        w = h - level
        for _ in range(3):
            m = tm.zext(tm.var('m', w), w, 32)
            s = self.at(sh, S[1], depth, level, n0, m)
            s.assume(tm.ne(m, 0, 32))
            outs = ex.explore(s, at, 0)
            m1 = tm.add(m, 1, 32)
            ref = build(sh, S[1], depth, m1, 0, [], [])
            grown = False
            for o in outs:
                if o.out != 'stop':
                    raise Lost('level %d: %s %s' % (level, o.out, str(o.exc)[:300]))
            keep = list(v.obs), v.nref
            for o in outs:
                a, b = o.frames[depth - 1], ref.frames[depth - 1]
                for r in sh.live:
                    if r in sh.dead:
                        continue
                    q, u = a.R[r], b.R[r]
                    if loops.same(q, u):
                        continue
                    if r not in sh.regs:
                        raise Lost('register changed in a later iteration')
                    if q.__class__ is E.Ptr:
                        if u.__class__ is not E.Ptr or q.o != u.o:
                            raise Lost('pointer register')
                        q, u = q.f, u.f
                    v.eq('level %d: loop registers of the next node' % level, o.pc, q, u, a.fn.rw[r])
                log = self.td(o).log
                if len(log) != n0 + 1:
                    raise Lost('level %d: %d nodes written by one iteration' % (level, len(log) - n0))
                v.eq('level %d: place of the node' % level, o.pc, log[-1][0], tm.add(tm.zext(m, 32, 64), first, 64), 64)
                v.bytes('level %d: node is the parent of its children' % level if level else 'level 0: node is the leaf', o.pc, list(log[-1][1]), self.spec(level, m))
                grown |= grow(sh, S[1], o, (self.obj,))
            if not grown:
                break
            v.obs, v.nref = keep
        else:
            raise Lost('the set of changed memory does not settle')
        return self.at(sh, S[1], depth, level, n0, N)

    def few(self, s, at, level):
        """a level of a few nodes: every iteration executed"""
        N = 1 << (self.h - level)
        for k in range(N):
            s = only(self.ex.explore(s.fork(), at, 0), 'stop')
        log = self.td(s).log
        if len(log) != N or any(q != N + k for k, (q, cs) in enumerate(log)):
            raise Lost('level %d: the nodes computed are not the expected ones: %s' % (level, [q if q.__class__ is int else tm.show(q) for q, cs in log]))
        for k, (q, cs) in enumerate(log):
            self.v.bytes('level %d node %d is the parent of its children' % (level, k), s.pc, list(cs), self.spec(level, k))
        s = s.fork()
        d = self.td(s, True)
        d.log = []
        d.regions = d.regions + [(N, N, level)]
        return s

    def at(self, sh, base, depth, level, n0, m):
        s = build(sh, base, depth, m, 0, [], [])
        d = self.td(s, True)
        if n0:
            raise Lost('nodes outside the levels')
        first = 1 << (self.h - level)
        d.log = []
        d.regions = d.regions + [(first, tm.zext(m, 32, 64), level)]
        return s

    def run(self, start, finish):
        ex, h = self.ex, self.h
        depth, fn, head = locate(ex, lambda e: start(e, None))
        at = (depth, head, fn)
        s = only(start(ex, at), 'stop')
        big = [(x.size, o) for o, x in s.mem.items() if x.alive and x.sym.__class__ is TreeData]
        if not big:
            raise Lost('no object for the whole tree %s' % [(x.size, x.alive, x.name) for x in s.mem.values()])
        self.obj = max(big)[1]
        s = self.fill(s, at, 0)
        hit = []
        old = ex.contracts['hash_h']

        def probe(ex_, st, a):
            if hit:
                return old(ex_, st, a)
            hit.append([(d + 1, f.fn, f.b) for d, f in enumerate(st.frames)])
            raise E.Unsupported('located')
        ex.contracts['hash_h'] = probe
        ex.explore(s.fork(), None, 0)
        if not hit:
            raise Lost('hash_h is not called')
        for d, c, b in reversed(hit[0]):
            best = None
            for hd, body in c.loops.items():
                if b in body and (best is None or len(body) < len(best[1])):
                    best = (hd, body)
            if best:
                break
        else:
            raise Lost('no loop around hash_h')
        at = (d, best[0], c)
        for level in range(1, h + 1):
            s = only(ex.explore(s.fork(), at, 0), 'stop')
            s = (self.fill if h - level >= 4 else self.few)(s, at, level)
        finish(ex.explore(s.fork(), None, 0))


def learn_affine(S, depth, skip):
    """registers that follow the iteration number, memory the loop changes"""
    sh = Shape()
    sh.stack, sh.levels = None, (None, 1)
    sh.live = loops.liveness(S[1].frames[depth - 1].fn)[S[1].frames[depth - 1].b]
    sh.regs, sh.dead, sh.havoc = {}, [], {}
    for r in sorted(sh.live):
        vals = [s.frames[depth - 1].R[r] for s in S[1:]]
        if all(loops.same(x, vals[0]) for x in vals):
            continue
        ptr = all(x.__class__ is E.Ptr and x.o == vals[0].o for x in vals)
        k = fit([x.f for x in vals], 64) if ptr else fit(vals, S[1].frames[depth - 1].fn.rw[r] or 64)
        if k is not None and k[1] == 0:
            sh.regs[r] = (vals[0].o if ptr else None,) + k
        else:
            sh.dead.append(r)
    for o, ob in S[1].mem.items():
        if not ob.alive or ob.ro or o == skip:
            continue
        obs = [s.mem.get(o) for s in S[1:]]
        if any(x is None or not x.alive or x.size != ob.size for x in obs):
            continue
        if all(x is ob for x in obs):
            continue
        if any(x.data is None for x in obs):
            raise Lost('object %s of symbolic size' % ob.name)
        for j in range(ob.size):
            cs = [x.data[j] for x in obs]
            if any(not eqc(c, cs[0]) for c in cs):
                sh.havoc.setdefault(o, {})[j] = all(init(c) for c in cs)
    return sh
