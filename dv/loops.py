"""Loop rule: discharges a loop with a symbolic trip count by an invariant computed from one arbitrary iteration.

Cut point: the start of the block that holds the exit test.  For an arbitrary iteration k < K the rule proves
  * affine variables  x(k) = x0 + c*k   (preserved by the body, one proof for an arbitrary k),
  * every other modified variable obeys  v(k+1) = F(v(k), k)  -> after the loop it is the term rec(F, v(0), K)[j],
  * writes at offsets  o0 + c*k + t  -> after the loop one range entry with K*c bytes,
  * K iterations are executed: stay(k) for all k < K, exit at K  (both discharged by a solver, K guessed from the exit test).
Nothing outside these sets is modified: any other difference between the states before and after the body rejects the rule.
"""
from . import term as tm
from .term import T
from . import solve


def E():
    from . import exec as e
    return e


def walk_regs(x, out):
    if x.__class__ is tuple or x.__class__ is list:
        if len(x) == 2 and x[0] == 'reg' and isinstance(x[1], str):
            out.add(x[1])
            return
        for y in x:
            walk_regs(y, out)


def liveness(c):
    lv = getattr(c, 'live', None)
    if lv is not None:
        return lv
    f = c.f
    use, dfn, phid, phiu = {}, {}, {}, {}
    for b in f.order:
        u, d, pd = set(), set(), set()
        for ins in f.blocks[b]:
            if ins.op == 'phi':
                pd.add(ins.d)
                for v, l in ins.a:
                    if v[0] == 'reg':
                        phiu.setdefault((l, b), set()).add(v[1])
                continue
            s = set()
            walk_regs(ins.a, s)
            walk_regs(ins.x, s)
            u |= (s - d)
            if ins.d is not None:
                d.add(ins.d)
        use[b], dfn[b], phid[b] = u, d, pd
    li = {b: set(use[b]) for b in f.order}
    ch = True
    while ch:
        ch = False
        for b in reversed(f.order):
            lo = set()
            for s in c.succ[b]:
                lo |= (li[s] - phid[s])
                lo |= phiu.get((b, s), set())
            n = use[b] | (lo - dfn[b])
            if n != li[b]:
                li[b] = n
                ch = True
    c.live = {b: set(c.regs[r] for r in li[b]) for b in f.order}
    return c.live


def pure_block(c, b):
    for ins in c.f.blocks[b]:
        if ins.op in ('store', 'alloca', 'atomicrmw', 'cmpxchg', 'unsupported', 'landingpad'):
            return False
        if ins.op == 'call':
            cal = ins.x[0]
            if cal == 'asm':
                return False
            if cal[0] == 'glob' and cal[1].startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.umin', 'llvm.umax')):
                continue
            return False
    return True


class NoRule(Exception):
    pass


def hook(ex, st, fr, alts, stop, base, results):
    c = fr.fn
    b = fr.b
    if len(alts) != 2 or (len(st.frames), b) in ex.nohook:
        return None
    best = None
    for h, body in c.loops.items():
        if b in body and (best is None or len(body) < len(best)):
            ins = [l in body for _, l in alts]
            if ins.count(True) == 1:
                best, head = body, h
    if best is None or (len(st.frames), c.name, head) in ex.inloop:
        return None     # (an exit of the loop being summarised: an ordinary branch of its body)
    ins = [l in best for _, l in alts]
    stay, leave = (alts[0], alts[1]) if ins[0] else (alts[1], alts[0])
    out = None
    why = ''
    own = (len(st.frames), c.name, head)
    for period in (1, 2) if ex.periods else (1,):
        ex.inloop.add(own)
        try:
            r = Rule(ex, st, fr, b, best, stay[1], leave[1], alts[0][1], base)
            r.period = period
            out = r.go()
            break
        except NoRule as e:
            why += '%s; ' % e
        finally:
            ex.inloop.discard(own)
    if out is None:
        e = why
        ex.loop_log.append((c.name, b, 'no rule: %s' % e))
        n = ex.unroll.get((c.name, b, len(st.frames)), 0) + 1
        ex.unroll[(c.name, b, len(st.frames))] = n
        if n > ex.max_unroll:
            E()
            raise E().Unsupported('loop at %s/%s: %s' % (c.name, b, e))
        return None
    ex.loop_log.append((c.name, b, 'summarised'))
    ex.nloops += 1
    results.extend(out[1])
    fin = out[0]
    ex._become(st, fin)
    if ex._at(st, stop):
        st.out = 'stop'
        results.append(st)
        return results
    results.extend(ex.explore(st, stop, base))
    return results


def lin_diff(x, y, w):
    """y - x as a Python int when constant"""
    d = tm.sub(y, x, w)
    return d if d.__class__ is int else None


def direct(y, k):
    """a narrow cut of k, alone or in a sum"""
    return y.op == 'ext' and y.a[0] is k or y.op == 'add' and any(t.__class__ is T and t.op == 'ext' and t.a[0] is k for t, _ in y.a[1])


def wide(pc, f, k=None):
    """f with narrow sums widened where the path condition rules out their overflow (so that equal strides show)"""
    if f.__class__ is not T:
        return f

    def cast(t, tw):
        if t.__class__ is T and t.op == 'ext' and t.a[1] == 0 and t.a[0].w == tw:
            return t.a[0]
        return tm.zext(t, t.w, tw) if t.__class__ is T else t

    def split(x):
        y = x.a[0]
        if y.op == 'add':
            r = y.a[0]
            for t, co in y.a[1]:
                r = tm.add(r, tm.mul(cast(t, x.w), co, x.w), x.w)
            return r
        return cast(y, x.w)
    cand = [x for x in subterms(f) if x.op == 'zext' and x.a[0].__class__ is T and (k is None or direct(x.a[0], k))]
    for x in cand:
        y = split(x)
        if y is not x and solve.prove(pc, tm.eq(x, y, x.w))[0] == 'proved':
            f = tm.subst(f, {x: y})
            if f.__class__ is not T:
                break
    return f


class Rule(object):
    def __init__(self, ex, st, fr, b, body, stay, leave, first, base):
        self.ex, self.st, self.fr, self.b, self.body = ex, st, fr, b, body
        self.stay, self.leave, self.base = stay, leave, base
        self.first = first
        self.period = 1
        self.closed = False
        self.depth = len(st.frames)

    def cond(self, s):
        """stay condition evaluated at the start of block b in state s (pure block)"""
        if not self.simple:
            return self.cond_call(s)
        fr = s.frames[-1]
        blk = self.ex.block(fr.fn, self.b)
        code, term = blk.segs[0]
        R = list(fr.R)
        if code is not None:
            code(s, fr.R, fr.fn.consts)
        cv = self.ex.val(term[1], fr.R)
        fr.R = R
        if cv is E().U:
            raise NoRule('undefined exit test')
        return cv if term[2] == self.stay else tm.not_(cv, 1)

    def cond_call(self, s):
        """the same for a test that calls functions: executed up to the branch; must leave memory unchanged"""
        ex = self.ex
        t = s.fork()
        self.start(t)
        n = len(t.pc)
        key = (self.depth, self.b)
        own = key not in ex.nohook
        ex.nohook.add(key)
        nm, ex.nomerge = ex.nomerge, True
        try:
            outs = ex.explore(t, (self.depth, frozenset((self.stay, self.leave))), self.base)
        finally:
            ex.nomerge = nm
            if own:
                ex.nohook.discard(key)
        c = 0
        for o in outs:
            if not ex._at(o, (self.depth, frozenset((self.stay, self.leave)))):
                raise NoRule('exit test: %s' % str(o.exc)[:200])
            for k, ob in o.mem.items():
                oa = s.mem.get(k)
                if oa is None or oa is ob:
                    continue
                if oa.alive != ob.alive or (oa.sym.log != ob.sym.log if oa.sym is not None else oa.data != ob.data):
                    raise NoRule('exit test has effects')
            if o.ghost != s.ghost:
                raise NoRule('exit test has effects')
            if o.frames[-1].b == self.stay:
                c = tm.or_(c, tm.conj(o.pc[n:]), 1)
        return c

    def start(self, s):
        fr = s.frames[-1]
        fr.b = self.b
        fr.i = 0
        s.out = None
        return s

    def iterate(self, s):
        ex = self.ex
        oth = []
        for i in range(self.period):
            if i:
                # the exit test inside a compound iteration must be known to stay
                c = self.cond(s)
                if not (c.__class__ is int and c) and not (self.ex.lenient and c.__class__ is T):
                    if c.__class__ is int or not (c in s.pcset or solve.prove(s.pc, c)[0] == 'proved'):
                        raise NoRule('exit possible inside the compound iteration')
                self.start(s)
                s.assume(c) if c.__class__ is T else None
            n = len(s.pc)
            outs = ex.explore(s, (self.depth, self.b), self.base)
            at = [o for o in outs if o.out == 'stop' and ex._at(o, (self.depth, self.b))]
            oth += [o for o in outs if not (o.out == 'stop' and ex._at(o, (self.depth, self.b)))]
            if i + 1 < self.period:
                at = ex.merge_all(at, n)
                if len(at) != 1:
                    raise NoRule('compound iteration has %d outcomes %s' % (len(at), [str(o.exc)[:200] for o in oth if o.out in ('viol', 'unsupported')][:1]))
                s = at[0]
        return at, oth

    def go(self):
        ex, c, b = self.ex, self.fr.fn, self.b
        e = E()
        self.simple = pure_block(c, b) and len(ex.block(c, b).segs) == 1
        if not self.simple and (self.stay == self.leave or any(ins.op in ('store', 'alloca', 'atomicrmw', 'cmpxchg', 'unsupported', 'landingpad') for ins in c.f.blocks[b])):
            raise NoRule('exit test block has effects')
        self.live = sorted(liveness(c)[b])
        S0 = self.st.fork()
        self.start(S0)
        for i in range(len(S0.frames[-1].R)):
            if i not in set(self.live):
                S0.frames[-1].R[i] = e.U
        npc = len(S0.pc)
        # trial iteration
        t = S0.fork()
        t.assume(self.cond(t)) if self.cond(t).__class__ is T else None
        ex.loop_depth += 1
        kname = '#k%d' % ex.loop_depth
        try:
            at, oth = self.iterate(t)
            if any(o.out in ('viol', 'unsupported') for o in oth):
                raise NoRule('trial iteration: %s' % [str(o.exc)[:300] for o in oth if o.out in ('viol', 'unsupported')][:1])
            at = ex.merge_all(at, npc)
            if len(at) != 1:
                raise NoRule('trial iteration has %d outcomes' % len(at))
            S1 = at[0]
            self.regs = {}      # reg -> ('iv', c) | ('rec',)
            self.cells = {}     # (obj, off, n) -> ('iv', c) | ('rec',)
            self.logs = set()
            self.diff(S0, S1, True)
            self.guess = None
            self.trial = {}
            for o in self.logs:
                new = S1.obj(E().Ptr(o, 0)).sym.log[len(S0.obj(E().Ptr(o, 0)).sym.log):]
                if all(x[0] == 'b' for x in new):
                    self.trial[o] = list(dict.fromkeys(x[1] for x in new))
            for _ in range(8):
                if self.attempt(S0, kname, npc):
                    break
            else:
                raise NoRule('no fixpoint')
        finally:
            ex.loop_depth -= 1
        return self.finish(S0, kname, npc)

    # ------------------------------------------------------------------
    def rw(self, i):
        return self.fr.fn.rw[i]

    def diff(self, A, B, initial=False):
        """record what changed from A to B; True if something new was found"""
        new = False
        e = E()
        ra, rb = A.frames[-1].R, B.frames[-1].R
        for i in self.live:
            x, y = ra[i], rb[i]
            if x is y or i in self.regs or (x.__class__ is int and x == y and y.__class__ is int):
                continue
            if x.__class__ is e.Ptr and y.__class__ is e.Ptr and x.o == y.o and (x.f is y.f or x.f == y.f and x.f.__class__ is int):
                continue
            self.regs[i] = self.classify(x, y, self.rw(i))
            new = True
        for fa, fb in zip(A.frames[:-1], B.frames[:-1]):
            for x, y in zip(fa.R, fb.R):
                if x is not y and x != y:
                    raise NoRule('outer frame modified')
        for k, ob in B.mem.items():
            oa = A.mem.get(k)
            if oa is None or oa is ob:
                continue
            if oa.alive != ob.alive:
                raise NoRule('object freed in loop')
            if ob.sym is not None:
                if ob.sym.log != oa.sym.log:
                    if k not in self.logs:
                        self.logs.add(k)
                        new = True
                continue
            i = 0
            n = len(oa.data)
            while i < n:
                x, y = oa.data[i], ob.data[i]
                if x is y or x == y and x.__class__ is y.__class__:
                    i += 1
                    continue
                # group
                if y.__class__ is tuple:
                    off, ln = i - y[1], y[2]
                elif x.__class__ is tuple:
                    off, ln = i - x[1], x[2]
                else:
                    off, ln = self.intgroup(oa, i)
                key = (k, off, ln)
                i = off + ln
                if key in self.cells:
                    continue
                x = e.assemble(oa.data[off:off + ln], ln)
                y = e.assemble(ob.data[off:off + ln], ln)
                self.cells[key] = self.classify(x, y, 8 * ln)
                new = True
        for g in set(A.ghost) | set(B.ghost):
            if A.ghost.get(g) != B.ghost.get(g):
                raise NoRule('ghost state modified')
        return new

    def intgroup(self, o, i):
        if len(o.data) % 8 == 0 and o.kind in ('stack', 'heap') and o.align >= 8 and len(o.data) in (8,):
            return (i // 8 * 8, 8)
        if len(o.data) == 4:
            return (0, 4)
        return (i, 1)

    def classify(self, x, y, w):
        e = E()
        if x.__class__ is e.Ptr and y.__class__ is e.Ptr and x.o == y.o:
            d = lin_diff(x.f, y.f, 64)
            if d is not None:
                return ('ivp', d)
        if x.__class__ in (int, T) and y.__class__ in (int, T) and w:
            d = lin_diff(x, y, w)
            if d is not None:
                return ('iv', d)
            return ('rec',)
        if x is e.U or x.__class__ is e.Ptr or y.__class__ is e.Ptr:
            return ('undef',)       # must not be read before it is written again
        raise NoRule('loop-carried value %r -> %r' % (x, y))

    def build(self, S0, k, recv):
        """state at the cut point of iteration k"""
        e = E()
        s = S0.fork()
        R = s.frames[-1].R
        j = 0
        for i in sorted(self.regs):
            kd = self.regs[i]
            x = R[i]
            if kd[0] == 'iv':
                R[i] = tm.add(x, tm.mul(kcast(k, self.rw(i)), kd[1], self.rw(i)), self.rw(i))
            elif kd[0] == 'ivp':
                R[i] = e.Ptr(x.o, tm.add(x.f, tm.mul(k, kd[1], 64), 64))
            elif kd[0] == 'rec':
                R[i] = recv(('r', i), self.rw(i), x)
            elif kd[0] == 'fn':
                R[i] = tm.subst(kd[1], {self.k: tm.sub(k, 1, 64)}) if kd[1].__class__ is T else kd[1]
            elif kd[0] == 'undef':
                R[i] = e.U
        for key in sorted(self.cells):
            o, off, n = key
            kd = self.cells[key]
            cells0 = s.obj(e.Ptr(o, 0)).data[off:off + n]
            x = e.assemble(cells0, n)
            if kd[0] == 'iv':
                v = tm.add(x, tm.mul(kcast(k, 8 * n), kd[1], 8 * n), 8 * n)
            elif kd[0] == 'ivp':
                v = e.Ptr(x.o, tm.add(x.f, tm.mul(k, kd[1], 64), 64))
            elif kd[0] == 'rec':
                v = recv(key, 8 * n, x)
            elif kd[0] == 'fn':
                v = tm.subst(kd[1], {self.k: tm.sub(k, 1, 64)}) if kd[1].__class__ is T else kd[1]
            else:
                v = e.U
            s.store(e.Ptr(o, off), v, n)
        return s

    def order(self):
        ks = [('r', i) for i in sorted(self.regs) if self.regs[i][0] == 'rec']
        ks += [k for k in sorted(self.cells) if self.cells[k][0] == 'rec']
        return ks

    def ph(self, key, w):
        return tm.var('#s%s' % (':'.join(str(z) for z in key)), w)

    def attempt(self, S0, kname, npc):
        ex = self.ex
        e = E()
        k = tm.var(kname, 64)
        self.k = k
        # trip count from affine variables only
        s = self.build(S0, k, lambda key, w, x: self.ph(key, w))
        self.start(s)
        stay = self.cond(s)
        if stay.__class__ is T and mentions(stay, '#s') and not self.closed:
            self.closed = True
            if self.close(S0, s, stay, npc):
                return False
        self.K = self.tripcount(S0, stay, k)
        s = self.build(S0, k, lambda key, w, x: self.ph(key, w))
        self.start(s)
        n0 = len(s.pc)
        s.assume(tm.ult(k, self.K, 64))
        if stay.__class__ is T:
            s.assume(stay)
        n1 = len(s.pc)
        base_log = {}
        for o in self.logs:
            ob = s.obj(e.Ptr(o, 0), True)
            self.fence(o, ob)
            base_log[o] = len(ob.sym.log)
        sk = s.fork()
        at, oth = self.iterate(s)
        bad = [o for o in oth if o.out in ('viol', 'unsupported')]
        if bad:
            if self.guess is None and 'written by other iterations' in str(bad[0].exc):
                self.guess = self.trial
                return False
            if bad[0].out == 'viol' and not any('#s' in str(x) for x in bad[0].pc[n1:]):
                self.viols = bad
            raise NoRule('arbitrary iteration: %s' % str(bad[0].exc)[:300])
        self.early = bool(oth)
        at = ex.merge_all(at, n1)
        if len(at) != 1:
            raise NoRule('arbitrary iteration has %d outcomes' % len(at))
        Z = at[0]
        self.okc = tm.conj(Z.pc[n1:])
        if not self.early:
            self.okc = 1
        elif mentions(self.okc, '#s'):
            raise NoRule('early exit depends on loop-carried data')
        # compare Z with build(k+1)
        new = False
        nx = self.build(S0, tm.add(k, 1, 64), lambda key, w, x: None if False else self.ph(key, w))
        self.F = {}
        R = Z.frames[-1].R
        for i in sorted(self.regs):
            kd = self.regs[i]
            if kd[0] in ('iv', 'ivp', 'fn'):
                want = nx.frames[-1].R[i]
                if not same(R[i], want):
                    self.regs[i] = ('rec',) if kd[0] != 'ivp' else self.bad('pointer')
                    new = True
            elif kd[0] == 'rec':
                if R[i].__class__ not in (int, T):
                    raise NoRule('recurrence value %r' % (R[i],))
                self.F[('r', i)] = R[i]
        for key in sorted(self.cells):
            kd = self.cells[key]
            o, off, n = key
            v = e.assemble(Z.obj(e.Ptr(o, 0)).data[off:off + n], n)
            if kd[0] in ('iv', 'ivp', 'fn'):
                want = e.assemble(nx.obj(e.Ptr(o, 0)).data[off:off + n], n)
                if not same(v, want):
                    self.cells[key] = ('rec',) if kd[0] != 'ivp' else self.bad('pointer')
                    new = True
            elif kd[0] == 'rec':
                if v.__class__ not in (int, T):
                    raise NoRule('recurrence cell %r' % (v,))
                self.F[key] = v
        # anything else modified?
        if self.diff_rest(sk, Z):
            new = True
        if new:
            return False
        # range writes
        self.ranges = []
        for o in sorted(self.logs):
            log = Z.obj(e.Ptr(o, 0)).sym.log
            ents = log[base_log[o]:]
            if self.guess and o in self.guess and not all(x[0] == 'b' and any(same(x[1], f) for f in self.guess[o]) for x in ents):
                del self.guess[o]
                return False
            try:
                rs = self.range_of(o, ents, k)
            except NoRule:
                ents2 = [(en[0], wide(Z.pc, en[1])) + tuple(en[2:]) if en[0] == 'b' else en for en in ents]
                if all(x[1] is y[1] for x, y in zip(ents, ents2)):
                    raise
                rs = self.range_of(o, ents2, k)
            self.ranges.extend((o_, a, n, tuple(wide(Z.pc, c, k) for c in cells)) for o_, a, n, cells in rs)
        return True

    def fence(self, o, ob):
        """other iterations may have written the object: anywhere, or at the offsets assumed (checked for the arbitrary iteration)"""
        if self.guess and o in self.guess:
            for f in self.guess[o]:
                ob.sym.log.append(('dirty', f, 1))
        else:
            ob.sym.log.append(('fence',))

    def close(self, S0, s, stay, npc):
        """variables whose next value is a function of the iteration alone: v(k) = F(k-1), checked against the value on entry"""
        e = E()
        s.assume(stay)
        n1 = len(s.pc)
        for o in self.logs:
            self.fence(o, s.obj(e.Ptr(o, 0), True))
        old, self.ex.lenient = self.ex.lenient, True
        try:
            at, oth = self.iterate(s)
        finally:
            self.ex.lenient = old
        at = self.ex.merge_all(at, n1)
        if len(at) != 1:
            return False
        Z = at[0]
        ch = False

        def fits(F, x):
            if F.__class__ not in (int, T) or x.__class__ not in (int, T) or mentions((F,), '#s'):
                return False
            y = tm.subst(F, {self.k: (1 << 64) - 1}) if F.__class__ is T else F
            if same(x, y):
                return True
            return solve.prove(S0.pc, tm.eq(x, y, F.w if F.__class__ is T else x.w if x.__class__ is T else 64))[0] == 'proved'
        for i in sorted(self.regs):
            F, x = Z.frames[-1].R[i], S0.frames[-1].R[i]
            if self.regs[i][0] == 'rec' and fits(F, x):
                self.regs[i] = ('fn', F)
                ch = True
        for key in sorted(self.cells):
            o, off, n = key
            F = e.assemble(Z.obj(e.Ptr(o, 0)).data[off:off + n], n)
            x = e.assemble(S0.obj(e.Ptr(o, 0)).data[off:off + n], n)
            if self.cells[key][0] == 'rec' and fits(F, x):
                self.cells[key] = ('fn', F)
                ch = True
        return ch

    def bad(self, m):
        raise NoRule(m)

    def diff_rest(self, A, B):
        regs, cells, logs = dict(self.regs), dict(self.cells), set(self.logs)
        ch = self.diff(A, B)
        # entries already known are skipped by diff; overlapping groups reject
        ks = sorted(self.cells)
        for a, b in zip(ks, ks[1:]):
            if a[0] == b[0] and a[1] + a[2] > b[1] and a in self.cells:
                # bytes of a word that is now held as one value: the word replaces them
                if b[2] < a[2] and b[1] + b[2] <= a[1] + a[2]:
                    self.cells.pop(b, None)
                elif a[1] == b[1] and a[2] < b[2]:
                    del self.cells[a]
                else:
                    raise NoRule('overlapping groups')
                ch = True
        if ch:
            for r in self.regs:
                if r not in regs and self.regs[r][0] in ('iv', 'ivp'):
                    pass
        return ch

    def range_of(self, o, ents, k):
        """entries of one iteration -> (obj, start(k=0), stride, cells over k)"""
        if not ents:
            return []
        offs = []
        for en in ents:
            if en[0] == 'b':
                offs.append((en[1], 1, en[2]))
            else:
                raise NoRule('range write inside loop')
        # later writes win
        f0 = offs[0][0]
        d = {}
        for f, n, cell in offs:
            dd = lin_diff(f0, f, 64)
            if dd is None:
                raise NoRule('write offsets not contiguous')
            d[tm._s(dd, 64)] = cell
        lo = min(d)
        n = len(d)
        if sorted(d) != list(range(lo, lo + n)):
            raise NoRule('write offsets not contiguous')
        fk = tm.add(f0, lo & ((1 << 64) - 1), 64)
        nxt = tm.subst(fk, {k: tm.add(k, 1, 64)}) if fk.__class__ is T else fk
        st = lin_diff(fk, nxt, 64)
        if st == 0:
            # overwritten by every iteration before it is read again: unknown afterwards
            fk = tm.subst(fk, {k: 0}) if fk.__class__ is T else fk
            return [(o, None, [tm.add(fk, i, 64) for i in range(n)], ())]
        back = st == (-n) & ((1 << 64) - 1) or st == -n
        if st != n and not back:
            raise NoRule('write stride %s, width %d' % (st, n))
        if back:        # written downwards: the same range, iterations numbered from the other end
            if self.early or mentions(tuple(d.values()), '#s') or mentions((fk,), '#s'):
                raise NoRule('range written downwards')
            last = tm.sub(self.K, 1, 64)
            mp = {k: tm.sub(last, k, 64)}
            d = {x: tuple(tm.subst(y, mp) if y.__class__ is T else y for y in c) if c.__class__ is tuple else
                 tm.subst(c, mp) if c.__class__ is T else c for x, c in d.items()}
            fk = tm.subst(fk, mp) if fk.__class__ is T else fk
        start = tm.subst(fk, {k: 0}) if fk.__class__ is T else fk
        cells = [d[lo + i] for i in range(n)]
        e = E()
        cells = tuple(e.cellbyte(x) for x in cells)
        if any(x is None for x in cells):
            raise NoRule('undefined bytes written')
        return [(o, start, n, cells)]

    def tripcount(self, S0, stay, k):
        ex = self.ex
        if stay.__class__ is int:
            raise NoRule('exit test is constant %d' % stay)
        if mentions(stay, '#s'):
            raise NoRule('exit test depends on loop-carried data')
        cands = guess(stay, k)
        why = ''
        for K in cands:
            if K.__class__ is T and k in set(subterms(K)):
                continue
            sk = tm.subst(stay, {k: K})
            r, info = solve.prove(S0.pc, tm.not_(sk, 1))
            if r != 'proved':
                why = 'exit at K: %s' % r
                continue
            j = k
            r, info = solve.prove(list(S0.pc) + [tm.ult(j, K, 64)], stay) if not (K.__class__ is int and K == 0) else ('proved', '')
            if r != 'proved':
                why = 'stay before K: %s' % r
                continue
            return K
        raise NoRule('trip count of %s (%s)' % (tm.show(stay, 5), why))

    def finish(self, S0, kname, npc):
        ex = self.ex
        e = E()
        k, K = self.k, self.K
        keys = self.order()
        phs = {key: self.ph(key, wof(self, key)) for key in keys}
        inv = {v: key for key, v in phs.items()}
        inits = {}

        def getinit(key, w, x):
            inits[key] = x
            return self.ph(key, w)
        self.build(S0, 0, getinit)
        # ranges may use loop-carried data only through closed forms
        memo = {}
        deps = {}
        for key in keys:
            deps[key] = set(inv[t] for t in subterms(self.F[key]) if t in inv)
        kc = tm.var('#k', 64)
        # a body that contains a summarised loop of its own would capture bound variables
        bound = set(phs.values())
        bound.add(k)
        for key in keys:
            if nested(self.F[key], bound):
                raise NoRule('loop-carried value computed by an inner loop')
        for (o, start, n, cells) in self.ranges:
            if any(nested(x, bound) for x in cells):
                raise NoRule('range written from an inner loop')
        if self.early and nested(self.okc, bound):
            raise NoRule('exit condition computed by an inner loop')

        def recterm(key, cnt):
            clo = []
            seen = set()
            w = [key]
            while w:
                q = w.pop()
                if q in seen:
                    continue
                seen.add(q)
                w.extend(deps[q])
            clo = [q for q in keys if q in seen]
            mp = {phs[q]: tm.var('#s%d' % i, wof(self, q)) for i, q in enumerate(clo)}
            mp[k] = kc
            Fs = tuple(tm.subst(self.F[q], mp, memo_for(tuple(clo))) for q in clo)
            return rec(Fs, tuple(inits[q] for q in clo), tuple(wof(self, q) for q in clo), cnt, clo.index(key))
        memos = {}

        def memo_for(cl):
            return memos.setdefault(cl, {})

        def final(key, w, x):
            if x is e.U:
                raise NoRule('uninitialised loop-carried value')
            return recterm(key, K)
        s = self.build(S0, K, final)
        self.start(s)
        for (o, start, n, cells) in self.ranges:
            ob = s.obj(e.Ptr(o, 0), True)
            if start is None:
                for f in n:
                    ob.sym.log.append(('dirty', f, 1)) if f is not None else ob.sym.log.append(('fence',))
                continue
            sub = {}
            for cl in cells:
                for t in subterms(cl):
                    if t in inv and t not in sub:
                        sub[t] = recterm(inv[t], tm.var('#m', 64))
            sub[k] = tm.var('#m', 64)
            # placeholders first (their count is #m), then k
            cs = tuple(tm.subst(cl, sub) if cl.__class__ is T else cl for cl in cells)
            ob.sym.log.append(('map', start, tm.mul(K, n, 64), n, cs, K))
        others = []
        if self.early:
            s.assume(all_(K, tm.subst(self.okc, {k: kc})))
            k0 = tm.fresh('k', 64)
            t = self.build(S0, k0, lambda key, w, x: recterm(key, k0))
            self.start(t)
            t.assume(tm.ult(k0, K, 64))
            stay = self.cond(t)
            if stay.__class__ is T:
                t.assume(stay)
            t.assume(all_(k0, tm.subst(self.okc, {k: kc})))
            for o in self.logs:
                self.fence(o, t.obj(e.Ptr(o, 0), True))
            at, oth = self.iterate(t)
            others = oth
        st = self.cond(s)
        if st.__class__ is T:
            s.assume(tm.not_(st, 1))
        return s, others


def wof(rule, key):
    return rule.rw(key[1]) if key[0] == 'r' else 8 * key[2]


def kcast(k, w):
    return tm.extract(k, 0, w) if w < 64 else k if w == 64 else tm.zext(k, 64, w)


def same(x, y):
    e = E()
    if x.__class__ is e.Ptr and y.__class__ is e.Ptr:
        return x.o == y.o and (x.f is y.f or (x.f.__class__ is int and x.f == y.f))
    return x is y or (x.__class__ is int and y.__class__ is int and x == y)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.__class__ is tuple:
            stack.extend(x)
        elif x.__class__ is T and x not in seen:
            seen.add(x)
            stack.extend(x.a)
    return seen


def nested(t, bad):
    """does t hold a term of an inner loop whose body uses one of the variables bad?"""
    for x in subterms(t):
        if x.op == 'var' and x.a[0] == '#m':
            return True
        if x.op in ('rec', 'all'):
            for y in subterms(x.a[0] if x.op == 'rec' else x.a[1]):
                if y in bad:
                    return True
    return False


def mentions(t, prefix):
    for x in subterms(t):
        if x.op == 'var' and isinstance(x.a[0], str) and x.a[0].startswith(prefix):
            return True
    return False


def rec(Fs, inits, ws, K, j):
    """j-th variable after K steps of v := Fs(v, #k)"""
    if K.__class__ is int and K == 0:
        return inits[j]
    return tm.mk('rec', ws[j], (Fs, inits, ws, K, j))


def all_(K, body):
    if body.__class__ is int:
        if body:
            return 1
        return tm.eq(K, 0, 64)
    if K.__class__ is int and K == 0:
        return 1
    return tm.mk('all', 1, (K, body))


def linof(x, w):
    d = {}
    c = tm._lin(x, d, 1, w)
    d = tm._unshl(d, w)
    return c, d


def guess(stay, k):
    """candidate trip counts from the stay condition, as terms"""
    neg = False
    t = stay
    if t.op == 'xor' and t.a[0] == 1 and len(t.a[1]) == 1:
        neg = True
        t = t.a[1][0]
    out = []

    def solve_lin(x, y, w, adj):
        # D = y - x = A - c*k
        if w == 64:
            x, y = widen(x, k), widen(y, k)
        D = tm.sub(y, x, w)
        if D.__class__ is int:
            return
        c0, d = linof(D, w)
        kk = kcast(k, w)
        if kk not in d:
            # k may appear widened/narrowed
            for q in (k,):
                if q in d:
                    kk = q
                    break
            else:
                return
        ck = tm._s(d.pop(kk), w)
        A = tm._mklin(c0, d, w)
        if ck < 0:
            c = -ck
            out.extend(divs(A, c, w, adj))
        else:
            c = ck
            out.extend(divs(tm.sub(0, A, w), c, w, adj))
    if t.op in ('ult', 'slt'):
        x, y = t.a
        w = x.w if x.__class__ is T else y.w
        if not neg:
            # stay while x < y : D > 0 : K = ceil(A/c)
            solve_lin(x, y, w, 'ceil')
        else:
            # stay while x >= y : D = x - y >= 0 : K = floor(A/c)+1
            solve_lin(y, x, w, 'floor1')
    elif t.op == 'eq':
        x, y = t.a
        w = x.w if x.__class__ is T else y.w
        if neg:
            solve_lin(x, y, w, 'ceil')
            solve_lin(y, x, w, 'ceil')
    return out


def widen(x, k):
    """the 64-bit value if the narrower arithmetic inside a widening does not wrap around (for guesses only)"""
    if x.__class__ is not T:
        return x
    if x.op in ('sext', 'zext') and x.a[0].__class__ is T:
        y = x.a[0]
        f = tm.sext if x.op == 'sext' else tm.zext
        c, d = linof(y, y.w)
        r = tm._s(c, y.w) if x.op == 'sext' else c
        for t, co in d.items():
            b = k if t is kcast(k, y.w) else t.a[0] if t.op == 'ext' and t.a[1] == 0 and t.a[0].w == 64 else f(t, y.w, 64)
            r = tm.add(r & ((1 << 64) - 1) if r.__class__ is int else r, tm.mul(b, tm._s(co, y.w) & ((1 << 64) - 1), 64), 64)
        return r if r.__class__ is T else r & ((1 << 64) - 1)
    if x.op == 'add':
        r = x.a[0]
        for t, co in x.a[1]:
            r = tm.add(r, tm.mul(widen(t, k), co, 64), 64)
        return r
    return x


def divs(A, c, w, adj):
    out = []
    c0, d = linof(A, w)
    sc0 = tm._s(c0, w) if w else c0
    if all(tm._s(co, w) % c == 0 for co in d.values()):
        q = {t: (tm._s(co, w) // c) & ((1 << w) - 1) for t, co in d.items()}
        r = -((-sc0) // c) if adj == 'ceil' else sc0 // c + 1
        out.append(tm._mklin(r, q, w))
    else:
        if adj == 'ceil':
            out.append(tm.udiv(tm.add(A, c - 1, w), c, w))
        else:
            out.append(tm.add(tm.udiv(A, c, w), 1, w))
            out.append(tm.udiv(tm.add(A, c, w), c, w))
    res = []
    for t in out:
        res.append(tm.zext(t, w, 64) if w < 64 else t)
        if adj == 'ceil':
            pass
    # the count may be clipped at zero
    res.append(0)
    return res
