"""Verification conditions: comparison of what the code computes with the specification, and bookkeeping."""
import hashlib
import random
import time
from . import term as tm
from . import solve
from . import exec as E
from .term import T

SEED = 1


# ------------------------------------------------------------- interpretation used to refute (random oracle)
def arg_bytes(ev, a):
    if a.__class__ is tuple:
        if len(a) and a[0].__class__ is str:
            return (a[0] + ':').encode()
        return b'b' + ev.piecebytes(a)
    if a.__class__ is str:
        return b's' + a.encode()
    if a.__class__ is T:
        if a.op in ('app', 'cat', 'bite') or a.w > 64 or (a.op == 'var' and a.w > 64):
            return b'b' + ev.blob(a)
        return b'i' + str(ev.val(a)).encode()
    return b'i' + str(a).encode()


class Oracle(dict):
    def __missing__(self, name):
        def f(ev, args, n):
            h = hashlib.shake_128()
            h.update(name.encode())
            for a in args:
                x = arg_bytes(ev, a)
                h.update(len(x).to_bytes(4, 'little'))
                h.update(x)
            return h.digest(n)
        return f


ORACLE = Oracle()


def evaluators(pc, n, hints=(), seed=None):
    """up to n evaluators whose assignment satisfies pc"""
    rng = random.Random(SEED if seed is None else seed)
    pcs = [c for c in pc if c.__class__ is not int]
    out = 0

    def ok(ev):
        try:
            return all(ev.val(c) for c in pcs)
        except OverflowError:
            return False
    for h in hints:
        ev = solve.Evaluator(random.Random(rng.getrandbits(32)), dict(h), ORACLE)
        if ok(ev):
            yield ev
            out += 1
    for h in solve.HINTS:
        if out >= n:
            return
        if ok(h):
            ev = solve.Evaluator(random.Random(rng.getrandbits(32)), h.env, ORACLE)
            if ok(ev):
                yield ev
                out += 1
    if out and solve.HINTS:
        return
    tries = 0
    while out < n and tries < 4 * n:
        tries += 1
        ev = solve.Evaluator(random.Random(rng.getrandbits(32)), {}, ORACLE)
        if ok(ev):
            yield ev
            out += 1
    if out < n and pcs:
        for small in (True, False):
            for env, arr in models(pcs, max(2, n // 2), rng, small):
                ev = solve.Evaluator(random.Random(rng.getrandbits(32)), env, ORACLE)
                ev.arr.update(arr)
                if ok(ev):
                    yield ev
                    out += 1
                    if out >= n:
                        return


def scalars(ts, blobs=None):
    seen = set()
    st = [t for t in ts if t.__class__ is T]
    vs = []
    while st:
        x = st.pop()
        if x.__class__ is tuple:
            st.extend(x)
            continue
        if x.__class__ is not T or x in seen:
            continue
        seen.add(x)
        if x.op == 'byte' and x.a[0].op == 'var':
            if blobs is not None:
                blobs.append(x)
            continue
        if x.op == 'sel' and blobs is not None:
            blobs.append(x)
        if x.op == 'var':
            if x.w <= 64:
                vs.append(x)
            continue
        st.extend(x.a)
    return vs


def model_env(m, vs, blobs, rng):
    """(assignment, array cells) of a solver model; bytes of arrays the model does not mention are random"""
    env, arr = {}, {}
    for v in vs:
        env[v.a[0]] = solve.model_value(m, v)
    for b in blobs:
        if b.op == 'byte':
            B, i = b.a
            if B.a[0] not in env:
                env[B.a[0]] = bytearray(rng.randbytes(B.w // 8))
            env[B.a[0]][i] = solve.model_value(m, b)
        else:
            i = solve.model_value(m, b.a[1]) if b.a[1].__class__ is T else b.a[1]
            arr[(b.a[0], i)] = solve.model_value(m, b)
    return {k: bytes(v) if v.__class__ is bytearray else v for k, v in env.items()}, arr


def alls(ts):
    from . import loops
    return list(dict.fromkeys(x for t in ts if t.__class__ is T for x in loops.subterms(t) if x.op == 'all'))


KV = tm.var('#k', 64)


def bounded_alls(pcs, bound):
    """stronger conditions: quantified conditions range over at most bound indices and are written out"""
    q = alls(pcs)
    if not q:
        return pcs
    extra, mp = [], {}
    for x in q:
        K, body = x.a
        c = 1
        for i in range(bound):
            c = tm.and_(c, tm.or_(tm.ule(K, i, 64), tm.subst(body, {KV: i}), 1), 1)
        mp[x] = c
        extra.append(tm.ule(K, bound, 64))
    return [c for c in [tm.subst(c, mp) for c in pcs] + extra if not (c.__class__ is int and c)]


def instances(pc, i):
    """the quantified conditions of pc at index i and its neighbours"""
    out = []
    for c in pc:
        if c.__class__ is T and c.op == 'all':
            for d in (0, -1, 1, -2):
                j = tm.add(i, d & ((1 << 64) - 1), 64)
                x = tm.or_(tm.ule(c.a[0], j, 64), tm.subst(c.a[1], {KV: j}), 1)
                if not (x.__class__ is int and x):
                    out.append(x)
    return out


def models(pcs, n, rng, small):
    import z3
    blobs = []
    if small:
        pcs = bounded_alls(pcs, 4)
        if any(c.__class__ is int for c in pcs):
            return
    vs = scalars(pcs, blobs)
    s = z3.SolverFor('QF_ABV')
    s.set('timeout', 5000)
    try:
        for c in pcs:
            s.add(solve.toz(c) == 1)
        if small:
            s.push()
            for v in vs:
                if v.w > 16:
                    s.add(z3.ULE(solve.toz(v), 40))
            if s.check() != z3.sat:
                s.pop()
    except ValueError:
        return
    for i in range(n):
        if s.check() != z3.sat:
            return
        m = s.model()
        env, arr = model_env(m, vs, blobs, rng)
        yield env, arr
        if vs or blobs:
            s.add(z3.Or([solve.toz(v) != solve.model_value(m, v) for v in vs + blobs]))


def plain(x, d=0):
    """JSON-able rendering of an evaluator's assignment"""
    return x.hex() if isinstance(x, bytes) else x


class Enough(Exception):
    """raised after several refuted obligations of one function: the rest would only repeat them"""


class VC(object):
    limit = 6

    def __init__(self, fn, sub=''):
        self.fn = fn
        self.sub = sub
        self.obs = []
        self.nref = 0
        self.fast = False
        self.provefirst = False

    def add(self, name, status, by, detail='', env=None):
        self.obs.append((self.fn, (name + ' ' + self.sub if name.startswith('canary') else self.sub + ' ' + name).strip(), status, by, str(detail)[:1500], env))
        if status == 'refuted' and not name.startswith('canary'):
            self.nref += 1
            if self.nref >= self.limit:
                raise Enough(self)
        return status == 'discharged'

    def undecided(self, name, why):
        return self.add(name, 'undecided', 'none', why)

    # ------------------------------------------------------------------ scalars / conditions
    def holds(self, name, pc, cond, hints=()):
        if cond.__class__ is T and self.provefirst:
            try:
                r, info = solve.prove(pc, cond)
            except ValueError:
                r = ''
            if r == 'proved':
                return self.add(name, 'discharged', info)
        if cond.__class__ is T:
            for ev in evaluators(pc, 12, hints):
                try:
                    if not ev.val(cond):
                        return self.add(name, 'refuted', 'evaluation', tm.show(cond, 4), envof(ev))
                except (OverflowError, ValueError):
                    pass
        try:
            r, info = solve.prove(pc, cond)
        except ValueError as e:
            r, info = 'unknown', str(e)
        if r == 'proved':
            return self.add(name, 'discharged', info)
        if r == 'refuted':
            env = {}
            if info is not None:
                blobs = []
                vs = scalars([cond] + list(pc), blobs)
                env, arr = model_env(info, vs, blobs, random.Random(1))
                ev = solve.Evaluator(random.Random(1), env, ORACLE)
                ev.arr.update(arr)
                try:
                    if all(ev.val(c) for c in pc) and not ev.val(cond):
                        return self.add(name, 'refuted', 'z3 model', tm.show(cond, 4), envof(ev))
                except (OverflowError, ValueError):
                    pass
            else:
                if cond.__class__ is int and not cond:
                    for ev in evaluators(pc, 1, hints):
                        return self.add(name, 'refuted', 'evaluation', 'condition is false', envof(ev))
        return self.undecided(name, '%s: %s' % (r, tm.show(cond, 5)))

    def every(self, name, pc, K, body, hints=()):
        """body(i) for every i < K (the quantified conditions of pc are used at the same index)"""
        i = tm.var('#m', 64)
        return self.holds(name, list(pc) + [tm.ult(i, K, 64)] + instances(pc, i), body(i), hints)

    def some(self, name, pc, K, body, hints=()):
        """body(i) for some i < K: the witness is an index variable of the path"""
        from . import loops
        ks = [x for c in pc if c.__class__ is T for x in loops.subterms(c) if x.op == 'var' and str(x.a[0]).startswith('k!')]
        for i in [tm.add(tm.mul(x, a, 64), b, 64) for x in dict.fromkeys(ks) for a in (1, 2) for b in range(5)] + list(range(6)):
            try:
                r = solve.prove(pc, tm.and_(tm.ult(i, K, 64), body(i), 1))
            except ValueError:
                continue
            if r[0] == 'proved':
                return self.add(name, 'discharged', '%s, witness %s' % (r[1], i))
        for ev in evaluators(pc, 12, hints):
            try:
                if ev.val(K) <= 4096 and not any(ev.val(body(i)) for i in range(ev.val(K))):
                    return self.add(name, 'refuted', 'evaluation', 'no witness', envof(ev))
            except (OverflowError, ValueError):
                pass
        return self.undecided(name, 'no witness found')

    def eq(self, name, pc, got, want, w, hints=()):
        if got is E.U:
            return self.add(name, 'refuted', 'definition', 'value is not initialised')
        if same(got, want):
            solve.STATS['syntactic'] += 1
            return self.add(name, 'discharged', 'normal-form')
        if got.__class__ not in (int, T):
            return self.undecided(name, 'not a scalar: %r' % (got,))
        return self.holds(name, pc, tm.eq(got, want, w), hints)

    def bytes(self, name, pc, got, want, hints=()):
        """two lists of byte terms / blobs (fixed total length)"""
        g, w = expand(got), expand(want)
        if len(g) != len(w):
            return self.add(name, 'refuted', 'length', '%d bytes instead of %d' % (len(g), len(w)))
        bad = [i for i in range(len(g)) if not same(g[i], w[i])]
        if not bad:
            solve.STATS['syntactic'] += 1
            return self.add(name, 'discharged', 'normal-form')
        if any(g[i] is None for i in bad):
            return self.add(name, 'refuted', 'definition', 'byte %d is not initialised' % [i for i in bad if g[i] is None][0])
        known = literals(pc)
        if known:
            memo = {}
            bad = [i for i in bad if not same(tm.subst(g[i], known, memo), tm.subst(w[i], known, memo))]
            if not bad:
                solve.STATS['syntactic'] += 1
                return self.add(name, 'discharged', 'normal-form')
        for ev in evaluators(pc, 30, hints):
            try:
                for i in bad:
                    if ev.val(g[i]) != ev.val(w[i]):
                        return self.add(name, 'refuted', 'evaluation', 'byte %d: code %s, specification %s' % (i, tm.show(g[i], 4), tm.show(w[i], 4)), envof(ev))
            except (OverflowError, ValueError):
                pass
        # solver, under congruence of the opaque functions
        cong = Cong(pc)
        by = set()
        for i in bad:
            r = cong.equal(g[i], w[i], 8)
            if not r:
                ev = self._byte_diff(pc, g[i], w[i], hints)
                if ev is not None:
                    return self.add(name, 'refuted', 'solver', 'byte %d: code %s, specification %s' % (i, tm.show(g[i], 4), tm.show(w[i], 4)), envof(ev))
                return self.undecided(name, 'byte %d: %s vs %s' % (i, tm.show(g[i], 5), tm.show(w[i], 5)))
            by.add(r)
        return self.add(name, 'discharged', '+'.join(sorted(by)))

    def cases(self, name, got, var, values, want, hints=()):
        """for every value of the variable, got (byte terms, resolved at that value) is want(value); complete case analysis"""
        g = expand(got)
        if any(x is None for x in g):
            return self.add(name, 'refuted', 'definition', 'byte %d is not initialised' % g.index(None))
        for c in values:
            ev = solve.Evaluator(None, {var: c})
            w = expand(want(c))
            if len(w) != len(g):
                return self.add(name, 'refuted', 'length', '%d bytes instead of %d' % (len(g), len(w)))
            for i, (x, y) in enumerate(zip(g, w)):
                x = resolve(x, ev)
                if set(ev.env) - {var} or ev.arr:
                    return self.undecided(name, 'selection depends on more than %s' % var)
                if not same(x, y):
                    x = subst_const(x, var, c)
                if not same(x, y):
                    return self.bytes(name + ' at %s=%d' % (var, c), [], [x], [y], hints)
        solve.STATS['syntactic'] += 1
        return self.add(name, 'discharged', 'case-split')

    def pieces(self, name, pc, got, want, hints=()):
        """canonical piece tuples with symbolic lengths"""
        if got != want:
            got, want = fixlen(pc, got), fixlen(pc, want)
        if got == want:
            solve.STATS['syntactic'] += 1
            return self.add(name, 'discharged', 'normal-form')
        n = 0
        for ev in evaluators(pc, 30, hints):
            try:
                a, b = ev.piecebytes2(got), ev.piecebytes2(want)
            except (OverflowError, ValueError):
                continue
            n += 1
            if a != b:
                return self.add(name, 'refuted', 'evaluation', '%r / %r' % (tm._sh(got, 4), tm._sh(want, 4)), envof(ev))
        if len(got) == len(want):
            by = set()
            for g, w in zip(got, want):
                r = self._piece_eq(pc, g, w)
                if not r:
                    ev = self._map_diff(pc, g, w) if g.__class__ is tuple else self._byte_diff(pc, g, w, hints)
                    if ev is not None:
                        return self.add(name, 'refuted', 'solver', 'element %d: %s / %s' % (ev.env.get('#m', 0), tm._sh(g, 4), tm._sh(w, 4)), envof(ev))
                    return self.undecided(name, 'piece %s vs %s' % (tm._sh(g, 4), tm._sh(w, 4)))
                by.add(r)
            return self.add(name, 'discharged', '+'.join(sorted(by)))
        al = self._align(pc, got, want)
        if al is not None:
            by = set()
            for g, w in al:
                r = self._piece_eq(pc, g, w) if not (g.__class__ is int and w.__class__ is int) else 'normal-form' if g == w else ''
                if not r:
                    ev = self._map_diff(pc, g, w) if g.__class__ is tuple else self._byte_diff(pc, g, w, hints)
                    if ev is not None:
                        return self.add(name, 'refuted', 'solver', 'element %d: %s / %s' % (ev.env.get('#m', 0), tm._sh(g, 4), tm._sh(w, 4)), envof(ev))
                    return self.undecided(name, 'piece %s vs %s' % (tm._sh(g, 4), tm._sh(w, 4)))
                by.add(r)
            return self.add(name, 'discharged', '+'.join(sorted(by)))
        return self.undecided(name, 'pieces %s vs %s' % (tm._sh(got, 4), tm._sh(want, 4)))

    def _byte_diff(self, pc, g, w, hints=()):
        from . import loops
        if g.__class__ not in (int, T) or w.__class__ not in (int, T):
            return None
        try:
            if any(y.op in ('app', 'rec') for x in (g, w) if x.__class__ is T for y in loops.subterms(x)):
                return None
            for ev in evaluators(list(pc) + [tm.ne(g, w, 8)], 1, hints):
                return ev
        except (ValueError, OverflowError):
            pass
        return None

    def _align(self, pc, got, want):
        """pairs of pieces of the same shape after repetitions are split at the same places; None when that fails"""
        m = tm.var('#m', 64)

        def prov(c):
            return bool(c) if c.__class__ is int else solve.prove(pc, c)[0] == 'proved'

        def expandp(ps):
            out = []
            for p in ps:
                if p.__class__ is tuple and p[0] == 'seq':
                    out.append(('map', (tm.sel(p[1], tm.add(p[2], m, 64)),), p[3]))
                elif p.__class__ is T and p.w > 8:
                    out += tm.blob_bytes(p)
                else:
                    out.append(p)
            return out

        def shift(body, k):
            return tuple(tm.subst(x, {m: tm.add(m, k, 64)}) if x.__class__ is T else x for x in body)

        def at(x, k):
            return tm.subst(x, {m: k}) if x.__class__ is T else x

        def peel(p):
            return [at(x, 0) for x in p[1]] + [('map', shift(p[1], 1), tm.sub(p[2], 1, 64))]

        def push(q):
            # a byte that continues the pattern of the repetition after it is moved behind it
            if len(q) < 2 or not (q[1].__class__ is tuple and q[1][0] == 'map'):
                return False
            _, body, n = q[1]
            if not same(at(body[-1], (1 << 64) - 1), q[0]):
                return False
            q[0:2] = [('map', shift(body[-1:], (1 << 64) - 1) + tuple(body[:-1]), n), at(body[-1], tm.sub(n, 1, 64))]
            return True
        g, w = expandp(got), expandp(want)
        out = []
        for _ in range(400):
            # drop empty repetitions
            for q in (g, w):
                while q and q[0].__class__ is tuple and q[0][0] == 'map' and prov(tm.eq(q[0][2], 0, 64)):
                    q.pop(0)
            if not g and not w:
                return out
            if not g or not w:
                return None
            a, b = g[0], w[0]
            am, bm = a.__class__ is tuple, b.__class__ is tuple
            if (am and a[0] != 'map') or (bm and b[0] != 'map'):
                if a != b:
                    return None
                out.append((a, b))
                g.pop(0), w.pop(0)
            elif not am and not bm:
                out.append((a, b))
                g.pop(0), w.pop(0)
            elif am and bm:
                la, lb = len(a[1]), len(b[1])
                if la != lb:
                    # several short elements against one long one
                    q, x, y, c = (g, a, b, lb // la) if la < lb else (w, b, a, la // lb)
                    if max(la, lb) % min(la, lb) or not prov(tm.eq(x[2], tm.mul(y[2], c, 64), 64)):
                        return None
                    body = ()
                    for i in range(c):
                        k = tm.add(tm.mul(m, c, 64), i, 64)
                        body += tuple(tm.subst(z, {m: k}) if z.__class__ is T else z for z in x[1])
                    q[0] = ('map', body, y[2])
                    continue
                if same(a[2], b[2]) or prov(tm.eq(a[2], b[2], 64)):
                    out.append((a, (b[0], b[1], a[2])))
                    g.pop(0), w.pop(0)
                elif prov(tm.ule(a[2], b[2], 64)):
                    out.append((a, ('map', b[1], a[2])))
                    g.pop(0)
                    w[0] = ('map', shift(b[1], a[2]), tm.sub(b[2], a[2], 64))
                elif prov(tm.ule(b[2], a[2], 64)):
                    out.append((('map', a[1], b[2]), b))
                    w.pop(0)
                    g[0] = ('map', shift(a[1], b[2]), tm.sub(a[2], b[2], 64))
                else:
                    return None
            else:
                q, o = (g, w) if am else (w, g)
                if prov(tm.ule(1, q[0][2], 64)):
                    q[0:1] = peel(q[0])
                elif not push(o):
                    return None
        return None

    def _piece_eq(self, pc, g, w):
        if same(g, w) or g == w:
            return 'normal-form'
        if g.__class__ is tuple and w.__class__ is tuple and g[0] == w[0] == 'map' and len(g[1]) == len(w[1]):
            if not same(g[2], w[2]):
                if solve.prove(pc, tm.eq(g[2], w[2], 64))[0] != 'proved':
                    return None
            m = tm.var('#m', 64)
            bad = [(a, b) for a, b in zip(g[1], w[1]) if not same(a, b)]
            if not bad:
                return 'normal-form'
            K = w[2]
            # bounded number of repetitions: instantiate each
            for bound in (8, 64, 256, 1024):
                if K.__class__ is int and K <= bound or K.__class__ is T and solve.prove(pc, tm.ule(K, bound, 64))[0] == 'proved':
                    for i in range(bound):
                        for a, b in bad:
                            x = tm.subst(a, {m: i}) if a.__class__ is T else a
                            y = tm.subst(b, {m: i}) if b.__class__ is T else b
                            if not same(x, y) and not Cong(list(pc) + [tm.ult(i, K, 64)]).equal(x, y, 8):
                                return None
                    return 'instances'
            c = Cong(list(pc) + [tm.ult(m, K, 64)] + instances(pc, m))
            for a, b in bad:
                if not c.equal(a, b, 8):
                    return None
            return 'z3'
        if g.__class__ is T and w.__class__ is T and g.w == w.w:
            return Cong(pc).equal(g, w, g.w)
        return None

    def _map_diff(self, pc, g, w):
        """an assignment under which some element of two repeated pieces differs"""
        if not (g.__class__ is tuple and w.__class__ is tuple and g[0] == w[0] == 'map' and len(g[1]) == len(w[1]) and same(g[2], w[2])):
            return None
        bad = [(a, b) for a, b in zip(g[1], w[1]) if not same(a, b)]
        ds = []
        for a, b in bad:
            argdiff(a, b, ds, 0)
        ds = list(dict.fromkeys(ds))
        if not ds or len(ds) > 200:
            return None
        c = 0
        for a, b in ds:
            c = tm.or_(c, tm.ne(a, b, 8), 1)
        m = tm.var('#m', 64)
        for lim in (16, 4096, 1 << 20, 1 << 48):     # an early element first: the counterexample is easier to run
            for ev in evaluators(list(pc) + [tm.ult(m, g[2], 64), tm.ult(m, lim, 64), c] + instances(pc, m), 3):
                try:
                    if any(ev.val(a) != ev.val(b) for a, b in bad):
                        return ev
                except (OverflowError, ValueError):
                    pass
        return None

    # ------------------------------------------------------------------ outcomes of symbolic execution
    def outcomes(self, name, states, want=('ret',), hints=()):
        """every path ends as expected; returns the states that did"""
        good = []
        for s in states:
            if s.out == 'viol':
                self.violation(name, s, hints)
            elif s.out == 'unsupported':
                self.undecided(name, '%s at %s' % (s.exc, getattr(s.exc, 'where', '')))
            elif s.out in want:
                good.append(s)
            else:
                # an unexpected exception escapes
                lab = name + ': no exception'
                what = 'exception %s' % (s.exc,) if s.out == 'exc' else s.out
                for ev in evaluators(s.pc, 3, hints):
                    self.add(lab, 'refuted', 'evaluation', what, envof(ev))
                    break
                else:
                    self.undecided(lab, what)
        return good

    def violation(self, name, s, hints=()):
        v = s.exc
        lab = '%s: %s' % (name, v.kind)
        pc = list(s.pc)
        if v.cond is not None and v.cond.__class__ is not int:
            pc.append(v.cond)
        for ev in evaluators(pc, 2, hints):
            return self.add(lab, 'refuted', 'evaluation', '%s at %s' % (v, getattr(v, 'where', '')), envof(ev))
        return self.undecided(lab, '%s at %s (no model found)' % (v, getattr(v, 'where', '')))


def envof(ev):
    d = {}
    for k, v in ev.env.items() if hasattr(ev.env, 'items') else ():
        d[str(k)] = plain(v)
    arrs = {}
    for (a, i), v in ev.arr.items():
        arrs.setdefault(str(a), {})[i] = v
    for a, m in arrs.items():
        if len(m) <= 4096 and m and min(m) >= 0:
            if max(m) < 8192:
                d['[%s]' % a] = bytes(m.get(i, 0) for i in range(max(m) + 1)).hex()
    if len(d) > 400:
        d = dict(list(d.items())[:400])
    return d


def resolve(t, ev):
    """follow conditionals and table picks whose condition the evaluator decides"""
    while t.__class__ is T:
        if t.op == 'ite':
            t = t.a[1] if ev.val(t.a[0]) else t.a[2]
        elif t.op == 'pick':
            t = t.a[0][ev.val(t.a[1])]
        elif t.op == 'byte' and t.a[0].op == 'bite':
            c, x, y = t.a[0].a
            t = tm.byte(x if ev.val(c) else y, t.a[1])
        else:
            break
    return t


def subst_const(t, var, c):
    if t.__class__ is not T:
        return t
    vs = [x for x in scalars([t]) if x.a[0] == var]
    return tm.subst(t, {x: c for x in vs}) if vs else t


def fixlen(pc, ps):
    """piece lengths that the path condition fixes become constants"""
    d = {}
    for c in pc:
        if c.__class__ is T and c.op == 'eq' and c.a[0].__class__ is int:
            d[c.a[1]] = c.a[0]
        elif c.__class__ is T and c.op == 'eq' and c.a[1].__class__ is int:
            d[c.a[0]] = c.a[1]
    for p in ps:
        if p.__class__ is tuple and p[0] in ('seq', 'fill', 'hash', 'map') and p[-1].__class__ is T and p[-1] not in d:
            for k in (0, 1):
                if solve.prove(pc, tm.eq(p[-1], k, 64))[0] == 'proved':
                    d[p[-1]] = k
                    break
    if not any(p.__class__ is tuple and p[0] in ('seq', 'fill', 'hash', 'map') and p[-1] in d for p in ps):
        return ps
    from . import seq
    return seq.canon([p[:-1] + (d[p[-1]],) if p.__class__ is tuple and p[0] in ('seq', 'fill', 'hash', 'map') and p[-1] in d else p for p in ps])


def literals(pc):
    """one-bit terms that the conditions fix, as a substitution"""
    d = {}
    for t in pc:
        if t.__class__ is T:
            d[t] = 1
            n = tm.xor(t, 1, 1)
            if n.__class__ is T:
                d[n] = 0
    return d


def same(x, y):
    return x is y or (x.__class__ is int and y.__class__ is int and x == y)


def expand(ps):
    out = []
    for p in ps:
        if p.__class__ is T and (p.w > 8 or p.op in ('app', 'cat', 'bite')):
            out.extend(tm.blob_bytes(p))
        elif p.__class__ is tuple:
            c = E.cellbyte(p)
            out.append(c)
        else:
            out.append(p)
    return out


class Cong(object):
    """equality modulo bit-vector reasoning, with opaque functions compared argument by argument"""

    def __init__(self, pc):
        self.pc = list(pc)
        self.memo = {}

    def equal(self, a, b, w):
        if same(a, b):
            return 'normal-form'
        key = (a, b)
        r = self.memo.get(key)
        if r is None:
            self.memo[key] = ''
            r = self._equal(a, b, w)
            self.memo[key] = r
        return r

    def _equal(self, a, b, w):
        if a.__class__ is T and b.__class__ is T and a.op == b.op and a.w == b.w:
            if a.op == 'byte' and a.a[1] == b.a[1]:
                r = self.equal(a.a[0], b.a[0], a.a[0].w)
                if r:
                    return r
            elif a.op == 'lane' and a.a[1] == b.a[1]:
                r = self.equal(a.a[0], b.a[0], a.a[0].w)
                if r:
                    return r
            elif a.op == 'app' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
                rs = set()
                for x, y in zip(a.a[1], b.a[1]):
                    r = self.arg(x, y)
                    if not r:
                        break
                    rs.add(r)
                else:
                    return 'congruence' if rs <= {'normal-form'} else '+'.join(sorted(rs | {'congruence'}))
            elif a.op == 'bite':
                x = self.equal(a.a[0], b.a[0], 1)
                if x and self.equal(a.a[1], b.a[1], w) and self.equal(a.a[2], b.a[2], w):
                    return 'congruence'
            elif a.op == 'rec':
                if self.arg(a.a[3], b.a[3]) and a.a[4] == b.a[4] and a.a[2] == b.a[2]:
                    sub = Cong([])
                    if all(self.arg(x, y) for x, y in zip(a.a[1], b.a[1])) and all(sub.arg(x, y) for x, y in zip(a.a[0], b.a[0])):
                        return 'congruence'
        # case split on conditional blobs
        for p, q in ((a, b), (b, a)):
            if p.__class__ is T and p.op == 'byte' and p.a[0].op == 'bite':
                c, x, y = p.a[0].a
                i = p.a[1]
                d1 = self.branch(c).equal2(tm.byte(x, i), q, 8)
                if d1 and self.branch(tm.not_(c, 1)).equal2(tm.byte(y, i), q, 8):
                    return 'case-split'
                return ''
            if p.__class__ is T and p.op == 'ite' and haspp(p):
                c, x, y = p.a
                if self.branch(c).equal2(x, q, w) and self.branch(tm.not_(c, 1)).equal2(y, q, w):
                    return 'case-split'
                return ''
        if (a.__class__ is T and a.w > 64 or b.__class__ is T and b.w > 64) :
            return ''
        try:
            r, info = solve.prove(self.pc, tm.eq(a, b, w))
        except ValueError:
            return ''
        return info if r == 'proved' else ''

    def branch(self, c):
        k = ('br', c)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = Cong(self.pc + [c])
            r.feas = solve.isfeasible(self.pc, c)
        return r

    feas = True

    def equal2(self, a, b, w):
        if not self.feas:
            return 'infeasible'
        return self.equal(a, b, w)

    def arg(self, x, y):
        if same(x, y) or x == y:
            return 'normal-form'
        if x.__class__ is tuple and y.__class__ is tuple:
            if any(p.__class__ is tuple and p and p[0] in ('seq', 'fill', 'hash') for p in x + y):
                x, y = fixlen(self.pc, x), fixlen(self.pc, y)
                if x == y:
                    return 'normal-form'
            try:
                gx, gy = expand(x), expand(y)
            except Exception:
                gx, gy = x, y
            if len(gx) != len(gy):
                return ''
            rs = set()
            for p, q in zip(gx, gy):
                r = self.arg(p, q)
                if not r:
                    return ''
                rs.add(r)
            return '+'.join(sorted(rs))
        if x.__class__ is tuple or y.__class__ is tuple:
            return ''
        w = x.w if x.__class__ is T else y.w if y.__class__ is T else 0
        if not w:
            return ''
        return self.equal(x, y, w)


def argdiff(a, b, out, d):
    """pairs of bytes in which two terms with the same opaque function on the outside differ"""
    if a.__class__ is tuple and b.__class__ is tuple:
        if len(a) == len(b):
            for x, y in zip(a, b):
                argdiff(x, y, out, d)
        return
    if same(a, b) or d > 8 or a.__class__ not in (int, T) or b.__class__ not in (int, T):
        return
    if a.__class__ is T and b.__class__ is T and a.op == b.op:
        if a.op == 'byte' and a.a[1] == b.a[1]:
            return argdiff(a.a[0], b.a[0], out, d + 1)
        if a.op == 'app' and a.a[0] == b.a[0]:
            return argdiff(a.a[1], b.a[1], out, d + 1)
    if all(x.__class__ is int and x < 256 or x.__class__ is T and x.w == 8 for x in (a, b)):
        out.append((a, b))


def haspp(t):
    for y in t.a[1:]:
        if y.__class__ is T and y.op in ('byte', 'ite', 'app'):
            return True
    return False


def _piecebytes2(self, ps):
    out = bytearray()
    for p in ps:
        if p.__class__ is tuple and p[0] == 'map':
            K = self.val(p[2])
            if K * len(p[1]) > 20000:
                raise OverflowError('too long')
            for i in range(K):
                e = self.child({'#m': i})
                for c in p[1]:
                    out.append(e.val(c))
        elif p.__class__ is tuple and p[0] == 'fill':
            n = self.val(p[2])
            if n > 100000:
                raise OverflowError('too long')
            out += bytes([self.val(p[1])]) * n
        else:
            out += self.piecebytes((p,))
    return bytes(out)


solve.Evaluator.piecebytes2 = _piecebytes2
