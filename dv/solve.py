"""Concrete evaluation of terms, and discharge of obligations by normal form, z3, cvc5."""
import random
import time
import z3
from . import term as tm
from .term import T

STATS = {'syntactic': 0, 'z3': 0, 'cvc5': 0, 'z3_time': 0.0, 'z3_queries': 0, 'cvc5_time': 0.0}

# ------------------------------------------------------------------ evaluation
INTERP = {}      # name -> f(evaluator, args, nbytes) -> bytes


class _Chain(object):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def get(self, k):
        x = self.a.get(k)
        return x if x is not None else self.b.get(k)

    def __setitem__(self, k, v):
        self.b[k] = v


class Evaluator(object):
    """Evaluates terms under a concrete assignment.

    env maps a variable name to an int (scalar) or bytes (blob); missing ones are drawn from rng
    (optionally through hook) and recorded, so the assignment can be replayed."""

    def __init__(self, rng=None, env=None, interp=None):
        self.rng = rng or random.Random(1)
        self.env = dict(env or {})
        self.interp = INTERP if interp is None else interp
        self.memo = {}
        self.arr = {}

    def val(self, t):
        if t.__class__ is not T:
            return t
        r = self.memo.get(t)
        if r is None:
            r = self._val(t)
            self.memo[t] = r
        return r

    def blob(self, t):
        """bytes of blob term"""
        r = self.memo.get(t)
        if r is None or r.__class__ is not bytes:
            r = self._blob(t)
            self.memo[t] = r
        return r

    def _blob(self, t):
        op = t.op
        if op == 'var':
            v = self.env.get(t.a[0])
            if v is None:
                v = self.env[t.a[0]] = bytes(self.rng.getrandbits(8) for _ in range(t.w // 8))
            elif v.__class__ is int:
                v = self.env[t.a[0]] = v.to_bytes(t.w // 8, 'big')
            return v
        if op == 'cat':
            return bytes(self.val(x) for x in t.a[0])
        if op == 'bite':
            return self.blob(t.a[1]) if self.val(t.a[0]) else self.blob(t.a[2])
        if op == 'app':
            return self.interp[t.a[0]](self, t.a[1], t.w // 8)
        raise ValueError('blob eval of ' + op)

    def seqbyte(self, arr, i):
        k = (arr, i)
        if k not in self.arr:
            self.arr[k] = self.rng.getrandbits(8)
        return self.arr[k]

    def piecebytes(self, ps):
        """bytes denoted by a canonical piece tuple"""
        out = bytearray()
        for p in ps:
            if p.__class__ is int:
                out.append(p)
            elif p.__class__ is tuple and p[0] in ('map', 'fill'):
                out += self.piecebytes2((p,))
            elif p.__class__ is tuple and p[0] == 'hash':
                n = self.val(p[3])
                if n > 100000:
                    raise OverflowError('hash output too long to evaluate')
                out += self.interp[p[1]](self, p[2] + (n,), n) if n else b''
            elif p.__class__ is tuple and p[0] == 'seq':
                arr, st, ln = p[1], self.val(p[2]), self.val(p[3])
                if ln > 100000:
                    raise OverflowError('sequence too long to evaluate')
                for i in range(ln):
                    out.append(self.seqbyte(arr, st + i))
            elif p.w == 8 and p.op not in ('app', 'cat', 'bite') :
                out.append(self.val(p))
            else:
                out += self.blob(p)
        return bytes(out)

    def child(self, env):
        e = Evaluator(self.rng, None, self.interp)
        e.env = _Chain(env, self.env)
        e.arr = self.arr
        return e

    def rec(self, t):
        Fs, inits, ws, K, j = t.a
        key = ('rec', Fs, inits, K)
        vs = self.memo.get(key)
        if vs is None:
            K = self.val(K)
            if K > 100000:
                raise OverflowError('loop too long to evaluate')
            vs = [self.val(x) for x in inits]
            for i in range(K):
                env = {'#s%d' % q: x for q, x in enumerate(vs)}
                env['#k'] = i
                e2 = self.child(env)
                vs = [e2.val(f) for f in Fs]
            self.memo[key] = vs
        return vs[j]

    def _val(self, t):
        op, a, w = t.op, t.a, t.w
        M = (1 << w) - 1
        v = self.val
        if op == 'var':
            x = self.env.get(a[0])
            if x is None:
                x = self.env[a[0]] = self.rng.getrandbits(w)
            return x & M
        if op == 'byte':
            return self.blob(a[0])[a[1]]
        if op == 'add':
            r = a[0]
            for x, co in a[1]:
                r += v(x) * co
            return r & M
        if op == 'mul':
            return (v(a[0]) * v(a[1])) & M
        if op == 'xor':
            r = a[0]
            for x in a[1]:
                r ^= v(x)
            return r
        if op == 'or':
            r = a[0]
            for x in a[1]:
                r |= v(x)
            return r
        if op == 'and':
            r = a[0]
            for x in a[1]:
                r &= v(x)
            return r
        if op == 'zext':
            return v(a[0])
        if op == 'sext':
            return tm.sext(v(a[0]), a[0].w, w)
        if op == 'ext':
            return (v(a[0]) >> a[1]) & M
        if op == 'ite':
            return v(a[1]) if v(a[0]) else v(a[2])
        if op == 'sel':
            return self.seqbyte(a[0], v(a[1]))
        if op == 'tab':
            i = v(a[1])
            return a[0][i] if i < len(a[0]) else 0
        if op in ('eq', 'ult', 'slt'):
            ww = a[0].w if a[0].__class__ is T else a[1].w
            return getattr(tm, op)(v(a[0]), v(a[1]), ww)
        if op in ('shl', 'lshr', 'ashr', 'rotl'):
            x, k = v(a[0]), v(a[1])
            if op != 'rotl' and k >= w:
                return 0 if op != 'ashr' else tm.ashr(x, w - 1, w)
            return getattr(tm, op)(x, k, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            x, y = v(a[0]), v(a[1])
            if y == 0:
                return M if op == 'udiv' else x
            return getattr(tm, op)(x, y, w)
        if op == 'app':
            return int.from_bytes(self.blob(t), 'little') & M
        if op == 'rec':
            return self.rec(t)
        if op == 'all':
            K = v(a[0])
            if K > 100000:
                raise OverflowError('loop too long to evaluate')
            for i in range(K):
                e2 = self.child({'#k': i})
                if not e2.val(a[1]):
                    return 0
            return 1
        if op == 'pick':
            i = v(a[1])
            return v(a[0][i]) if i < len(a[0]) else 0
        if op == 'lane':      # word of a keccak state app
            b = self.blob(a[0])
            return int.from_bytes(b[8 * a[1]:8 * a[1] + 8], 'little')
        raise ValueError('eval of ' + op)


# ------------------------------------------------------------------ SMT
_z = {}


def _const(t, w):
    return z3.BitVec('%s_%d' % (t.op, t.id), w)


def toz(t, w=None):
    """bit-vector expression for t (Bool terms become 1-bit vectors)"""
    if t.__class__ is not T:
        return z3.BitVecVal(t, w)
    r = _z.get(t.id)
    if r is None:
        r = _toz(t)
        _z[t.id] = r
    return r


def _b(x):
    return z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))


def _toz(t):
    op, a, w = t.op, t.a, t.w
    if op == 'pick':
        r = toz(a[0][-1], w)
        for i in range(len(a[0]) - 2, -1, -1):
            r = z3.If(toz(a[1]) == z3.BitVecVal(i, a[1].w), toz(a[0][i], w), r)
        return r
    if op in ('var', 'app', 'byte', 'lane', 'rec', 'all'):
        if op == 'byte' and a[0].op == 'bite':
            B = a[0]
            return z3.If(toz(B.a[0], 1) == 1, toz(tm.byte(B.a[1], a[1]), 8), toz(tm.byte(B.a[2], a[1]), 8))
        return _const(t, w)
    if op == 'sel':
        A = z3.Array('arr_%s' % a[0], z3.BitVecSort(64), z3.BitVecSort(w))
        return z3.Select(A, toz(a[1], 64))
    if op == 'add':
        r = z3.BitVecVal(a[0], w)
        for x, co in a[1]:
            r = r + (toz(x, w) if co == 1 else toz(x, w) * z3.BitVecVal(co, w))
        return r
    if op in ('xor', 'or', 'and'):
        ident = {'xor': 0, 'or': 0, 'and': (1 << w) - 1}[op]
        rs = [toz(x, w) for x in a[1]]
        if a[0] != ident:
            rs.append(z3.BitVecVal(a[0], w))
        r = rs[0]
        for x in rs[1:]:
            r = (r ^ x) if op == 'xor' else (r | x) if op == 'or' else (r & x)
        return r
    if op == 'mul':
        return toz(a[0], w) * toz(a[1], w)
    if op == 'zext':
        return z3.ZeroExt(w - a[0].w, toz(a[0]))
    if op == 'sext':
        return z3.SignExt(w - a[0].w, toz(a[0]))
    if op == 'ext':
        return z3.Extract(a[1] + w - 1, a[1], toz(a[0]))
    if op == 'shl':
        return toz(a[0], w) << toz(a[1], w)
    if op == 'lshr':
        return z3.LShR(toz(a[0], w), toz(a[1], w))
    if op == 'ashr':
        return toz(a[0], w) >> toz(a[1], w)
    if op == 'rotl':
        return z3.RotateLeft(toz(a[0], w), a[1])
    if op == 'udiv':
        return z3.UDiv(toz(a[0], w), toz(a[1], w))
    if op == 'urem':
        return z3.URem(toz(a[0], w), toz(a[1], w))
    if op == 'sdiv':
        return toz(a[0], w) / toz(a[1], w)
    if op == 'srem':
        return z3.SRem(toz(a[0], w), toz(a[1], w))
    if op in ('eq', 'ult', 'slt'):
        ww = a[0].w if a[0].__class__ is T else a[1].w
        x, y = toz(a[0], ww), toz(a[1], ww)
        return _b(x == y if op == 'eq' else z3.ULT(x, y) if op == 'ult' else x < y)
    if op == 'ite':
        return z3.If(toz(a[0], 1) == 1, toz(a[1], w), toz(a[2], w))
    if op == 'tab':
        table, idx = a
        iw = idx.w
        r = z3.BitVecVal(table[-1], w)
        for i in range(len(table) - 2, -1, -1):
            r = z3.If(toz(idx) == z3.BitVecVal(i, iw), z3.BitVecVal(table[i], w), r)
        return r
    raise ValueError('no SMT form for ' + op)


# ------------------------------------------------------------------ linear integer abstraction
class _Lia(object):
    """Exact for linear modular arithmetic, comparisons and constant division; any other operator becomes an
    unconstrained integer in its known range (over-approximation: unsat is a proof, sat only if nothing was abstracted)."""

    def __init__(self):
        self.cs = []
        self.memo = {}
        self.exact = True
        self.n = 0

    def fresh(self, hi):
        self.n += 1
        v = z3.Int('x%d' % self.n)
        self.cs.append(v >= 0)
        self.cs.append(v <= hi)
        return v

    def wrap(self, e, lo, hi, w):
        """integer expression e with lo <= e <= hi reduced mod 2^w"""
        M = 1 << w
        if lo >= 0 and hi < M:
            return e
        j = z3.Int('w%d' % self.n)
        self.n += 1
        self.cs.append(j >= lo // M)
        self.cs.append(j <= hi // M)
        r = e - M * j
        self.cs.append(r >= 0)
        self.cs.append(r < M)
        return r

    def num(self, t):
        if t.__class__ is not T:
            return z3.IntVal(t)
        r = self.memo.get(t)
        if r is None:
            r = self._num(t)
            self.memo[t] = r
        return r

    def _num(self, t):
        op, a, w = t.op, t.a, t.w
        if op == 'add':
            e = z3.IntVal(0)
            lo = hi = 0
            M = 1 << w
            c = tm._s(a[0], w)
            e = e + c
            lo += c
            hi += c
            for x, co in a[1]:
                s = tm._s(co, w)
                e = e + s * self.num(x)
                if s > 0:
                    hi += s * x.m
                else:
                    lo += s * x.m
            return self.wrap(e, lo, hi, w)
        if op == 'shl' and a[1].__class__ is int:
            return self.wrap(self.num(a[0]) * (1 << a[1]), 0, tm.mask(a[0]) << a[1], w)
        if op == 'zext':
            return self.num(a[0])
        if op == 'ext' and a[1] == 0:
            x = self.num(a[0])
            return self.wrap(x, 0, a[0].m, w)
        if op == 'ext':
            # bits [lo, lo+w): div then mod
            q = self.fresh(a[0].m >> a[1])
            r = self.fresh((1 << a[1]) - 1)
            self.cs.append(self.num(a[0]) == q * (1 << a[1]) + r)
            return self.wrap(q, 0, a[0].m >> a[1], w)
        if op in ('lshr', 'udiv') and a[1].__class__ is int and a[1]:
            d = (1 << a[1]) if op == 'lshr' else a[1]
            q = self.fresh(tm.mask(a[0]) // d)
            r = self.fresh(d - 1)
            self.cs.append(self.num(a[0]) == q * d + r)
            return q
        if op == 'urem' and a[1].__class__ is int and a[1]:
            d = a[1]
            q = self.fresh(tm.mask(a[0]) // d)
            r = self.fresh(d - 1)
            self.cs.append(self.num(a[0]) == q * d + r)
            return r
        if op == 'and' and len(a[1]) == 1 and a[0] & (a[0] + 1) == 0:
            return self.wrap(self.num(a[1][0]), 0, a[1][0].m, a[0].bit_length())
        if op == 'ite':
            return z3.If(self.boo(a[0]), self.num(a[1]), self.num(a[2]))
        if w == 1 and op in ('eq', 'ult', 'slt', 'and', 'or', 'xor'):
            return z3.If(self.boo(t), 1, 0)
        if op not in ('var', 'app', 'byte', 'rec', 'lane', 'sel'):
            self.exact = False
        if op == 'or' and w > 1:
            # disjoint or is a sum
            acc = a[0]
            ok = True
            for x in a[1]:
                if acc & x.m:
                    ok = False
                acc |= x.m
            if ok:
                self.exact = True and self.exact
                e = z3.IntVal(a[0])
                for x in a[1]:
                    e = e + self.num(x)
                return e
        return self.fresh(t.m)

    def boo(self, t):
        if t.__class__ is not T:
            return z3.BoolVal(bool(t))
        k = ('b', t)
        r = self.memo.get(k)
        if r is None:
            r = self._boo(t)
            self.memo[k] = r
        return r

    def _boo(self, t):
        op, a = t.op, t.a
        if op in ('eq', 'ult', 'slt'):
            w = a[0].w if a[0].__class__ is T else a[1].w
            x, y = self.num(a[0]), self.num(a[1])
            if op == 'eq':
                return x == y
            if op == 'ult':
                return x < y
            H = 1 << (w - 1)

            def sg(e, q):
                if tm.mask(q) < H:
                    return e
                return z3.If(e >= H, e - 2 * H, e)
            return sg(x, a[0]) < sg(y, a[1])
        if op == 'xor':
            r = z3.BoolVal(bool(a[0]))
            for x in a[1]:
                r = z3.Xor(r, self.boo(x)) if not (z3.is_true(r)) else z3.Not(self.boo(x))
            return r
        if op == 'and':
            return z3.And([self.boo(x) for x in a[1]]) if a[0] else z3.BoolVal(False)
        if op == 'or':
            return z3.BoolVal(True) if a[0] else z3.Or([self.boo(x) for x in a[1]])
        if op == 'ite':
            return z3.If(self.boo(a[0]), self.boo(a[1]), self.boo(a[2]))
        if op not in ('var', 'app', 'all'):
            self.exact = False
        self.n += 1
        b = z3.Bool('p%d' % self.n)
        return b


def lia(cs, timeout=4000):
    """satisfiability of the conjunction: 'unsat' | 'sat' (exact) | 'unknown'"""
    L = _Lia()
    fs = [L.boo(c) for c in cs]
    s = z3.Solver()
    s.set('timeout', timeout)
    for f in fs:
        s.add(f)
    for f in L.cs:
        s.add(f)
    t0 = time.time()
    r = s.check()
    STATS['lia_time'] = STATS.get('lia_time', 0.0) + time.time() - t0
    STATS['lia_queries'] = STATS.get('lia_queries', 0) + 1
    if r == z3.unsat:
        return 'unsat'
    if r == z3.sat and L.exact:
        return 'sat'
    return 'unknown'


_fcache = {}


HINTS = []      # evaluators whose assignments are tried as witnesses of feasibility


def hinted(cs):
    for ev in HINTS:
        try:
            if all(ev.val(c) for c in reversed(cs)):
                return True
        except (OverflowError, ValueError):
            pass
    return False


def isfeasible(pc, extra=1, timeout=20000):
    """can pc /\\ extra be true?  unknown counts as feasible"""
    cs = []
    for c in list(pc) + [extra]:
        if c.__class__ is int:
            if not c:
                return False
            continue
        cs.append(c)
    if not cs:
        return True
    key = frozenset(c.id for c in cs)
    r = _fcache.get(key)
    if r is not None:
        return r
    if HINTS and hinted(cs):
        _fcache[key] = True
        return True
    if len(cs) > 24 and not _feas(cs[:4] + cs[-6:], 2000):
        _fcache[key] = False
        return False
    r = _feas(cs, timeout)
    _fcache[key] = r
    return r


def _feas(cs, timeout):
    if any(_wide(c) for c in cs):
        l = lia(cs)
        if l == 'unsat':
            return False
        if l == 'sat':
            return True
    s = z3.SolverFor('QF_ABV')
    s.set('timeout', timeout)
    for c in cs:
        s.add(toz(c) == 1)
    t0 = time.time()
    r = s.check()
    STATS['z3_time'] += time.time() - t0
    STATS['z3_queries'] += 1
    return r != z3.unsat


_wd = {}


def _wide(c):
    """does the condition contain linear arithmetic over 32 or more bits?"""
    r = _wd.get(c)
    if r is None:
        r = False
        seen = set()
        st = [c]
        while st:
            x = st.pop()
            if x.__class__ is not T or x in seen:
                continue
            seen.add(x)
            if x.op in ('add', 'udiv', 'urem') and x.w >= 32 or x.op in ('ult', 'slt') and (x.a[0].w if x.a[0].__class__ is T else x.a[1].w) >= 32:
                r = True
                break
            if x.op in ('app', 'byte', 'rec', 'var', 'sel', 'lane', 'tab'):
                continue
            for y in x.a:
                if y.__class__ is tuple:
                    st.extend(z[0] if z.__class__ is tuple else z for z in y)
                else:
                    st.append(y)
        _wd[c] = r
    return r


def size(ts):
    seen = set()
    st = [t for t in ts if t.__class__ is T]
    while st:
        x = st.pop()
        if x.__class__ is tuple:
            st.extend(x)
        elif x.__class__ is T and x not in seen:
            seen.add(x)
            if len(seen) > 100000:
                break
            if x.op in ('var', 'app', 'byte', 'lane', 'rec', 'all'):
                if not (x.op == 'byte' and x.a[0].op == 'bite'):
                    continue
            st.extend(x.a)
    return len(seen)


def quick(pc, goal):
    """proved by the linear fragment?"""
    if goal.__class__ is int:
        return bool(goal)
    return lia([c for c in pc if c.__class__ is not int] + [tm.not_(goal, 1)], 1500) == 'unsat'


def prove(pc, goal, timeout=30000):
    """-> ('proved', backend) | ('refuted', model-or-None) | ('unknown', reason)"""
    if goal.__class__ is int:
        if goal:
            STATS['syntactic'] += 1
            return ('proved', 'normal-form')
        if isfeasible(pc):
            return ('refuted', None)
        return ('proved', 'z3')
    pcs = [c for c in pc if c.__class__ is not int]
    if goal in pcs:
        STATS['syntactic'] += 1
        return ('proved', 'normal-form')
    ng = tm.not_(goal, 1)
    if len(pcs) > 24:
        # a few assumptions often suffice
        r = prove(pcs[:4] + pcs[-6:], goal, 3000)
        if r[0] == 'proved':
            return r
    if size([goal] + pcs) > 60000:
        return ('unknown', 'formula too large for the solvers')
    if ng.__class__ is T and (_wide(ng) or any(_wide(c) for c in pcs)):
        if lia(pcs + [ng]) == 'unsat':
            STATS['lia'] = STATS.get('lia', 0) + 1
            return ('proved', 'z3-lia')
    s = z3.SolverFor('QF_ABV')
    s.set('timeout', timeout)
    for c in pcs:
        s.add(toz(c) == 1)
    s.add(toz(goal) == 0)
    t0 = time.time()
    r = s.check()
    STATS['z3_time'] += time.time() - t0
    STATS['z3_queries'] += 1
    if r == z3.unsat:
        STATS['z3'] += 1
        return ('proved', 'z3')
    if r == z3.sat:
        return ('refuted', s.model())
    # second back end
    t0 = time.time()
    c5 = _cvc5(s.to_smt2(), timeout)
    STATS['cvc5_time'] += time.time() - t0
    if c5 == 'unsat':
        STATS['cvc5'] += 1
        return ('proved', 'cvc5')
    return ('unknown', 'z3: %s, cvc5: %s' % (s.reason_unknown(), c5))


def _cvc5(smt2, timeout):
    import subprocess
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % timeout, '-'], input=smt2.encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout / 1000 + 5)
        return p.stdout.decode().split()[0] if p.stdout.split() else 'none'
    except Exception as e:
        return 'error'


def model_value(model, t):
    if t.__class__ is not T:
        return t
    v = model.eval(toz(t), model_completion=True)
    return v.as_long()
