"""Hash-consed bit-vector terms with normalisation.

A value is a Python int (concrete, unsigned, already masked) or a T.
Terms are interned, so equality of normal forms is pointer identity.
Every rewrite below is an identity of bit-vector arithmetic (mod 2^w).
"""
import sys
sys.setrecursionlimit(200000)

_table = {}
_next = [0]


class T(object):
    __slots__ = ('op', 'a', 'w', 'id', 'm', 'x', '__weakref__')

    def __repr__(self):
        return show(self, 4)


def mk(op, w, args, m=None):
    key = (op, w, args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = args
        t.w = w
        t.id = _next[0]
        _next[0] += 1
        t.m = ((1 << w) - 1) if m is None and w else (m or 0)
        t.x = None
        _table[key] = t
    return t


def show(t, d=3):
    if not isinstance(t, T):
        return hex(t) if isinstance(t, int) and t > 9 else str(t)
    if t.op == 'var':
        return str(t.a[0])
    if t.op == 'byte':
        return '%s[%d]' % (show(t.a[0], d), t.a[1])
    if d <= 0:
        return '#%d' % t.id
    return '%s(%s)' % (t.op, ','.join(_sh(x, d - 1) for x in t.a))


def _sh(x, d):
    if isinstance(x, T):
        return show(x, d)
    if isinstance(x, tuple):
        if len(x) > 8:
            return '(' + ','.join(_sh(y, d - 1) for y in x[:3]) + ',..%d..)' % len(x)
        return '(' + ','.join(_sh(y, d - 1) for y in x) + ')'
    return show(x, d)


def isint(x):
    return x.__class__ is int


def var(name, w):
    return mk('var', w, (name,))


_fresh = [0]


def fresh(prefix, w):
    _fresh[0] += 1
    return var('%s!%d' % (prefix, _fresh[0]), w)


def mask(x):
    return x if x.__class__ is int else x.m


def _lowfill(m):
    # smallest 2^k-1 >= m
    return (1 << m.bit_length()) - 1


# ---------------------------------------------------------------- linear sums
def _lin(x, d, k, w):
    """add k*x into dict d, return the constant part"""
    if x.__class__ is int:
        return k * x
    if x.op == 'add':
        c = x.a[0] * k
        for (t, co) in x.a[1]:
            d[t] = d.get(t, 0) + k * co
        return c
    d[x] = d.get(x, 0) + k
    return 0


def _mklin(c, d, w):
    M = (1 << w) - 1
    c &= M
    items = [(t, co & M) for t, co in d.items() if co & M]
    if not items:
        return c
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    # disjoint bits: an or
    ub = c
    for t, co in items:
        ub += t.m * co
    if ub <= M:
        m = _lowfill(ub)
    else:
        m = M
    if ub <= M and len(items) + (1 if c else 0) > 1:
        acc = c
        ok = True
        for t, co in items:
            if co & (co - 1):
                ok = False
                break
            mm = t.m * co
            if acc & mm:
                ok = False
                break
            acc |= mm
        if ok:
            r = c
            for t, co in items:
                r = or_(r, shl(t, co.bit_length() - 1, w), w)
            return r
    if c == 0 and len(items) == 1:
        t, co = items[0]
        if co & (co - 1) == 0:
            return shl(t, co.bit_length() - 1, w)
    return mk('add', w, (c, tuple(items)), m)


def add(x, y, w):
    if x.__class__ is int and y.__class__ is int:
        return (x + y) & ((1 << w) - 1)
    d = {}
    c = _lin(x, d, 1, w) + _lin(y, d, 1, w)
    return _mklin(c, _unshl(d, w), w)


def _unshl(d, w):
    """fold shl by constants into coefficients so that sums have one form"""
    hit = False
    for t in d:
        if t.op == 'shl' and t.a[1].__class__ is int:
            hit = True
            break
    if not hit:
        return d
    r = {}
    for t, co in d.items():
        if t.op == 'shl' and t.a[1].__class__ is int:
            r[t.a[0]] = r.get(t.a[0], 0) + (co << t.a[1])
        else:
            r[t] = r.get(t, 0) + co
    return r


def sub(x, y, w):
    if x.__class__ is int and y.__class__ is int:
        return (x - y) & ((1 << w) - 1)
    d = {}
    c = _lin(x, d, 1, w) + _lin(y, d, -1, w)
    return _mklin(c, _unshl(d, w), w)


def mul(x, y, w):
    M = (1 << w) - 1
    if x.__class__ is int:
        if y.__class__ is int:
            return (x * y) & M
        x, y = y, x
    if y.__class__ is int:
        if y == 0:
            return 0
        if y == 1:
            return x
        d = {}
        c = _lin(x, d, y, w)
        return _mklin(c, _unshl(d, w), w)
    if x.id > y.id:
        x, y = y, x
    ub = x.m * y.m
    return mk('mul', w, (x, y), _lowfill(ub) if ub <= M else M)


# ---------------------------------------------------------------- bitwise
def xor(x, y, w):
    if x.__class__ is int and y.__class__ is int:
        return x ^ y
    if x is y:
        return 0
    c = 0
    s = {}
    for z in (x, y):
        if z.__class__ is int:
            c ^= z
        elif z.op == 'xor':
            c ^= z.a[0]
            for t in z.a[1]:
                if t in s:
                    del s[t]
                else:
                    s[t] = 1
        else:
            if z in s:
                del s[z]
            else:
                s[z] = 1
    if not s:
        return c
    if c == 0 and len(s) == 1:
        return next(iter(s))
    acc = c
    ok = True
    for t in s:
        if acc & t.m:
            ok = False
        acc |= t.m
    if ok:
        r = c
        for t in s:
            r = or_(r, t, w)
        return r
    return mk('xor', w, (c, tuple(sorted(s, key=_id))), acc)


def _id(t):
    return t.id


def not_(x, w=1):
    return xor(x, (1 << w) - 1, w)


def and_(x, y, w):
    if x.__class__ is int:
        if y.__class__ is int:
            return x & y
        x, y = y, x
    M = (1 << w) - 1
    if y.__class__ is int:
        if y == 0 or (x.m & y) == 0:
            return 0
        if (x.m & ~y) == 0:
            return x
        # distribute the constant over disjoint or's
        if x.op == 'or':
            r = 0
            for t in (x.a[0],) + x.a[1]:
                r = or_(r, and_(t, y, w), w)
            return r
        # low mask: an extraction
        if x.op == 'and' and x.a[0] != M:
            y &= x.a[0]
            ts = x.a[1]
            return _mkand(y, ts, w)
        if w > 1:
            # contiguous mask => canonical extract
            lo = (y & -y).bit_length() - 1
            yy = y >> lo
            if yy & (yy + 1):
                z = y & x.m
                lz = (z & -z).bit_length() - 1
                if (z >> lz) & ((z >> lz) + 1) == 0:
                    y, lo, yy = z, lz, z >> lz
            if yy & (yy + 1) == 0:
                n = yy.bit_length()
                if n < w:
                    return shl(zext(extract(x, lo, n), n, w), lo, w)
        return _mkand(y, (x,), w)
    if x is y:
        return x
    if (x.m & y.m) == 0:
        return 0
    c = M
    ts = {}
    for z in (x, y):
        if z.op == 'and':
            c &= z.a[0]
            for t in z.a[1]:
                ts[t] = 1
        else:
            ts[z] = 1
    if w == 1:
        for t in ts:
            if not_(t, 1) in ts:
                return 0
    return _mkand(c, tuple(sorted(ts, key=_id)), w)


def _mkand(c, ts, w):
    m = c
    for t in ts:
        m &= t.m
    if m == 0:
        return 0
    M = (1 << w) - 1
    if len(ts) == 1:
        if c == M or (ts[0].m & ~c) == 0:
            return ts[0]
    else:
        allm = M
        for t in ts:
            allm &= t.m
        if allm & ~c == 0:
            c = M
    return mk('and', w, (c, ts), m)


def or_(x, y, w):
    if x.__class__ is int and y.__class__ is int:
        return x | y
    if x is y:
        return x
    if x.__class__ is int:
        x, y = y, x
    M = (1 << w) - 1
    if y.__class__ is int:
        if y == 0:
            return x
        if y == M:
            return M
    c = 0
    ts = {}
    for z in (x, y):
        if z.__class__ is int:
            c |= z
        elif z.op == 'or':
            c |= z.a[0]
            for t in z.a[1]:
                ts[t] = 1
        else:
            ts[z] = 1
    if w == 1:
        for t in ts:
            if not_(t, 1) in ts:
                return 1
    m = c
    for t in ts:
        m |= t.m
    # rotation: or(shl(x,k), lshr(x,w-k))
    if c == 0 and len(ts) == 2:
        p, q = list(ts)
        for a, b in ((p, q), (q, p)):
            if a.op == 'shl' and b.op == 'lshr' and a.a[0] is b.a[0] \
                    and a.a[1].__class__ is int and b.a[1].__class__ is int and a.a[1] + b.a[1] == w:
                return mkrotl(a.a[0], a.a[1], w)
            if a.op == 'shl' and b.op == 'zext' and b.a[0].op == 'ext' and b.a[0].a[0] is a.a[0] \
                    and a.a[1].__class__ is int and b.a[0].a[1] == w - a.a[1] and b.a[0].w == a.a[1]:
                return mkrotl(a.a[0], a.a[1], w)
    # adjacent pieces of one source re-assemble:  or(zext(ext(t,lo,n)) << s, ...)
    r = _reassemble(c, ts, w)
    if r is not None:
        return r
    if not ts:
        return c
    if c == 0 and len(ts) == 1:
        return next(iter(ts))
    return mk('or', w, (c, tuple(sorted(ts, key=_id))), m)


def _piece(t):
    """t == zext(ext(src, lo, n)) << s  ->  (src, lo, n, s)"""
    s = 0
    if t.op == 'shl' and t.a[1].__class__ is int:
        s = t.a[1]
        t = t.a[0]
    if t.op == 'zext':
        t = t.a[0]
    if t.op == 'ext':
        return (t.a[0], t.a[1], t.w, s)
    if t.op == 'byte':
        return None
    return None


def _reassemble(c, ts, w):
    if c or len(ts) < 2:
        return None
    ps = []
    for t in ts:
        p = _piece(t)
        if p is None:
            return None
        ps.append(p)
    src = ps[0][0]
    if any(p[0] is not src for p in ps):
        return None
    ps.sort(key=lambda p: p[3])
    lo0, s0 = ps[0][1], ps[0][3]
    cur = 0
    for p in ps:
        if p[3] - s0 != cur or p[1] - lo0 != cur:
            return None
        cur += p[2]
    return shl(_cast(extract(src, lo0, cur), cur, w), s0, w)


def _cast(x, fw, tw):
    if fw == tw:
        return x
    if fw < tw:
        return zext(x, fw, tw)
    return extract(x, 0, tw)


def rotl(x, k, w):
    if x.__class__ is int:
        k %= w
        return ((x << k) | (x >> (w - k))) & ((1 << w) - 1) if k else x
    if k.__class__ is not int:
        return or_(shl(x, urem(k, w, w), w), lshr(x, urem(sub(0, k, w), w, w), w), w)
    k %= w
    if k == 0:
        return x
    return or_(shl(x, k, w), lshr(x, w - k, w), w)


def mkrotl(x, k, w):
    if x.op == 'rotl':
        k = (k + x.a[1]) % w
        x = x.a[0]
        if k == 0:
            return x
    return mk('rotl', w, (x, k), rotl(x.m, k, w))


def shl(x, k, w):
    M = (1 << w) - 1
    if k.__class__ is int:
        if k == 0:
            return x
        if k >= w:
            return 0
        if x.__class__ is int:
            return (x << k) & M
        if (x.m << k) & M == 0:
            return 0
        if x.op == 'shl' and x.a[1].__class__ is int:
            return shl(x.a[0], x.a[1] + k, w)
        if x.op == 'or':
            r = 0
            for t in (x.a[0],) + x.a[1]:
                r = or_(r, shl(t, k, w), w)
            return r
        if x.op == 'add':
            return mul(x, 1 << k, w)
        if x.op == 'zext' and x.a[0].w + k > w:
            return shl(zext(extract(x.a[0], 0, w - k), w - k, w), k, w)
        return mk('shl', w, (x, k), (x.m << k) & M)
    return mk('shl', w, (x, k), M)


def lshr(x, k, w):
    if k.__class__ is int:
        if k == 0:
            return x
        if k >= w:
            return 0
        if x.__class__ is int:
            return x >> k
        if x.m >> k == 0:
            return 0
        if x.op in ('var', 'byte', 'app', 'sel', 'ext', 'zext', 'or', 'shl', 'lshr') or \
                (x.m.bit_length() < w and x.op not in ('xor', 'and')):
            return zext(extract(x, k, w - k), w - k, w)
        return mk('lshr', w, (x, k), x.m >> k)
    return mk('lshr', w, (x, k), _lowfill(mask(x)))


def ashr(x, k, w):
    M = (1 << w) - 1
    if x.__class__ is int and k.__class__ is int:
        s = x - (1 << w) if x >> (w - 1) else x
        return (s >> min(k, w - 1)) & M
    if x.__class__ is not int and (x.m >> (w - 1)) == 0:
        return lshr(x, k, w)
    if k.__class__ is int and k == 0:
        return x
    return mk('ashr', w, (x, k))


def zext(x, fw, tw):
    if x.__class__ is int or fw == tw:
        return x
    if x.op == 'zext':
        return zext(x.a[0], x.a[0].w, tw)
    if x.op == 'ext' and x.a[1] == 0 and x.a[0].w == tw and x.a[0].m >> x.w == 0:
        return x.a[0]
    if x.op == 'or':
        r = 0
        for t in (x.a[0],) + x.a[1]:
            r = or_(r, zext(t, fw, tw), tw)
        return r
    if x.op == 'shl' and x.a[1].__class__ is int and x.m < (1 << fw) and \
            (x.a[0].m << x.a[1]) == x.m:
        return shl(zext(x.a[0], fw, tw), x.a[1], tw)
    if x.op == 'add':
        ub = x.a[0]
        for t, co in x.a[1]:
            ub += t.m * co
        if ub < (1 << fw):
            r = x.a[0]
            for t, co in x.a[1]:
                r = add(r, mul(zext(t, fw, tw), co, tw), tw)
            return r
        r = _spread(x, fw, tw, 0, 1 << fw)
        if r is not None:
            return r
    if x.op == 'ite' and x.a[1].__class__ is int and x.a[2].__class__ is int:
        return ite(x.a[0], x.a[1], x.a[2], tw)
    if x.op == 'ite' and fw < 8:
        return ite(x.a[0], zext(x.a[1], fw, tw), zext(x.a[2], fw, tw), tw)
    return mk('zext', tw, (x,), x.m)


def sext(x, fw, tw):
    if fw == tw:
        return x
    if x.__class__ is int:
        if x >> (fw - 1):
            return (x - (1 << fw)) & ((1 << tw) - 1)
        return x
    if (x.m >> (fw - 1)) == 0:
        return zext(x, fw, tw)
    if x.op == 'ite' and x.a[1].__class__ is int and x.a[2].__class__ is int:
        return ite(x.a[0], sext(x.a[1], fw, tw), sext(x.a[2], fw, tw), tw)
    if x.op == 'add':
        r = _spread(x, fw, tw, -1 << (fw - 1), 1 << (fw - 1))
        if r is not None:
            return r
    return mk('sext', tw, (x,))


def _spread(x, fw, tw, least, most):
    """the extension of a sum whose exact value (signed coefficients) stays in [least, most): the sum of the extended terms"""
    k = _s(x.a[0], fw)
    if k < least:
        k = x.a[0]
    lo = hi = k
    for t, co in x.a[1]:
        co = _s(co, fw)
        if co < 0:
            lo += co * t.m
        else:
            hi += co * t.m
    if lo < least or hi >= most:
        return None
    r = k & ((1 << tw) - 1)
    for t, co in x.a[1]:
        r = add(r, mul(zext(t, fw, tw), _s(co, fw) & ((1 << tw) - 1), tw), tw)
    return r


def trunc(x, fw, tw):
    return extract(x, 0, tw)


_SH = frozenset(('var', 'byte', 'zext', 'shl', 'or', 'ext', 'sel', 'tab', 'lshr'))


def _shallow(x):
    for t in x.a[1]:
        if t.op not in _SH:
            return False
    return True


def extract(x, lo, n):
    """bits lo..lo+n-1"""
    if x.__class__ is int:
        return (x >> lo) & ((1 << n) - 1)
    w = x.w
    if lo == 0 and n == w:
        return x
    mm = (x.m >> lo) & ((1 << n) - 1)
    if mm == 0:
        return 0
    op = x.op
    if op == 'zext':
        y = x.a[0]
        if lo >= y.w:
            return 0
        if lo + n <= y.w:
            return extract(y, lo, n)
        return zext(extract(y, lo, y.w - lo), y.w - lo, n)
    if op == 'ext':
        return extract(x.a[0], x.a[1] + lo, n)
    if op == 'or':
        r = 0
        for t in (x.a[0],) + x.a[1]:
            r = or_(r, extract(t, lo, n), n)
        return r
    if op == 'xor' and _shallow(x):
        r = extract(x.a[0], lo, n)
        for t in x.a[1]:
            r = xor(r, extract(t, lo, n), n)
        return r
    if op == 'and' and _shallow(x):
        r = extract(x.a[0], lo, n)
        for t in x.a[1]:
            r = and_(r, extract(t, lo, n), n)
        return r
    if op == 'ite':
        return ite(x.a[0], extract(x.a[1], lo, n), extract(x.a[2], lo, n), n)
    if op == 'shl' and x.a[1].__class__ is int:
        k = x.a[1]
        if lo >= k:
            return extract(x.a[0], lo - k, n)
        if lo + n <= k:
            return 0
        # straddles
        return shl(zext(extract(x.a[0], 0, lo + n - k), lo + n - k, n), k - lo, n)
    if op == 'lshr' and x.a[1].__class__ is int:
        k = x.a[1]
        if lo + k + n <= w:
            return extract(x.a[0], lo + k, n)
        return zext(extract(x.a[0], lo + k, w - lo - k), w - lo - k, n)
    if op == 'add' and lo == 0:
        r = x.a[0]
        for t, co in x.a[1]:
            r = add(r & ((1 << n) - 1) if r.__class__ is int else r, mul(extract(t, 0, n), co & ((1 << n) - 1), n), n)
        return r
    if op == 'mul' and lo == 0:
        return mul(extract(x.a[0], 0, n), extract(x.a[1], 0, n), n)
    if op == 'sext':
        y = x.a[0]
        if lo + n <= y.w:
            return extract(y, lo, n)
        if lo == 0 and n > y.w:
            return sext(y, y.w, n)
    if op == 'rotl' and n == 8 and w % 8 == 0 and lo % 8 == 0 and x.a[1] % 8 == 0:
        return extract(x.a[0], (lo - x.a[1]) % w, 8)
    return mk('ext', n, (x, lo), mm)


# ---------------------------------------------------------------- division
def udiv(x, y, w):
    if x.__class__ is int and y.__class__ is int and y:
        return x // y
    if y.__class__ is int and y and y & (y - 1) == 0:
        return lshr(x, y.bit_length() - 1, w)
    return mk('udiv', w, (x, y), _lowfill(mask(x)))


def urem(x, y, w):
    if x.__class__ is int and y.__class__ is int and y:
        return x % y
    if y.__class__ is int and y and y & (y - 1) == 0:
        return and_(x, y - 1, w)
    if y.__class__ is int and x.__class__ is not int and x.m < y:
        return x
    return mk('urem', w, (x, y), _lowfill(min(mask(x), mask(y))))


def _s(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def sdiv(x, y, w):
    if x.__class__ is int and y.__class__ is int and y:
        a, b = _s(x, w), _s(y, w)
        q = abs(a) // abs(b)
        return (q if (a < 0) == (b < 0) else -q) & ((1 << w) - 1)
    if mask(x) >> (w - 1) == 0 and mask(y) >> (w - 1) == 0:
        return udiv(x, y, w)
    return mk('sdiv', w, (x, y))


def srem(x, y, w):
    if x.__class__ is int and y.__class__ is int and y:
        a, b = _s(x, w), _s(y, w)
        r = abs(a) % abs(b)
        return (-r if a < 0 else r) & ((1 << w) - 1)
    if mask(x) >> (w - 1) == 0 and mask(y) >> (w - 1) == 0:
        return urem(x, y, w)
    return mk('srem', w, (x, y))


# ---------------------------------------------------------------- predicates
def eq(x, y, w):
    if x is y:
        return 1
    if x.__class__ is int:
        if y.__class__ is int:
            return 1 if x == y else 0
        x, y = y, x
    if y.__class__ is int:
        if y & ~x.m:
            return 0
        if w == 1:
            return x if y else not_(x, 1)
        if x.op == 'zext':
            return eq(x.a[0], y, x.a[0].w) if y < (1 << x.a[0].w) else 0
        if x.op == 'shl' and x.m & (x.m - 1) == 0:      # one bit that may be set
            b = extract(x, x.m.bit_length() - 1, 1)
            return b if y else not_(b, 1)
        if x.op == 'ite':
            a, b = x.a[1], x.a[2]
            if a.__class__ is int or b.__class__ is int:
                ea, eb = eq(a, y, w), eq(b, y, w)
                if ea.__class__ is int or eb.__class__ is int:
                    return ite(x.a[0], ea, eb, 1)
        if x.op == 'add' and len(x.a[1]) == 1:
            t, co = x.a[1][0]
            if co & 1:
                inv = pow(co, -1, 1 << w)
                return eq(t, ((y - x.a[0]) * inv) & ((1 << w) - 1), w)
        if x.op == 'xor':
            if x.a[0]:
                return eq(xor(x, x.a[0], w), y ^ x.a[0], w)
            if y == 0 and len(x.a[1]) == 2:
                return eq(x.a[1][0], x.a[1][1], w)
        if x.op == 'add' and y == 0:
            pass
        return mk('eq', 1, (x, y))
    if w == 1:
        return not_(xor(x, y, 1), 1)
    if x.op == 'zext' and y.op == 'zext' and x.a[0].w == y.a[0].w:
        return eq(x.a[0], y.a[0], x.a[0].w)
    if x.op == 'add' or y.op == 'add':
        d = sub(x, y, w)
        if d.__class__ is int:
            return 1 if d == 0 else 0
    if x.id > y.id:
        x, y = y, x
    return mk('eq', 1, (x, y))


def ne(x, y, w):
    return not_(eq(x, y, w), 1)


def ult(x, y, w):
    if x is y:
        return 0
    if x.__class__ is int:
        if y.__class__ is int:
            return 1 if x < y else 0
        if x >= y.m:
            return 0
        if x == 0:
            return ne(y, 0, w)
    elif y.__class__ is int:
        if y == 0:
            return 0
        if x.m < y:
            return 1
        if y == 1:
            return eq(x, 0, w)
    if x.__class__ is not int and x.op == 'zext' and y.__class__ is not int and y.op == 'zext' and x.a[0].w == y.a[0].w:
        return ult(x.a[0], y.a[0], x.a[0].w)
    if x.__class__ is not int and x.op == 'zext' and y.__class__ is int and y < (1 << x.a[0].w):
        return ult(x.a[0], y, x.a[0].w)
    if y.__class__ is not int and y.op == 'zext' and x.__class__ is int and x < (1 << y.a[0].w):
        return ult(x, y.a[0], y.a[0].w)
    return mk('ult', 1, (x, y))


def ule(x, y, w):
    return not_(ult(y, x, w), 1)


def slt(x, y, w):
    if x is y:
        return 0
    if x.__class__ is int and y.__class__ is int:
        return 1 if _s(x, w) < _s(y, w) else 0
    if mask(x) >> (w - 1) == 0 and mask(y) >> (w - 1) == 0:
        return ult(x, y, w)
    if x.__class__ is not int and y.__class__ is int and x.op == 'sext':
        sw = x.a[0].w
        sy = _s(y, w)
        if -(1 << (sw - 1)) <= sy < (1 << (sw - 1)):
            return slt(x.a[0], sy & ((1 << sw) - 1), sw)
    return mk('slt', 1, (x, y))


def sle(x, y, w):
    return not_(slt(y, x, w), 1)


def ite(c, a, b, w):
    if c.__class__ is int:
        return a if c else b
    if a is b:
        return a
    if a.__class__ is int and b.__class__ is int:
        if a == b:
            return a
        if w == 1:
            return c if a else not_(c, 1)
    if c.op == 'xor' and c.a[0] == 1:
        return ite(not_(c, 1), b, a, w)
    if a.__class__ is not int and a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.__class__ is not int and b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if w == 1:
        if a.__class__ is int:
            return or_(c, b, 1) if a else and_(not_(c, 1), b, 1)
        if b.__class__ is int:
            return or_(not_(c, 1), a, 1) if b else and_(c, a, 1)
    # byte-wise ite over two blobs collapses into a byte of an ite-blob
    if w == 8 and a.__class__ is not int and b.__class__ is not int and a.op == 'byte' and b.op == 'byte' \
            and a.a[1] == b.a[1] and a.a[0].w == b.a[0].w:
        return byte(bite(c, a.a[0], b.a[0]), a.a[1])
    return mk('ite', w, (c, a, b), mask(a) | mask(b))


def bite(c, A, B):
    """ite over blobs of the same length (w = 8*len)"""
    if c.__class__ is int:
        return A if c else B
    if A is B:
        return A
    if c.op == 'xor' and c.a[0] == 1:
        return bite(not_(c, 1), B, A)
    if A.op == 'bite' and A.a[0] is c:
        A = A.a[1]
    if B.op == 'bite' and B.a[0] is c:
        B = B.a[2]
    if A is B:
        return A
    return mk('bite', A.w, (c, A, B))


# ---------------------------------------------------------------- blobs
def byte(B, i):
    """byte i (0 = first in memory) of blob B"""
    if B.op == 'cat':
        return B.a[0][i]
    return mk('byte', 8, (B, i))


def blob_bytes(B):
    x = B.x
    if x is None:
        x = B.x = [byte(B, i) for i in range(B.w // 8)]
    return x


def app(name, args, nbytes):
    return mk('app', 8 * nbytes, (name, args))


def blobvar(name, nbytes):
    return mk('var', 8 * nbytes, (name,))


def cat(bs):
    """blob from a list of byte values, collapsing the bytes of one blob"""
    bs = list(bs)
    b0 = bs[0]
    n = len(bs)
    if b0.__class__ is T and b0.op == 'byte' and b0.a[1] == 0 and b0.a[0].w == 8 * n:
        if blob_bytes(b0.a[0]) == bs:
            return b0.a[0]
    return mk('cat', 8 * n, (tuple(bs),))


def pieces(bs):
    """canonical tuple for a byte list: whole blobs collapse to the blob term"""
    out = []
    i = 0
    n = len(bs)
    while i < n:
        b = bs[i]
        if b.__class__ is T and b.op == 'byte' and b.a[1] == 0:
            B = b.a[0]
            k = B.w // 8
            if i + k <= n and bs[i:i + k] == blob_bytes(B):
                out.append(B)
                i += k
                continue
        out.append(b)
        i += 1
    return tuple(out)


def conj(cs):
    r = 1
    for c in cs:
        r = and_(r, c, 1)
    return r


def disj(cs):
    r = 0
    for c in cs:
        r = or_(r, c, 1)
    return r


def subst(t, mp, memo=None):
    """replace terms (keys of mp) everywhere in t"""
    if memo is None:
        memo = {}
    if t.__class__ is not T:
        if t.__class__ is tuple:
            return tuple(subst(x, mp, memo) for x in t)
        return t
    if t in mp:
        return mp[t]
    r = memo.get(t)
    if r is not None:
        return r
    r = rebuild(t, lambda x: subst(x, mp, memo))
    memo[t] = r
    return r


def children(t):
    r = []

    def go(a):
        for x in a:
            if x.__class__ is T:
                r.append(x)
            elif x.__class__ is tuple:
                go(x)
    go(t.a)
    return r


def near(t, c, d):
    """c occurs in t under at most d arithmetic operations"""
    if t is c:
        return True
    if not d:
        return False
    op = t.op
    if op == 'add' or op == 'xor' or op == 'or' or op == 'and':
        for x in t.a[1]:
            if op == 'add':
                x = x[0]
            if x.__class__ is T and near(x, c, d - 1):
                return True
    elif op == 'zext' or op == 'sext' or op == 'ite':
        for x in t.a:
            if x.__class__ is T and near(x, c, d - 1):
                return True
    return False


def rebuild(t, f):
    op, a, w = t.op, t.a, t.w
    if op == 'var':
        return t
    if op == 'add':
        r = a[0]
        for x, co in a[1]:
            r = add(r, mul(f(x), co, w), w)
        return r
    if op in ('xor', 'or', 'and'):
        fn = {'xor': xor, 'or': or_, 'and': and_}[op]
        r = a[0]
        for x in a[1]:
            r = fn(r, f(x), w)
        return r
    if op in ('mul', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem', 'rotl'):
        return {'mul': mul, 'shl': shl, 'lshr': lshr, 'ashr': ashr, 'udiv': udiv, 'urem': urem,
                'sdiv': sdiv, 'srem': srem, 'rotl': rotl}[op](f(a[0]), f(a[1]), w)
    if op == 'zext':
        return zext(f(a[0]), a[0].w, w)
    if op == 'sext':
        return sext(f(a[0]), a[0].w, w)
    if op == 'ext':
        return extract(f(a[0]), a[1], w)
    if op in ('eq', 'ult', 'slt'):
        ww = a[0].w if a[0].__class__ is T else a[1].w
        return {'eq': eq, 'ult': ult, 'slt': slt}[op](f(a[0]), f(a[1]), ww)
    if op == 'ite':
        return ite(f(a[0]), f(a[1]), f(a[2]), w)
    if op == 'bite':
        return bite(f(a[0]), f(a[1]), f(a[2]))
    if op == 'byte':
        B = f(a[0])
        return byte(B, a[1])
    if op == 'cat':
        return cat([f(x) for x in a[0]])
    if op == 'app':
        return mk('app', w, (a[0], _collapse(a[1], _ft(a[1], f))))
    if op == 'sel':
        return mk('sel', w, (a[0], f(a[1])))
    if op == 'pick':
        return pick(_ft(a[0], f), f(a[1]), w)
    if op == 'tab':
        return tab(a[0], f(a[1]), w)
    return mk(op, w, tuple(_ft(x, f) for x in a), t.m)


def _collapse(old, new):
    """the changed tuples of new with the bytes of one blob collapsed"""
    if new.__class__ is not tuple:
        return new
    new = tuple(_collapse(x, y) for x, y in zip(old, new))
    if all(x is y or x == y for x, y in zip(old, new)):
        return new
    out, i = [], 0
    while i < len(new):
        b = new[i]
        if b.__class__ is T and b.op == 'byte' and b.a[1] == 0:
            B, k = b.a[0], b.a[0].w // 8
            if i + k <= len(new) and all(new[i + j].__class__ is T and new[i + j].op == 'byte' and new[i + j].a[0] is B and new[i + j].a[1] == j for j in range(k)):
                out.append(B)
                i += k
                continue
        out.append(b)
        i += 1
    return tuple(out)


def _ft(x, f):
    if x.__class__ is tuple:
        return tuple(_ft(y, f) for y in x)
    if x.__class__ is T:
        return f(x)
    return x


def sel(arr, idx, w=8):
    """arr: name of an uninterpreted array; idx 64-bit"""
    return mk('sel', w, (arr, idx))


def pick(cells, idx, w):
    """cells[idx]; cells is a tuple of terms"""
    if idx.__class__ is int:
        return cells[idx] if idx < len(cells) else mk('pick', w, (cells, idx))
    if all(c.__class__ is int for c in cells):
        return tab(cells, idx, w)
    m = 0
    for c in cells:
        m |= mask(c)
    return mk('pick', w, (cells, idx), m)


def tab(table, idx, w):
    """constant table lookup; table is a tuple of ints"""
    if idx.__class__ is int:
        return table[idx] if idx < len(table) else mk('tab', w, (table, idx))
    m = 0
    for v in table:
        m |= v
    return mk('tab', w, (table, idx), m)
