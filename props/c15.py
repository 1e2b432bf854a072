"""C15: hex text and bytes."""
import z3
from dv import build, cut, frame, xm, stl, term as tm, vc, seq
from dv import exec as E
from props.c04 import need
from props import c05, c08, c17

NOTE = ('Proved on misc.cpp: hex of byte strings of every length with every wrap count (loop invariant, no bound; with line breaks: one iteration from an arbitrary position, line and text), and decoding of texts of every length, '
        'valid exactly when the length is even and every character is a hex digit (any byte value, signed and unsigned characters), with the decoded bytes; str2bin for every string. '
        'Streams, strings, ctype and vector growth by contract.')
BOUNDED = {'wrapped ([2-9]|\\d\\d)': 'line breaks: lengths up to 12 bytes (cases of the unbounded obligations, for early refutation)', 'decode \\d': 'single lengths (cases of the unbounded obligations)'}
ASSUMPTIONS = ['std::stringstream (hex, setw, setfill, text), std::string accessors and push_back on vectors by contract', 'ctype functions by contract for the C locale',
               'operator new/delete and the C++ exception runtime by contract', 'lengths below 2^31',
               'the invariant of the loop with line breaks is learned from the first iterations and then checked; where the code has another shape, only the bounded cases remain']
MAXN = 12


def mods():
    return c17.mods()


def new(ctx, extra=(), **kw):
    d = stl.string()
    d.update(stl.stream())
    d.update(stl.ctype())
    d.update(extra)
    ex = ctx.executor(mods(), d)
    ex.nomerge = kw.get('nomerge', True)
    ex.summarise = True
    ex.max_unroll = 300
    return ex


def digit(n):
    return tm.ite(tm.ult(n, 10, 8), tm.add(n, ord('0'), 8), tm.add(n, ord('a') - 10, 8), 8)


def two(b):
    return [digit(tm.lshr(b, 4, 8)), digit(tm.and_(b, 15, 8))]


def text(ex, s, p):
    """(length, pieces) of the std::string at p"""
    b, n = s.load(p, 8), s.load(E.addp(p, 8), 8)
    return n, (seq.read_range(ex, s, b, n) if not (n.__class__ is int and n == 0) else ())


def small(st, n):
    st.assume(tm.ule(n, (1 << 31) - 1, 64)) if n.__class__ is not int else None


def plain(which, k=None):
    """no wrapping, k bytes or any number from 2 on"""
    def go(ctx):
        ex = new(ctx)
        v = vc.VC('bin2hstr of %s' % which, '%s bytes, no wrapping' % ('2 or more' if k is None else k))
        st = ex.new_state()
        out = xm.outbuf(st, 'out', 32)
        if which == 'bytes':
            p, n, S = c08.symlen(st, 'data') if k is None else xm.buf(st, 'data', k, bytes_=[tm.sel('data', i) for i in range(k)])[:1] + (k, None) if k else (st.alloc(1, name='data'), 0, [])
            args = [p, n, 0, out]
            fn = 'v_bin2hstr'
        else:
            p, n, S = c17.strobj(st, 'data', None if k is None else [tm.sel('data', i) for i in range(k)])
            args = [p, 0, out]
            fn = 'v_str2hstr'
        small(st, n)
        if k is None:
            st.assume(tm.ule(2, n, 64))
        hints = [{'datalen': j} for j in (2, 3, 17)]
        m = tm.var('#m', 64)
        for s in v.outcomes('memory safe and returns', ex.call_function(st, need(ex, fn), args), hints=hints):
            v.eq('no exception', s.pc, s.retval, 0, 32, hints)
            if s.retval != 0:
                continue
            ln, P = text(ex, s, out)
            v.eq('two digits for each byte', s.pc, ln, tm.mul(n, 2, 64), 64, hints)
            b = tm.sel('data', m)
            v.pieces('digits', s.pc, P, seq.canon([('map', tuple(two(b)), n)]), hints)
            if k != 0:
                v.pieces('canary', s.pc, P, seq.canon([('map', tuple(reversed(two(b))), n)]), hints)
        return [v], [ex]
    return go


def wrapped(n):
    """every wrap count and content, n bytes"""
    def go(ctx):
        ex = new(ctx)
        ex.summarise = False
        v = vc.VC('bin2hstr', '%d bytes, any wrap count' % n)
        st = ex.new_state()
        out = xm.outbuf(st, 'out', 32)
        p, S = xm.buf(st, 'data', n) if n else (st.alloc(1, name='data'), [])
        wrap = tm.var('wrap', 32)
        hints = [{'wrap': k} for k in list(range(n + 2)) + [0x7fffffff, 0x80000000, 0xffffffff]]
        seen = []
        for s in v.outcomes('memory safe and returns', ex.call_function(st, need(ex, 'v_bin2hstr'), [p, n, wrap, out]), hints=hints):
            v.eq('no exception', s.pc, s.retval, 0, 32, hints)
            if s.retval != 0:
                continue
            ln = s.load(E.addp(out, 8), 8)
            got = s.read_vals(s.load(out, 8), ln) if ln else []
            # the wrap counts of this path: 0, 1..n-1 or larger, each with its own layout
            for k in list(range(n)) + [None]:
                c = tm.eq(wrap, k, 32) if k is not None else tm.ule(n, wrap, 32) if n else 1
                if ex.decide(s, c) is False:
                    continue
                want = []
                for i in range(n):
                    if k and i and i % k == 0:
                        want.append(10)
                    want += two(S[i])
                v.bytes('digits and line breaks', list(s.pc) + ([c] if c.__class__ is not int else []), got, want, hints)
        return [v], [ex]
    return go


def lines(which):
    """every wrap count from 1 on, 2 or more bytes: induction over the bytes"""
    def go(ctx):
        ex = new(ctx)
        name = 'v_bin2hstr' if which == 'bytes' else 'v_str2hstr'
        v = vc.VC('bin2hstr of %s' % which, '2 or more bytes, any wrap count from 1 on: induction over the bytes')
        n, wrap = tm.var('datalen', 64), tm.var('wrap', 32)
        ptr = {}

        def start(e, stop):
            st = e.new_state()
            ptr['out'] = out = xm.outbuf(st, 'out', 32)
            if which == 'bytes':
                p, _, _ = c08.symlen(st, 'data')
                args = [p, n, wrap, out]
            else:
                p, _, _ = c17.strobj(st, 'data')
                args = [p, wrap, out]
            small(st, n)
            st.assume(tm.ule(2, n, 64))
            st.assume(tm.ule(1, wrap, 32))
            fr = e.push(st, need(e, name), args)
            fr.ret = 'TOP'
            return e.explore(st, stop, 0)

        def finish(states, ln, want):
            for s in v.outcomes('memory safe and returns', states):
                v.eq('no exception', s.pc, s.retval, 0, 32)
                if s.retval != 0:
                    continue
                k, P = text(ex, s, ptr['out'])
                v.eq('the text returned is the text written: length', s.pc, k, ln, 64)
                v.pieces('the text returned is the text written', s.pc, P, seq.canon(want))
        try:
            at = cut.locate(ex, lambda e: start(e, None), [k for k in ex.contracts if k.startswith(('_ZNSols', '_ZStls')) or k.endswith(('9push_backEc', 'EpLEc', '6appendEPKc', 'EpLEPKc'))])
            at = (at[0], at[2], at[1])
            S0 = cut.only(start(ex, at), 'stop')
            ex.summarise = False
            cut.Lines(ex, v, wrap, n).run(at, S0, lambda i: two(tm.sel('data', i)), [10], finish)
        except cut.Lost as e:
            v.undecided('induction over the bytes', str(e))
        return [v], [ex]
    return go


def linelemma(ctx):
    """the recurrence of the induction is the stated layout: byte i >= 1 is preceded by a break exactly if i is a multiple of wrap (integers)"""
    v = vc.VC('lemma', 'line breaks stand before bytes wrap, 2 wrap, ..')
    i, c, q, w = [z3.Int(x) for x in 'icqw']
    inv = lambda i, c, q: z3.And(i == q * w + c, c >= 1, c <= w, q >= 0, c <= i, q < i)
    c05.zcheck(v, 'first byte: no break, position 1 on line 0', [w >= 1], inv(z3.IntVal(1), z3.IntVal(1), z3.IntVal(0)))
    c05.zcheck(v, 'line full: byte i is a multiple of wrap, break, position 1 of the next line', [w >= 1, inv(i, c, q), c == w], z3.And(i == (q + 1) * w, inv(i + 1, z3.IntVal(1), q + 1)))
    I = inv(i, c, q)
    c05.zcheck(v, 'remainder and quotient of i', [w >= 1, I], z3.And(i % w == z3.If(c == w, 0, c), i / w == q + z3.If(c == w, 1, 0)))
    c05.zcheck(v, 'remainder and quotient of i - 1', [w >= 1, I], z3.And((i - 1) % w == c - 1, (i - 1) / w == q))
    c05.zcheck(v, 'room in the line: byte i lies strictly between two multiples of wrap, no break', [w >= 1, inv(i, c, q), c < w], z3.And(q * w < i, i < q * w + w, inv(i + 1, c + 1, q)))
    return [v], []


def isx(c):
    def r(lo, hi):
        return tm.ule(tm.sub(c, ord(lo), 8), ord(hi) - ord(lo), 8)
    return tm.or_(tm.or_(r('0', '9'), r('a', 'f'), 1), r('A', 'F'), 1)


def hexval(c):
    d = tm.ule(tm.sub(c, ord('0'), 8), 9, 8)
    l = tm.ule(tm.sub(c, ord('a'), 8), 5, 8)
    return tm.ite(d, tm.sub(c, ord('0'), 8), tm.ite(l, tm.sub(c, ord('a') - 10, 8), tm.sub(c, ord('A') - 10, 8), 8), 8)


def pair(a, b):
    return tm.or_(tm.shl(hexval(a), 4, 8), hexval(b), 8)


def digits(i):
    return tm.and_(isx(tm.sel('text', tm.mul(i, 2, 64))), isx(tm.sel('text', tm.add(tm.mul(i, 2, 64), 1, 64))), 1)


def decode(half):
    """texts of every even (2*half characters, half symbolic), and every odd length"""
    def go(ctx):
        ex = new(ctx, stl.byte_vector())
        v = vc.VC('hstr2bin', half)
        st = ex.new_state()
        out = xm.outbuf(st, 'out', 24)
        h = tm.var('half', 64)
        st.assume(tm.ule(h, (1 << 30) - 1, 64))
        n = tm.add(tm.mul(h, 2, 64), 0 if half == 'even length' else 1, 64)
        d = st.alloc(tm.fresh('cap', 64), name='text')
        o = st.obj(d, True)
        o.size, o.ro = n, True
        o.sym.log = [('base', 'text')]
        p = st.alloc(32, name='text string')
        st.store(p, d, 8)
        st.store(E.addp(p, 8), n, 8)
        hints = [{'half': k} for k in (0, 1, 2, 3, 8)]
        m = tm.var('#m', 64)
        res = v.outcomes('memory safe and returns', ex.call_function(st, need(ex, 'v_hstr2bin'), [p, out]), hints=hints)
        if half != 'even length':
            for s in res:
                v.eq('odd length is refused', s.pc, s.retval, 1, 32, hints)
            return [v], [ex]
        good = 0
        for s in res:
            v.holds('result or invalid argument', s.pc, tm.ule(s.retval, 1, 32), hints)
            if s.retval != 0:
                v.some('refused only when some character is not a digit', s.pc, h, lambda i: tm.not_(digits(i), 1), hints)
                continue
            good += 1
            v.every('accepted only when all characters are digits', s.pc, h, digits, hints)
            ln, P = c17.vec(ex, s, out)
            v.eq('one byte for two digits', s.pc, ln, h, 64, hints)
            a, b = tm.sel('text', tm.mul(m, 2, 64)), tm.sel('text', tm.add(tm.mul(m, 2, 64), 1, 64))
            v.pieces('bytes', s.pc, P, seq.canon([('map', (pair(a, b),), h)]), hints)
            v.pieces('canary', s.pc, P, seq.canon([('map', (pair(b, a),), h)]), hints)
        if not good:
            v.undecided('hstr2bin', 'no successful outcome')
        return [v], [ex]
    return go


def decode_few(n):
    """n characters"""
    def go(ctx):
        ex = new(ctx, stl.byte_vector(), nomerge=False)
        ex.summarise = False
        v = vc.VC('hstr2bin', '%d characters' % n)
        st = ex.new_state()
        out = xm.outbuf(st, 'out', 24)
        p, _, S = c17.strobj(st, 'text', [tm.sel('text', i) for i in range(n)])
        ok = 1
        for c in S:
            ok = tm.and_(ok, isx(c), 1)
        good = 0
        for s in v.outcomes('memory safe and returns', ex.call_function(st, need(ex, 'v_hstr2bin'), [p, out])):
            if n % 2:
                v.eq('odd length is refused', s.pc, s.retval, 1, 32)
                continue
            v.holds('refused with an error exactly when some character is not a digit', s.pc, tm.eq(s.retval, tm.ite(ok, 0, 1, 32), 32))
            if s.retval != 0:
                continue
            good += 1
            b, e = s.load(out, 8), s.load(E.addp(out, 8), 8)
            v.eq('one byte for two digits', s.pc, E.arith('sub', e, b, 64), n // 2, 64)
            v.bytes('bytes', s.pc, s.read_vals(b, n // 2) if n else [], [pair(S[i], S[i + 1]) for i in range(0, n, 2)])
        if n % 2 == 0 and not good:
            v.undecided('hstr2bin', 'no successful outcome')
        return [v], [ex]
    return go


def copy(ctx):
    ex = new(ctx)
    v = vc.VC('str2bin', 'any string')
    st = ex.new_state()
    out = xm.outbuf(st, 'out', 24)
    p, n, S = c17.strobj(st, 'text')
    hints = [{'textlen': k} for k in (0, 1, 2, 3, 17)]
    for s in v.outcomes('memory safe and returns', ex.call_function(st, need(ex, 'v_str2bin'), [p, out]), hints=hints):
        v.eq('no exception', s.pc, s.retval, 0, 32, hints)
        ln, P = c17.vec(ex, s, out)
        v.eq('same length', s.pc, ln, n, 64, hints)
        v.pieces('same bytes', s.pc, P, tuple(S), hints)
    return [v], [ex]


def inverse(ctx):
    """lemma over the two specifications: decoding the digits of a byte gives the byte, and the digits are accepted"""
    v = vc.VC('lemma', 'decoding inverts encoding')
    b = tm.var('b', 8)
    hi, lo = two(b)
    v.holds('digits of a byte are accepted', [], tm.and_(isx(hi), isx(lo), 1))
    v.eq('decoding the digits of a byte gives the byte', [], pair(hi, lo), b, 8)
    return [v], []


def tasks(ctx):
    mods()
    return [('lines of %s' % w, lines(w), 300) for w in ('bytes', 'string')] + [('line lemma', linelemma, 60)] + [('hex of %s %s' % (w, k), plain(w, k), 200) for w in ('bytes', 'string') for k in (None, 0, 1)] + [ ('decode even', decode('even length'), 200), ('decode odd', decode('odd length'), 200), ('copy', copy, 100), ('lemma', inverse, 100)] + \
        [('wrapped %d' % n, wrapped(n), 200) for n in range(MAXN + 1)] + [('decode %d' % n, decode_few(n), 200) for n in (0, 1, 2, 3, 4)]


def native(ctx):
    return build.native_run(ctx)
