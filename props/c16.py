"""C16: mnemonics."""
from dv import build, frame, xm, stl, term as tm, vc, seq
from dv import exec as E
from props.c04 import need
from props import c08, c17

NOTE = ('Proved on misc.cpp for data of every length and mnemonics with every number of words (loop invariants found and discharged, no bound): encoding gives exactly the words of the 12-bit groups separated by one space, '
        'refused exactly when the length is not a multiple of three; decoding is refused exactly when the number of words is odd or a word is not in the list, and otherwise gives the bytes whose encoding it is. '
        'Streams, strings and the unordered map by contract over the words of the list; that the 4096 words are distinct and equal in C++ and Rust is checked exhaustively on the compiled lists.')
BOUNDED = {'encode [1-9]|decode \\d': 'single lengths (cases of the unbounded obligations, for early refutation)'}
ASSUMPTIONS = ['std::stringstream by contract: extraction yields the words of the text in order', 'std::unordered_map by contract (keys distinct: checked exhaustively on the real list)',
               'std::string accessors and push_back on vectors by contract', 'operator new/delete and the C++ exception runtime by contract', 'at most 3 * 2^26 bytes or 2^27 words']


def mods():
    return c17.mods()


def wordobj(ex):
    def w(st):
        return ex.glob('_Z8wordlistB5cxx11', [m for m in mods() if '_Z8wordlistB5cxx11' in m.globals][0])
    return w


def new(ctx, text=None, periods=False):
    ex = ctx.executor(mods(), {})
    w = wordobj(ex)
    d = stl.string()
    d.update(stl.stream(w, text))
    d.update(stl.byte_vector())
    d.update(stl.wordmap(w))
    ex.contracts.update(d)
    ex.nomerge = True
    ex.summarise = True
    ex.periods = periods
    ex.max_unroll = 40
    return ex


def byte(i):
    return tm.zext(tm.sel('data', i), 8, 32)


def word(g):
    """g-th group of 12 bits of the data, most significant bits first"""
    p = tm.lshr(tm.mul(g, 3, 64), 1, 64)
    a, b = byte(p), byte(tm.add(p, 1, 64))
    even = tm.or_(tm.shl(a, 4, 32), tm.lshr(b, 4, 32), 32)
    odd = tm.or_(tm.shl(tm.and_(a, 15, 32), 8, 32), b, 32)
    return tm.ite(tm.eq(tm.and_(g, 1, 64), 0, 64), even, odd, 32)


def le4(x):
    return [tm.extract(x, 8 * i, 8) for i in range(4)] if x.__class__ is not int else list(x.to_bytes(4, 'little'))


SPACE = 0x10020


def words(t, off=0):
    """text of 2*t groups, as the first word and then two groups at a time"""
    m = tm.var('#m', 64)

    def tok(g):
        return le4(SPACE) + le4(word(tm.add(g, off, 64)))
    k = tm.mul(m, 2, 64)
    return seq.canon(le4(word(0)) + tok(1) + [('map', tuple(tok(tm.add(k, 2, 64)) + tok(tm.add(k, 3, 64))), tm.sub(t, 1, 64))])


def data(st, n, name='data', unit=1):
    """n units of the array `name`"""
    d = st.alloc(tm.fresh('cap', 64), name=name)
    o = st.obj(d, True)
    o.size, o.ro = tm.mul(n, unit, 64), True
    o.sym.log = [('base', name)]
    return d


def encode(rest):
    """3t + rest bytes"""
    def go(ctx):
        ex = new(ctx, periods=True)
        v = vc.VC('bin2mnemonic', '3t bytes, t > 0' if not rest else '3t+%d bytes' % rest)
        st = ex.new_state()
        out = xm.outbuf(st, 'out', 32)
        t = tm.var('third', 64)
        if not rest:
            st.assume(tm.ule(1, t, 64))
        st.assume(tm.ule(t, 1 << 26, 64))
        n = tm.add(tm.mul(t, 3, 64), rest, 64)
        d = data(st, n)
        hints = [{'third': k} for k in (1, 2, 3, 16)]
        for s in v.outcomes('memory safe and returns', ex.call_function(st, need(ex, 'v_bin2mn'), [d, n, out]), hints=hints):
            if rest:
                v.eq('a length that is not a multiple of three is refused', s.pc, s.retval, 1, 32, hints)
                continue
            v.eq('no exception', s.pc, s.retval, 0, 32, hints)
            if s.retval != 0:
                continue
            b, e = s.load(out, 8), s.load(E.addp(out, 8), 8)
            P = seq.read_range(ex, s, b, e)
            v.pieces('the words of the 12-bit groups, separated by one space', s.pc, P, words(t), hints)
            v.pieces('canary', s.pc, P, words(t, 1), hints)
        return [v], [ex]
    return go


def encode_few(n):
    def go(ctx):
        ex = new(ctx)
        v = vc.VC('bin2mnemonic', '%d bytes' % n)
        st = ex.new_state()
        out = xm.outbuf(st, 'out', 32)
        d = xm.buf(st, 'data', n, bytes_=[tm.sel('data', i) for i in range(n)])[0] if n else st.alloc(1, name='data')
        for s in v.outcomes('memory safe and returns', ex.call_function(st, need(ex, 'v_bin2mn'), [d, n, out])):
            v.eq('error exactly when the length is not a multiple of three', s.pc, s.retval, 1 if n % 3 else 0, 32)
            if s.retval != 0:
                continue
            b, e = s.load(out, 8), s.load(E.addp(out, 8), 8)
            got = s.read_vals(b, e) if not (e.__class__ is int and e == 0) else []
            want = [x for g in range(n * 2 // 3) for x in (le4(SPACE) if g else []) + le4(word(g))]
            v.bytes('the words of the 12-bit groups, separated by one space', s.pc, got, want)
        return [v], [ex]
    return go


def token(i):
    r = 0
    for j in range(4):
        r = tm.or_(r, tm.shl(tm.zext(tm.sel('words', tm.add(tm.mul(i, 4, 64), j, 64)), 8, 32), 8 * j, 32), 32)
    return r


def isword(i):
    return tm.ult(token(i), 4096, 32)


def three(p, delta=0):
    """bytes of the p-th pair of words"""
    k = tm.mul(p, 2, 64)
    a, b = token(k), token(tm.add(k, 1, 64))
    return [tm.extract(tm.lshr(a, 4 + delta, 32), 0, 8), tm.extract(tm.or_(tm.shl(tm.and_(a, 15, 32), 4, 32), tm.lshr(b, 8, 32), 32), 0, 8), tm.extract(b, 0, 8)]


def decode(odd):
    """2*half (+1) words"""
    def go(ctx):
        h = tm.var('half', 64)
        n = tm.add(tm.mul(h, 2, 64), odd, 64)
        hold = []
        ex = new(ctx, lambda st: (hold[0], n), periods=True)
        v = vc.VC('mnemonic2bin', 'odd number of words' if odd else 'even number of words')
        st = ex.new_state()
        st.assume(tm.ule(h, 1 << 26, 64))
        out = xm.outbuf(st, 'out', 24)
        d = data(st, n, 'words', 4)
        hold.append(d)
        p = st.alloc(32, name='text string')
        st.store(p, d, 8)
        st.store(E.addp(p, 8), tm.var('textlen', 64), 8)
        st.obj(p, True).ro = True
        hints = [{'half': k} for k in (0, 1, 2, 3, 16)]
        m = tm.var('#m', 64)
        good = 0
        for s in v.outcomes('memory safe and returns', ex.call_function(st, need(ex, 'v_mn2bin'), [p, out]), hints=hints):
            if odd:
                v.eq('an odd number of words is refused', s.pc, s.retval, 1, 32, hints)
                continue
            v.holds('result or invalid argument', s.pc, tm.ule(s.retval, 1, 32), hints)
            if s.retval != 0:
                v.some('refused only when some word is not in the list', s.pc, n, lambda i: tm.not_(isword(i), 1), hints)
                continue
            good += 1
            v.every('accepted only when all words are in the list', s.pc, h, lambda i: tm.and_(isword(tm.mul(i, 2, 64)), isword(tm.add(tm.mul(i, 2, 64), 1, 64)), 1), hints)
            ln, P = c17.vec(ex, s, out)
            v.eq('three bytes for two words', s.pc, ln, tm.mul(h, 3, 64), 64, hints)
            v.pieces('bytes', s.pc, P, seq.canon([('map', tuple(three(m)), h)]), hints)
            if not (ln.__class__ is int and ln == 0):
                v.pieces('canary', s.pc, P, seq.canon([('map', tuple(three(m, 1)), h)]), hints)
        if not odd and not good:
            v.undecided('mnemonic2bin', 'no successful outcome')
        return [v], [ex]
    return go


def decode_few(n):
    def go(ctx):
        hold = []
        ex = new(ctx, lambda st: (hold[0], n))
        v = vc.VC('mnemonic2bin', '%d words' % n)
        st = ex.new_state()
        out = xm.outbuf(st, 'out', 24)
        d = xm.buf(st, 'words', 4 * n, bytes_=[tm.sel('words', i) for i in range(4 * n)])[0] if n else st.alloc(1, name='words')
        hold.append(d)
        p = st.alloc(32, name='text string')
        st.store(p, d, 8)
        st.store(E.addp(p, 8), tm.var('textlen', 64), 8)
        st.obj(p, True).ro = True
        ok = 1
        for i in range(n):
            ok = tm.and_(ok, isword(i), 1)
        hints = []
        for s in v.outcomes('memory safe and returns', ex.call_function(st, need(ex, 'v_mn2bin'), [p, out]), hints=hints):
            v.holds('error exactly when the number is odd or a word is unknown', s.pc, tm.eq(s.retval, tm.ite(ok, 0, 1, 32) if n % 2 == 0 else 1, 32), hints)
            if s.retval != 0:
                continue
            b, e = s.load(out, 8), s.load(E.addp(out, 8), 8)
            v.eq('three bytes for two words', s.pc, tm.sub(e.f, b.f, 64), n * 3 // 2, 64, hints)
            v.bytes('bytes', s.pc, s.read_vals(b, n * 3 // 2) if n else [], [x for i in range(n // 2) for x in three(i)], hints)
        return [v], [ex]
    return go


def roundtrip(ctx):
    """lemma over the two specifications"""
    v = vc.VC('lemma', 'decoding inverts encoding')
    a, b, c = [tm.var(x, 8) for x in 'abc']
    z = [tm.zext(x, 8, 32) for x in (a, b, c)]
    w0 = tm.or_(tm.shl(z[0], 4, 32), tm.lshr(z[1], 4, 32), 32)
    w1 = tm.or_(tm.shl(tm.and_(z[1], 15, 32), 8, 32), z[2], 32)
    v.holds('groups are word numbers', [], tm.and_(tm.ult(w0, 4096, 32), tm.ult(w1, 4096, 32), 1))
    v.eq('first byte', [], tm.extract(tm.lshr(w0, 4, 32), 0, 8), a, 8)
    v.eq('second byte', [], tm.extract(tm.or_(tm.shl(tm.and_(w0, 15, 32), 4, 32), tm.lshr(w1, 8, 32), 32), 0, 8), b, 8)
    v.eq('third byte', [], tm.extract(w1, 0, 8), c, 8)
    return [v], []


def tasks(ctx):
    mods()
    return [('encode rest %d' % r, encode(r), 300) for r in range(3)] + [('encode %d' % n, encode_few(n), 300) for n in range(10)] + [('decode even', decode(0), 300), ('decode odd', decode(1), 300), ('lemma', roundtrip, 60)] + \
        [('decode %d' % n, decode_few(n), 300) for n in range(7)]


def native(ctx):
    return build.native_run(ctx)
