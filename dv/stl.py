"""Contracts of the libstdc++ classes whose code lies in the shared library or is generic container code (trusted).

std::string      standard layout {pointer, length, 16 bytes}
std::vector<T>   default construction gives a buffer that is never full; push_back writes at the end of it
stringstream     a growing buffer; formatted output of bytes in hex; in word mode one 4-byte token per word or separator character
ifstream         opening and reading may fail; a read that succeeds delivers all bytes asked for, arbitrary ones
unordered_map    from words to int, keys taken from the word list
"""
from . import term as tm
from . import exec as E
from . import seq
from .term import T

STR = 'NSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
SS = 'NSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE'
VEC = 'NSt6vectorIhSaIhEE'
VV = 'NSt6vectorIS_IhSaIhEESaIS1_EE'
MAP = 'NSt13unordered_mapINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEiSt4hashIS5_ESt8equal_toIS5_ESaISt4pairIKS5_iEEE'
IF = 'NSt14basic_ifstreamIcSt11char_traitsIcEE'
HUGE = 1 << 60
GROWN = 'grown string'


def addp(p, o):
    return E.addp(p, o)


def big(st, name):
    """object that is never full"""
    p = st.alloc(tm.fresh('cap', 64), name=name)
    st.obj(p).size = HUGE
    return p


def cells(st, p, n):
    n = E_int(st, n)
    return st.read_vals(p, n) if n else []


def E_int(st, n):
    if n.__class__ is not int:
        raise E.Unsupported('text of symbolic length')
    return n


def cstr(ex, st, p):
    return cells(st, p, ex.models['strlen'](ex, st, [p]))


def mkstr(st, p, ptr, n):
    st.store(p, ptr, 8)
    st.store(addp(p, 8), n, 8)


def setstr(st, p, bs):
    """string object p := bytes (small strings in place)"""
    if len(bs) < 16:
        d = addp(p, 16)
    else:
        d = st.alloc(len(bs) + 1, name='string')
    st.write_bytes(d, list(bs) + [0])
    mkstr(st, p, d, len(bs))


# ------------------------------------------------------------------ strings
def string():
    def size(ex, st, a):
        return st.load(addp(a[0], 8), 8)

    def data(ex, st, a):
        return st.load(a[0], 8)

    def cdata(ex, st, a):
        """pointer that may be read as a C string"""
        p = st.load(a[0], 8)
        if p.__class__ is E.Ptr and st.obj(p).name == GROWN:
            raise E.Unsupported('end of a text that was built by appending')
        return p

    def grow(ex, st, s, cs, small=15):
        """append bytes to the string at s"""
        b, n = st.load(s, 8), st.load(addp(s, 8), 8)
        if n.__class__ is int and n + len(cs) <= small and st.obj(b).name != GROWN:
            setstr(st, s, cells(st, b, n) + list(cs))
            return
        if st.obj(b).name != GROWN:
            p = big(st, GROWN)
            if n.__class__ is int:
                if n:
                    st.write_bytes(p, cells(st, b, n))
            else:
                o = st.obj(p, True)
                if o.sym is None:
                    E.promote(o)
                o.sym.copyrange(st, o, 0, n, None, tuple(seq.read_range(ex, st, b, n)))
            st.store(s, p, 8)
            b = p
        if cs:
            st.write_bytes(addp(b, n), list(cs))
        st.store(addp(s, 8), tm.add(n, len(cs), 64), 8)

    def push(ex, st, a):
        c = a[1]
        if c is E.U:
            raise E.Viol('uninit', 'uninitialised character appended')
        grow(ex, st, a[0], [c & 255 if c.__class__ is int else tm.extract(c, 0, 8)], 0)
        return a[0]

    def filled(ex, st, a):
        n, c = a[1], a[2]
        c = c & 255 if c.__class__ is int else tm.extract(c, 0, 8)
        if n.__class__ is int:
            setstr(st, a[0], [c] * n)
            return
        p = big(st, GROWN)
        o = st.obj(p, True)
        if o.sym is None:
            E.promote(o)
        o.sym.copyrange(st, o, 0, n, None, (('fill', c, n),))
        mkstr(st, a[0], p, n)

    def move(ex, st, a):
        b, n = st.load(a[1], 8), st.load(addp(a[1], 8), 8)
        if st.obj(b).name != GROWN:
            return copy(ex, st, a)
        mkstr(st, a[0], b, n)
        setstr(st, a[1], [])

    def at(ex, st, a):
        n = st.load(addp(a[0], 8), 8)
        ex.require(st, tm.ule(a[1], n, 64), 'memory', 'string index in range')
        return addp(st.load(a[0], 8), a[1])

    def ctor(ex, st, a):
        setstr(st, a[0], [])

    def copy(ex, st, a):
        src = a[1]
        n = st.load(addp(src, 8), 8)
        if n.__class__ is int:
            setstr(st, a[0], cells(st, st.load(src, 8), n))
        else:
            if st.obj(st.load(src, 8)).name == GROWN:
                raise E.Unsupported('copy of a text that may grow')
            mkstr(st, a[0], st.load(src, 8), n)     # shares the immutable text of symbolic length

    def assign(ex, st, a):
        setstr(st, a[0], cstr(ex, st, a[1]))
        return a[0]

    def append(ex, st, a):
        grow(ex, st, a[0], cstr(ex, st, a[1]))
        return a[0]

    def end(ex, st, a):
        return addp(st.load(a[0], 8), st.load(addp(a[0], 8), 8))
    d = {}
    for k in ('_ZNK', '_ZN'):
        d.update({k + STR[1:] + '4sizeEv': size, k + STR[1:] + '6lengthEv': size, k + STR[1:] + '4dataEv': cdata, k + STR[1:] + '5c_strEv': cdata, k + STR[1:] + '5beginEv': data,
                  k + STR[1:] + '6cbeginEv': data, k + STR[1:] + '4cendEv': end, k + STR[1:] + '3endEv': end, k + STR[1:] + 'ixEm': at, k + STR[1:] + '2atEm': at,
                  k + STR[1:] + '5emptyEv': lambda ex, st, a: tm.eq(size(ex, st, a), 0, 64)})
    d.pop('_ZNK' + STR[1:] + '2atEm', None), d.pop('_ZN' + STR[1:] + '2atEm', None)
    for c in ('1', '2'):
        d.update({'_Z' + STR + 'C%sEv' % c: ctor, '_Z' + STR + 'C%sERKS4_' % c: copy, '_Z' + STR + 'C%sEOS4_' % c: move, '_Z' + STR + 'D%sEv' % c: lambda ex, st, a: None})
        d['_Z' + STR + 'C%sIS3_EEmcRKS3_' % c] = filled
        d['_Z' + STR + 'C%sEmcRKS3_' % c] = filled
    d.update({'_Z' + STR + '9push_backEc': push, '_Z' + STR + 'pLEc': push, '_Z' + STR + '7reserveEm': lambda ex, st, a: None})
    d.update({'_Z' + STR + 'aSEPKc': assign, '_Z' + STR + 'pLEPKc': append, '_Z' + STR + '6appendEPKc': append})

    def tostr(ex, st, a):
        setstr(st, a[0], [63])                      # only used in messages
    for t in 'ijlmxy':
        d['_ZNSt7__cxx119to_stringE' + t] = tostr

    def cat(ex, st, a):
        setstr(st, a[0], [63])
    d['_ZStplIcSt11char_traitsIcESaIcEENSt7__cxx1112basic_stringIT_T0_T1_EEPKS5_OS8_'] = cat
    d['_ZStplIcSt11char_traitsIcESaIcEENSt7__cxx1112basic_stringIT_T0_T1_EEOS8_PKS5_'] = cat
    return d


# ------------------------------------------------------------------ vectors
def byte_vector():
    def ctor(ex, st, a):
        p = big(st, 'vector')
        st.store(a[0], p, 8)
        st.store(addp(a[0], 8), p, 8)
        st.store(addp(a[0], 16), addp(p, HUGE), 8)

    def push(ex, st, a):
        e = st.load(addp(a[0], 8), 8)
        v = st.load(a[1], 1)
        if v is E.U:
            raise E.Viol('uninit', 'uninitialised byte appended')
        if e.__class__ is not E.Ptr or st.obj(e).size is not HUGE and st.obj(e).size != HUGE:
            # reallocation: an object that is never full, with the old contents
            b = st.load(a[0], 8)
            if b.__class__ is int and b == 0:
                n = 0
            elif not (b.__class__ is E.Ptr and e.__class__ is E.Ptr and b.o == e.o):
                raise E.Unsupported('push_back on this vector')
            else:
                n = tm.sub(e.f, b.f, 64)
            p = big(st, 'vector')
            if not (n.__class__ is int and n == 0):
                o = st.obj(p, True)
                if o.sym is None:
                    E.promote(o)
                ps = seq.read_range(ex, st, b, n)
                o.sym.copyrange(st, o, 0, n, None, tuple(ps))
            st.store(a[0], p, 8)
            st.store(addp(a[0], 16), addp(p, HUGE), 8)
            e = addp(p, n)
        st.store(e, v, 1)
        st.store(addp(a[0], 8), addp(e, 1), 8)
        return e
    d = {'_Z' + VEC + 'C2Ev': ctor, '_Z' + VEC + 'C1Ev': ctor, '_Z' + VEC + '9push_backEOh': push, '_Z' + VEC + '9push_backERKh': push}
    for t in ('h', 'RKh', 'Rh'):
        d['_Z' + VEC + '12emplace_backIJ%sEEERhDpOT_' % t] = push
    return d


def vector_vector(width):
    """std::vector<std::vector<unsigned char>> that only grows; the contents of the elements, all of the given size, one after the other in the ghost buffer of the third word"""
    def ctor(ex, st, a):
        p = big(st, 'elements')
        st.store(a[0], p, 8)
        st.store(addp(a[0], 8), p, 8)
        st.store(addp(a[0], 16), big(st, 'contents'), 8)

    def push(ex, st, a):
        b, e, g = [st.load(addp(a[0], 8 * i), 8) for i in range(3)]
        n = tm.udiv(e.f, 24, 64) if e.f.__class__ is int else div24(e.f)
        x = st.load(a[1], 8)
        ln = E.pcmp('eq', st.load(addp(a[1], 8), 8), addp(x, width), 64)
        if ln.__class__ is not int or not ln:
            raise E.Unsupported('element of another size')
        st.write_bytes(addp(g, tm.mul(n, width, 64)), st.read_vals(x, width))
        for i in range(3):
            st.store(addp(a[1], 8 * i), 0, 8)
        st.store(addp(a[0], 8), addp(e, 24), 8)
        return e
    d = {'_Z' + VV + 'C2Ev': ctor, '_Z' + VV + 'C1Ev': ctor, '_Z' + VV + '9push_backEOS1_': push, '_Z' + VV + '12emplace_backIJS1_EEERS1_DpOT_': push,
         '_Z' + VV + 'D2Ev': lambda ex, st, a: None}
    d['_Z' + VV + '7reserveEm'] = lambda ex, st, a: None
    return d


def div24(f):
    d = {}
    c = tm._lin(f, d, 1, 64)
    d = tm._unshl(d, 64)
    if c % 24 or any(x % 24 for x in d.values()):
        raise E.Unsupported('element count')
    return tm._mklin(c // 24, {t: x // 24 for t, x in d.items()}, 64)


# ------------------------------------------------------------------ streams
BUF, POS, RD, FAIL, WIDTH, FILL, BASE, CNT = 24, 32, 40, 48, 56, 64, 72, 80
SIZE = {POS: 8, RD: 8, FAIL: 4, WIDTH: 4, FILL: 4, BASE: 4, CNT: 8}


def get(st, p, f):
    return st.load(st.load(addp(p, f), 8), SIZE[f])


def put(st, p, f, v):
    st.store(st.load(addp(p, f), 8), v, SIZE[f])


def hexdigit(n):
    """character of a 4-bit value held in 8 bits"""
    return tm.ite(tm.ult(n, 10, 8), tm.add(n, 48, 8), tm.add(n, 87, 8), 8)


def root(st, p):
    if p.__class__ is not E.Ptr or p.f not in (0, 16, 112, 128):
        raise E.Unsupported('stream object')
    return E.Ptr(p.o, 0)


def stream(wordlist=None, text=None):
    """wordlist: object of the word list (4096 strings of 32 bytes) - selects word mode; text: words offered to a reader, (pointer, count)"""
    def vptr(st, off):
        v = st.alloc(32, name='vtable')
        st.store(v, off, 8)
        st.obj(v, True).ro = True
        return addp(v, 24)

    def init(st, p):
        for o, vo in ((0, 128), (16, 112)):
            st.store(addp(p, o), vptr(st, vo), 8)
        st.store(addp(p, BUF), big(st, 'stream'), 8)
        for o, v in ((POS, 0), (RD, 0), (FAIL, 0), (WIDTH, 0), (FILL, 32), (BASE, 10), (CNT, 0)):
            q = st.alloc(SIZE[o], kind='stack', name='stream field')
            st.store(q, v, SIZE[o])
            st.store(addp(p, o), q, 8)

    def ctor(ex, st, a):
        init(st, a[0])

    def fromstr(ex, st, a):
        p = a[0]
        init(st, p)
        if text is None:
            raise E.Unsupported('stream over a text')
        tp, n = text(st)
        if not (st.load(a[1], 8).o == tp.o):
            raise E.Unsupported('stream over another text')
        st.store(addp(p, BUF), tp, 8)
        put(st, p, CNT, n)

    def emit(st, p, cs):
        b, o = st.load(addp(p, BUF), 8), get(st, p, POS)
        if not cs:
            return
        if wordlist is not None:
            for c in cs:
                st.store(addp(b, o), c, 4)
                o = tm.add(o, 4, 64)
        else:
            st.write_bytes(addp(b, o), list(cs))
            o = tm.add(o, len(cs), 64)
        put(st, p, POS, o)

    def chars(cs):
        return [tm.add(tm.zext(c, 8, 32), 0x10000, 32) if c.__class__ is not int else 0x10000 + c for c in cs] if wordlist is not None else cs

    def pad(st, p, cs):
        w = get(st, p, WIDTH)
        put(st, p, WIDTH, 0)
        if w.__class__ is not int:
            raise E.Unsupported('symbolic width')
        f = get(st, p, FILL)
        return [f & 255 if f.__class__ is int else tm.extract(f, 0, 8)] * max(0, w - len(cs)) + list(cs)

    def put_c(ex, st, a):
        p = root(st, a[0])
        emit(st, p, chars(pad(st, p, cstr(ex, st, a[1]))))
        return a[0]

    def put_char(ex, st, a):
        p = root(st, a[0])
        emit(st, p, chars(pad(st, p, [a[1] & 255 if a[1].__class__ is int else tm.extract(a[1], 0, 8)])))
        return a[0]

    def put_s(ex, st, a):
        p, s = root(st, a[0]), a[1]
        if wordlist is not None and s.__class__ is E.Ptr and s.o == wordlist(st).o:
            i = word_index(ex, st, s)
            put(st, p, WIDTH, 0)
            emit(st, p, [i])
            return a[0]
        n = st.load(addp(s, 8), 8)
        emit(st, p, chars(pad(st, p, cells(st, st.load(s, 8), n) if n.__class__ is not int or n else [])))
        return a[0]

    def word_index(ex, st, s):
        f = s.f
        ex.require(st, tm.ule(f, 32 * 4095, 64), 'memory', 'word list index in range')
        if f.__class__ is int:
            if f % 32:
                raise E.Unsupported('pointer into a word')
            return f // 32
        d = {}
        c = tm._lin(f, d, 1, 64)
        d = tm._unshl(d, 64)
        if c % 32 or any(x % 32 for x in d.values()):
            x = tm.lshr(f, 5, 64)
            if not E_same(tm.shl(x, 5, 64), f):
                raise E.Unsupported('pointer into a word')
            return tm.extract(x, 0, 32)
        return tm.extract(tm._mklin(c // 32, {t: x // 32 for t, x in d.items()}, 64), 0, 32)

    def put_i(ex, st, a):
        p, v = root(st, a[0]), a[1]
        base = get(st, p, BASE)
        if base == 16:
            if v.__class__ is int:
                emit(st, p, chars(pad(st, p, [ord(c) for c in '%x' % v])))
                return a[0]
            if ex.decide(st, tm.ult(v, 256, 32)) is not True:
                raise E.Unsupported('hex output of more than a byte')
            hi, lo = tm.extract(tm.lshr(v, 4, 32), 0, 8), tm.extract(tm.and_(v, 15, 32), 0, 8)
            w, f = get(st, p, WIDTH), get(st, p, FILL)
            if w == 2 and f == 48:
                cs = [hexdigit(hi), hexdigit(lo)]
            else:
                one = tm.eq(hi, 0, 8)
                d = ex.decide(st, one)
                if d is None:
                    raise E.NeedFork(one) if False else fork(one)
                cs = [hexdigit(lo)] if d else [hexdigit(hi), hexdigit(lo)]
            emit(st, p, chars(pad(st, p, cs)))
            return a[0]
        if v.__class__ is not int:
            raise E.Unsupported('decimal output of a symbolic value')
        emit(st, p, chars(pad(st, p, [ord(c) for c in str(tm._s(v, 32))])))
        return a[0]

    class Fork(Exception):
        pass

    def fork(c):
        e = Fork()
        e.c = c
        return e

    def forking(fn):
        """a contract that distinguishes two cases: one outcome for each"""
        def g(ex, st, a):
            try:
                return fn(ex, st, a)
            except Fork as e:
                out = []
                for c in (e.c, tm.not_(e.c, 1)):
                    s2 = st.fork()
                    s2.assume(c)
                    s2.assume(c)
                    out.append((s2, fn(ex, s2, a)))
                return out
        return g

    def setw(ex, st, a):
        put(st, root(st, a[0]), WIDTH, a[1])
        return a[0]

    def setfill(ex, st, a):
        v = a[1]
        put(st, root(st, a[0]), FILL, v & 255 if v.__class__ is int else tm.zext(tm.extract(v, 0, 8), 8, 32))
        return a[0]

    def manip(ex, st, a):
        nm = getattr(a[1], 'name', '')
        k = {'_ZSt3hexRSt8ios_base': 16, '_ZSt3decRSt8ios_base': 10}.get(nm)
        if k is None:
            raise E.Unsupported('manipulator %s' % nm)
        put(st, root(st, a[0]), BASE, k)
        return a[0]

    def tostring(ex, st, a):
        p = root(st, a[1])
        n = get(st, p, POS)
        mkstr(st, a[0], st.load(addp(p, BUF), 8), n if wordlist is None else n)

    def get_word(ex, st, a):
        p, s = root(st, a[0]), a[1]
        b, r, n = st.load(addp(p, BUF), 8), get(st, p, RD), get(st, p, CNT)
        if get(st, p, FAIL).__class__ is int and get(st, p, FAIL) == 1:
            return a[0]
        put(st, p, FAIL, tm.ite(tm.ult(r, n, 64), 0, 1, 32))
        put(st, p, RD, tm.add(r, 1, 64))
        mkstr(st, s, addp(b, tm.mul(r, 4, 64)), tm.zext(tm.sel('wordlen', r), 8, 64))
        return a[0]

    def good(ex, st, a):
        return tm.eq(get(st, root(st, a[0]), FAIL), 0, 32)
    d = {'_Z' + SS + 'C1Ev': ctor, '_Z' + SS + 'C1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode': fromstr, '_Z' + SS + 'D1Ev': lambda ex, st, a: None,
         '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc': put_c, '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c': put_char,
         '_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE': put_s,
         '_ZNSolsEi': forking(put_i), '_ZNSolsEj': forking(put_i), '_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St5_Setw': setw,
         '_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St8_SetfillIS3_E': setfill, '_ZNSolsEPFRSt8ios_baseS0_E': manip,
         '_ZNK' + SS[1:] + '3strEv': tostring,
         '_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE': get_word,
         '_ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv': good, '_ZNKSt9basic_iosIcSt11char_traitsIcEEntEv': lambda ex, st, a: tm.not_(good(ex, st, a), 1)}
    return d


def E_same(x, y):
    return x is y or (x.__class__ is int and y.__class__ is int and x == y)


# ------------------------------------------------------------------ ctype (C locale)
def ctype():
    def dom(ex, st, x):
        ex.require(st, tm.or_(tm.ule(x, 255, 32), tm.eq(x, 0xffffffff, 32), 1), 'domain', 'character argument in -1..255')

    def rng(x, lo, hi):
        return tm.ule(tm.sub(x, ord(lo), 32), ord(hi) - ord(lo), 32)

    def isdigit(ex, st, a):
        dom(ex, st, a[0])
        return tm.ite(rng(a[0], '0', '9'), 2048, 0, 32)

    def isxdigit(ex, st, a):
        dom(ex, st, a[0])
        x = a[0]
        return tm.ite(tm.or_(tm.or_(rng(x, '0', '9'), rng(x, 'a', 'f'), 1), rng(x, 'A', 'F'), 1), 4096, 0, 32)

    def tolower(ex, st, a):
        dom(ex, st, a[0])
        return tm.ite(rng(a[0], 'A', 'Z'), tm.add(a[0], 32, 32), a[0], 32)

    def toupper(ex, st, a):
        dom(ex, st, a[0])
        return tm.ite(rng(a[0], 'a', 'z'), tm.sub(a[0], 32, 32), a[0], 32)
    return {'isdigit': isdigit, 'isxdigit': isxdigit, 'tolower': tolower, 'toupper': toupper}


# ------------------------------------------------------------------ file streams
def ifstream():
    """failure of the open and of each read are arbitrary; each successful read delivers fresh arbitrary bytes"""
    def base(p):
        return E.Ptr(p.o, 0)

    def ctor(ex, st, a):
        nm = bytes(cstr(ex, st, a[1]))
        st.ghost['opened'] = st.ghost.get('opened', ()) + (nm,)
        v = st.alloc(32, name='vtable')
        st.store(v, 256, 8)
        st.obj(v, True).ro = True
        st.store(base(a[0]), addp(v, 24), 8)
        st.store(addp(a[0], FAIL), tm.zext(tm.var('openfails', 1), 1, 32), 4)

    def read(ex, st, a):
        p, d, n = base(a[0]), a[1], a[2]
        k = len(st.ghost.get('reads', ()))
        st.ghost['reads'] = st.ghost.get('reads', ()) + (n,)
        bad = tm.var('read%dfails' % k, 1)
        st.store(addp(p, FAIL), tm.or_(st.load(addp(p, FAIL), 4), tm.zext(bad, 1, 32), 32), 4)
        # on failure an arbitrary prefix is delivered; the bytes are arbitrary in any case
        if n.__class__ is int:
            st.write_bytes(d, [tm.sel('random%d' % k, i) for i in range(n)])
        else:
            ex.require(st, tm.ule(n, (1 << 63) - 1, 64), 'domain', 'size of read not negative')
            if d.__class__ is int and d == 0:
                ex.require(st, tm.eq(n, 0, 64), 'memory', 'null buffer only for a read of nothing')
                return a[0]
            o = st.obj(d, True)
            ex.require(st, tm.and_(tm.ule(d.f, o.size, 64), tm.ule(n, tm.sub(o.size, d.f, 64), 64), 1), 'memory', 'read into the buffer')
            o.sym.copyrange(st, o, d.f, n, None, (('seq', 'random%d' % k, 0, n),))
        return a[0]

    def bad(ex, st, a):
        return tm.ne(st.load(addp(base(a[0]), FAIL), 4), 0, 32)

    def gcount(ex, st, a):
        raise E.Unsupported('gcount')
    return {'_Z' + IF + 'C1EPKcSt13_Ios_Openmode': ctor, '_ZNSi4readEPcl': read, '_ZNKSt9basic_iosIcSt11char_traitsIcEEntEv': bad,
            '_ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv': lambda ex, st, a: tm.not_(bad(ex, st, a), 1),
            '_ZNKSt9basic_iosIcSt11char_traitsIcEE4failEv': bad, '_Z' + IF + '5closeEv': lambda ex, st, a: None, '_Z' + IF + 'D1Ev': lambda ex, st, a: None}


# ------------------------------------------------------------------ map from words to int
def wordmap(wordlist):
    """std::unordered_map<std::string, int> whose keys are elements of the word list (assumed distinct); looked up with words offered by a stream in word mode"""
    N = 4096

    def ctor(ex, st, a):
        st.store(a[0], st.alloc(4 * N, name='map values'), 8)
        st.store(addp(a[0], 8), 0, 8)
        st.ghost['wordmap%d' % a[0].o] = frozenset()

    def index(ex, st, a):
        k = a[1]
        if not (k.__class__ is E.Ptr and k.o == wordlist(st).o and k.f.__class__ is int and k.f % 32 == 0):
            raise E.Unsupported('key that is not an element of the word list')
        i = k.f // 32
        t = st.load(a[0], 8)
        g = 'wordmap%d' % a[0].o
        c = addp(t, 4 * i)
        if i not in st.ghost[g]:
            st.ghost[g] = st.ghost[g] | {i}
            st.store(c, 0, 4)
        return c

    def find(ex, st, a):
        m, k = a[0], a[1]
        d = st.load(k, 8)
        if len(st.ghost.get('wordmap%d' % m.o, ())) != N:
            raise E.Unsupported('look-up in a partial map')
        if not (d.__class__ is E.Ptr and (st.obj(d).name or '').startswith('words')):
            raise E.Unsupported('look-up of something else than a word read from the text')
        t = st.load(d, 4)
        tab = st.read_vals(st.load(m, 8), 4 * N)
        vals = [E_word(tab[4 * i:4 * i + 4]) for i in range(N)]
        out = []
        known = tm.ult(t, N, 32)
        r = ex.decide(st, known)
        for c, hit in ((known, True), (tm.not_(known, 1), False)):
            if r is not None and r != hit:
                continue
            s = st.fork()
            if r is None:
                s.assume(c)
            if not hit:
                out.append((s, 0))
                continue
            n = s.alloc(48, name='map node')
            s.store(addp(n, 40), t if vals == list(range(N)) else tm.pick(tuple(vals), t, 32), 4)
            out.append((s, n))
        return out

    def second(ex, st, a):
        p = st.load(a[0], 8)
        if p.__class__ is int and p == 0:
            raise E.Viol('memory', 'end iterator dereferenced')
        return addp(p, 8)

    def eq(ex, st, a):
        return E.pcmp('eq', st.load(a[0], 8), st.load(a[1], 8), 64)
    d = {'_Z' + MAP + 'C2Ev': ctor, '_Z' + MAP + 'C1Ev': ctor, '_Z' + MAP + 'D2Ev': lambda ex, st, a: None, '_Z' + MAP + 'D1Ev': lambda ex, st, a: None}
    for k in ('_Z' + MAP, '_ZNK' + MAP[1:]):
        d[k + 'ixERSB_'] = index
        d[k + 'ixEOS5_'] = index
        d[k + '4findERSB_'] = find
        d[k + '3endEv'] = lambda ex, st, a: 0
        d[k + '4cendEv'] = lambda ex, st, a: 0
    ITB = 'NSt8__detail14_Node_iteratorISt4pairIKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEiELb0ELb1EE'
    for k in ('_ZNK' + ITB[1:],):
        d[k + 'ptEv'] = second
        d[k + 'deEv'] = second
    NB = '_Node_iterator_baseISt4pairIKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEiELb1EEESC_'
    d['_ZNSt8__detaileqERKNS_19' + NB] = eq
    d['_ZNSt8__detailneERKNS_19' + NB] = lambda ex, st, a: tm.not_(eq(ex, st, a), 1) if eq(ex, st, a).__class__ is T else 1 - eq(ex, st, a)
    return d


def E_word(bs):
    if all(b.__class__ is int for b in bs):
        return int.from_bytes(bytes(bs), 'little')
    r = 0
    for i, b in enumerate(bs):
        r = tm.or_(r, tm.shl(tm.zext(b, 8, 32) if b.__class__ is T else b, 8 * i, 32), 32)
    return r
