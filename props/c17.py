"""C17: seeds derived by hash chain and from the system generator."""
from dv import build, frame, xm, stl, term as tm, vc, seq
from dv import exec as E
from props.c04 import need
from props import c08

NOTE = ('Proved on misc.cpp and hashing.cpp for seeds of every length, every shift and count (loop invariant, no bound), every requested size, entropy of every length, and every way in which opening or reading '
        'the generator can fail: each chain element is SHAKE256 of seed, shift and index, exactly count of them; a random seed is SHAKE256 of the size bytes read followed by the entropy, '
        'and any failure raises an error. SHAKE256 by its contract (C01); std::ifstream, std::string and vector growth by contract.')
BOUNDED = {'chain of few|random (48|51) |random None (48|51)|random [01] (48|51)': 'single values (cases of the unbounded obligations, for early refutation)'}
ASSUMPTIONS = ['SHAKE256 by contract (C01)', 'std::ifstream: open and read may fail in any way; a successful read delivers all bytes asked for', 'std::string accessors and push_back on vectors by contract',
               'operator new/delete and the C++ exception runtime by contract', 'lengths below 2^48']


def mods():
    return build.modules([build.HERE + '/native/tu_misc.cpp', 'qrl/misc.cpp', 'qrl/hashing.cpp'])


def hash_contract(name):
    """C-level SHAKE (output pointer, output length, input pointer, input length), every length"""
    def c(ex, st, a):
        if len(a) != 4:
            raise E.Unsupported('SHAKE contract: arguments')
        o, n, p, ln = a
        ps = xm.readb(ex, st, p, ln)
        if n.__class__ is int:
            if n:
                xm.put(st, o, tm.app(name, (ps, n), n))
            return None
        if o.__class__ is int and o == 0:
            ex.require(st, tm.eq(n, 0, 64), 'memory', 'null output only for nothing')
            return None
        ob = st.obj(o, True)
        if ob.sym is None:
            E.promote(ob)
        ex.require(st, tm.and_(tm.ule(o.f, ob.size, 64), tm.ule(n, tm.sub(ob.size, o.f, 64), 64), 1), 'memory', 'hash output in bounds')
        ob.sym.copyrange(st, ob, o.f, n, None, (('hash', name, (ps,), n),))
    return c


def shakes():
    """contracts for the C-level functions under whatever mangled name they have"""
    d = {}
    for t in ('yPKhy', 'mPKhm', 'jPKhj'):
        d['_Z8shake128Ph' + t] = hash_contract('SHAKE128')
        d['_Z8shake256Ph' + t] = hash_contract('SHAKE256')
    d['shake128'] = None
    return {k: v for k, v in d.items() if v}


def new(ctx, extra=()):
    d = shakes()
    d.update(stl.string())
    d.update(extra)
    ex = ctx.executor(mods(), d)
    ex.nomerge = True
    ex.summarise = True
    ex.max_unroll = 300
    return ex


def le4(x):
    return [tm.extract(x, 8 * i, 8) for i in range(4)]


def shake256(ps, n):
    return tm.app('SHAKE256', (seq.canon(ps), n), n)


def strobj(st, name, bytes_=None):
    """a std::string of arbitrary length and content: (pointer, length, pieces)"""
    p = st.alloc(32, name=name + ' string')
    if bytes_ is None:
        d, n, P = c08.symlen(st, name)
    else:
        d, P = xm.buf(st, name, len(bytes_) + 1, bytes_=list(bytes_) + [0])
        n, P = len(bytes_), P[:-1]
    st.store(p, d, 8)
    st.store(E.addp(p, 8), n, 8)
    st.obj(p, True).ro = True
    return p, n, P


def vec(ex, s, p):
    """(length, pieces) of the vector at p"""
    b, e = s.load(p, 8), s.load(E.addp(p, 8), 8)
    if b.__class__ is int and b == 0:
        return 0, ()
    n = tm.sub(e.f, b.f, 64)
    return n, (seq.read_range(ex, s, b, n) if not (n.__class__ is int and n == 0) else ())


def chain(ctx):
    ex = new(ctx, stl.vector_vector(32))
    v = vc.VC('getHashChainSeed', 'any seed, shift and count')
    st = ex.new_state()
    p, n, S = c08.symlen(st, 'seed')
    shift, count = tm.var('shift', 32), tm.var('count', 32)
    out = xm.outbuf(st, 'out', 24)
    hints = [{'seedlen': a, 'shift': b, 'count': c} for a, b, c in ((48, 0, 3), (0, 1, 1), (32, 256, 2), (48, 0xffffffff, 300), (5, 7, 0), (3, 0x01020304, 2), (1, 7, 3), (0, 7, 3))]
    m = tm.var('#m', 64)
    i = tm.extract(m, 0, 32)
    for s in v.outcomes('memory safe and returns', ex.call_function(st, need(ex, 'v_chain'), [p, n, shift, count, out]), hints=hints):
        v.eq('no exception', s.pc, s.retval, 0, 32, hints)
        if s.retval != 0:
            continue
        b, e, g = [s.load(E.addp(out, 8 * k), 8) for k in range(3)]
        v.eq('exactly count seeds', s.pc, tm.sub(e.f, b.f, 64), tm.mul(24, tm.zext(count, 32, 64), 64), 64, hints)
        K = tm.zext(count, 32, 64)
        got = seq.read_range(ex, s, g, tm.mul(32, K, 64))
        want = [('map', tuple(tm.blob_bytes(shake256(S + le4(shift) + le4(i), 32))), K)]
        v.pieces('each seed is SHAKE256 of seed, shift and its number', s.pc, got, seq.canon(want), hints)
        bad = [('map', tuple(tm.blob_bytes(shake256(S + le4(shift) + le4(tm.add(i, 1, 32)), 32))), K)]
        v.pieces('canary', s.pc, got, seq.canon(bad), hints)
    return [v], [ex]


def few(ctx):
    """the same for concrete counts, so that a deviation yields values"""
    vs, exs = [], []
    for k in (0, 1, 2, 3, 5):
        ex = new(ctx, stl.vector_vector(32))
        v = vc.VC('getHashChainSeed', 'count %d' % k)
        st = ex.new_state()
        p, n, S = c08.symlen(st, 'seed')
        shift = tm.var('shift', 32)
        out = xm.outbuf(st, 'out', 24)
        hints = [{'seedlen': a, 'shift': b} for a in (0, 5, 48) for b in (0, 1, 0x01020304)]
        for s in v.outcomes('memory safe and returns', ex.call_function(st, need(ex, 'v_chain'), [p, n, shift, k, out]), hints=hints):
            v.eq('no exception', s.pc, s.retval, 0, 32, hints)
            if s.retval != 0:
                continue
            b, e, g = [s.load(E.addp(out, 8 * j), 8) for j in range(3)]
            v.eq('exactly count seeds', s.pc, tm.sub(e.f, b.f, 64), 24 * k, 64, hints)
            got = s.read_vals(g, 32 * k) if k else []
            want = [x for j in range(k) for x in tm.blob_bytes(shake256(S + le4(shift) + list(j.to_bytes(4, 'little')), 32))]
            v.bytes('each seed is SHAKE256 of seed, shift and its number', s.pc, got, want, hints)
        vs.append(v)
        exs.append(ex)
    return vs, exs


def random(size=None, elen=None):
    """size and entropy length: a number, or None for every value from 2 on"""
    def go(ctx):
        ex = new(ctx, stl.ifstream())
        v = vc.VC('getRandomSeed', 'size %s, entropy of %s bytes' % ('>= 2' if size is None else size, '>= 2' if elen is None else elen))
        st = ex.new_state()
        sz = tm.var('size', 32) if size is None else size
        e, en, EP = strobj(st, 'entropy', None if elen is None else [tm.sel('entropy', i) for i in range(elen)])
        for x, w in ((sz, 32), (en, 64)):
            if x.__class__ is not int:
                st.assume(tm.ule(2, x, w))
        out = xm.outbuf(st, 'out', 24)
        n = tm.zext(sz, 32, 64) if size is None else size
        hints = [{'size': a, 'entropylen': b, 'openfails': o, 'read0fails': r} for a in (48, 2, 32, 300) for b in (2, 3, 40, 300) for o in (0, 1) for r in (0, 1)]
        good = bad = 0
        fails = tm.or_(tm.var('openfails', 1), tm.var('read0fails', 1), 1)
        for s in v.outcomes('memory safe and returns', ex.call_function(st, need(ex, 'v_random'), [sz, e, out]), hints=hints):
            v.holds('an error is raised exactly when the generator fails', s.pc, tm.eq(tm.eq(s.retval, 0, 32), tm.not_(fails, 1), 1), hints)
            v.holds('the system generator is used', s.pc, 1 if s.ghost.get('opened') in ((b'/dev/urandom',), (b'/dev/random',)) else 0, hints)
            if s.retval != 0:
                bad += 1
                continue
            good += 1
            got = vec(ex, s, out)
            v.eq('requested size', s.pc, got[0], n, 64, hints)
            rnd = [('seq', 'random0', 0, n)]
            EP = list(EP)
            if size is None:
                want = (('hash', 'SHAKE256', (tuple(seq.canon(rnd + EP)),), n),)
                v.pieces('SHAKE256 of the generator bytes and the entropy', s.pc, got[1], want, hints)
                if elen != 0:
                    v.pieces('canary', s.pc, got[1], (('hash', 'SHAKE256', (seq.canon(EP + rnd),), n),), hints)
            else:
                v.pieces('SHAKE256 of the generator bytes and the entropy', s.pc, got[1], seq.canon([shake256(rnd + EP, n)]) if n else (), hints)
        if not good or not bad:
            v.undecided('random seed', 'a case is missing (%d successful, %d refused)' % (good, bad))
        return [v], [ex]
    return go


def tasks(ctx):
    mods()
    return [('chain', chain, 200), ('chain of few', few, 200)] + [('random %s %s' % (k, e), random(k, e), 200) for k in (None, 0, 1, 48, 51) for e in (None, 0, 1)]


def native(ctx):
    return build.native_run(ctx)
