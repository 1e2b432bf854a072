"""C12: the tree pool.

Monitor reasoning over the real methods.  Outside the lock the shared fields (current index, queue) are unreadable;
taking the lock gives them arbitrary values satisfying the invariant
    the queue holds, in order, the tasks for indices cur, cur+1, ... cur+len-1
and giving it back demands the invariant again.  A method is then correct under every interleaving of callers when each of
its critical sections is: this is what is discharged, for every index, pool size and queue length.
"""
from dv import build, frame, xm, stl, term as tm, vc, seq
from dv import exec as E
from props.c04 import need
from props import c08, c17

NOTE = ('Proved on xmssPool.cpp by monitor reasoning, so for every interleaving of callers: the shared fields are only touched under the lock; with the lock held and the queue holding the tasks of consecutive indices '
        'from the current one, each operation restores that, a claim raises the index by exactly one and delivers the tree of the old index, and a query changes nothing (every index, pool size and queue length, no bound). '
        'The tree of index i is the fast signer built from SHAKE256(base seed, minimal little-endian i+1), for base seeds of every length.')
ASSUMPTIONS = ['std::mutex gives mutual exclusion; std::async runs the task it is given and its future delivers what that returns (contracts)', 'std::deque and std::future operations by contract',
               'index below 2^62 and pool size below 2^48 (for the claims; the tree of an index is proved for all 2^64)', 'the fast signer\'s constructor by contract (C07, C09, C18); SHAKE256 by contract (C01)', 'operator new/delete and the C++ exception runtime by contract',
               'progress (a future becomes ready) is not claimed']
POOL = 'class.XmssPool'
FUT = 'St6futureISt10shared_ptrI8XmssFastEE'
BF = 'St14__basic_futureISt10shared_ptrI8XmssFastEE'
DQ = 'NSt5dequeI%sSaIS4_EE' % FUT
LIM = 1 << 48


def mods():
    return build.modules([build.HERE + '/native/tu_pool.cpp', 'qrl/xmssPool.cpp'])


def divn(f, k):
    if f.__class__ is int:
        if f % k:
            raise E.Unsupported('queue length')
        return f // k
    d = {}
    c = tm._lin(f, d, 1, 64)
    d = tm._unshl(d, 64)
    if c % k or any(x % k for x in d.values()):
        raise E.Unsupported('queue length')
    sg = lambda x: x - (1 << 64) if x >> 63 else x     # (the difference of two ends of a queue is an integer of small magnitude)
    return tm._mklin(sg(c) // k, {t: sg(x) // k for t, x in d.items()}, 64)


def le8(x):
    return [tm.extract(x, 8 * i, 8) if x.__class__ is not int else x >> 8 * i & 255 for i in range(8)]


def token(x):
    """a pending task for index x"""
    return tuple(le8(x) + [1] + [0] * 7)


class Fields(object):
    """where the pool keeps what, by type and (for the two sizes) by what the constructor stores"""
    def __init__(self, ex):
        m = [m for m in ex.mods if POOL in m.types][0]
        t = m.types[POOL]
        self.size, self.al, offs = None, None, []
        kinds = t[1]
        for i, k in enumerate(kinds):
            o = ex.field(('named', POOL), i, m)
            offs.append((o[0] if o.__class__ is tuple else o, k))
        self.n = ex.sizeof(('named', POOL), m)
        vecs = [o for o, k in offs if k == ('named', 'class.std::vector')]
        dq = [o for o, k in offs if k == ('named', 'class.std::deque')]
        mx = [o for o, k in offs if k == ('named', 'class.std::mutex')]
        hs = [o for o, k in offs if k == ('i', 8)]
        self.ints = [o for o, k in offs if k == ('i', 64)]
        if not (len(vecs) == len(dq) == len(mx) == len(hs) == 1 and len(self.ints) == 2 and len(kinds) == 6):
            raise E.Unsupported('fields of the pool')
        self.base, self.cache, self.mutex, self.height = vecs[0], dq[0], mx[0], hs[0]
        self.cur, self.psize = self.ints


class Monitor(object):
    """contracts of lock, queue, tasks and futures; ghost state of one method call"""
    def __init__(self, ctx, v):
        self.v = v
        self.pool = None
        self.log = None
        self.hints = ()
        self.ex = ctx.executor(mods(), self.contracts())
        self.ex.nomerge = True
        self.ex.summarise = True
        self.ex.max_unroll = 300
        self.F = Fields(self.ex)
        self.fails = False

    def f(self, o):
        return E.addp(self.pool, o)

    # ---------------------------------------------------------- the lock
    def poison(self, st):
        ob = st.obj(self.pool, True)
        for o, n in ((self.F.cur, 8), (self.F.cache, 24)):
            for i in range(n):
                ob.data[self.pool.f + o + i] = None

    def shared(self, st, cur, n):
        """cur and a queue of n tasks, n an int or a term that is at least 2"""
        st.store(self.f(self.F.cur), cur, 8)
        p = stl.big(st, 'queue')
        log = st.obj(p, True)
        from dv.exec import SymData
        if log.sym is None:
            E.promote(log)
        if not (n.__class__ is int and n == 0):
            log.sym.log = [('b', i, c) for i, c in enumerate(token(cur))]
            m = tm.var('#m', 64)
            if n != 1:
                k = tm.sub(n, 1, 64)
                log.sym.log.append(('map', 16, tm.mul(k, 16, 64), 16, token(tm.add(tm.add(cur, 1, 64), m, 64)), k))
        st.store(self.f(self.F.cache), p, 8)
        st.store(self.f(self.F.cache + 8), E.addp(p, tm.mul(n, 16, 64)), 8)
        st.store(self.f(self.F.cache + 16), 1, 8)

    def lock(self, st, mx):
        if not (mx.__class__ is E.Ptr and mx.o == self.pool.o and mx.f == self.F.mutex):
            raise E.Unsupported('another mutex')
        if st.load(self.f(self.F.mutex), 8) != 0:
            raise E.Viol('memory', 'lock taken twice by one caller')
        st.store(self.f(self.F.mutex), 1, 8)
        k = st.load(self.log, 8)
        cur, n, P = self.sect(st, k)
        self.shared(st, cur, n)
        st.store(E.addp(self.log, 8 + 16 * k), cur, 8)

    def sect(self, st, k):
        """what the k-th critical section of this call finds"""
        cur = tm.var('cur%d' % k, 64)
        P = self.P
        n = self.len(st, k)
        big = LIM
        st.assume(tm.ule(n, P, 64) if not (n.__class__ is int and n == 0) else 1)
        st.assume(tm.ule(P, big, 64))
        st.assume(tm.ule(cur, 1 << 62, 64))
        return cur, n, P

    def queue(self, st):
        """(length, pieces) of the queue"""
        h, t = st.load(self.f(self.F.cache), 8), st.load(self.f(self.F.cache + 8), 8)
        d = tm.sub(t.f, h.f, 64)
        return divn(d, 16), (seq.read_range(self.ex, st, h, d) if not (d.__class__ is int and d == 0) else ())

    def invariant(self, st, what):
        cur = st.load(self.f(self.F.cur), 8)
        n, P = self.queue(st)
        m = tm.var('#m', 64)
        want = seq.canon([('map', token(tm.add(cur, m, 64)), n)]) if not (n.__class__ is int and n == 0) else ()
        self.v.pieces('%s: the queue holds the tasks of consecutive indices from the current one' % what, st.pc, P, want, self.hints)
        self.v.holds('%s: the queue is not longer than the pool size' % what, st.pc, tm.ule(n, self.P, 64), self.hints)
        return cur, n

    def unlock(self, st):
        if st.load(self.f(self.F.mutex), 8) != 1:
            raise E.Viol('memory', 'lock given back without being held')
        cur, n = self.invariant(st, 'lock given back')
        k = st.load(self.log, 8)
        st.store(E.addp(self.log, 16 + 16 * k), cur, 8)
        st.store(self.log, k + 1, 8)
        st.store(self.f(self.F.mutex), 0, 8)
        self.poison(st)

    # ---------------------------------------------------------- contracts
    def contracts(self):
        d = stl.byte_vector()
        M = self

        def guard_new(ex, st, a):
            M.lock(st, a[1])
            st.store(a[0], a[1], 8)

        def guard_end(ex, st, a):
            M.unlock(st)
        for t in ('St10lock_guardISt5mutexE', 'St11scoped_lockIJSt5mutexEE', 'St11unique_lockISt5mutexE'):
            for c in '12':
                d['_ZN%sC%sERS0_' % (t, c)] = guard_new
                if 'unique' not in t:
                    d['_ZN%sD%sEv' % (t, c)] = guard_end
        d['_ZNSt5mutex4lockEv'] = lambda ex, st, a: M.lock(st, a[0])
        d['_ZNSt5mutex6unlockEv'] = lambda ex, st, a: M.unlock(st)
        d['_ZNSt11unique_lockISt5mutexED2Ev'] = lambda ex, st, a: M.unlock(st) if st.load(M.f(M.F.mutex), 8) == 1 else None
        d['_ZNSt11unique_lockISt5mutexE6unlockEv'] = guard_end
        d['_ZNSt11unique_lockISt5mutexE4lockEv'] = lambda ex, st, a: M.lock(st, st.load(a[0], 8))
        for c in '12':
            d['_ZNSt5mutexC%sEv' % c] = lambda ex, st, a: st.store(a[0], 0, 8)

        # queue
        def mine(a):
            if not (a.__class__ is E.Ptr and M.pool is not None and a.o == M.pool.o and a.f == M.F.cache):
                raise E.Unsupported('another queue')

        def ends(st, a):
            mine(a)
            h, t = st.load(a, 8), st.load(E.addp(a, 8), 8)
            if h is E.U or t is E.U:
                raise E.Viol('race', 'the queue is used without the lock')
            return h, t

        def q_new(ex, st, a):
            mine(a[0])
            p = stl.big(st, 'queue')
            st.store(a[0], p, 8)
            st.store(E.addp(a[0], 8), p, 8)
            st.store(E.addp(a[0], 16), 1, 8)

        def empty(ex, st, a):
            h, t = ends(st, a[0])
            return tm.eq(h.f, t.f, 64)

        def size(ex, st, a):
            h, t = ends(st, a[0])
            return divn(tm.sub(t.f, h.f, 64), 16)

        def front(ex, st, a):
            h, t = ends(st, a[0])
            ex.require(st, tm.ne(h.f, t.f, 64), 'memory', 'front of a queue that is not empty')
            return h

        def pop(ex, st, a):
            h, t = ends(st, a[0])
            ex.require(st, tm.ne(h.f, t.f, 64), 'memory', 'pop from a queue that is not empty')
            st.store(a[0], E.addp(h, 16), 8)

        def push(ex, st, a):
            h, t = ends(st, a[0])
            move(ex, st, [t, a[1]])
            st.store(E.addp(a[0], 8), E.addp(t, 16), 8)
            return t
        for c in '12':
            d['_Z%sC%sEv' % (DQ, c)] = q_new
            d['_Z%sD%sEv' % (DQ, c)] = lambda ex, st, a: None
        for k in ('_Z' + DQ, '_ZNK' + DQ[1:]):
            d[k + '5emptyEv'], d[k + '4sizeEv'], d[k + '5frontEv'] = empty, size, front
        d['_Z' + DQ + '9pop_frontEv'] = pop
        d['_Z' + DQ + '9push_backEOS4_'] = push
        d['_Z' + DQ + '12emplace_backIJS4_EEERS4_DpOT_'] = push

        # futures: {index, valid}
        def f_new(ex, st, a):
            st.store(a[0], 0, 8)
            st.store(E.addp(a[0], 8), 0, 8)

        def move(ex, st, a):
            x, ok = st.load(a[1], 8), st.load(E.addp(a[1], 8), 8)
            f_new(ex, st, [a[1]])
            st.store(a[0], x, 8)
            st.store(E.addp(a[0], 8), ok, 8)
            return a[0]

        def valid(st, p):
            ok = st.load(E.addp(p, 8), 8)
            if ok.__class__ is not int:
                raise E.Unsupported('future')
            return ok

        def f_get(ex, st, a):
            if not valid(st, a[1]):
                raise E.Viol('memory', 'get() on a future that has no task')
            st.store(a[0], st.load(a[1], 8), 8)
            st.store(E.addp(a[0], 8), 1, 8)
            f_new(ex, st, [a[1]])

        def f_wait(ex, st, a):
            if not valid(st, a[0]):
                raise E.Viol('memory', 'wait on a future that has no task')
            r = tm.fresh('ready', 32)
            st.assume(tm.ule(r, 2, 32))
            return r
        for c in '12':
            d['_ZN%sC%sEv' % (FUT, c)] = f_new
            d['_ZN%sC%sEOS3_' % (FUT, c)] = move
            d['_ZN%sD%sEv' % (FUT, c)] = lambda ex, st, a: None
        d['_ZN%saSEOS3_' % FUT] = move
        d['_ZN%s3getEv' % FUT] = f_get
        d['_ZNK%s5validEv' % BF] = lambda ex, st, a: tm.ne(st.load(E.addp(a[0], 8), 8), 0, 64)
        for m in mods():
            for n in list(m.funcs):
                if n.startswith('_ZNK%s8wait_for' % BF):
                    d[n] = f_wait
                if n.startswith('_ZSt5asyncIZN8XmssPool'):
                    d[n] = self.asyn
        d['_ZN8XmssPool11prepareTreeEm'] = self.prepare
        # a copy of the result
        return d

    def asyn(self, ex, st, a):
        """std::async(policy, closure{this}, index)"""
        if len(a) != 4:
            raise E.Unsupported('task arguments')
        this, x = st.load(a[2], 8), st.load(a[3], 8)
        if not (this.__class__ is E.Ptr and this.o == self.pool.o and this.f == 0):
            raise E.Unsupported('task on another object')
        if not self.fails:
            st.write_bytes(a[0], list(token(x)))
            return None
        s2 = st.fork()
        st.write_bytes(a[0], list(token(x)))
        return [(st, None), (s2, E.Throw('_ZTISt12system_error'))]

    def prepare(self, ex, st, a):
        """tree of an index: {index, 1} in the result"""
        if len(a) != 3 or not (a[1].__class__ is E.Ptr and a[1].o == self.pool.o and a[1].f == 0):
            raise E.Unsupported('tree of another pool')
        st.store(a[0], a[2], 8)
        st.store(E.addp(a[0], 8), 1, 8)

    # ---------------------------------------------------------- states
    def object(self, st, P, height):
        """a pool in use, observed from outside"""
        self.pool = st.alloc(self.F.n, name='pool')
        self.log = st.alloc(8 + 16 * 6, name='sections')
        st.store(self.log, 0, 8)
        self.P = P
        st.store(self.f(self.F.mutex), 0, 8)
        st.store(self.f(self.F.psize), P, 8)
        st.store(self.f(self.F.height), height, 1)
        self.vp, self.vn, self.V = c08.symlen(st, 'base')
        st.store(self.f(self.F.base), self.vp, 8)
        for i in (8, 16):
            st.store(self.f(self.F.base + i), E.addp(self.vp, self.vn), 8)

    def untouched(self, st):
        """the constant fields, and the shared ones outside the lock"""
        v = self.v
        v.eq('pool size unchanged', st.pc, st.load(self.f(self.F.psize), 8), self.P, 64, self.hints)
        v.eq('height unchanged', st.pc, st.load(self.f(self.F.height), 1), tm.var('height', 8), 8, self.hints)
        b, e = st.load(self.f(self.F.base), 8), st.load(self.f(self.F.base + 8), 8)
        v.holds('base seed unchanged', st.pc, 1 if b.__class__ is E.Ptr and b.o == self.vp.o and b.f == 0 and e.__class__ is E.Ptr and e.o == self.vp.o else 0, self.hints)
        v.eq('length of the base seed unchanged', st.pc, tm.sub(e.f, b.f, 64), self.vn, 64, self.hints)
        v.eq('lock released', st.pc, st.load(self.f(self.F.mutex), 8), 0, 64, self.hints)
        ob = st.obj(self.pool)
        dirty = [o for o, n in ((self.F.cur, 8), (self.F.cache, 24)) for i in range(n) if ob.data[o + i] is not None]
        v.holds('shared fields are written under the lock only', st.pc, 0 if dirty else 1, self.hints)

    def sections(self, st):
        n = st.load(self.log, 8)
        return [(st.load(E.addp(self.log, 8 + 16 * k), 8), st.load(E.addp(self.log, 16 + 16 * k), 8)) for k in range(n)]


HINTS = [{'cur0': c, 'cur1': c + 2, 'size': s, 'len0': l, 'len1': l, 'height': 4, 'baselen': 48} for c in (0, 7, 255, 1 << 32) for s, l in ((0, 0), (1, 1), (3, 3), (5, 2), (2, 1))]

QUEUE = ('empty queue', 'queue of one task', 'queue of two or more tasks')


def method(fn, kind, title, fails=False):
    """one call of a public operation, on a queue that is empty or not"""
    def go(ctx):
        v = vc.VC(title, QUEUE[kind] + (', a task may fail to start' if fails else ''))
        M = Monitor(ctx, v)
        M.fails = fails
        M.hints = HINTS
        ex = M.ex
        st = ex.new_state()
        P = tm.var('size', 64)

        def length(s, k):
            if kind < 2:
                return kind
            n = tm.var('len%d' % k, 64)
            s.assume(tm.ule(2, n, 64))
            return n
        M.len = length
        M.object(st, P, tm.var('height', 8))
        if fails:
            st.assume(tm.eq(P, tm.var('len0', 64) if kind == 2 else kind, 64))
        M.poison(st)
        out = xm.outbuf(st, 'out', 16)
        args = [M.pool] + ([out] if fn == 'v_pool_next' else [])
        done = 0
        for s in v.outcomes('memory safe, no use of shared fields without the lock, returns', ex.call_function(st, need(ex, fn), args), ('ret', 'exc') if fails else ('ret',), hints=HINTS):
            done += 1
            M.untouched(s)
            secs = M.sections(s)
            if s.out == 'exc':
                for b, a in secs:
                    v.holds('no index twice', s.pc, tm.or_(tm.eq(a, b, 64), tm.eq(a, tm.add(b, 1, 64), 64), 1), HINTS)
                continue
            same = [ex.decide(s, tm.eq(b, a, 64)) is True for b, a in secs]
            if fn == 'v_pool_next':
                if not secs:
                    v.undecided('claim', 'no critical section')
                    continue
                ch = [i for i, x in enumerate(same) if not x] or [0]
                for i in ch[1:]:
                    v.eq('only one index is claimed', s.pc, secs[i][1], secs[i][0], 64, HINTS)
                b, a = secs[ch[0]]
                v.eq('the index rises by exactly one', s.pc, a, tm.add(b, 1, 64), 64, HINTS)
                v.eq('a tree is returned', s.pc, s.load(E.addp(out, 8), 8), 1, 64, HINTS)
                v.eq('the tree of the claimed index', s.pc, s.load(out, 8), b, 64, HINTS)
                v.eq('canary', s.pc, s.load(out, 8), a, 64, HINTS)
            else:
                for b, a in secs:
                    v.eq('no index is claimed', s.pc, a, b, 64, HINTS)
                if fn == 'v_pool_index':
                    if len(secs) != 1:
                        v.undecided('index', 'critical sections')
                        continue
                    v.eq('the current index', s.pc, s.retval, secs[0][0], 64, HINTS)
                    v.eq('canary', s.pc, s.retval, tm.add(secs[0][0], 1, 64), 64, HINTS)
        if not done:
            v.undecided(title, 'no outcome')
        return [v], [ex]
    return go


def construct(ctx):
    v = vc.VC('XmssPool constructor', 'any start, size and base seed')
    M = Monitor(ctx, v)
    ex = M.ex
    st = ex.new_state()
    S, P, h = tm.var('start', 64), tm.var('size', 64), tm.var('height', 8)
    st.assume(tm.ule(S, 1 << 62, 64))
    st.assume(tm.ule(P, LIM, 64))
    hints = M.hints = [{'start': a, 'size': b, 'baselen': 48, 'height': 4} for a in (0, 5, 255, 1 << 40) for b in (0, 1, 2, 5)]
    p, n, B = c08.symlen(st, 'base')
    vec = st.alloc(24, name='base seed')
    st.store(vec, p, 8)
    for i in (8, 16):
        st.store(E.addp(vec, i), E.addp(p, n), 8)
    st.obj(vec, True).ro = True
    M.pool = xm.outbuf(st, 'pool', M.F.n)
    M.P = P
    done = 0
    for s in v.outcomes('memory safe and returns', ex.call_function(st, need(ex, 'v_pool_new'), [M.pool, vec, h, S, P]), hints=hints):
        done += 1
        cur, k = M.invariant(s, 'constructed')
        v.eq('the current index is the starting index', s.pc, cur, S, 64, hints)
        v.eq('pool size', s.pc, s.load(M.f(M.F.psize), 8), P, 64, hints)
        v.eq('height', s.pc, s.load(M.f(M.F.height), 1), h, 8, hints)
        ln, Q = c17.vec(ex, s, M.f(M.F.base))
        v.eq('length of the base seed', s.pc, ln, n, 64, hints)
        v.pieces('own copy of the base seed', s.pc, Q, tuple(B) if not (ln.__class__ is int and ln == 0) else (), hints)
        b = s.load(M.f(M.F.base), 8)
        v.holds('not shared with the caller', s.pc, 0 if b.__class__ is E.Ptr and b.o == p.o else 1, hints)
        v.eq('canary', s.pc, cur, tm.add(S, 1, 64), 64, hints)
    if not done:
        v.undecided('constructor', 'no outcome')
    return [v], [ex]


def tree(nb):
    """prepareTree for the indices whose successor takes nb bytes"""
    def go(ctx):
        v = vc.VC('XmssPool::prepareTree', 'index + 1 of %d bytes' % nb)
        M = Monitor(ctx, v)
        ex = M.ex
        made = {}

        def signer(ex, st, a):
            """XmssFast(seed, height, hash function, address format)"""
            if len(a) != 5:
                raise E.Unsupported('signer construction')
            n, P = c17.vec(ex, st, a[1])
            xm.put(st, a[0], tm.blobvar('signer', 8))
            g = st.load(made['log'], 8)
            if g:
                raise E.Unsupported('several signers')
            st.store(made['log'], 1, 8)
            made.setdefault('all', []).append((st.load(made['log'], 8), n, P, a[2], a[3], a[4]))
            st.store(E.addp(made['log'], 8), len(made['all']) - 1, 8)
            st.store(E.addp(made['log'], 16), a[0], 8)
        for m in mods():
            for k in list(m.funcs) + list(m.decls):
                if k.startswith('_ZN8XmssFastC') and 'EN' not in k:
                    ex.contracts[k] = signer
        ex.contracts.pop('_ZN8XmssPool11prepareTreeEm')

        def shake(ex, st, a):
            if len(a) != 3:
                raise E.Unsupported('SHAKE256 arguments')
            if a[1] != 48:
                raise E.Unsupported('SHAKE256 output length')
            n, P = c17.vec(ex, st, a[2])
            o = st.alloc(48, name='hash')
            xm.put(st, o, c17.shake256(P, 48))
            st.store(a[0], o, 8)
            for i in (8, 16):
                st.store(E.addp(a[0], i), E.addp(o, 48), 8)
        ex.contracts['_Z8shake256mSt6vectorIhSaIhEE'] = shake
        st = ex.new_state()
        idx = tm.var('index', 64)
        nx = tm.add(idx, 1, 64)
        if nb == 0:
            st.assume(tm.eq(idx, (1 << 64) - 1, 64))
        else:
            st.assume(tm.ule(1 << 8 * (nb - 1), nx, 64))
            if nb < 8:
                st.assume(tm.ult(nx, 1 << 8 * nb, 64))
        h = tm.var('height', 8)
        M.object(st, tm.var('size', 64), h)
        M.poison(st)
        made['log'] = st.alloc(24, name='made')
        st.store(made['log'], 0, 8)
        out = xm.outbuf(st, 'out', 16)
        hints = M.hints = [{'index': i, 'height': 4, 'baselen': b} for i in [(1 << 8 * nb - 8) - 1 if nb else (1 << 64) - 1, (1 << 8 * nb) - 2 if nb else 0, (0x123456789abcdef0 & (1 << 8 * nb) - 1)] for b in (48, 0, 3)]
        g = need(ex, '_ZN8XmssPool11prepareTreeEm')
        done = 0
        for s in v.outcomes('memory safe, no use of shared fields, returns', ex.call_function(st, g, [out, M.pool, idx]), hints=hints):
            done += 1
            M.untouched(s)
            if s.load(made['log'], 8) != 1:
                v.undecided('signer', 'none built')
                continue
            _, n, P, ht, fn, fmt = made['all'][s.load(E.addp(made['log'], 8), 8)]
            W = list(M.V) + [tm.extract(nx, 8 * i, 8) for i in range(nb)]
            v.eq('48-byte seed', s.pc, n, 48, 64, hints)
            v.pieces('seed is SHAKE256 of the base seed and the index', s.pc, P, seq.canon(tm.blob_bytes(c17.shake256(W, 48))), hints)
            v.eq('height', s.pc, ht, h, 8, hints)
            v.eq('hash function SHAKE128', s.pc, fn, 1, 32, hints)
            v.eq('address format SHA256_2X', s.pc, fmt, 0, 32, hints)
            b, w = s.load(out, 8), s.load(E.addp(made['log'], 16), 8)
            v.holds('that signer is returned', s.pc, 1 if b.__class__ is E.Ptr and b.o == w.o and b.f == w.f else 0, hints)
            bad = list(M.V) + [tm.extract(idx, 8 * i, 8) for i in range(max(nb, 1))]
            v.pieces('canary', s.pc, P, seq.canon(tm.blob_bytes(c17.shake256(bad, 48))), hints)
        if not done:
            v.undecided('prepareTree', 'no outcome')
        return [v], [ex]
    return go


def task(ctx):
    """what std::async runs: the closure called with an index is prepareTree of that index"""
    v = vc.VC('background task', 'any index')
    M = Monitor(ctx, v)
    ex = M.ex
    fs = [f for m in ex.mods for n, f in m.funcs.items() if n.startswith('_ZZN8XmssPool') and n.endswith('clEm')]
    if not fs:
        v.undecided('task', 'closure not found')
    for f in fs:
        st = ex.new_state()
        M.object(st, tm.var('size', 64), tm.var('height', 8))
        M.poison(st)
        out = xm.outbuf(st, 'out', 16)
        clo = st.alloc(8, name='closure')
        st.store(clo, M.pool, 8)
        x = tm.var('index', 64)
        for s in v.outcomes('memory safe, no use of shared fields, returns', ex.call_function(st, f, [out, clo, x])):
            M.untouched(s)
            v.eq('a tree is returned', s.pc, s.load(E.addp(out, 8), 8), 1, 64)
            v.eq('the tree of the index it was given', s.pc, s.load(out, 8), x, 64)
            v.eq('canary', s.pc, s.load(out, 8), tm.add(x, 1, 64), 64)
    return [v], [ex]


def tasks(ctx):
    mods()
    T = [('constructor', construct, 200), ('background task', task, 100)]
    for fn, t in (('v_pool_next', 'getNextTree'), ('v_pool_available', 'isAvailable'), ('v_pool_index', 'getCurrentIndex')):
        for k in (2, 1, 0):
            T.append(('%s, %s' % (t, QUEUE[k]), method(fn, k, 'XmssPool::' + t), 200))
    for k in (2, 1):
        T.append(('getNextTree when a task fails to start, %s' % QUEUE[k], method('v_pool_next', k, 'XmssPool::getNextTree', True), 200))
    for nb in range(9):
        T.append(('tree of an index, %d bytes' % nb, tree(nb), 200))
    return T


def native(ctx):
    return build.native_run(ctx)
