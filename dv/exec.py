"""Symbolic executor / verification-condition generator over LLVM IR.

Control is forked on undecided conditions and merged again at the immediate post-dominator; calls to functions under
contract are replaced by the contract; every memory access, division, shift, unreachable and contract clause is an obligation.
"""
import math
import struct
from . import ir
from . import term as tm
from .term import T
from . import solve

M64 = (1 << 64) - 1


class Unsupported(Exception):
    """the engine cannot decide (tool limit) -- never a violation"""


class Viol(Exception):
    def __init__(self, kind, msg, cond=None):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = msg
        self.cond = cond      # the failing condition (negated obligation) or None


class Ptr(object):
    __slots__ = ('o', 'f')

    def __init__(self, o, f):
        self.o = o
        self.f = f

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.o, self.f)


class FnPtr(object):
    __slots__ = ('name', 'mod')

    def __init__(self, name, mod):
        self.name = name
        self.mod = mod

    def __repr__(self):
        return 'FnPtr(%s)' % self.name


class _U(object):
    def __repr__(self):
        return 'undef'

    def __deepcopy__(self, m):
        return self


U = _U()


class Obj(object):
    __slots__ = ('id', 'size', 'data', 'kind', 'name', 'gen', 'alive', 'ro', 'align', 'sym', 'maybe')

    def __init__(self, id, size, data, kind, name, gen, align=16):
        self.id = id
        self.size = size
        self.data = data
        self.kind = kind
        self.name = name
        self.gen = gen
        self.alive = True
        self.ro = False
        self.align = align
        self.sym = None
        self.maybe = False      # some cells may be of class Maybe

    def clone(self, gen):
        o = Obj(self.id, self.size, list(self.data) if self.data is not None else None, self.kind, self.name, gen, self.align)
        o.alive = self.alive
        o.ro = self.ro
        o.maybe = self.maybe
        o.sym = self.sym.clone() if self.sym is not None else None
        return o


class Frame(object):
    __slots__ = ('fn', 'R', 'b', 'i', 'prev', 'ret', 'nrm', 'uw', 'allocas', 'n')

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.R = list(self.R)
        f.b = self.b
        f.i = self.i
        f.prev = self.prev
        f.ret = self.ret
        f.nrm = self.nrm
        f.uw = self.uw
        f.allocas = list(self.allocas)
        f.n = self.n
        return f


_gen = [0]


def newgen():
    _gen[0] += 1
    return _gen[0]


class State(object):
    def __init__(self, ex):
        self.ex = ex
        self.frames = []
        self.mem = {}
        self.pc = []
        self.pcset = set()
        self.gen = newgen()
        self.ghost = {}
        self.bc = {}
        self.out = None
        self.retval = None
        self.exc = None
        self.steps = 0

    def inb(self, o, f, n, what):
        """obligation: [f, f+n) lies inside o (object of symbolic size)"""
        if f.__class__ is int:
            base, c = None, f
        elif f.op == 'add':
            c = tm._s(f.a[0], 64)
            base = f if c == 0 else tm.sub(f, f.a[0], 64)
        else:
            base, c = f, 0
        if n.__class__ is int:
            key = (o.id, base)
            iv = self.bc.get(key, ())
            for lo, hi in iv:
                if lo <= c and c + n <= hi:
                    self.ex.nreq += 1
                    return
            if base is not None or o.size.__class__ is not int:
                for m in (64, 8):
                    if m > n:
                        g = tm.and_(tm.ule(f, o.size, 64), tm.ule(m, tm.sub(o.size, f, 64), 64), 1)
                        if g.__class__ is int:
                            ok = bool(g)
                        else:
                            ok = g in self.pcset or solve.quick(self.pc, g)
                        if ok:
                            self.bc[key] = iv + ((c, c + m),)
                            self.ex.nreq += 1
                            return
            self.ex.require(self, tm.and_(tm.ule(f, o.size, 64), tm.ule(n, tm.sub(o.size, f, 64), 64), 1), 'memory', '%s in bounds of %s' % (what, o.name or o.kind))
            self.bc[key] = iv + ((c, c + n),)
            return
        self.ex.require(self, tm.and_(tm.ule(f, o.size, 64), tm.ule(n, tm.sub(o.size, f, 64), 64), 1), 'memory', '%s in bounds of %s' % (what, o.name or o.kind))

    def fork(self):
        s = State.__new__(State)
        s.ex = self.ex
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.pcset = set(self.pcset)
        s.gen = newgen()
        self.gen = newgen()
        s.ghost = dict(self.ghost)
        s.bc = dict(self.bc)
        s.out = None
        s.retval = self.retval
        s.exc = self.exc
        s.steps = self.steps
        return s

    def assume(self, c):
        if c.__class__ is int:
            if not c:
                raise AssertionError('assume false')
            return
        if c in self.pcset:
            return
        if c.op == 'and' and c.a[0] == 1:
            for t in c.a[1]:
                self.assume(t)
            return
        self.pc.append(c)
        self.pcset.add(c)

    # ------------------------------------------------------------ memory
    def alloc(self, size, kind='heap', name='', data=None, align=16):
        ex = self.ex
        ex.nobj += 1
        i = ex.nobj
        if data is None:
            data = [None] * size if size.__class__ is int else None
        o = Obj(i, size, data, kind, name, self.gen, align)
        if size.__class__ is not int:
            o.sym = SymData()
        self.mem[i] = o
        return Ptr(i, 0)

    def obj(self, p, write=False):
        if p.__class__ is not Ptr:
            if p is U:
                raise Viol('uninit', 'dereference of an uninitialised pointer')
            if p is _Bad:
                raise Unsupported('use of a pointer that differs between merged paths')
            raise Viol('memory', 'dereference of %s' % ('null' if p == 0 else repr(p)))
        o = self.mem.get(p.o)
        if o is None or not o.alive:
            raise Viol('memory', 'access to freed or dead object')
        if write:
            if o.ro:
                raise Viol('frame', 'write to read-only object %s' % o.name)
            if o.gen != self.gen:
                o = o.clone(self.gen)
                self.mem[p.o] = o
        return o

    def bytes_at(self, p, n):
        """list of n raw cells"""
        o = self.obj(p)
        f = p.f
        if o.sym is not None:
            return o.sym.read(self, o, f, n)
        if f.__class__ is not int:
            return self._symread(o, f, n)
        if f + n > o.size:
            raise Viol('memory', 'read of %d bytes at offset %d of %s (size %d)' % (n, f if f < (1 << 63) else f - (1 << 64), o.name or o.kind, o.size))
        r = o.data[f:f + n]
        if o.maybe:
            r = self._settle(r)
        return r

    def _settle(self, cells):
        """cells written on some paths only: known written (the value) or not written (None) here, where that is decided"""
        out = []
        for c in cells:
            if c.__class__ is Maybe:
                d = self.ex.decide(self, c.c)
                c = c.v if d is True else None if d is False else c
            out.append(c)
        return out

    def _symread(self, o, f, n):
        hi = o.size - n
        if hi < 0:
            raise Viol('memory', 'read beyond %s' % o.name)
        self.ex.require(self, tm.ule(f, hi, 64), 'memory', 'read in bounds of %s' % (o.name or o.kind))
        if all(x.__class__ is int for x in o.data):
            if n == 1:
                return [tm.tab(tuple(o.data), f, 8)]
            v = []
            for j in range(n):
                v.append(tm.tab(tuple(o.data[j:hi + 1 + j]), f, 8))
            return v
        if n == 1:
            if not any(x is None or x.__class__ is Maybe for x in o.data):
                return [tm.pick(tuple([cellbyte(x) for x in o.data]), f, 8)]
        # candidate offsets
        res = None
        for c, e in self.ex.offcases(self, f, hi, n):
            seg = o.data[c:c + n]
            if o.maybe:
                seg = self._settle(seg)
            if res is None:
                res = list(seg)
            else:
                for j in range(n):
                    x, y = seg[j], res[j]
                    if x is None or y is None or x.__class__ is Maybe or y.__class__ is Maybe:
                        res[j] = maybe_ite(e, x, y)
                    else:
                        res[j] = tm.ite(e, cellbyte(x), cellbyte(y), 8)
        res = self._settle(res)
        if any(x is None or x.__class__ is Maybe for x in res):
            raise Unsupported('symbolic read may touch uninitialised cells of %s' % o.name)
        return res

    def load(self, p, n):
        if p.__class__ is Ptr:
            o = self.mem.get(p.o)
            f = p.f
            if o is not None and o.alive and f.__class__ is int and o.sym is None:
                if f + n > o.size:
                    raise Viol('memory', 'read of %d bytes at offset %d of %s (size %d)' % (n, f if f < (1 << 63) else f - (1 << 64), o.name or o.kind, o.size))
                self.ex.nsafe += 1
                if n == 1:
                    v = o.data[f]
                    if v.__class__ is int or v.__class__ is T:
                        return v
                    seg = self._settle([v]) if o.maybe else [v]
                else:
                    seg = o.data[f:f + n]
                    if o.maybe:
                        seg = self._settle(seg)
                    try:
                        return int.from_bytes(bytes(seg), 'little')
                    except TypeError:
                        pass
                return assemble(seg, n)
        return assemble(self.bytes_at(p, n), n)

    def store(self, p, v, n):
        o = self.obj(p, True)
        f = p.f
        self.ex.nsafe += 1
        if o.sym is not None:
            o.sym.write(self, o, f, split(v, n))
            return
        if f.__class__ is not int:
            self._symwrite(o, f, v, n)
            return
        if f + n > o.size:
            raise Viol('memory', 'write of %d bytes at offset %d of %s (size %d)' % (n, f if f < (1 << 63) else f - (1 << 64), o.name or o.kind, o.size))
        if v.__class__ is int:
            if n == 1:
                o.data[f] = v & 255
            else:
                o.data[f:f + n] = v.to_bytes(n, 'little')
        elif n == 1:
            o.data[f] = v if v.__class__ is T else None if v is U else (v, 0, 1)
        elif v is U:
            o.data[f:f + n] = [None] * n
        elif v.__class__ is Part:
            o.data[f:f + n] = v.cells[:n]
        else:
            o.data[f:f + n] = [(v, i, n) for i in range(n)]

    def _symwrite(self, o, f, v, n):
        self._symcells(o, f, split(v, n))

    def _symcells(self, o, f, cells):
        n = len(cells)
        hi = o.size - n
        if hi < 0:
            raise Viol('memory', 'write beyond %s' % o.name)
        self.ex.require(self, tm.ule(f, hi, 64), 'memory', 'write in bounds of %s' % (o.name or o.kind))
        D = list(o.data)
        mb = o.maybe
        for c, e in self.ex.offcases(self, f, hi, n):
            for j in range(n):
                x = cells[j]
                b = D[c + j]
                if b is None or x is None or b.__class__ is Maybe or x.__class__ is Maybe:
                    y = maybe_ite(e, x, b)
                    mb = mb or y.__class__ is Maybe
                    D[c + j] = y
                else:
                    D[c + j] = tm.ite(e, cellbyte(x), cellbyte(b), 8)
        o.data = D
        o.maybe = mb

    def write_bytes(self, p, cells):
        n = len(cells)
        if n == 0:
            return
        o = self.obj(p, True)
        f = p.f
        self.ex.nsafe += 1
        if o.sym is not None:
            o.sym.write(self, o, f, cells)
            return
        if f.__class__ is not int:
            self._symcells(o, f, cells)
            return
        if f + n > o.size:
            raise Viol('memory', 'write of %d bytes at offset %d of %s (size %d)' % (n, f if f < (1 << 63) else f - (1 << 64), o.name or o.kind, o.size))
        o.data[f:f + n] = cells

    def read_vals(self, p, n):
        """n byte values (int or T); uninitialised -> Viol"""
        out = []
        for c in self.bytes_at(p, n):
            b = cellbyte(c)
            if b is None:
                raise Viol('uninit', 'use of uninitialised memory (%s)' % (self.obj(p).name or self.obj(p).kind))
            out.append(b)
        return out


def cellbyte(c):
    if c.__class__ is int or c.__class__ is T or c is None:
        return c
    if c.__class__ is Maybe:
        raise Unsupported('memory that is written on some paths only')
    v, i, n = c
    if v.__class__ is T:
        if v.w > 8 * n:
            raise Unsupported('cell width')
        if v.w < 8 * n:
            v = tm.zext(v, v.w, 8 * n)
            if v.__class__ is int:
                return (v >> (8 * i)) & 255
        return tm.extract(v, 8 * i, 8)
    raise Unsupported('byte of a pointer value')


def assemble(seg, n):
    c0 = seg[0]
    if c0.__class__ is tuple and c0[1] == 0 and c0[2] == n:
        v = c0[0]
        for j in range(1, n):
            c = seg[j]
            if c.__class__ is not tuple or c[0] is not v or c[1] != j:
                break
        else:
            return v
    w = 8 * n
    r = 0
    for j, c in enumerate(seg):
        if c.__class__ is Maybe:
            return Part(seg)
        b = cellbyte(c)
        if b is None:
            if n == 1 or all(x is None for x in seg):
                return U
            return Part(seg)
        if n == 1:
            return b
        r = tm.or_(r, tm.shl(tm.zext(b, 8, w), 8 * j, w), w)
    return r


class Maybe(object):
    """cell: the byte v where c holds, uninitialised elsewhere"""
    __slots__ = ('c', 'v')

    def __init__(self, c, v):
        self.c = c
        self.v = v

    def __eq__(self, b):
        return b.__class__ is Maybe and self.c is b.c and (self.v is b.v or self.v == b.v)

    def __ne__(self, b):
        return not self == b

    def __hash__(self):
        return hash((self.c, self.v))


def maybe_ite(c, a, b):
    """cell for: a where c, else b (a, b: byte, None or Maybe)"""
    def parts(x):
        if x is None:
            return 0, None
        if x.__class__ is Maybe:
            return x.c, x.v
        return 1, cellbyte(x)
    ca, va = parts(a)
    cb, vb = parts(b)
    d = tm.ite(c, ca, cb, 1)
    v = vb if va is None else va if vb is None else tm.ite(c, va, vb, 8)
    if d.__class__ is int:
        return v if d else None
    return Maybe(d, v)


class Part(object):
    """a loaded value some bytes of which are uninitialised (padding): may only be copied"""
    __slots__ = ('cells',)

    def __init__(self, cells):
        self.cells = list(cells)


def split(v, n):
    if v.__class__ is Part:
        return v.cells[:n]
    if v.__class__ is int:
        return list(v.to_bytes(n, 'little'))
    if v is U:
        return [None] * n
    if n == 1 and v.__class__ is T:
        return [v]
    return [(v, i, n) for i in range(n)]


class SymData(object):
    """Contents of an object of symbolic size: a log of writes, newest last.

    entries: ('b', off, cell)  one byte;  ('cp', off, len, fn)  bytes off..off+len-1 where byte off+j is fn(j);
    base (entry 0 may be) ('base', arr): byte i is sel(arr, i)."""
    __slots__ = ('log',)

    def __init__(self):
        self.log = []

    def clone(self):
        s = SymData()
        s.log = list(self.log)
        return s

    def read(self, st, o, f, n):
        st.inb(o, f, n, 'read')
        return [self._read1(st, tm.add(f, j, 64)) for j in range(n)]

    def _read1(self, st, f):
        for e in reversed(self.log):
            if e[0] == 'b':
                c = tm.eq(f, e[1], 64)
                d = st.ex.decide(st, c)
                if d is True:
                    return e[2]
                if d is None:
                    raise Unsupported('ambiguous read of symbolic-size object')
            elif e[0] == 'cp':
                j = tm.sub(f, e[1], 64)
                c = tm.ult(j, e[2], 64)
                d = st.ex.decide(st, c)
                if d is True:
                    from . import seq
                    ps = seq.slice_pieces(st.ex, st, e[4], j, 1)
                    ps = seq.canon(ps)
                    if len(ps) != 1:
                        raise Unsupported('byte of a copied range')
                    if ps[0].__class__ is tuple:        # length 1 on this path only
                        if ps[0][0] == 'seq':
                            return tm.sel(ps[0][1], ps[0][2])
                        if ps[0][0] == 'fill':
                            return ps[0][1]
                        raise Unsupported('byte of a copied range')
                    return ps[0]
                if d is None:
                    raise Unsupported('ambiguous read of symbolic-size object')
            elif e[0] == 'base':
                return tm.sel(e[1], f)
            elif e[0] == 'fence':
                raise Unsupported('read of data written by other iterations')
            elif e[0] == 'dirty':
                if st.ex.decide(st, tm.ult(tm.sub(f, e[1], 64), e[2], 64)) is not False:
                    raise Unsupported('read of data written by other iterations')
            elif e[0] == 'map':
                j = tm.sub(f, e[1], 64)
                d = st.ex.decide(st, tm.ult(j, e[2], 64))
                if d is True:
                    w = e[3]
                    if w == 1:
                        c = e[4][0]
                        return tm.subst(c, {tm.var('#m', 64): j}) if c.__class__ is T else c
                    if j.__class__ is int:
                        c = e[4][j % w]
                        return tm.subst(c, {tm.var('#m', 64): j // w}) if c.__class__ is T else c
                    raise Unsupported('read inside a written range')
                if d is None:
                    raise Unsupported('ambiguous read of symbolic-size object')
        return None

    def write(self, st, o, f, cells):
        n = len(cells)
        st.inb(o, f, n, 'write')
        for j, c in enumerate(cells):
            self.log.append(('b', tm.add(f, j, 64), c))

    def copyrange(self, st, o, f, ln, fn, tag=None):
        st.inb(o, f, ln, 'range write')
        self.log.append(('cp', f, ln, fn, tag))


def promote(o):
    """fixed-size object (own copy) to one with a write log, for a write of symbolic length"""
    o.sym = SymData()
    o.sym.log = [('b', i, c) for i, c in enumerate(o.data) if c is not None]
    o.data = None


# ---------------------------------------------------------------------- slow paths of arithmetic
def isU(x):
    return x is U


def arith(op, x, y, w):
    if x is U or y is U:
        return U
    cx, cy = x.__class__, y.__class__
    if cx is Ptr or cy is Ptr:
        if op == 'add':
            if cx is Ptr and cy is not Ptr:
                return Ptr(x.o, tm.add(x.f, y, 64))
            if cy is Ptr and cx is not Ptr:
                return Ptr(y.o, tm.add(y.f, x, 64))
        if op == 'sub':
            if cx is Ptr and cy is Ptr and x.o == y.o:
                return tm.sub(x.f, y.f, 64)
            if cx is Ptr and (cy is int or cy is T):
                return Ptr(x.o, tm.sub(x.f, y, 64))
        if op == 'and' and cx is Ptr and cy is int and y < 16 and x.f.__class__ is int:
            return x.f & y
        raise Unsupported('pointer arithmetic %s' % op)
    return getattr(tm, {'and': 'and_', 'or': 'or_'}.get(op, op))(x, y, w)


def pcmp(pred, x, y, w):
    """icmp slow path"""
    if x is U or y is U:
        return U
    cx, cy = x.__class__, y.__class__
    if cx in (Ptr, FnPtr) or cy in (Ptr, FnPtr):
        if cx is FnPtr or cy is FnPtr:
            same = cx is cy and x.name == y.name
            if pred == 'eq':
                return int(same)
            if pred == 'ne':
                return int(not same)
            raise Unsupported('fnptr compare')
        if cx is Ptr and cy is Ptr:
            if x.o == y.o:
                return pcmp(pred, x.f, y.f, 64)
            if pred == 'eq':
                return 0
            if pred == 'ne':
                return 1
            # objects live at increasing, non-adjacent addresses (allocation order) -- only used for distance sanity checks
            raise Unsupported('relational compare of pointers into different objects')
        # pointer against integer (null / dangling sentinel)
        if pred == 'eq':
            return 0
        if pred == 'ne':
            return 1
        if cx is Ptr and cy is int and y == 0:
            if pred == 'ugt':
                return 1
            if pred == 'ule':
                return 0
            if pred == 'uge':
                return 1
            if pred == 'ult':
                return 0
        if cy is Ptr and cx is int and x == 0:
            if pred in ('ult', 'ule'):
                return 1
            if pred in ('ugt', 'uge'):
                return 0
        raise Unsupported('compare pointer with integer')
    if pred == 'eq':
        return tm.eq(x, y, w)
    if pred == 'ne':
        return tm.ne(x, y, w)
    if pred == 'ult':
        return tm.ult(x, y, w)
    if pred == 'ugt':
        return tm.ult(y, x, w)
    if pred == 'ule':
        return tm.ule(x, y, w)
    if pred == 'uge':
        return tm.ule(y, x, w)
    if pred == 'slt':
        return tm.slt(x, y, w)
    if pred == 'sgt':
        return tm.slt(y, x, w)
    if pred == 'sle':
        return tm.sle(x, y, w)
    if pred == 'sge':
        return tm.sle(y, x, w)
    raise Unsupported(pred)


def addp(p, off):
    """pointer + byte offset"""
    if p.__class__ is Ptr:
        if p.f.__class__ is int and off.__class__ is int:
            return Ptr(p.o, (p.f + off) & M64)
        return Ptr(p.o, tm.add(p.f, off, 64))
    if p is U or off is U:
        return U
    if p.__class__ is int or p.__class__ is T:
        return tm.add(p, off, 64)
    if off == 0:
        return p
    raise Unsupported('gep on %r' % (p,))


def mulo(i, sz):
    if i.__class__ is int:
        return (i * sz) & M64
    if i is U:
        return U
    return tm.mul(i, sz, 64)


def addo(a, b):
    if a.__class__ is int and b.__class__ is int:
        return (a + b) & M64
    if a is U or b is U:
        return U
    return tm.add(a, b, 64)


def sxt(i, w):
    if i.__class__ is int:
        if w == 64:
            return i
        return tm.sext(i, w, 64)
    if i is U:
        return U
    return tm.sext(i, w, 64)


def castz(x, fw, tw):
    if x.__class__ is int:
        return x
    if x is U:
        return U
    if x.__class__ is Ptr and fw == tw:
        return x
    return tm.zext(x, fw, tw)


def casts(x, fw, tw):
    if x is U:
        return U
    return tm.sext(x, fw, tw)


def castt(x, fw, tw):
    if x is U:
        return U
    if x.__class__ is Ptr:
        if x.f.__class__ is int and tw <= 4:
            return x.f & ((1 << tw) - 1)
        raise Unsupported('trunc of pointer')
    return tm.extract(x, 0, tw)


def known(st, c):
    s = st.pcset
    if c in s:
        return True
    if c.op == 'and' and c.a[0] == 1:
        return all(x in s for x in c.a[1])
    return False


def selectv(c, a, b, w, st):
    if c is U:
        return U
    if c.__class__ is int:
        return a if c & 1 else b
    if a is b:
        return a
    if w == 0 or a.__class__ not in (int, T) or b.__class__ not in (int, T):
        if a.__class__ is Ptr and b.__class__ is Ptr and a.o == b.o:
            return Ptr(a.o, tm.ite(c, a.f, b.f, 64))
        if known(st, c):
            return a
        n = tm.not_(c, 1)
        if known(st, n):
            return b
        raise NeedFork(c)
    return tm.ite(c, a, b, w)


class NeedFork(Exception):
    def __init__(self, c):
        self.c = c


def divop(st, op, x, y, w):
    if x is U or y is U:
        raise Viol('uninit', 'division by uninitialised value')
    if y.__class__ is int:
        if y == 0:
            raise Viol('arith', 'division by zero')
    else:
        st.ex.require(st, tm.ne(y, 0, w), 'arith', 'divisor is non-zero')
    if x.__class__ is Ptr:
        raise Unsupported('division of pointer')
    return getattr(tm, op)(x, y, w)


def shop(st, op, x, y, w):
    if x is U or y is U:
        return U
    if y.__class__ is int:
        if y >= w:      # (poison: harmless where the value is not used, as in a select that clang's passes made of a branch)
            return U
    else:
        c = tm.ult(y, w, w)
        try:
            st.ex.require(st, c, 'arith', 'shift amount below %d' % w)
        except Viol:
            if st.ex.decide(st, c) is False:
                return U
            raise NeedFork(c)
        y = st.ex.concretise(st, y)
    return getattr(tm, op)(x, y, w)


# ---------------------------------------------------------------------- code generation
class Block(object):
    __slots__ = ('label', 'segs', 'phis', 'phidst')


class CFn(object):
    pass


def _gone(st, p):
    if p.__class__ is T:
        return p.op == 'var' and str(p.a[0]).startswith('dangling!')
    o = st.mem.get(p.o) if p.__class__ is Ptr else None
    return o is not None and not o.alive and o.kind == 'heap'


class Executor(object):
    def __init__(self):
        self.mods = []
        self.externs = {}
        self.alias = {}         # contract name as the cut points know it -> key in contracts
        self.contracts = {}       # key -> callable(ex, st, args) -> value | list of (st, value)
        self.models = {}
        self.nobj = 0
        self.nsafe = 0
        self.nsteps = 0
        self.max_steps = 200_000_000
        self.cfns = {}
        self.globmem = {}
        self.obls = []            # failed / undecided obligations recorded by require in collecting mode
        self.loop_rules = {}
        self.noprune = False
        self.req_cache = {}
        self.nreq = 0
        self.contract_uses = {}
        self.inlined = set()
        self.demangle = {}
        self.keyfn = lambda name: name
        self.deadline = None
        self.summarise = False
        self.periods = False
        self.nohook = set()
        self.inloop = set()
        self.lenient = False
        self.nomerge = False
        self.loop_log = []
        self.unroll = {}
        self.max_unroll = 70
        self.nloops = 0
        self.loop_depth = 0
        self.noloop = 0
        from . import models
        models.install(self)

    # -------------------------------------------------------- modules
    def add_module(self, m):
        self.mods.append(m)
        for f in m.funcs.values():
            if f.linkage != 'internal':
                self.externs.setdefault(f.name, f)
        m.ptrs = {}

    def find(self, name, mod=None):
        if mod is not None:
            f = mod.funcs.get(name)
            if f is not None:
                return f
            al = mod.aliases.get(name)
            if al is not None and al[0] == 'glob':
                return self.find(al[1], mod)
        f = self.externs.get(name)
        if f is not None:
            return f
        for m in self.mods:
            if name in m.aliases and m.aliases[name][0] == 'glob':
                return self.find(m.aliases[name][1], m)
        return None

    # -------------------------------------------------------- obligations
    def decide(self, st, c):
        """True/False/None for a condition under the path condition"""
        if c.__class__ is int:
            return bool(c)
        if c in st.pcset:
            return True
        n = tm.not_(c, 1)
        if n in st.pcset:
            return False
        if not st.pc and c.op != 'and':
            pass
        if not solve.isfeasible(st.pc, n):
            return True
        if not solve.isfeasible(st.pc, c):
            return False
        return None

    def require(self, st, c, kind, msg):
        """obligation: c holds here.  Discharged -> return; refuted -> Viol; unknown -> Unsupported"""
        self.nreq += 1
        if c.__class__ is int:
            if c:
                return
            raise Viol(kind, msg)
        if c in st.pcset:
            return
        r, info = solve.prove(st.pc, c)
        if r == 'proved':
            return
        if self.lenient:        # (a candidate invariant is being computed; nothing is concluded from this run)
            st.assume(c)
            return
        if r == 'refuted':
            v = Viol(kind, msg, tm.not_(c, 1))
            raise v
        raise Unsupported('obligation undecided: %s (%s)' % (msg, info))

    def offcases(self, st, f, hi, n):
        """[(constant offset c, condition under which f is c)], covering every value of f up to hi"""
        a = small_atom(f)
        if a is not None:
            x, vals = a
            by = {}
            for v in vals:
                c = tm.subst(f, {x: v})
                if c.__class__ is not int:
                    break
                if c <= hi:
                    by[c] = tm.or_(by.get(c, 0), tm.eq(x, v, x.w), 1)
            else:
                return sorted(by.items())
        return [(c, tm.eq(f, c, 64)) for c in self.candidates(st, f, hi, n)]

    def candidates(self, st, f, hi, n):
        r = []
        if f.__class__ is T:
            # c0 + k * x with few possible bits in x
            c0, x, k = 0, f, 1
            if f.op == 'add' and len(f.a[1]) == 1:
                c0 = f.a[0]
                x, k = f.a[1][0]
            m = tm.mask(x)
            if bin(m).count('1') <= 11:
                v = 0
                while True:
                    c = (c0 + k * v) & ((1 << 64) - 1)
                    if c <= hi:
                        r.append(c)
                    v = (v - m) & m
                    if not v:
                        break
                return sorted(set(r))
        if hi > 4096:
            raise Unsupported('symbolic offset into large object')
        # cheap stride detection
        stride = 1
        if f.__class__ is T:
            z = f.m
            if z:
                stride = z & -z
        for c in range(0, hi + 1):
            if stride > 1 and c % stride:
                continue
            if c & ~f.m:
                continue
            r.append(c)
        if len(r) > 300:
            raise Unsupported('symbolic offset with %d candidates' % len(r))
        return r

    def concretise(self, st, y):
        return y

    # -------------------------------------------------------- types
    def sizeof(self, t, m):
        return self.layout(t, m)[0]

    def layout(self, t, m):
        k = t[0]
        if k == 'i':
            n = t[1]
            if n <= 8:
                return (1, 1)
            if n <= 16:
                return (2, 2)
            if n <= 32:
                return (4, 4)
            if n <= 64:
                return (8, 8)
            if n <= 128:
                return (16, 16)
            b = (n + 7) // 8
            return (b, 8)
        if k == 'ptr':
            return (8, 8)
        if k == 'f':
            return {'double': (8, 8), 'float': (4, 4), 'half': (2, 2), 'x86_fp80': (16, 16), 'fp128': (16, 16)}[t[1]]
        if k == 'arr':
            s, a = self.layout(t[2], m)
            return (s * t[1], a)
        if k == 'named':
            return self.layout(m.types[t[1]], m)
        if k == 'st':
            off = 0
            al = 1
            for e in t[1]:
                s, a = self.layout(e, m)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            return (off, al)
        if k == 'vec':
            s, a = self.layout(t[2], m)
            return (s * t[1], s * t[1])
        raise Unsupported('layout of %r' % (t,))

    def field(self, t, i, m):
        """(offset, type) of field i"""
        while t[0] == 'named':
            t = m.types[t[1]]
        if t[0] == 'arr' or t[0] == 'vec':
            s, _ = self.layout(t[2], m)
            return (i * s, t[2])
        off = 0
        for j, e in enumerate(t[1]):
            s, a = self.layout(e, m)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return (off, e)
            off += s
        raise Unsupported('field')

    # -------------------------------------------------------- globals
    def glob(self, name, mod):
        key = None
        g = mod.globals.get(name)
        f = mod.funcs.get(name)
        if f is not None or name in mod.decls and g is None:
            return FnPtr(name, mod)
        if g is None and name in mod.aliases:
            return self.glob(mod.aliases[name][1], mod)
        if g is None or g['external']:
            for m2 in self.mods:
                g2 = m2.globals.get(name)
                if g2 is not None and not g2['external']:
                    return self.glob(name, m2)
            key = ('ext', name)
            if key not in self.globmem:
                self.nobj += 1
                size = 4096
                if g is not None and g.get('type') is not None:
                    try:
                        size = max(size, self.sizeof(g['type'], mod))
                    except (KeyError, Unsupported):
                        pass
                o = Obj(self.nobj, size, [None] * size, 'extern', name, -1)
                self.globmem[key] = o
            return Ptr(self.globmem[key].id, 0)
        key = (mod.name, name)
        o = self.globmem.get(key)
        if o is None:
            self.nobj += 1
            size = self.sizeof(g['type'], mod)
            o = Obj(self.nobj, size, [0] * size, 'global', name, -1, g['align'])
            self.globmem[key] = o
            self.init_cells(o.data, 0, g['type'], g['init'], mod)
            o.ro = g['const']
        return Ptr(o.id, 0)

    def init_cells(self, data, off, t, v, m):
        k = v[0]
        while t[0] == 'named':
            t = m.types[t[1]]
        if k == 'zero':
            return
        if k == 'undef':
            return
        if k == 'cstr':
            data[off:off + len(v[1])] = v[1]
            return
        if k == 'agg':
            for i, (et, ev) in enumerate(v[1]):
                fo, ft = self.field(t, i, m)
                self.init_cells(data, off + fo, ft, ev, m)
            return
        n = self.sizeof(t, m)
        val = self.const(v, t, m)
        if val.__class__ is int:
            data[off:off + n] = val.to_bytes(n, 'little')
        elif val.__class__ is float:
            data[off:off + n] = struct.pack('<d' if n == 8 else '<f', val)
        else:
            data[off:off + n] = [(val, i, n) for i in range(n)]

    def const(self, v, t, m):
        k = v[0]
        if k == 'int':
            return v[1]
        if k == 'null':
            return 0
        if k == 'undef':
            return U
        if k == 'f':
            return v[1]
        if k == 'glob':
            return self.glob(v[1], m)
        if k == 'zero':
            if t[0] in ('i', 'ptr'):
                return 0
            if t[0] == 'f':
                return 0.0
            return self.zeroagg(t, m)
        if k == 'agg':
            return tuple(self.const(ev, et, m) for et, ev in v[1])
        if k == 'ce':
            if v[1] == 'gep':
                base, ops = v[2], v[3]
                p = self.const(ops[0][1], ops[0][0], m)
                off = 0
                ct = base
                for i, (ot, ov) in enumerate(ops[1:]):
                    iv = self.const(ov, ot, m)
                    if i == 0:
                        off += tm._s(iv, ot[1]) * self.sizeof(base, m)
                    else:
                        fo, ct = self.field(ct, tm._s(iv, ot[1]), m)
                        off += fo
                return addp(p, off & M64)
            if v[1] == 'cast':
                val = self.const(v[4], v[3], m)
                return val
            if v[1] == 'bin':
                a = self.const(v[4], v[3], m)
                b = self.const(v[5], v[3], m)
                return arith(v[2], a, b, v[3][1])
        raise Unsupported('constant %r' % (v,))

    def zeroagg(self, t, m):
        while t[0] == 'named':
            t = m.types[t[1]]
        if t[0] in ('i', 'ptr'):
            return 0
        if t[0] == 'f':
            return 0.0
        if t[0] == 'arr':
            return tuple(self.zeroagg(t[2], m) for _ in range(t[1]))
        return tuple(self.zeroagg(e, m) for e in t[1])

    # -------------------------------------------------------- compile
    def compile(self, f):
        c = self.cfns.get(id(f))
        if c is not None:
            return c
        c = CFn()
        c.f = f
        c.name = f.name
        c.mod = f.module
        c.regs = {}
        c.consts = []
        c.cid = {}
        for (t, nm, info) in f.params:
            c.regs[nm] = len(c.regs)
        for b in f.order:
            for ins in f.blocks[b]:
                if ins.d is not None:
                    c.regs[ins.d] = len(c.regs)
        c.nregs = len(c.regs)
        c.rw = [0] * c.nregs

        def tw(t):
            return t[1] if t is not None and t[0] == 'i' else 64 if t is not None and t[0] == 'ptr' else 0
        for (t, nm, info) in f.params:
            c.rw[c.regs[nm]] = tw(t)
        for b in f.order:
            for ins in f.blocks[b]:
                if ins.d is not None:
                    c.rw[c.regs[ins.d]] = 1 if ins.op in ('icmp', 'fcmp') else 64 if ins.op in ('gep', 'alloca') else \
                        0 if ins.op in ('extractvalue', 'insertvalue', 'landingpad', 'cmpxchg') else tw(ins.ty)
        c.blocks = {}
        c.entry = f.order[0]
        self._cfg(c)
        c.lazy = f
        self.cfns[id(f)] = c
        return c

    def _cfg(self, c):
        f = c.f
        succ = {}
        for b in f.order:
            t = f.blocks[b][-1]
            if t.op == 'br':
                s = [t.x]
            elif t.op == 'cbr':
                s = list(t.x)
            elif t.op == 'switch':
                s = [t.x[0]] + [l for _, l in t.x[1]]
            elif t.op == 'call' and t.x[1] is not None:
                s = [t.x[1], t.x[2]]
            else:
                s = []
            succ[b] = s
        c.succ = succ
        # blocks that cannot reach a return: ignored for post-dominance (throws, panics)
        rev = {b: [] for b in f.order}
        for b in f.order:
            for s in succ[b]:
                rev[s].append(b)
        exits = [b for b in f.order if f.blocks[b][-1].op == 'ret']
        good = set(exits)
        work = list(exits)
        while work:
            b = work.pop()
            for q in rev[b]:
                if q not in good:
                    good.add(q)
                    work.append(q)
        # post-dominators over good blocks, unwind edges ignored
        EXIT = '<exit>'
        gs = {}
        for b in good:
            ss = [s for s in succ[b] if s in good]
            t = f.blocks[b][-1]
            if t.op == 'call' and t.x[1] is not None and t.x[1] in good:
                ss = [t.x[1]]
            if f.blocks[b][-1].op == 'ret':
                ss = [EXIT]
            gs[b] = ss
        order = []
        seen = set()

        def dfs(b):
            stack = [(b, iter([q for q in rgs.get(b, [])]))]
            seen.add(b)
            while stack:
                x, it = stack[-1]
                for q in it:
                    if q not in seen:
                        seen.add(q)
                        stack.append((q, iter(rgs.get(q, []))))
                        break
                else:
                    order.append(x)
                    stack.pop()
        rgs = {}
        for b, ss in gs.items():
            for s in ss:
                rgs.setdefault(s, []).append(b)
        dfs(EXIT)
        order.reverse()
        num = {b: i for i, b in enumerate(order)}
        ip = {EXIT: EXIT}
        changed = True
        while changed:
            changed = False
            for b in order:
                if b == EXIT:
                    continue
                new = None
                for s in gs[b]:
                    if s in ip:
                        if new is None:
                            new = s
                        else:
                            x, y = s, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = ip[x]
                                while num[y] > num[x]:
                                    y = ip[y]
                            new = x
                if new is not None and ip.get(b) != new:
                    ip[b] = new
                    changed = True
        c.ipdom = {b: (p if p != EXIT else None) for b, p in ip.items() if b != EXIT}
        # loop headers: targets of back edges (dfs)
        c.headers = set()
        c.loops = {}
        color = {}
        st = [(f.order[0], iter(succ[f.order[0]]))]
        color[f.order[0]] = 1
        back = []
        while st:
            x, it = st[-1]
            for s in it:
                if color.get(s) == 1:
                    back.append((x, s))
                elif s not in color:
                    color[s] = 1
                    st.append((s, iter(succ[s])))
                    break
            else:
                color[x] = 2
                st.pop()
        for (x, h) in back:
            body = c.loops.setdefault(h, {h})
            w = [x]
            while w:
                y = w.pop()
                if y not in body:
                    body.add(y)
                    w.extend(rev[y])
        c.headers = set(c.loops)

    def block(self, c, label):
        b = c.blocks.get(label)
        if b is None:
            b = c.blocks[label] = self._block(c, label)
        return b

    def _opnd(self, c, v, t):
        if v[0] == 'reg':
            return 'R[%d]' % c.regs[v[1]]
        if v[0] == 'int':
            return str(v[1])
        if v[0] == 'null':
            return '0'
        val = self.const(v, t, c.mod)
        if val.__class__ is int:
            return str(val)
        c.consts.append(val)
        return 'C[%d]' % (len(c.consts) - 1)

    def _block(self, c, label):
        f = c.f
        blk = Block()
        blk.label = label
        inss = f.blocks[label]
        blk.phis = {}
        segs = []
        lines = []
        k = 0
        phis = []
        while k < len(inss) and inss[k].op == 'phi':
            phis.append(inss[k])
            k += 1
        blk.phidst = [c.regs[p.d] for p in phis]
        if phis:
            preds = [l for _, l in phis[0].a]
            for idx, pl in enumerate(preds):
                src = []
                for p in phis:
                    for v, l in p.a:
                        if l == pl:
                            src.append(self._opnd(c, v, p.ty))
                            break
                code = 'def g(R,C):\n '
                if len(src) == 1:
                    code += 'R[%d]=%s\n' % (blk.phidst[0], src[0])
                else:
                    code += ','.join('R[%d]' % d for d in blk.phidst) + '=' + ','.join(src) + '\n'
                env = {}
                exec(compile(code, '<phi>', 'exec'), env)
                blk.phis[pl] = env['g']
        for ins in inss[k:]:
            if ins.op in ('call', 'br', 'cbr', 'switch', 'ret', 'unreachable', 'landingpad', 'resume', 'unsupported'):
                if ins.op == 'call':
                    a = self._prepcall(c, ins)
                    if a is None:
                        continue
                    segs.append((self._mkcode(c, lines), a))
                elif ins.op == 'br':
                    segs.append((self._mkcode(c, lines), ('br', ins.x)))
                elif ins.op == 'cbr':
                    segs.append((self._mkcode(c, lines), ('cbr', self._getter(c, ins.a[0], ('i', 1)), ins.x[0], ins.x[1])))
                elif ins.op == 'switch':
                    segs.append((self._mkcode(c, lines), ('switch', self._getter(c, ins.a[0], ins.ty), ins.x[0], ins.x[1], ins.ty[1])))
                elif ins.op == 'ret':
                    segs.append((self._mkcode(c, lines), ('ret', self._getter(c, ins.a[0], ins.ty) if ins.a else None)))
                elif ins.op == 'unreachable':
                    segs.append((self._mkcode(c, lines), ('unreachable',)))
                elif ins.op == 'landingpad':
                    cl = []
                    for v in ins.x[1]:
                        if v[0] == 'filter':
                            cl.append('filter')
                        elif v[0] == 'null':
                            cl.append(None)
                        elif v[0] == 'glob':
                            cl.append(v[1])
                        else:
                            cl.append('?')
                    segs.append((self._mkcode(c, lines), ('lpad', c.regs[ins.d], ins.x[0], cl)))
                elif ins.op == 'resume':
                    segs.append((self._mkcode(c, lines), ('resume',)))
                else:
                    segs.append((self._mkcode(c, lines), ('unsupported', ins.x)))
                lines = []
            else:
                self._gen(c, ins, lines)
        blk.segs = segs
        return blk

    def _getter(self, c, v, t):
        if v[0] == 'reg':
            return ('r', c.regs[v[1]])
        return ('c', self.const(v, t, c.mod))

    def _prepcall(self, c, ins):
        callee, nrm, uw = ins.x
        if callee == 'asm':
            return None
        if callee[0] == 'glob':
            nm = callee[1]
            if nm.startswith('llvm.'):
                if nm.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental', 'llvm.donothing', 'llvm.prefetch')):
                    if nrm is not None:
                        return ('br', nrm)
                    return None
        args = [self._getter(c, v, t) for t, v in ins.a]
        d = c.regs[ins.d] if ins.d is not None else None
        if callee[0] == 'glob':
            tgt = ('g', callee[1])
        elif callee[0] == 'reg':
            tgt = ('r', c.regs[callee[1]])
        else:
            tgt = ('c', self.const(callee, ir.PTR, c.mod))
        return ['call', tgt, args, d, nrm, uw, [t for t, _ in ins.a], ins.ty, None]

    def _mkcode(self, c, lines):
        if not lines:
            return None
        code = 'def g(st,R,C):\n ' + '\n '.join(lines) + '\n'
        env = dict(_ENV)
        try:
            exec(compile(code, '<ir:%s>' % c.name[:60], 'exec'), env)
        except SyntaxError:
            raise Unsupported('codegen\n' + code)
        return env['g']

    def _gen(self, c, ins, L):
        op = ins.op
        d = 'R[%d]' % c.regs[ins.d] if ins.d is not None else None
        m = c.mod
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
            t = ins.ty
            if t[0] != 'i':
                L.append('raise Unsupported("vector op")')
                return
            w = t[1]
            x, y = self._opnd(c, ins.a[0], t), self._opnd(c, ins.a[1], t)
            M = (1 << w) - 1
            sym = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^'}[op]
            conds = []
            L.append('x=%s;y=%s' % (x, y))
            if not x[0].isdigit():
                conds.append('x.__class__ is int')
            if not y[0].isdigit():
                conds.append('y.__class__ is int')
            cond = ' and '.join(conds) or 'True'
            ex = '(x%sy)&%d' % (sym, M) if op in ('add', 'sub', 'mul') else 'x%sy' % sym
            L.append('%s=%s if %s else arith("%s",x,y,%d)' % (d, ex, cond, op, w))
            return
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            w = ins.ty[1]
            L.append('%s=divop(st,"%s",%s,%s,%d)' % (d, op, self._opnd(c, ins.a[0], ins.ty), self._opnd(c, ins.a[1], ins.ty), w))
            return
        if op in ('shl', 'lshr', 'ashr'):
            w = ins.ty[1]
            L.append('%s=shop(st,"%s",%s,%s,%d)' % (d, op, self._opnd(c, ins.a[0], ins.ty), self._opnd(c, ins.a[1], ins.ty), w))
            return
        if op == 'icmp':
            t = ins.ty
            if t[0] not in ('i', 'ptr'):
                L.append('raise Unsupported("vector icmp")')
                return
            w = t[1] if t[0] == 'i' else 64
            x, y = self._opnd(c, ins.a[0], t), self._opnd(c, ins.a[1], t)
            p = ins.x
            S = 1 << (w - 1)
            fast = {'eq': 'x==y', 'ne': 'x!=y', 'ult': 'x<y', 'ugt': 'x>y', 'ule': 'x<=y', 'uge': 'x>=y',
                    'slt': '(x^%d)<(y^%d)' % (S, S), 'sgt': '(x^%d)>(y^%d)' % (S, S),
                    'sle': '(x^%d)<=(y^%d)' % (S, S), 'sge': '(x^%d)>=(y^%d)' % (S, S)}[p]
            L.append('x=%s;y=%s' % (x, y))
            L.append('%s=(1 if %s else 0) if x.__class__ is int and y.__class__ is int else pcmp("%s",x,y,%d)' % (d, fast, p, w))
            return
        if op == 'select':
            t = ins.ty
            w = t[1] if t[0] == 'i' else 0
            L.append('c=%s' % self._opnd(c, ins.a[0], ('i', 1)))
            L.append('%s=(%s if c else %s) if c.__class__ is int else selectv(c,%s,%s,%d,st)' % (
                d, self._opnd(c, ins.a[1], t), self._opnd(c, ins.a[2], t),
                self._opnd(c, ins.a[1], t), self._opnd(c, ins.a[2], t), w))
            return
        if op == 'zext':
            L.append('x=%s' % self._opnd(c, ins.a[0], ins.x))
            L.append('%s=x if x.__class__ is int else castz(x,%d,%d)' % (d, ins.x[1], ins.ty[1]))
            return
        if op == 'sext':
            L.append('%s=casts(%s,%d,%d)' % (d, self._opnd(c, ins.a[0], ins.x), ins.x[1], ins.ty[1]))
            return
        if op == 'trunc':
            L.append('x=%s' % self._opnd(c, ins.a[0], ins.x))
            L.append('%s=x&%d if x.__class__ is int else castt(x,%d,%d)' % (d, (1 << ins.ty[1]) - 1, ins.x[1], ins.ty[1]))
            return
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast', 'ptrtoaddr'):
            src = ins.x if op != 'freeze' else ins.ty
            if op == 'bitcast' and src[0] != ins.ty[0]:
                L.append('raise Unsupported("bitcast")')
                return
            L.append('%s=%s' % (d, self._opnd(c, ins.a[0], src)))
            return
        if op == 'uitofp':
            L.append('%s=tofp(%s,0)' % (d, self._opnd(c, ins.a[0], ins.x)))
            return
        if op == 'sitofp':
            L.append('%s=tofp(%s,%d)' % (d, self._opnd(c, ins.a[0], ins.x), ins.x[1]))
            return
        if op in ('fptoui', 'fptosi'):
            L.append('%s=fptoi(%s,%d)' % (d, self._opnd(c, ins.a[0], ins.x), ins.ty[1]))
            return
        if op in ('fpext', 'fptrunc'):
            L.append('%s=%s' % (d, self._opnd(c, ins.a[0], ins.x)))
            return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            L.append('%s=fpop("%s",%s,%s)' % (d, op, self._opnd(c, ins.a[0], ins.ty), self._opnd(c, ins.a[1], ins.ty)))
            return
        if op == 'fneg':
            L.append('%s=-(%s)' % (d, self._opnd(c, ins.a[0], ins.ty)))
            return
        if op == 'fcmp':
            L.append('%s=fpcmp("%s",%s,%s)' % (d, ins.x, self._opnd(c, ins.a[0], ins.ty), self._opnd(c, ins.a[1], ins.ty)))
            return
        if op == 'load':
            t = ins.ty
            p = self._opnd(c, ins.a[0], ir.PTR)
            n = self.sizeof(t, m)
            if t[0] == 'i' and t[1] % 8:
                L.append('%s=low(st.load(%s,%d),%d,%d)' % (d, p, n, n * 8, t[1]))
            elif t[0] in ('i', 'ptr'):
                L.append('%s=st.load(%s,%d)' % (d, p, n))
            elif t[0] == 'f':
                L.append('%s=ldf(st.load(%s,%d),%d)' % (d, p, n, n))
            else:
                parts = []
                self._flat(t, 0, m, parts)
                L.append('p=%s' % p)
                L.append('%s=%s' % (d, self._aggload(t, 0, m)))
            return
        if op == 'store':
            t = ins.ty
            v = self._opnd(c, ins.a[0], t)
            p = self._opnd(c, ins.a[1], ir.PTR)
            if t[0] == 'i' and t[1] % 8:
                n = self.sizeof(t, m)
                L.append('st.store(%s,castz(%s,%d,%d),%d)' % (p, v, t[1], n * 8, n))
            elif t[0] in ('i', 'ptr'):
                L.append('st.store(%s,%s,%d)' % (p, v, self.sizeof(t, m)))
            elif t[0] == 'f':
                L.append('st.store(%s,stf(%s,%d),%d)' % (p, v, self.sizeof(t, m), self.sizeof(t, m)))
            else:
                L.append('p=%s;v=%s' % (p, v))
                self._aggstore(t, 0, m, 'v', L)
            return
        if op == 'gep':
            (pt, pv) = ins.a[0]
            p = self._opnd(c, pv, pt)
            off = 0
            terms = []
            ct = ins.ty
            for i, (ot, ov) in enumerate(ins.a[1:]):
                if i == 0:
                    sz = self.sizeof(ct, m)
                else:
                    while ct[0] == 'named':
                        ct = m.types[ct[1]]
                    if ct[0] == 'st':
                        fo, ct = self.field(ct, ov[1], m)
                        off += fo
                        continue
                    sz = self.sizeof(ct[2], m)
                    ct = ct[2]
                if ov[0] == 'int':
                    off += tm._s(ov[1], ot[1]) * sz
                else:
                    e = self._opnd(c, ov, ot)
                    if ot[1] != 64:
                        e = 'sxt(%s,%d)' % (e, ot[1])
                    if sz != 1:
                        e = 'mulo(%s,%d)' % (e, sz)
                    terms.append(e)
            off &= M64
            if not terms:
                L.append('%s=addp(%s,%d)' % (d, p, off))
            else:
                e = terms[0]
                for t2 in terms[1:]:
                    e = 'addo(%s,%s)' % (e, t2)
                if off:
                    e = 'addo(%s,%d)' % (e, off)
                L.append('%s=addp(%s,%s)' % (d, p, e))
            return
        if op == 'alloca':
            cnt, al = ins.x
            sz = self.sizeof(ins.ty, m)
            nm = repr(ins.d)
            if cnt is None:
                L.append('p=st.alloc(%d,"stack",%s,None,%d)' % (sz, nm, al))
            else:
                L.append('n=mulo(%s,%d)' % ('zx(%s,%d)' % (self._opnd(c, cnt[1], cnt[0]), cnt[0][1]), sz))
                L.append('p=st.ex.valloc(st,n,%s,%d)' % (nm, al))
            L.append('st.frames[-1].allocas.append(p.o)')
            L.append('%s=p' % d)
            return
        if op == 'extractvalue':
            e = self._opnd(c, ins.a[0], ins.ty)
            for i in ins.x:
                e = 'xv(%s,%d)' % (e, i)
            L.append('%s=%s' % (d, e))
            return
        if op == 'insertvalue':
            idx, t2 = ins.x
            L.append('%s=insv(%s,%s,%r,%d)' % (d, self._opnd(c, ins.a[0], ins.ty), self._opnd(c, ins.a[1], t2), idx,
                                              self._nfields(ins.ty, m)))
            return
        if op == 'atomicrmw':
            t = ins.ty
            n = self.sizeof(t, m)
            p = self._opnd(c, ins.a[0], ir.PTR)
            v = self._opnd(c, ins.a[1], t)
            L.append('p=%s;x=st.load(p,%d)' % (p, n))
            L.append('st.store(p,rmw("%s",x,%s,%d),%d)' % (ins.x, v, n * 8, n))
            L.append('%s=x' % d)
            return
        if op == 'cmpxchg':
            t = ins.ty
            n = self.sizeof(t, m)
            L.append('%s=cmpxchg(st,%s,%s,%s,%d)' % (d, self._opnd(c, ins.a[0], ir.PTR), self._opnd(c, ins.a[1], t), self._opnd(c, ins.a[2], t), n))
            return
        if op == 'nop':
            return
        L.append('raise Unsupported(%r)' % ('instruction ' + op))

    def _nfields(self, t, m):
        while t[0] == 'named':
            t = m.types[t[1]]
        return t[1] if t[0] == 'arr' else len(t[1])

    def _flat(self, t, off, m, out):
        pass

    def _aggload(self, t, off, m):
        while t[0] == 'named':
            t = m.types[t[1]]
        if t[0] in ('i', 'ptr'):
            n = self.sizeof(t, m)
            if t[0] == 'i' and t[1] % 8:
                return 'low(st.load(addp(p,%d),%d),%d,%d)' % (off, n, n * 8, t[1])
            return 'st.load(addp(p,%d),%d)' % (off, n)
        if t[0] == 'f':
            n = self.sizeof(t, m)
            return 'ldf(st.load(addp(p,%d),%d),%d)' % (off, n, n)
        n = t[1] if t[0] == 'arr' else len(t[1])
        parts = []
        for i in range(n):
            fo, ft = self.field(t, i, m)
            parts.append(self._aggload(ft, off + fo, m))
        return '(' + ','.join(parts) + ',)'

    def _aggstore(self, t, off, m, v, L):
        while t[0] == 'named':
            t = m.types[t[1]]
        if t[0] in ('i', 'ptr'):
            n = self.sizeof(t, m)
            if t[0] == 'i' and t[1] % 8:
                L.append('st.store(addp(p,%d),castz(%s,%d,%d),%d)' % (off, v, t[1], n * 8, n))
            else:
                L.append('st.store(addp(p,%d),%s,%d)' % (off, v, n))
            return
        if t[0] == 'f':
            n = self.sizeof(t, m)
            L.append('st.store(addp(p,%d),stf(%s,%d),%d)' % (off, v, n, n))
            return
        n = t[1] if t[0] == 'arr' else len(t[1])
        for i in range(n):
            fo, ft = self.field(t, i, m)
            self._aggstore(ft, off + fo, m, 'xv(%s,%d)' % (v, i), L)

    def valloc(self, st, n, name, align):
        if n is U:
            raise Viol('uninit', 'allocation of uninitialised size')
        if n.__class__ is int and n > (1 << 32):
            raise Viol('memory', 'stack allocation of %d bytes' % n)
        return st.alloc(n, 'stack', name, None, align)

    # -------------------------------------------------------- execution
    def push(self, st, f, args, ret=None, nrm=None, uw=None):
        c = self.compile(f)
        fr = Frame()
        fr.fn = c
        fr.R = [U] * c.nregs
        for i, a in enumerate(args[:len(f.params)]):
            fr.R[i] = a
        fr.b = c.entry
        fr.i = 0
        fr.prev = None
        fr.ret = ret
        fr.nrm = nrm
        fr.uw = uw
        fr.allocas = []
        st.frames.append(fr)
        fr.n = len(st.frames)
        if len(st.frames) > 400:
            raise Unsupported('call depth')
        return fr

    def new_state(self):
        st = State(self)
        return st

    def memget(self, st):
        pass

    def call_function(self, st, f, args):
        """run f to completion from st; returns the outcome states (out in ret/exc/viol/unsupported)"""
        base = len(st.frames)
        fr = self.push(st, f, args)
        fr.ret = 'TOP'
        return self.explore(st, None, base)

    def explore(self, st, stop, base):
        """run st until it returns from frame base+1 ('ret'/'exc'), or reaches stop=(depth, block).  -> list of states"""
        results = []
        try:
            return self._run(st, stop, base, results)
        except Viol as v:
            st.out = 'viol'
            st.exc = v
            self._where(st, v)
            results.append(st)
            return results
        except Unsupported as u:
            st.out = 'unsupported'
            st.exc = u
            self._where(st, u)
            results.append(st)
            return results
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, SyntaxError, ir.IRError, OverflowError) as e:
            import traceback
            u = Unsupported('engine: %s' % traceback.format_exc().strip().replace('\n', ' | ')[-600:])
            st.out = 'unsupported'
            st.exc = u
            self._where(st, u)
            results.append(st)
            return results

    def _where(self, st, e):
        if not hasattr(e, 'where'):
            e.where = [f.fn.name for f in st.frames][-4:]
            if st.frames:
                e.where.append(st.frames[-1].b)

    def val(self, g, R):
        return R[g[1]] if g[0] == 'r' else g[1]

    def goto(self, st, fr, label):
        blk = fr.fn.blocks.get(label)
        if blk is None:
            blk = self.block(fr.fn, label)
        if blk.phis:
            blk.phis[fr.b](fr.R, fr.fn.consts)
        fr.prev = fr.b
        fr.b = label
        fr.i = 0

    def _run(self, st, stop, base, results):
        while True:
            fr = st.frames[-1]
            c = fr.fn
            blk = c.blocks.get(fr.b)
            if blk is None:
                blk = self.block(c, fr.b)
            code, term = blk.segs[fr.i]
            self.nsteps += 1
            if self.nsteps > self.max_steps:
                raise Unsupported('step limit')
            if code is not None:
                try:
                    code(st, fr.R, c.consts)
                except NeedFork as nf:
                    # re-execute the segment under each outcome of the condition
                    return self._fork_retry(st, nf.c, stop, base, results)
            k = term[0]
            if k == 'call':
                nxt = self._call(st, fr, term, stop, base, results)
                if nxt is not None:
                    return nxt
                if st.out is not None:
                    results.append(st)
                    return results
            elif k == 'br':
                self.goto(st, fr, term[1])
            elif k == 'cbr':
                cv = self.val(term[1], fr.R)
                if cv.__class__ is int:
                    self.goto(st, fr, term[2] if cv else term[3])
                elif cv is U:
                    raise Viol('uninit', 'branch on uninitialised value')
                else:
                    r = self._branch(st, fr, cv, [(cv, term[2]), (tm.not_(cv, 1), term[3])], stop, base, results)
                    if r is not None:
                        return r
            elif k == 'switch':
                v = self.val(term[1], fr.R)
                if v.__class__ is int:
                    tgt = term[2]
                    for cval, lab in term[3]:
                        if cval == v:
                            tgt = lab
                            break
                    self.goto(st, fr, tgt)
                elif v is U:
                    raise Viol('uninit', 'switch on uninitialised value')
                else:
                    alts = []
                    rest = 1
                    for cval, lab in term[3]:
                        e = tm.eq(v, cval, term[4])
                        alts.append((e, lab))
                        rest = tm.and_(rest, tm.not_(e, 1), 1)
                    alts.append((rest, term[2]))
                    r = self._branch(st, fr, None, alts, stop, base, results)
                    if r is not None:
                        return r
            elif k == 'ret':
                rv = self.val(term[1], fr.R) if term[1] is not None else None
                self._ret(st, fr, rv)
                if len(st.frames) == base:
                    st.out = 'ret'
                    st.retval = rv
                    results.append(st)
                    return results
            elif k == 'unreachable':
                raise Viol('unreachable', 'unreachable code reached')
            elif k == 'lpad':
                cleanup, cl = term[2], term[3]
                sel = 0
                for tname in cl:
                    if tname is None:
                        sel = self.typeid(None)
                        break
                    if self.exc_matches(st.exc[0], tname):
                        sel = self.typeid(tname)
                        break
                fr.R[term[1]] = (st.exc[1], sel)
                fr.i += 1
            elif k == 'resume':
                self._unwind(st, base)
                if st.out is not None:
                    results.append(st)
                    return results
            else:
                raise Unsupported('instruction: %s' % (term[1],))
            if stop is not None and len(st.frames) == stop[0]:
                f2 = st.frames[-1]
                if f2.i == 0 and (f2.b == stop[1] or stop[1].__class__ is frozenset and f2.b in stop[1]) and (len(stop) == 2 or f2.fn is stop[2]):
                    st.out = 'stop'
                    results.append(st)
                    return results

    def _fork_retry(self, st, cnd, stop, base, results):
        a = self.decide(st, cnd)
        outs = []
        for cc in (cnd, tm.not_(cnd, 1)):
            if a is True and cc is not cnd:
                continue
            if a is False and cc is cnd:
                continue
            s2 = st.fork()
            s2.assume(cc)
            outs.append(s2)
        # substitute the decided condition in the registers so the retry sees a constant
        for s2, v in zip(outs, (1, 0) if a is None else ((1,) if a else (0,))):
            R = s2.frames[-1].R
            nc = tm.not_(cnd, 1)
            for i, x in enumerate(R):
                if x is cnd:
                    R[i] = v
                elif x is nc:
                    R[i] = 1 - v
            results.extend(self.explore(s2, stop, base))
        return results

    def _ret(self, st, fr, rv):
        for o in fr.allocas:
            ob = st.mem.get(o)
            if ob is not None:
                del st.mem[o]
        st.frames.pop()
        if fr.ret == 'TOP':
            return
        if st.frames:
            cf = st.frames[-1]
            if fr.ret is not None:
                cf.R[fr.ret] = rv
            if fr.nrm is not None:
                self.goto(st, cf, fr.nrm)
            else:
                cf.i += 1

    # exceptions -------------------------------------------------------------
    def typeid(self, name):
        d = self.__dict__.setdefault('_typeids', {})
        if name not in d:
            d[name] = len(d) + 1
        return d[name]

    HIER = {
        '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt12out_of_range': '_ZTISt11logic_error',
        '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error',
        '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt13runtime_error': '_ZTISt9exception',
        '_ZTISt14overflow_error': '_ZTISt13runtime_error', '_ZTISt11range_error': '_ZTISt13runtime_error',
        '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc',
        '_ZTISt12system_error': '_ZTISt13runtime_error', '_ZTISt8bad_cast': '_ZTISt9exception',
    }

    def exc_matches(self, thrown, tname):
        while thrown is not None:
            if thrown == tname:
                return True
            thrown = self.HIER.get(thrown)
        return False

    def throw(self, st, tname, ptr):
        st.exc = (tname, ptr)

    def _unwind(self, st, base):
        """exception st.exc propagates from the current point"""
        while len(st.frames) > base:
            fr = st.frames[-1]
            # pop the frame, look at its own unwind label
            for o in fr.allocas:
                st.mem.pop(o, None)
            st.frames.pop()
            if len(st.frames) == base:
                break
            if fr.uw is not None:
                self.goto(st, st.frames[-1], fr.uw)
                return
        st.out = 'exc'

    # calls --------------------------------------------------------------
    def _call(self, st, fr, term, stop, base, results):
        tgt, args, d, nrm, uw, atys, rty = term[1], term[2], term[3], term[4], term[5], term[6], term[7]
        R = fr.R
        av = [R[g[1]] if g[0] == 'r' else g[1] for g in args]
        if tgt[0] == 'g':
            name = tgt[1]
            h = term[8]
            if h is None:
                h = term[8] = self._resolve(name, fr.fn.mod)
        else:
            fp = R[tgt[1]] if tgt[0] == 'r' else tgt[1]
            if fp.__class__ is not FnPtr:
                raise Viol('memory', 'call through %r' % (fp,))
            h = self._resolve(fp.name, fp.mod)
        kind, obj = h
        if kind == 'fn':
            self.inlined.add(obj.name)
            f2 = self.push(st, obj, av, d, nrm, uw)
            return None
        # contract or model: obj(ex, st, args, call) -> value | [(st, value)] ; may set st.exc via Throw
        self.cur_rty = rty
        try:
            r = obj(self, st, av)
        except Throw as t:
            st.exc = (t.tname, t.ptr)
            if uw is not None:
                self.goto(st, fr, uw)
                return None
            self._unwind(st, base)
            return None
        if r.__class__ is list:
            # several outcomes
            for s2, v in r:
                if s2.out is not None:
                    results.append(s2)
                    continue
                f2 = s2.frames[-1]
                if v.__class__ is Throw:
                    s2.exc = (v.tname, v.ptr)
                    if uw is not None:
                        self.goto(s2, f2, uw)
                    else:
                        self._unwind(s2, base)
                        if s2.out is not None:
                            results.append(s2)
                            continue
                else:
                    if d is not None:
                        f2.R[d] = v
                    if nrm is not None:
                        self.goto(s2, f2, nrm)
                    else:
                        f2.i += 1
                results.extend(self.explore(s2, stop, base))
            return results
        if d is not None:
            R[d] = r
        if nrm is not None:
            self.goto(st, fr, nrm)
        else:
            fr.i += 1
        return None

    def _resolve(self, name, mod):
        key = self.keyfn(name)
        ct = self.contracts.get(name) or (self.contracts.get(key) if key else None)
        if ct is not None:
            def use(ex, st, av, _c=ct, _n=name):
                ex.contract_uses[_n] = ex.contract_uses.get(_n, 0) + 1
                return _c(ex, st, av)
            return ('c', use)
        m = self.models.get(name)
        if m is not None:
            return ('m', m)
        f = self.find(name, mod)
        if f is not None:
            return ('fn', f)
        m = self.model_for(name)
        if m is not None:
            return ('m', m)

        def missing(ex, st, av, _n=name):
            raise Unsupported('call of external function without contract: %s' % _n)
        return ('m', missing)

    def model_for(self, name):
        from . import models
        return models.lookup(self, name)

    # branching ------------------------------------------------------------
    def _learn(self, fr, c, v):
        """registers computed from the branch condition c (value v on this path) before the branch"""
        if c.__class__ is not T:
            return
        if c.op == 'xor' and c.a[0] == 1 and c.w == 1:
            c = tm.not_(c, 1)
            v = 1 - v
        R = fr.R
        for i, x in enumerate(R):
            if x.__class__ is T and x is not c and tm.near(x, c, 4):
                R[i] = tm.subst(x, {c: v})

    def _branch(self, st, fr, cv, alts, stop, base, results):
        if cv is not None:
            d = self.decide(st, cv)
            if d is True:
                self._learn(fr, cv, 1)
                self.goto(st, fr, alts[0][1])
                return None
            if d is False:
                self._learn(fr, cv, 0)
                self.goto(st, fr, alts[1][1])
                return None
            feas = alts
            if self.summarise:
                rule = self.loop_hook(st, fr, alts, stop, base, results)
                if rule is not None:
                    return rule
        else:
            feas = [(c, l) for c, l in alts if not (c.__class__ is int and not c) and
                    (c in st.pcset if c.__class__ is T and c in st.pcset else solve.isfeasible(st.pc, c))]
            if len(feas) == 1:
                st.assume(feas[0][0])
                self.goto(st, fr, feas[0][1])
                return None
        depth = len(st.frames)
        pd = fr.fn.ipdom.get(fr.b)
        sub = (depth, pd) if pd is not None and not self.nomerge else None
        if sub is None and stop is not None and stop[0] == depth:
            pass
        outs = []
        npc = len(st.pc)
        others = []
        for (c, lab) in feas:
            s2 = st.fork()
            s2.assume(c)
            self.nsteps += 1
            if cv is not None:
                self._learn(s2.frames[-1], c, 1)
            self.goto(s2, s2.frames[-1], lab)
            if sub is None:
                rs = self.explore(s2, stop, base) if not self._at(s2, stop) else [s2]
                others.extend(rs)
            else:
                if self._at(s2, sub):
                    outs.append(s2)
                    continue
                for r in self.explore2(s2, sub, stop, base):
                    if r.out == 'stop' and self._at(r, sub):
                        outs.append(r)
                    else:
                        others.append(r)
        results.extend(others)
        if sub is None:
            return results
        outs = self.merge_all(outs, npc)
        if not outs:
            return results
        for s2 in outs:
            s2.out = None
        if len(outs) == 1 :
            # continue with the merged state in this activation
            self._become(st, outs[0])
            if self._at(st, stop):
                st.out = 'stop'
                results.append(st)
                return results
            return None
        for s2 in outs:
            if self._at(s2, stop):
                s2.out = 'stop'
                results.append(s2)
            else:
                results.extend(self.explore(s2, stop, base))
        return results

    def explore2(self, s, sub, stop, base):
        """explore until sub, but also honour the outer stop point"""
        return self.explore(s, sub, base)

    def _at(self, s, stop):
        if stop is None:
            return False
        if len(s.frames) != stop[0]:
            return False
        f = s.frames[-1]
        return f.i == 0 and (f.b == stop[1] or stop[1].__class__ is frozenset and f.b in stop[1]) and (len(stop) == 2 or f.fn is stop[2])

    def _become(self, st, o):
        st.frames = o.frames
        st.mem = o.mem
        st.pc = o.pc
        st.pcset = o.pcset
        st.bc = o.bc
        st.gen = o.gen
        st.ghost = o.ghost
        st.out = None
        st.retval = o.retval
        st.exc = o.exc

    def loop_hook(self, st, fr, alts, stop, base, results):
        if not self.summarise:
            return None
        from . import loops
        return loops.hook(self, st, fr, alts, stop, base, results)

    # merging ---------------------------------------------------------------
    def merge_all(self, outs, npc):
        if len(outs) <= 1:
            return outs
        acc = [outs[0]]
        for s in outs[1:]:
            done = False
            for i, a in enumerate(acc):
                m = self.merge(a, s, npc)
                if m is not None:
                    acc[i] = m
                    done = True
                    break
            if not done:
                acc.append(s)
        return acc

    def merge(self, a, b, npc):
        """a, b at the same program point, sharing pc[:npc]"""
        if len(a.frames) != len(b.frames):
            return None
        n = npc
        ca, cb = tm.conj(a.pc[n:]), tm.conj(b.pc[n:])
        c = ca
        # value selector: under (ca or cb), ca distinguishes
        nframes = []
        for fa, fb in zip(a.frames, b.frames):
            if fa.fn is not fb.fn or fa.b != fb.b or fa.i != fb.i:
                return None
        try:
            newR = []
            for fa, fb in zip(a.frames, b.frames):
                R = []
                for x, y, w in zip(fa.R, fb.R, fa.fn.rw):
                    if x is not y:
                        x = self._mval(c, x, y, w)
                        if x is _Bad and fa.i == 0 and fa is a.frames[-1]:
                            from . import loops
                            if len(R) in loops.liveness(fa.fn)[fa.b]:
                                return None
                    R.append(x)
                newR.append(R)
            newmem = {}
            for k, oa in a.mem.items():
                ob = b.mem.get(k)
                if ob is None:
                    if oa.kind == 'stack' or oa.kind == 'heap':
                        newmem[k] = oa     # allocated on one side only: unreachable from the other
                        continue
                    return None
                if oa is ob:
                    newmem[k] = oa
                    continue
                if oa.alive != ob.alive or oa.size is not ob.size and oa.size != ob.size:
                    return None
                if oa.sym is not None or ob.sym is not None:
                    if oa.sym is not None and ob.sym is not None and oa.sym.log == ob.sym.log:
                        newmem[k] = oa
                        continue
                    return None
                o = oa.clone(0)
                if oa.data != ob.data:
                    o.data = self._mcells(c, oa.data, ob.data, lambda p, q: _gone(a, p) and _gone(b, q))
                    o.maybe = any(x.__class__ is Maybe for x in o.data)
                newmem[k] = o
            for k, ob in b.mem.items():
                if k not in a.mem:
                    newmem[k] = ob
            g = {}
            for k in set(a.ghost) | set(b.ghost):
                x, y = a.ghost.get(k), b.ghost.get(k)
                if x is y or x == y:
                    g[k] = x
                else:
                    return None
        except _NoMerge:
            return None
        s = a
        for fa, R in zip(s.frames, newR):
            fa.R = R
        s.mem = newmem
        s.gen = newgen()
        s.ghost = g
        s.pc = a.pc[:n]
        s.pcset = set(s.pc)
        s.bc = {}
        d = tm.or_(ca, cb, 1)
        s.assume(d)
        for fa, fb in zip(s.frames, b.frames):
            seen = set(fa.allocas)
            for o in fb.allocas:
                if o not in seen:
                    fa.allocas.append(o)
        return s

    def _mval(self, c, x, y, w=0):
        if x is y:
            return x
        cx, cy = x.__class__, y.__class__
        if cx is int and cy is int:
            if x == y:
                return x
            return tm.ite(c, x, y, w) if w else _Bad
        if x is U or y is U or x is None or y is None:
            return U
        if cx is T and cy is T:
            if x.w != y.w:
                return U
            return tm.ite(c, x, y, x.w)
        if cx is T and cy is int:
            return tm.ite(c, x, y, x.w)
        if cx is int and cy is T:
            return tm.ite(c, x, y, y.w)
        if cx is Ptr and cy is Ptr and x.o == y.o:
            if x.f.__class__ is int and y.f.__class__ is int and x.f == y.f:
                return x
            return Ptr(x.o, tm.ite(c, x.f, y.f, 64))
        if cx is FnPtr and cy is FnPtr and x.name == y.name:
            return x
        if cx is tuple and cy is tuple and len(x) == len(y):
            return tuple(self._mval(c, p, q) for p, q in zip(x, y))
        return _Bad      # dead register most likely; using it is a tool limit

    def _mcells(self, c, A, B, gone=None):
        out = list(A)
        i = 0
        n = len(A)
        while i < n:
            x, y = A[i], B[i]
            if x is y or (x.__class__ is int and x == y) :
                i += 1
                continue
            if x.__class__ is tuple and y.__class__ is tuple and x == y:
                i += 1
                continue
            if x.__class__ is tuple and x[1] == 0 and (x[0].__class__ is Ptr or x[0].__class__ is FnPtr):
                # pointer cell group
                if y.__class__ is tuple and y[1] == 0 and x[2] == y[2]:
                    v = self._mval(c, x[0], y[0])
                    if v is _Bad and gone is not None and gone(x[0], y[0]):
                        v = tm.fresh('dangling', 8 * x[2])      # the pointers outlive what they pointed to: any value will do
                    if v is _Bad:
                        raise _NoMerge()
                    for j in range(x[2]):
                        out[i + j] = (v, j, x[2])
                    i += x[2]
                    continue
                if y is None:
                    out[i] = None
                    i += 1
                    continue
                raise _NoMerge()
            py = y.__class__ is tuple and y[0].__class__ in (Ptr, FnPtr)
            px = x.__class__ is tuple and x[0].__class__ in (Ptr, FnPtr)
            if x is None and py or y is None and px:
                out[i] = None
                i += 1
                continue
            if py and x.__class__ is tuple and x[1] == y[1] == 0 and x[2] == y[2] and gone is not None and gone(x[0], y[0]):
                v = tm.fresh('dangling', 8 * x[2])
                for j in range(x[2]):
                    out[i + j] = (v, j, x[2])
                i += x[2]
                continue
            if px or py:
                raise _NoMerge()
            if x is None or y is None or x.__class__ is Maybe or y.__class__ is Maybe:
                out[i] = maybe_ite(c, x, y)
                i += 1
                continue
            # scalar group of the same width on both sides
            if x.__class__ is tuple and x[1] == 0 and x[0].__class__ is T and i + x[2] <= n:
                k = x[2]
                bv = assemble(B[i:i + k], k)
                if bv.__class__ in (int, T) and all(A[i + j] == (x[0], j, k) for j in range(k)):
                    v = tm.ite(c, x[0], bv, 8 * k)
                    for j in range(k):
                        out[i + j] = (v, j, k) if v.__class__ is T else (v >> (8 * j)) & 255
                    i += k
                    continue
            out[i] = tm.ite(c, cellbyte(x), cellbyte(y), 8)
            i += 1
        return out


class _BadT(object):
    def __repr__(self):
        return 'unmergeable'


_Bad = _BadT()


def small_atom(f):
    """(x, its possible values) when f is a function of one subterm x with few possible values"""
    best = [None]
    seen = set()

    def walk(t):
        # False: depends on something that is not small
        if t.__class__ is not T:
            if t.__class__ is tuple:
                return all([walk(x) for x in t])
            return True
        if t in seen:
            return True
        seen.add(t)
        if len(seen) > 200:
            return False
        if bin(t.m).count('1') <= 2 and t.w > 1 or t.w == 1:
            kids = [k for k in tm.children(t)]
            if any(bin(k.m).count('1') > 2 or k.w > 64 for k in kids) or not kids:
                if best[0] is None:
                    best[0] = t
                return best[0] is t
            if t.w == 1:
                if best[0] is None:
                    best[0] = t
                return best[0] is t
        kids = tm.children(t)
        if not kids:
            return False
        return all([walk(k) for k in kids])
    if f.__class__ is not T or not walk(f) or best[0] is None:
        return None
    x = best[0]
    m = x.m
    vals = []
    v = 0
    while True:
        vals.append(v)
        v = (v - m) & m
        if not v:
            break
    return x, vals


class _NoMerge(Exception):
    pass


class Throw(Exception):
    def __init__(self, tname, ptr=0):
        Exception.__init__(self, tname)
        self.tname = tname
        self.ptr = ptr


def tofp(x, w):
    if x.__class__ is not int:
        raise Unsupported('symbolic floating point')
    return float(tm._s(x, w) if w else x)


def fptoi(x, w):
    if x.__class__ is not float:
        raise Unsupported('symbolic floating point')
    if math.isnan(x) or math.isinf(x) or not -(2 ** (w - 1)) - 1 < x < 2 ** w:
        return U
    return int(x) & ((1 << w) - 1)


def fpop(op, x, y):
    if x.__class__ is not float or y.__class__ is not float:
        raise Unsupported('symbolic floating point')
    if op == 'fadd':
        return x + y
    if op == 'fsub':
        return x - y
    if op == 'fmul':
        return x * y
    if y == 0.0:
        return float('nan') if x == 0.0 or math.isnan(x) else math.copysign(float('inf'), x)
    return x / y


def fpcmp(p, x, y):
    if x.__class__ is not float or y.__class__ is not float:
        raise Unsupported('symbolic floating point')
    un = math.isnan(x) or math.isnan(y)
    if p == 'uno':
        return int(un)
    if p == 'ord':
        return int(not un)
    base = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'gt': x > y, 'le': x <= y, 'ge': x >= y}[p[1:]]
    return int((un or base) if p[0] == 'u' else (not un and base))


def low(v, fw, n):
    if v.__class__ is int:
        return v & ((1 << n) - 1)
    if v is U:
        return U
    return tm.extract(v, 0, n)


def ldf(v, n):
    if v.__class__ is int:
        return struct.unpack('<d' if n == 8 else '<f', v.to_bytes(n, 'little'))[0]
    return v


def stf(v, n):
    if v.__class__ is float:
        return int.from_bytes(struct.pack('<d' if n == 8 else '<f', v), 'little')
    return v


def zx(v, w):
    if v.__class__ is int or v is U:
        return v
    return tm.zext(v, w, 64)


def xv(a, i):
    if a is U:
        return U
    return a[i]


def insv(a, v, idx, n):
    if a is U:
        a = (U,) * n
    a = list(a)
    if len(idx) == 1:
        a[idx[0]] = v
    else:
        inner = a[idx[0]]
        a[idx[0]] = insv(inner, v, idx[1:], 8 if inner is U else len(inner))
    return tuple(a)


def rmw(op, x, v, w):
    if op == 'xchg':
        return v
    if op in ('add', 'sub', 'and', 'or', 'xor'):
        return arith(op, x, v, w)
    raise Unsupported('atomicrmw ' + op)


def cmpxchg(st, p, a, b, n):
    x = st.load(p, n)
    e = pcmp('eq', x, a, n * 8)
    if e.__class__ is not int:
        raise Unsupported('symbolic cmpxchg')
    if e:
        st.store(p, b, n)
    return (x, e)


_ENV = dict(arith=arith, pcmp=pcmp, divop=divop, shop=shop, selectv=selectv, castz=castz, casts=casts, castt=castt,
            addp=addp, mulo=mulo, addo=addo, sxt=sxt, zx=zx, xv=xv, insv=insv, rmw=rmw, low=low, ldf=ldf, stf=stf,
            tofp=tofp, fptoi=fptoi, fpop=fpop, fpcmp=fpcmp, Unsupported=Unsupported, cmpxchg=cmpxchg, U=U)


def _globobj(self, oid):
    for o in self.globmem.values():
        if o.id == oid:
            return o
    return None


Executor.globobj = _globobj
_obj0 = State.obj


def _obj(self, p, write=False):
    if p.__class__ is Ptr and p.o not in self.mem:
        g = self.ex.globids().get(p.o)
        if g is not None:
            self.mem[p.o] = g
    return _obj0(self, p, write)


State.obj = _obj


def _globids(self):
    d = self.__dict__.setdefault('_gid', {})
    if len(d) != len(self.globmem):
        d.clear()
        for o in self.globmem.values():
            d[o.id] = o
    return d


Executor.globids = _globids
