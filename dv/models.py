"""Contracts assumed for the C/C++/Rust runtime (trusted): memory, exceptions, math, output."""
import math
from . import term as tm
from .term import T


def install(ex):
    from . import exec as E
    M = ex.models
    Ptr, U, Viol, Unsupported, Throw = E.Ptr, E.U, E.Viol, E.Unsupported, E.Throw

    def size(st, n, what):
        if n is U:
            raise Viol('uninit', what + ' with an uninitialised length')
        if n.__class__ is not int:
            d = st.ex.concrete(st, n) if hasattr(st.ex, 'concrete') else None
            if d is None:
                return n
            return d
        return n

    def memcpy(ex, st, a):
        d, s, n = a[0], a[1], size(st, a[2], 'memcpy')
        if n.__class__ is not int:
            return symcpy(ex, st, d, s, n)
        if n == 0:
            return d
        if n > 1 << 32:
            raise Viol('memory', 'copy of %d bytes' % n)
        cells = st.bytes_at(s, n)
        st.write_bytes(d, cells)
        return d

    def symcpy(ex, st, d, s, n):
        """copy of symbolic length between objects"""
        so = st.obj(s)
        do = st.obj(d, True)
        if so.sym is None:
            k = so.size - s.f if s.f.__class__ is int else 0
            if k <= 0 or k > 1 << 16 or ex.decide(st, tm.eq(n, k, 64)) is not True:
                raise Unsupported('copy of symbolic length from a fixed-size object')
            return memcpy(ex, st, [d, s, k])
        if do.sym is None:
            E.promote(do)
        ex.require(st, tm.and_(tm.ule(s.f, so.size, 64), tm.ule(n, tm.sub(so.size, s.f, 64), 64), 1), 'memory', 'source range in bounds')
        from . import seq
        src = seq.read_range(ex, st, s, n)
        do.sym.copyrange(st, do, d.f, n, None, src)
        return d

    def memset(ex, st, a):
        d, v, n = a[0], a[1], size(st, a[2], 'memset')
        if n.__class__ is not int:
            do = st.obj(d, True)
            if do.sym is None:
                E.promote(do)
            if v is not U and v.__class__ is T:
                v = tm.extract(v, 0, 8)
            do.sym.copyrange(st, do, d.f, n, None, (('fill', v & 255 if v.__class__ is int else v, n),))
            return d
        if n > 4096:
            do = st.obj(d, True)
            if do.sym is not None:
                do.sym.copyrange(st, do, d.f, n, None, (('fill', v & 255 if v.__class__ is int else v, n),))
                return d
        if n == 0:
            return d
        if n > 1 << 32:
            raise Viol('memory', 'memset of %d bytes' % n)
        if v.__class__ is int:
            v &= 255
        elif v.__class__ is T:
            v = tm.extract(v, 0, 8)
        else:
            v = None
        st.write_bytes(d, [v] * n)
        return d

    for nm in ('memcpy', 'memmove'):
        M[nm] = memcpy
    M['memset'] = memset

    def memcmp(ex, st, a):
        n = a[2]
        if n.__class__ is not int:
            raise Unsupported('memcmp of symbolic length')
        if n == 0:
            return 0
        x, y = st.read_vals(a[0], n), st.read_vals(a[1], n)
        r = 0
        for p, q in reversed(list(zip(x, y))):
            e = tm.eq(p, q, 8)
            r = tm.ite(e, r, tm.ite(tm.ult(p, q, 8), 0xffffffff, 1, 32), 32)
        return r
    M['memcmp'] = M['bcmp'] = memcmp

    def strlen(ex, st, a):
        n = 0
        p = a[0]
        while True:
            b = st.read_vals(E.addp(p, n), 1)[0]
            if b.__class__ is int:
                if b == 0:
                    return n
            else:
                d = ex.decide(st, tm.eq(b, 0, 8))
                if d is True:
                    return n
                if d is None:
                    raise Unsupported('strlen of symbolic string')
            n += 1
    M['strlen'] = strlen

    def memchr(ex, st, a):
        p, c, n = a
        if n.__class__ is not int:
            raise Unsupported('memchr')
        for i in range(n):
            b = st.read_vals(E.addp(p, i), 1)[0]
            e = tm.eq(b, c & 255 if c.__class__ is int else tm.extract(c, 0, 8), 8)
            d = ex.decide(st, e)
            if d is True:
                return E.addp(p, i)
            if d is None:
                raise E.NeedFork(e) if False else Unsupported('symbolic memchr')
        return 0
    M['memchr'] = memchr

    # ---------------------------------------------------------------- allocation
    def op_new(ex, st, a):
        n = a[0]
        if n is U:
            raise Viol('uninit', 'allocation of uninitialised size')
        if n.__class__ is int and n > 1 << 40:
            raise Throw('_ZTISt9bad_alloc')
        return st.alloc(n, 'heap', 'new', None, 16)
    M['_Znwm'] = M['_Znam'] = M['malloc'] = op_new

    def op_delete(ex, st, a):
        p = a[0]
        if p.__class__ is int and p == 0:
            return None
        o = st.obj(p)
        if o.kind != 'heap' or (p.f.__class__ is int and p.f != 0):
            raise Viol('memory', 'free of a pointer that was not allocated')
        o = st.obj(p, True)
        o.alive = False
        return None
    for nm in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free'):
        M[nm] = op_delete

    # ---------------------------------------------------------------- C++ exceptions
    def cxa_alloc(ex, st, a):
        return st.alloc(a[0], 'exc', 'exception')
    M['__cxa_allocate_exception'] = cxa_alloc
    M['__cxa_free_exception'] = lambda ex, st, a: None

    def cxa_throw(ex, st, a):
        ti = a[1]
        name = None
        if ti.__class__ is Ptr:
            o = ex.globobj(ti.o)
            name = o.name if o is not None else None
        raise Throw(name, a[0])
    M['__cxa_throw'] = cxa_throw

    def begin_catch(ex, st, a):
        st.ghost['__caught'] = st.ghost.get('__caught', ()) + (st.exc,)
        return a[0]
    M['__cxa_begin_catch'] = begin_catch

    def end_catch(ex, st, a):
        c = st.ghost.get('__caught', ())
        st.ghost['__caught'] = c[:-1]
        return None
    M['__cxa_end_catch'] = end_catch

    def rethrow(ex, st, a):
        c = st.ghost.get('__caught', ())
        raise Throw(c[-1][0], c[-1][1])
    M['__cxa_rethrow'] = rethrow
    M['llvm.eh.typeid.for'] = M['llvm.eh.typeid.for.p0'] = lambda ex, st, a: ex.typeid(ex.globobj(a[0].o).name)

    def terminate(ex, st, a):
        raise Viol('terminate', 'std::terminate reached')
    for nm in ('_ZSt9terminatev', '__clang_call_terminate', 'abort', '__cxa_pure_virtual'):
        M[nm] = terminate
    for nm, ty in (('_ZSt20__throw_length_errorPKc', '_ZTISt12length_error'),
                   ('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc'),
                   ('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt20bad_array_new_length'),
                   ('_ZSt19__throw_logic_errorPKc', '_ZTISt11logic_error'),
                   ('_ZSt20__throw_out_of_rangePKc', '_ZTISt12out_of_range'),
                   ('_ZSt24__throw_out_of_range_fmtPKcz', '_ZTISt12out_of_range'),
                   ('_ZSt24__throw_invalid_argumentPKc', '_ZTISt16invalid_argument'),
                   ('_ZSt25__throw_bad_function_callv', '_ZTISt17bad_function_call'),
                   ('_ZSt20__throw_system_errori', '_ZTISt12system_error')):
        def mkthrow(ty):
            def f(ex, st, a):
                raise Throw(ty)
            return f
        M[nm] = mkthrow(ty)

    # std exception object constructors / destructors: opaque
    for cls in ('invalid_argument', 'out_of_range', 'runtime_error', 'logic_error', 'length_error', 'domain_error', 'overflow_error', 'range_error'):
        n = '%d%s' % (len(cls), cls)
        for suffix in ('C1EPKc', 'C2EPKc', 'C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', 'C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE',
                       'D1Ev', 'D2Ev', 'C1ERKS_', 'C2ERKS_'):
            M['_ZNSt%s%s' % (n, suffix)] = lambda ex, st, a: None

    # ---------------------------------------------------------------- output (no effect on any property)
    for nm in ('printf', 'fprintf', 'puts', 'putchar', 'fwrite', 'fflush', 'fputs', 'fputc', '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev', '__cxa_atexit'):
        M[nm] = lambda ex, st, a: 0

    # ---------------------------------------------------------------- math
    def fm(fn):
        def g(ex, st, a):
            if a[0].__class__ is not float:
                raise Unsupported('symbolic floating point')
            x = a[0]
            if fn is math.log2:
                if x == 0:
                    return float('-inf')
                if x < 0:
                    return float('nan')
                if math.isinf(x):
                    return x
            if math.isinf(x) or math.isnan(x):
                return x
            return float(fn(x))
        return g
    for nm, fn in (('log2', math.log2), ('ceil', math.ceil), ('floor', math.floor), ('log2f', math.log2), ('ceilf', math.ceil), ('floorf', math.floor)):
        M[nm] = fm(fn)
    for b in ('32', '64'):
        M['llvm.log2.f' + b] = fm(math.log2)
        M['llvm.ceil.f' + b] = fm(math.ceil)
        M['llvm.floor.f' + b] = fm(math.floor)


def lookup(ex, name):
    from . import exec as E
    U, Unsupported, Viol = E.U, E.Unsupported, E.Viol
    M = ex.models
    if name.startswith('_R') or name.startswith('__rust'):
        return rust(ex, name)
    if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
        return M['memcpy']
    if name.startswith('llvm.memset'):
        return M['memset']
    if name.startswith(('llvm.stacksave',)):
        return lambda ex, st, a: 0
    if name.startswith(('llvm.stackrestore', 'llvm.va_', 'llvm.invariant', 'llvm.launder')):
        return lambda ex, st, a: 0
    if name.startswith('llvm.'):
        p = name.split('.')
        last = p[-1]
        w = int(last[1:]) if last[:1] == 'i' and last[1:].isdigit() else 0
        if '.with.overflow.' in name:
            op = p[1]
            M1 = (1 << w) - 1

            def ovf(ex, st, a):
                x, y = a
                if x is U or y is U:
                    return (U, U)
                if x.__class__ is int and y.__class__ is int:
                    if op[0] == 's':
                        sx, sy = tm._s(x, w), tm._s(y, w)
                    else:
                        sx, sy = x, y
                    r = sx + sy if op[1:] == 'add' else sx - sy if op[1:] == 'sub' else sx * sy
                    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op[0] == 's' else (0, M1)
                    return (r & M1, 0 if lo <= r <= hi else 1)
                r = E.arith(op[1:], x, y, w)
                ext = tm.sext if op[0] == 's' else tm.zext
                X, Y = ext(x, w, 2 * w), ext(y, w, 2 * w)
                R = getattr(tm, op[1:])(X, Y, 2 * w)
                return (r, tm.ne(R, ext(r, w, 2 * w), 2 * w))
            return ovf
        if p[1] in ('umin', 'umax', 'smin', 'smax'):
            op = p[1]

            def mm(ex, st, a):
                x, y = a
                if x is U or y is U:
                    return U
                lt = tm.slt(x, y, w) if op[0] == 's' else tm.ult(x, y, w)
                return tm.ite(lt, x, y, w) if op[1:] == 'min' else tm.ite(lt, y, x, w)
            return mm
        if p[1] in ('usub', 'uadd') and p[2] == 'sat':
            def sat(ex, st, a, _o=p[1]):
                x, y = a
                if _o == 'usub':
                    return tm.ite(tm.ult(x, y, w), 0, tm.sub(x, y, w), w)
                r = tm.add(x, y, w)
                return tm.ite(tm.ult(r, x, w), (1 << w) - 1, r, w)
            return sat
        if p[1] in ('fshl', 'fshr'):
            def fsh(ex, st, a, _o=p[1]):
                x, y, k = a
                if k.__class__ is not int:
                    raise Unsupported('symbolic funnel shift')
                k %= w
                if _o == 'fshr':
                    k = (w - k) % w
                    if k == 0:
                        return y
                    if x is y:
                        return tm.rotl(x, k, w)
                    return tm.or_(tm.shl(x, k, w), tm.lshr(y, w - k, w), w)
                if x is y or x == y and x.__class__ is int:
                    return tm.rotl(x, k, w)
                if k == 0:
                    return x
                return tm.or_(tm.shl(x, k, w), tm.lshr(y, w - k, w), w)
            return fsh
        if p[1] == 'bswap':
            def bs(ex, st, a):
                x = a[0]
                r = 0
                n = w // 8
                for i in range(n):
                    r = tm.or_(r, tm.shl(tm.zext(tm.extract(x, 8 * i, 8), 8, w), 8 * (n - 1 - i), w), w)
                return r
            return bs
        if p[1] in ('ctpop', 'ctlz', 'cttz'):
            def ct(ex, st, a, _o=p[1]):
                x = a[0]
                if x.__class__ is not int:
                    raise Unsupported(_o + ' of symbolic value')
                if _o == 'ctpop':
                    return bin(x).count('1')
                if _o == 'ctlz':
                    return w - x.bit_length()
                return (x & -x).bit_length() - 1 if x else w
            return ct
        if p[1] == 'abs':
            def ab(ex, st, a):
                x = a[0]
                return tm.ite(tm.slt(x, 0, w), tm.sub(0, x, w), x, w)
            return ab
        if p[1] == 'expect':
            return lambda ex, st, a: a[0]
        if p[1] == 'is' and p[2] == 'constant':
            return lambda ex, st, a: 0
        if p[1] == 'trap' or p[1] == 'ubsantrap':
            def trap(ex, st, a):
                raise Viol('trap', 'trap reached')
            return trap
        if p[1] == 'objectsize':
            return lambda ex, st, a: (1 << 64) - 1
    return None


def rust(ex, name):
    """runtime of the Rust crate: allocation, panics (a panic is a violation), slice copies"""
    from . import exec as E
    from .exec import Viol, U
    M = ex.models
    if 'no_alloc_shim' in name:
        return lambda ex, st, a: None
    if name.endswith(('__rust_alloc', '__rust_alloc_zeroed')):
        def alloc(ex, st, a):
            p = M['_Znwm'](ex, st, [a[0]])
            if name.endswith('zeroed'):
                M['memset'](ex, st, [p, 0, a[0]])
            return p
        return alloc
    if name.endswith('__rust_dealloc'):
        return lambda ex, st, a: M['free'](ex, st, [a[0]])
    if 'len_mismatch_fail' in name or '9panicking' in name or 'unwrap_failed' in name or 'slice_index_fail' in name or 'handle_error' in name or 'expect_failed' in name \
            or 'handle_alloc_error' in name or 'capacity_overflow' in name or '_fail' in name:
        def panic(ex, st, a):
            raise Viol('panic', 'Rust panic (%s)' % name[-60:])
        return panic
    if '4Drop4drop' in name and '5alloc3vec' in name and 'VechE' in name:
        return lambda ex, st, a: None     # bytes have no destructor; the buffer is released by RawVec::drop
    if '4Drop4drop' in name and '7raw_vec' in name or 'RawVecInner10deallocate' in name:
        def rvd(ex, st, a):
            cap = st.load(a[0], 8)
            if cap.__class__ is int and cap != 0:
                M['free'](ex, st, [st.load(E.addp(a[0], 8), 8)])
            elif cap.__class__ is not int:
                p = st.load(E.addp(a[0], 8), 8)
                if p.__class__ is E.Ptr:     # as allocated by the contract of try_allocate_in; nothing to release when the capacity is zero
                    M['free'](ex, st, [p])
            return None
        return rvd
    if 'copy_from_slice_impl' in name:
        def cfs(ex, st, a):
            d, n, s, m = a[:4]
            ex.require(st, tm.eq(n, m, 64), 'panic', 'slices have the same length')
            return M['memcpy'](ex, st, [d, s, n])
        return cfs
    if '7reserve' in name and '5alloc3vec' in name and 'VechE' in name:
        def reserve(ex, st, a):
            # Vec<u8>: capacity, pointer, length; a new capacity is exactly what was asked for (the library may round it up: not observable here)
            v, more = a
            cap, p, n = [st.load(E.addp(v, o), 8) for o in (0, 8, 16)]
            want = tm.add(n, more, 64)
            room = ex.decide(st, tm.ule(want, cap, 64))
            if room is True:
                return None
            if room is None and not (cap.__class__ is int and cap == 0):
                raise E.Unsupported('Vec::reserve with undecided room')
            q = M['_Znwm'](ex, st, [want])
            if not (n.__class__ is int and n == 0):
                M['memcpy'](ex, st, [q, p, n])
            if not (cap.__class__ is int and cap == 0):
                M['free'](ex, st, [p])
            st.store(v, want, 8)
            st.store(E.addp(v, 8), q, 8)
            return None
        return reserve
    if 'try_allocate_in' in name:
        def tai(ex, st, a):
            out, cap, zero, al, size = a
            n = cap if size == 1 else tm.mul(cap, size, 64)
            if n.__class__ is int and n == 0:
                p = al
            else:
                p = M['_Znwm'](ex, st, [n])
                if zero.__class__ is int and zero:
                    M['memset'](ex, st, [p, 0, n])
            st.store(out, 0, 8)
            st.store(E.addp(out, 8), cap, 8)
            st.store(E.addp(out, 16), p, 8)
            return None
        return tai
    return None
