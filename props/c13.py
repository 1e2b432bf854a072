"""C13: descriptors decode by nibbles, reject what is unknown, and round-trip."""
from dv import build, frame, xm, term as tm, vc, seq
from dv import exec as E
from props.c04 import need

NOTE = ('Proved for byte strings of every length and content and all valid descriptors, on the C++ headers compiled with libstdc++ (vector code executed, not modelled): '
        'decoding, rejection, encoding, round trip, key and extended-seed forms. The Rust module likewise, from its LLVM IR, including absence of panics. Native run exhaustive over the first two bytes beside it.')
ASSUMPTIONS = ['operator new/delete, memmove and the C++ exception runtime by contract', 'Rust Vec<u8> allocation and destruction by contract']


def mods():
    return build.modules([build.HERE + '/native/tu_desc.cpp'])


def valid(b0):
    return tm.and_(tm.ule(tm.extract(b0, 0, 4), 2, 4), tm.eq(tm.extract(b0, 4, 4), 0, 4), 1)


def fields(b):
    z = lambda x, n: tm.zext(x, n, 32)
    return [('hash function', z(tm.extract(b[0], 0, 4), 4)), ('scheme', z(tm.extract(b[0], 4, 4), 4)),
            ('height', tm.shl(z(tm.extract(b[1], 0, 4), 4), 1, 32)), ('address format', z(tm.extract(b[1], 4, 4), 4))]


def decode(fn, size):
    """lengths other than size are rejected; size bytes are decoded from the first three"""
    def go(ctx):
        ex = ctx.executor(mods())
        vs = []
        v = vc.VC(fn, 'length %d' % size)
        vs.append(v)
        st = ex.new_state()
        p, B = xm.buf(st, 'in', size)
        out = xm.outbuf(st, 'out', 16)
        ok = valid(B[0])
        ex.nomerge = True
        outs = v.outcomes('memory safe and returns', ex.call_function(st, need(ex, fn), [p, size, out]))
        for s in outs:
            rej = tm.eq(s.retval, 1, 32)
            v.holds('rejected exactly when hash or scheme is unknown', s.pc, tm.eq(rej, tm.not_(ok, 1), 1))
            v.holds('no other exception', s.pc, tm.ule(s.retval, 1, 32))
            if s.retval == 0:
                for i, (nm, x) in enumerate(fields(B)):
                    v.eq(nm, s.pc, s.load(E.addp(out, 4 * i), 4), x, 32)
                v.eq('canary', s.pc, s.load(E.addp(out, 8), 4), 8, 32)
        if not any(s.retval == 0 for s in outs):
            v.undecided('decoding', 'no accepting path')
        v = vc.VC(fn, 'any other length')
        vs.append(v)
        st = ex.new_state()
        n = tm.var('n', 64)
        st.assume(tm.ule(n, 1 << 40, 64))
        st.assume(tm.ne(n, size, 64))
        p, _ = xm.symbuf(st, 'in', n)
        out = xm.outbuf(st, 'out', 16)
        hints = [{'n': k} for k in range(0, 80) if k != size]
        for s in v.outcomes('memory safe and returns', ex.call_function(st, need(ex, fn), [p, n, out])):
            v.eq('rejected', s.pc, s.retval, 1, 32, hints)
        return vs, [ex]
    return go


def encode(ctx):
    ex = ctx.executor(mods())
    v = vc.VC('QRLDescriptor::getBytes')
    st = ex.new_state()
    f, h, a = tm.zext(tm.var('hash', 2), 2, 32), tm.var('height', 8), tm.zext(tm.var('fmt', 4), 4, 32)
    st.assume(tm.ule(f, 2, 32))
    st.assume(tm.ule(h, 30, 8))
    st.assume(tm.eq(tm.extract(h, 0, 1), 0, 1))
    out, n = xm.outbuf(st, 'out', 8), xm.outbuf(st, 'n', 8)
    h4 = tm.extract(tm.lshr(h, 1, 8), 0, 4)
    b = [tm.zext(tm.extract(f, 0, 4), 4, 8), tm.or_(tm.shl(tm.zext(tm.extract(a, 0, 4), 4, 8), 4, 8), tm.zext(h4, 4, 8), 8), 0]
    for s in v.outcomes('memory safe and returns', ex.call_function(st, need(ex, 'v_encode'), [f, 0, h, a, out, n])):
        v.eq('no exception', s.pc, s.retval, 0, 32)
        v.eq('three bytes', s.pc, s.load(n, 8), 3, 64)
        got = s.read_vals(out, 3)
        for i in range(3):
            v.eq('byte %d' % i, s.pc, got[i], b[i], 8)
        # round trip: the decoder of the proof above applied to the encoded bytes
        v.holds('encoded descriptor is accepted', s.pc, valid(got[0]))
        for (nm, x), y in zip(fields(got), (f, 0, tm.zext(h, 8, 32), a)):
            v.eq('round trip: ' + nm, s.pc, x, y, 32)
        v.eq('canary', s.pc, got[1], got[0], 8)
    return [v], [ex]


def rmods():
    from dv import ir
    return [ir.parse_file(build.rust_shim_ir(False), 'rust', ['r_desc', 'r_descmake'])]


def rust_decode(how, fn, size):
    def go(ctx):
        ex = ctx.executor(rmods())
        ex.nomerge = True
        vs = []
        v = vc.VC('Rust ' + fn, 'length %d' % size)
        vs.append(v)
        st = ex.new_state()
        p, B = xm.buf(st, 'in', size)
        out, b = xm.outbuf(st, 'out', 16), xm.outbuf(st, 'b', 8)
        # the crate knows one address format only and refuses the others
        ok = tm.and_(valid(B[0]), tm.eq(tm.extract(B[1], 4, 4), 0, 4), 1)
        acc = 0
        for s in v.outcomes('no panic, memory safe', ex.call_function(st, need(ex, 'r_desc'), [how, p, size, out, b])):
            v.holds('accepted exactly when hash, scheme and format are known', s.pc, tm.eq(tm.eq(s.retval, 3, 32), ok, 1))
            if s.retval == 3:
                acc += 1
                for i, (nm, x) in enumerate(fields(B)):
                    v.eq(nm, s.pc, s.load(E.addp(out, 4 * i), 4), x, 32)
                got = s.read_vals(b, 3)
                for i, x in enumerate([B[0], B[1], 0]):
                    v.eq('re-encoded byte %d' % i, s.pc, got[i], x, 8)
                v.eq('canary', s.pc, s.load(E.addp(out, 8), 4), 8, 32)
            else:
                v.holds('an error', s.pc, tm.slt(s.retval, 0, 32))
        if not acc:
            v.undecided('decoding', 'no accepting path')
        v = vc.VC('Rust ' + fn, 'any other length')
        vs.append(v)
        st = ex.new_state()
        n = tm.var('n', 64)
        st.assume(tm.ule(n, 1 << 40, 64))
        st.assume(tm.ne(n, size, 64))
        p, _ = xm.symbuf(st, 'in', n)
        out, b = xm.outbuf(st, 'out', 16), xm.outbuf(st, 'b', 8)
        hints = [{'n': k} for k in range(0, 80) if k != size]
        for s in v.outcomes('no panic, memory safe', ex.call_function(st, need(ex, 'r_desc'), [how, p, n, out, b])):
            v.holds('an error', s.pc, tm.slt(s.retval, 0, 32), hints)
        return vs, [ex]
    return go


def rust_encode(ctx):
    ex = ctx.executor(rmods())
    ex.nomerge = True
    vs = []
    for f in range(3):
        v = vc.VC('Rust get_bytes', 'hash %d' % f)
        vs.append(v)
        st = ex.new_state()
        h = tm.var('height', 8)
        st.assume(tm.ule(h, 30, 8))
        st.assume(tm.eq(tm.extract(h, 0, 1), 0, 1))
        out, b = xm.outbuf(st, 'out', 16), xm.outbuf(st, 'b', 8)
        h4 = tm.extract(tm.lshr(h, 1, 8), 0, 4)
        for s in v.outcomes('no panic, memory safe', ex.call_function(st, need(ex, 'r_descmake'), [f, h, out, b])):
            v.eq('three bytes', s.pc, s.retval, 3, 32)
            got = s.read_vals(b, 3)
            for i, x in enumerate([f, tm.zext(h4, 4, 8), 0]):
                v.eq('byte %d' % i, s.pc, got[i], x, 8)
            v.holds('encoded descriptor is accepted', s.pc, valid(got[0]))
            for (nm, x), y in zip(fields(got), (f, 0, tm.zext(h, 8, 32), 0)):
                v.eq('round trip: ' + nm, s.pc, x, y, 32)
            for i, y in enumerate((f, 0, tm.zext(h, 8, 32), 0)):
                v.eq('getter %d' % i, s.pc, s.load(E.addp(out, 4 * i), 4), y, 32)
    return vs, [ex]


def tasks(ctx):
    return [('Rust from_bytes', rust_decode(0, 'from_bytes', 3), 200), ('Rust from_extended_seed', rust_decode(1, 'from_extended_seed', 51), 200),
            ('Rust from_extended_pk', rust_decode(2, 'from_extended_pk', 67), 200), ('Rust get_bytes', rust_encode, 200),
            ('fromBytes', decode('v_from_bytes', 3), 200), ('fromExtendedSeed', decode('v_from_seed', 51), 200),
            ('fromExtendedPK', decode('v_from_pk', 67), 200), ('getBytes', encode, 200)]


def native(ctx):
    return build.native_run(ctx)
