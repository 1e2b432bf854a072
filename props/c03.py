"""C03: hash address setters and byte form, C++ and Rust."""
from dv import build, frame, xm, term as tm, vc, solve, ir
from dv import exec as E

NOTE = 'Proved for every address and value: each C++ and Rust setter changes exactly its words, the byte form is the big-endian concatenation and is injective. Nothing bounded.'
ASSUMPTIONS = ['Rust setters are reached through extern "C" wrappers (native/rustshim.rs) that only forward their arguments',
               'the Rust byte form (addr_to_byte in hash.rs) needs the absent sha2 crate; it is compiled here with the stand-in crate stubs/rust/sha2']

W = 1 << 32
# setter -> (word indices written from the value, cleared words, value width)
SET = {'setLayerADRS': (0, 32), 'setTreeADRS': (1, 64), 'setType': (3, 32), 'setKeyAndMask': (7, 32), 'setOTSADRS': (4, 32),
       'setChainADRS': (5, 32), 'setHashADRS': (6, 32), 'setLtreeADRS': (4, 32), 'setTreeHeight': (5, 32), 'setTreeIndex': (6, 32)}
ORDER = ['setLayerADRS', 'setTreeADRS', 'setType', 'setKeyAndMask', 'setOTSADRS', 'setChainADRS', 'setHashADRS', 'setLtreeADRS', 'setTreeHeight', 'setTreeIndex']


def expected(name, A, x):
    B = list(A)
    if name == 'setTreeADRS':
        B[1], B[2] = tm.extract(x, 32, 32), tm.extract(x, 0, 32)
    elif name == 'setType':
        B[3] = x
        B[4:] = [0] * 4
    else:
        B[SET[name][0]] = x
    return B


def setter(v, ex, name, call):
    st = ex.new_state()
    ad, A = xm.addrbuf(st)
    w = SET[name][1]
    x = tm.var('value', w)
    for s in v.outcomes('memory safe and returns', call(st, ad, x)):
        want = expected(name, A, x)
        for i in range(8):
            v.eq('word %d' % i, s.pc, s.load(E.addp(ad, 4 * i), 4), want[i], 32)
        if name == 'setOTSADRS':
            v.eq('canary', s.pc, s.load(E.addp(ad, 16), 4), A[4], 32)


def cpp(ctx):
    mods = build.modules(['xmss-alt/hash_address.c', 'xmss-alt/hash.c', 'xmss-alt/xmss_common.c'])
    ex = ctx.executor(mods)
    vs = []
    for name in ORDER:
        v = vc.VC(name, 'C++')
        vs.append(v)
        g = frame.fn(ex, name)
        setter(v, ex, name, lambda st, ad, x: ex.call_function(st, g, [ad, x]))
    v = vc.VC('addr_to_byte', 'C++')
    vs.append(v)
    st = ex.new_state()
    out = xm.outbuf(st, 'bytes', 32)
    ad, A = xm.addrbuf(st)
    st.obj(ad, True).ro = True
    for s in v.outcomes('memory safe and returns', ex.call_function(st, frame.fn(ex, 'addr_to_byte'), [out, ad])):
        byteform(v, s, s.bytes_at(out, 32), A)
        r = s.retval
        v.holds('returns the buffer', s.pc, int(r.__class__ is E.Ptr and r.o == out.o and r.f == 0))
    return vs, [ex]


def byteform(v, s, got, A):
    v.bytes('big-endian words', s.pc, got, xm.adrs_bytes(A))
    # injective: equal byte forms have equal words (over the bytes the code produced)
    B = [tm.var('other%d' % i, 32) for i in range(8)]
    mp = {A[i]: B[i] for i in range(8)}
    g = [E.cellbyte(b) for b in got]
    same = tm.conj([tm.eq(b, tm.subst(b, mp) if b.__class__ is tm.T else b, 8) for b in g])
    for i in range(8):
        v.holds('equal bytes have equal word %d' % i, list(s.pc) + [same], tm.eq(A[i], B[i], 32))


def rust(ctx):
    m = ir.parse_file(build.rust_shim_ir(), 'rust', ['r_setaddr', 'r_addrbytes'])
    ex = ctx.executor([m])
    vs = []
    g = [f for f in m.funcs.values() if f.name == 'r_setaddr'][0]
    for i, name in enumerate(ORDER):
        v = vc.VC(name, 'Rust')
        vs.append(v)
        setter(v, ex, name, lambda st, ad, x: ex.call_function(st, g, [i, ad, tm.zext(x, x.w, 64)]))
    v = vc.VC('addr_to_byte', 'Rust')
    vs.append(v)
    st = ex.new_state()
    out, _ = xm.buf(st, 'bytes', 32, ro=False)
    ad, A = xm.addrbuf(st)
    st.obj(ad, True).ro = True
    g = [f for f in m.funcs.values() if f.name == 'r_addrbytes'][0]
    for s in v.outcomes('memory safe and returns', ex.call_function(st, g, [out, ad])):
        byteform(v, s, s.bytes_at(out, 32), A)
    return vs, [ex]


def tasks(ctx):
    return [('C++', cpp, 100), ('Rust', rust, 200)]


def native(ctx):
    return build.native_run(ctx, ['cpp', 'rust'], rust=True)
