"""C01: SHAKE128 / SHAKE256 equal FIPS 202, for every input length and output length."""
from dv import build, frame, spec, xm, term as tm, seq, solve, vc
from dv import exec as E
from dv.exec import Ptr
from props.c04 import need
from props import c08, c17

NOTE = 'Proved for every input and output length: the C++ and the Rust shake128/shake256 (and helpers they call) equal FIPS 202, with memory safety, no panic, and frame (Rust slices longer than the stated lengths included). The vector forms (hashing.cpp, libstdc++ executed) return exactly those bytes, for every length. Differential run against hashlib beside it. Trusts clang, the VC generator dv/ and z3/cvc5.'
ASSUMPTIONS = ['message and output buffers shorter than 2^60 bytes and not overlapping',
               'messages are considered as q*rate + rem bytes: q is arbitrary, every residue rem is a separate obligation']


def keccak_contract(ex, st, a):
    s = a[0]
    lanes = [st.load(E.addp(s, 8 * i), 8) for i in range(25)]
    if any(x is E.U for x in lanes):
        raise E.Viol('uninit', 'permutation of an uninitialised state')
    for i, v in enumerate(spec.perm_opaque(lanes)):
        st.store(E.addp(s, 8 * i), v, 8)
    return None


PERM = 'KeccakF1600_StatePermute'


def prove_keccakf(mods, name):
    def f(ctx):
        ex = ctx.executor(mods)
        fn = frame.fn(ex, name)
        v = vc.VC(fn.name)
        st = ex.new_state()
        s = st.alloc(200, name='state')
        V = [tm.var('s%d' % i, 64) for i in range(25)]
        for i in range(25):
            st.store(Ptr(s.o, 8 * i), V[i], 8)
        args = [s] if len(fn.params) == 1 else [s, 25]
        good = v.outcomes('returns', ex.call_function(st, fn, args))
        want = spec.keccak_f(list(V))
        for g in good:
            for i in range(25):
                v.eq('lane %d equals Keccak-f[1600]' % i, g.pc, g.load(Ptr(s.o, 8 * i), 8), want[i], 64)
            v.eq('canary', g.pc, g.load(Ptr(s.o, 0), 8), tm.xor(want[0], 1, 64), 64)
        return [v], [ex]
    return f


def prove_shake(mods, which, rems, opaque, lang):
    r = spec.RATE[which]

    def f(ctx):
        vs, exs = [], []
        ex = ctx.executor(mods() if lang == 'rust' else mods, {opaque: keccak_contract} if opaque else {})
        ex.summarise = True
        perm = spec.perm_opaque if opaque else spec.keccak_f
        exs.append(ex)
        fn = find_api(ex, which, lang)
        q = tm.var('q', 64)
        L = tm.var('outlen', 64)
        for rem in rems:
            v = vc.VC(fn.name, 'input length = %d (mod %d)' % (rem, r))
            vs.append(v)
            st = ex.new_state()
            st.assume(tm.ult(q, 1 << 50, 64))
            st.assume(tm.ult(L, 1 << 58, 64))
            n = tm.add(tm.mul(q, r, 64), rem, 64)
            xi, xo = (tm.zext(tm.var('longer input', 40), 40, 64), tm.zext(tm.var('longer output', 40), 40, 64)) if lang == 'rust' else (0, 0)
            m = st.alloc(tm.add(n, xi, 64), name='input')
            st.obj(m).sym.log.append(('base', 'm'))
            st.obj(m).ro = True
            size = tm.add(L, xo, 64)
            out = st.alloc(size, name='output')
            if lang == 'rust':
                st.obj(out).sym.log.append(('base', 'o'))
            args = [out, L, m, n] if lang == 'c' else [int(which[5:]), out, size, L, m, tm.add(n, xi, 64), n]
            good = v.outcomes('memory safe and returns', ex.call_function(st, fn, args))
            A = spec.shake_absorb(r, 'm', q, rem, perm)
            blocks, tail, tl = spec.shake_out(r, A, L, perm)
            if not good:
                continue
            # the path conditions of the returning paths cover every output length
            for g in good:
                got = seq.read_range(ex, g, out, L)
                want = [blocks, tail]
                z = solve.prove(g.pc, tm.eq(tl, 0, 64))[0] == 'proved'
                if z:
                    want = [blocks]
                compare(v, g, got, want, blocks, tail)
                if lang == 'rust':
                    v.pieces('rest of the output slice untouched', g.pc, seq.read_range(ex, g, E.addp(out, L), xo), (('seq', 'o', L, xo),))
        return vs, exs
    return f


def compare(v, g, got, want, blocks, tail):
    want = seq.canon(want)
    v.pieces('output bytes', g.pc, got, want)
    if v.sub.startswith('input length = 3 '):
        bad = list(want)
        b = bad[0]
        c = list(b[1])
        c[5] = tm.xor(c[5], 1, 8)
        bad[0] = (b[0], tuple(c), b[2])
        v.pieces('canary', list(g.pc) + [tm.ult(tm.var('outlen', 64), 2000, 64), tm.ult(500, tm.var('outlen', 64), 64), tm.ult(tm.var('q', 64), 5, 64)], got, tuple(bad))


def find_api(ex, which, lang):
    for m in ex.mods:
        for f in m.funcs.values():
            if lang == 'c' and frame.base(f.name) == which and f.linkage != 'internal' and len(f.params) == 4:
                return f
            if lang == 'rust' and f.name == 'r_shakes':
                return f
    raise E.Unsupported('function %s not found' % which)


def rmods():
    from dv import ir
    return [ir.parse_file(build.rust_shim_ir(False), 'rust', ['r_shakes'])]


def vector(which):
    """the vector form returns exactly the C-level hash of its input, for every output and input length"""
    def go(ctx):
        ex = c17.new(ctx)
        v = vc.VC('%s of a vector' % which, 'every length')
        st = ex.new_state()
        out = xm.outbuf(st, 'out', 24)
        p, n, P = c08.symlen(st, 'msg')
        k = tm.var('outlen', 64)
        st.assume(tm.ule(k, c08.BOUND, 64))
        hints = [{'outlen': a, 'msglen': b} for a in (0, 1, 32, 200) for b in (0, 1, 2, 136, 300)]
        other = {'shake128': 'SHAKE256', 'shake256': 'SHAKE128'}[which]
        for s in v.outcomes('memory safe and returns', ex.call_function(st, need(ex, 'v_' + which), [k, p, n, out]), hints=hints):
            v.eq('no exception', s.pc, s.retval, 0, 32, hints)
            if s.retval != 0:
                continue
            ln, got = c17.vec(ex, s, out)
            v.eq('as many bytes as asked for', s.pc, ln, k, 64, hints)
            for name, h in (('bytes of the hash', which.upper()), ('canary', other)):
                if ln.__class__ is int and ln < 16:
                    if ln:
                        v.bytes(name, s.pc, s.read_vals(s.load(out, 8), ln), list(tm.blob_bytes(tm.app(h, (seq.canon(vc.fixlen(s.pc, P)), ln), ln))), hints)
                else:
                    v.pieces(name, s.pc, got, (('hash', h, (seq.canon(vc.fixlen(s.pc, P)),), k),), hints)
        return [v], [ex]
    return go


def tasks(ctx):
    c17.mods()
    mods = build.modules(['xmss-alt/fips202.c'])
    ex = ctx.executor(mods)
    f = frame.fn(ex, PERM, 1)
    t = []
    if f is not None:
        t.append(('KeccakF1600', prove_keccakf(mods, f.name), 120))
    for which in ('shake256', 'shake128'):
        rems = list(range(spec.RATE[which]))
        for i in range(16):
            t.append(('%s %d/16' % (which, i), prove_shake(mods, which, rems[i::16], PERM if f is not None else None, 'c'), 300))
    rm = rmods()
    p = [f.name for m in rm for f in m.funcs.values() if f.name.endswith('keccak_f1600_state_permute') and len(f.params) == 1]
    if p:
        t.append(('Rust KeccakF1600', prove_keccakf(rm, p[0]), 120))
    for which in ('shake256', 'shake128'):
        rems = list(range(spec.RATE[which]))
        for i in range(16):
            t.append(('Rust %s %d/16' % (which, i), prove_shake(rmods, which, rems[i::16], p[0] if p else None, 'rust'), 300))
    return t + [('%s of a vector' % w, vector(w), 100) for w in ('shake128', 'shake256')]


def native(ctx):
    return build.native_run(ctx, ['cpp', 'vectors', 'rust'], rust=True)
