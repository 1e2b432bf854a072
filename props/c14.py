"""C14: addresses are descriptor, key hash and checksum; the check accepts exactly those strings."""
from dv import build, frame, xm, term as tm, vc, seq
from dv import exec as E
from props.c04 import need
from props.c13 import valid, mods

NOTE = ('Proved for keys and address candidates of every length and content, on the C++ headers compiled with libstdc++ (vector code executed, not modelled): '
        'derivation, refusal of unsupported keys, exact acceptance set, totality, acceptance of derived addresses. SHA-256 is an opaque function of its exact input bytes '
        '(the PicoSHA2 submodule is absent here). Bounded differential run beside it.')
ASSUMPTIONS = ['SHA-256 is an opaque function of the bytes handed to picosha2::hash256 (deps/PicoSHA2 is empty here; /verif/stubs supplies its interface)',
               'operator new/delete, memmove and the C++ exception runtime by contract']


def sha(ps):
    return tm.app('SHA256', (seq.canon(ps), 32), 32)


def prim(ex, st, a):
    out, p, ln = a
    xm.put(st, out, sha(xm.readb(ex, st, p, ln)))


def new(ctx):
    ex = ctx.executor(mods(), {'verif_sha256': prim})
    ex.nomerge = True
    return ex


def supported(B):
    return tm.and_(valid(B[0]), tm.eq(tm.extract(B[1], 4, 4), 0, 4), 1)


def spec(B):
    """address of the 67 key bytes B"""
    a = [B[0], B[1], 0] + list(tm.blob_bytes(sha(B)))
    return a + list(tm.blob_bytes(sha(a)))[28:]


def derive(ctx):
    ex = new(ctx)
    v = vc.VC('getAddress', '67-byte key')
    st = ex.new_state()
    p, B = xm.buf(st, 'pk', 67)
    out, n = xm.outbuf(st, 'out', 64), xm.outbuf(st, 'n', 8)
    want = spec(B)
    done = False
    for s in v.outcomes('memory safe and returns', ex.call_function(st, need(ex, 'v_address'), [p, 67, out, n])):
        v.holds('refused exactly when the descriptor is not supported', s.pc, tm.eq(tm.eq(s.retval, 1, 32), tm.not_(supported(B), 1), 1))
        v.holds('no other exception', s.pc, tm.ule(s.retval, 1, 32))
        if s.retval == 0:
            done = True
            v.eq('39 bytes', s.pc, s.load(n, 8), 39, 64)
            got = s.read_vals(out, 39)
            v.bytes('descriptor, SHA-256 of the key, checksum', s.pc, got, want)
            v.bytes('canary', s.pc, got[:35], [B[0], B[1], B[2]] + list(tm.blob_bytes(sha(B[:66]))))
            v.holds('a derived address is accepted (by the acceptance proof)', s.pc, accepts(got))
    if not done:
        v.undecided('derivation', 'no accepting path')
    return [v], [ex]


def accepts(B):
    d = list(tm.blob_bytes(sha(B[:35])))
    r = supported(B)
    for i in range(4):
        r = tm.and_(r, tm.eq(B[35 + i], d[28 + i], 8), 1)
    return r


def short(fn, size, call):
    def go(ctx):
        ex = new(ctx)
        v = vc.VC(fn, 'any other length')
        st = ex.new_state()
        n = tm.var('n', 64)
        st.assume(tm.ule(n, 1 << 40, 64))
        st.assume(tm.ne(n, size, 64))
        p, _ = xm.symbuf(st, 'in', n)
        hints = [{'n': k} for k in range(0, 120) if k != size]
        args, post = call(st)
        for s in v.outcomes('memory safe and returns', ex.call_function(st, need(ex, fn), [p, n] + args)):
            post(v, s, hints)
        return [v], [ex]
    return go


def anykey(st):
    def post(v, s, hints):
        v.eq('refused', s.pc, s.retval, 1, 32, hints)
    return [xm.outbuf(st, 'out', 64), xm.outbuf(st, 'n', 8)], post


def anyaddr(st):
    out = xm.outbuf(st, 'out', 1)

    def post(v, s, hints):
        v.eq('no exception', s.pc, s.retval, 0, 32, hints)
        if s.retval == 0:
            v.eq('not valid', s.pc, s.load(out, 1), 0, 8, hints)
    return [out], post


def check(ctx):
    ex = new(ctx)
    v = vc.VC('addressIsValid', '39 bytes')
    st = ex.new_state()
    p, B = xm.buf(st, 'addr', 39)
    out = xm.outbuf(st, 'out', 1)
    yes = no = 0
    for s in v.outcomes('memory safe and returns', ex.call_function(st, need(ex, 'v_address_valid'), [p, 39, out])):
        v.eq('no exception', s.pc, s.retval, 0, 32)
        if s.retval == 0:
            r = s.load(out, 1)
            v.holds('true exactly for a supported descriptor and the right checksum', s.pc, tm.eq(tm.eq(r, 1, 8), accepts(B), 1))
            v.holds('true or false', s.pc, tm.ule(r, 1, 8))
            v.bytes('argument unchanged', s.pc, s.bytes_at(p, 39), B)
            yes += r != 0
            no += r == 0
    if not yes or not no:
        v.undecided('acceptance', 'no path accepts' if not yes else 'no path rejects')
    return [v], [ex]


def tasks(ctx):
    return [('getAddress', derive, 200), ('getAddress length', short('v_address', 67, anykey), 200),
            ('addressIsValid', check, 200), ('addressIsValid length', short('v_address_valid', 39, anyaddr), 200)]


def native(ctx):
    return build.native_run(ctx)
