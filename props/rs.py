"""The Rust crate's XMSS functions under the contracts of their C++ counterparts.

Rust's ABI for these functions is (hash function: pointer to its byte, slices: pointer and length, ...); the adapters below turn a Rust
argument list into the argument list of the C contract, after checking that each slice is long enough (a shorter one panics).
"""
import re

from dv import build, ir, xm, term as tm
from dv import exec as E

_M = {}
MODULE = {'shake128': 'fips202', 'shake256': 'fips202', 'prf': 'hash', 'h_msg': 'hash', 'hash_f': 'hash', 'hash_h': 'hash', 'core_hash': 'hash', 'addr_to_byte': 'hash',
          'gen_chain': 'wots', 'wots_pkgen': 'wots', 'wots_sign': 'wots', 'wots_pk_from_sig': 'wots', 'expand_seed': 'wots', 'base_w': 'wots',
          'xmss_update_sk': 'algsxmss', 'get_seed': 'algsxmss', 'l_tree': 'xmss_common', 'xmss_verify_sig': 'xmss_common', 'validate_authpath': 'xmss_common', 'to_byte': 'xmss_common',
          'gen_leaf_wots': 'algsxmss', 'xmss_gen_keypair': 'algsxmss', 'xmss_sign_msg': 'algsxmss', 'compute_authpath_wots': 'algsxmss', 'treehash': 'algsxmss'}


def mangled(fn):
    m = MODULE[fn]
    return '%d%s%d%s' % (len(m), m, len(fn), fn)


def mods(*fns):
    """the Rust crate's IR (compiled with stand-ins for the absent crates), restricted to these functions and what they call"""
    if fns not in _M:
        p = build.rust_marked_ir(any(f.startswith(('r_fast', 'r_bds')) for f in fns))
        with open(p, encoding='latin1') as f:
            names = re.findall(r'^define [^@\n]*@([^\s(]+)\(', f.read(), re.M)
        roots = [n for n in names for f in fns if (n == f if f.startswith('r_') else n.endswith(mangled(f)))]
        roots += ['r_layout'] if roots else []
        if not roots:
            raise E.Unsupported('no such Rust function: %s' % (fns,))
        _M[fns] = [ir.parse_file(p, 'rust', roots)]
    return _M[fns]


def warm(*fns):
    """parse before the tasks are forked; a crate that cannot be compiled leaves its tasks undecided"""
    try:
        mods(*fns)
    except (build.BuildError, E.Unsupported):
        pass


def need(ex, fn):
    for m in ex.mods:
        for f in m.funcs.values():
            if f.name == fn if fn.startswith('r_') else f.name.endswith(mangled(fn)):
                return f
    raise E.Unsupported('Rust function %s not found' % fn)


def layout(ex):
    """field offsets as compiled; kept on the executor"""
    g = [f for m in ex.mods for f in m.funcs.values() if f.name == 'r_layout'][0]
    st = ex.new_state()
    b = st.alloc(52, name='layout')
    s, = ex.call_function(st, g, [b])
    v = [s.load(E.addp(b, 4 * i), 4) for i in range(13)]
    if v[7] != 28 or v[12] != 40:
        raise E.Unsupported('parameter structures of another size')
    ex.wots_layout = v[:7]
    ex.xmss_layout = v[8:12]
    return ex


def hf(st, f):
    """&HashFunction"""
    p = st.alloc(1, name='hash function')
    st.store(p, f, 1)
    st.obj(p, True).ro = True
    return p


def _f(st, p):
    f = st.load(p, 1)
    if f.__class__ is not int:
        raise E.Unsupported('contract with an unknown hash function')
    return f


def _long(ex, st, ln, n, what):
    ex.require(st, tm.ule(n, ln, 64), 'precondition', '%s slice long enough' % what)


def contracts(ex, c, *fns):
    """Rust-named contracts for the functions fns; c: the C contracts by C name"""
    d = {}

    def shake(f):
        def go(ex, st, a):
            out, ol, n, p, pl, ln = a
            _long(ex, st, ol, n, 'output'), _long(ex, st, pl, ln, 'input')
            return c[f](ex, st, [out, n, p, ln])
        return go

    def prf(ex, st, a):
        h, out, ol, p, pl, k, kl, n = a
        _long(ex, st, ol, n, 'output'), _long(ex, st, pl, 32, 'input'), _long(ex, st, kl, n, 'key')
        return c['prf'](ex, st, [_f(st, h), out, p, k, n])

    def h_msg(ex, st, a):
        h, out, ol, p, pl, ln, k, kl, keylen, n = a
        _long(ex, st, ol, n, 'output'), _long(ex, st, pl, ln, 'input'), _long(ex, st, kl, keylen, 'key')
        return c['h_msg'](ex, st, [_f(st, h), out, p, ln, k, keylen, n])

    def keyed(nm, m):
        def go(ex, st, a):
            h, out, ol, p, pl, s, sl, ad, n = a
            _long(ex, st, ol, n, 'output'), _long(ex, st, pl, m * n, 'input'), _long(ex, st, sl, n, 'seed')
            return c[nm](ex, st, [_f(st, h), out, p, s, ad, n])
        return go

    def gen_chain(ex, st, a):
        h, out, ol, p, pl, start, steps, par, s, sl, ad = a
        _long(ex, st, ol, 32, 'output'), _long(ex, st, pl, 32, 'input'), _long(ex, st, sl, 32, 'seed')
        return c['gen_chain'](ex, st, [_f(st, h), out, p, start, steps, par, s, ad])

    def size(st, par):
        return xm.WP(xm.get_params(st, par)).size

    def wots_pkgen(ex, st, a):
        h, pk, pl, sk, kl, par, s, sl, ad = a
        _long(ex, st, pl, size(st, par), 'output'), _long(ex, st, kl, 32, 'key'), _long(ex, st, sl, 32, 'seed')
        if pl != size(st, par):
            raise E.Unsupported('output slice of another length than the key')
        return c['wots_pkgen'](ex, st, [_f(st, h), pk, sk, par, s, ad])

    def wots_sign(ex, st, a):
        h, sig, gl, m, ml, sk, kl, par, s, sl, ad = a
        _long(ex, st, gl, size(st, par), 'output'), _long(ex, st, ml, 32, 'digest'), _long(ex, st, kl, 32, 'key'), _long(ex, st, sl, 32, 'seed')
        return c['wots_sign'](ex, st, [_f(st, h), sig, m, sk, par, s, ad])

    def wots_rec(ex, st, a):
        h, pk, pl, sig, gl, m, ml, par, s, sl, ad = a
        _long(ex, st, pl, size(st, par), 'output'), _long(ex, st, gl, size(st, par), 'signature'), _long(ex, st, ml, 32, 'digest'), _long(ex, st, sl, 32, 'seed')
        return c['wots_pkFromSig'](ex, st, [_f(st, h), pk, sig, m, par, s, ad])

    def l_tree(ex, st, a):
        h, par, leaf, ll, pk, pl, s, sl, ad = a
        _long(ex, st, ll, 32, 'leaf'), _long(ex, st, pl, size(st, par), 'public key'), _long(ex, st, sl, 32, 'seed')
        return c['l_tree'](ex, st, [_f(st, h), par, leaf, pk, s, ad])

    A = {'wots_pkgen': wots_pkgen, 'wots_sign': wots_sign, 'wots_pk_from_sig': wots_rec, 'l_tree': l_tree, 'shake128': shake('shake128'), 'shake256': shake('shake256'), 'prf': prf, 'h_msg': h_msg, 'hash_f': keyed('hash_f', 1), 'hash_h': keyed('hash_h', 2),
         'gen_chain': gen_chain}
    for fn in fns:
        for m in ex.mods:
            for name in list(m.funcs) + list(getattr(m, 'decls', ())):
                if name.endswith(mangled(fn)):
                    d[name] = A[fn]
                    ex.alias[fn] = name
    ex.contracts.update(d)
    return ex


TREE = ('shake256', 'prf', 'h_msg', 'hash_h', 'wots_pkgen', 'wots_sign', 'wots_pk_from_sig', 'l_tree')


def executor(ctx, c, fns, callees):
    """an executor over the Rust functions fns in which callees are replaced by the contracts c (given by C name)"""
    ex = ctx.executor(mods(*fns))
    return layout(contracts(ex, c, *callees))
