"""Extraction: compiles /repo's current sources to LLVM IR (nothing of the repository is rewritten) and to a native library."""
import os
import re
import subprocess
import tempfile
import shutil
import atexit
import glob
from concurrent.futures import ThreadPoolExecutor
from . import ir

REPO = os.environ.get('DV_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = REPO + '/src'
INC = ['-I' + SRC + '/xmss-alt', '-I' + SRC, '-I' + SRC + '/qrl', '-I' + SRC + '/shasha', '-I' + SRC + '/api', '-I' + HERE + '/stubs', '-I' + REPO + '/deps']
RS = SRC + '/rust_wrapper'


class BuildError(Exception):
    pass


_tmp = None


def tmp():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='dv.')
        pid = os.getpid()

        def rm():
            if os.getpid() == pid:
                shutil.rmtree(_tmp, ignore_errors=True)
        atexit.register(rm)
    return _tmp


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[-3000:]))
    return p.stdout.decode(errors='replace')


PASSES = 'function(sroa,early-cse,simplifycfg)'


def cxx_ir(src, name=None, inc=(), flags=()):
    """path of the IR of one C++ source (repository-relative unless absolute)"""
    path = src if os.path.isabs(src) else os.path.join(SRC, src)
    name = name or os.path.basename(src).replace('.', '_')
    u = '%s.%d' % (name, os.getpid())       # (several processes may compile the same source)
    a = os.path.join(tmp(), u + '.ll')
    o = os.path.join(tmp(), u + '.o.ll')
    run(['clang++', '-x', 'c++', '-std=c++17', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-w', '-S',
         '-emit-llvm'] + list(flags) + list(inc) + INC + [path, '-o', a])
    run(['opt', '-S', '-passes=' + PASSES, a, '-o', o])
    return o


def warm(srcs):
    """parse before the tasks are forked; what cannot be compiled is reported by the tasks"""
    try:
        modules(srcs)
    except BuildError:
        pass


_mods = {}     # parsed once, before the tasks are forked


def modules(srcs):
    """parse several sources (compiled in parallel): list of ir modules in order; item = src or (src, kwargs)"""
    key = repr(srcs)
    if key in _mods:
        return _mods[key]
    items = [(s, {}) if isinstance(s, str) else s for s in srcs]
    with ThreadPoolExecutor(8) as p:
        paths = list(p.map(lambda it: cxx_ir(it[0], **it[1]), items))
    _mods[key] = [ir.parse_file(q, os.path.basename(q).split('.')[0]) for q in paths]
    return _mods[key]


def library(tu, *skip):
    """a driver translation unit with every C++ source of the library that the signers use"""
    s = [x[len(SRC) + 1:] for x in sorted(glob.glob(SRC + '/xmss-alt/*.c')) + sorted(glob.glob(SRC + '/qrl/xmss*.cpp'))]
    return modules([HERE + '/native/' + tu] + [x for x in s if not x.endswith(skip or ('xmssPool.cpp', 'fips202.c'))])


RUST_SMALL = """#![allow(warnings)]
pub mod rust_wrapper {
    #[path = "%(rs)s/errors.rs"]
    pub mod errors;
    pub mod qrl {
        #[path = "%(rs)s/qrl/qrl_address_format.rs"]
        pub mod qrl_address_format;
        #[path = "%(rs)s/qrl/qrl_descriptor.rs"]
        pub mod qrl_descriptor;
        #[path = "%(rs)s/qrl/wordlist.rs"]
        pub mod wordlist;
    }
    pub mod xmss_alt {
        #![allow(non_snake_case)]
        #[path = "%(rs)s/xmss_alt/fips202.rs"]
        pub mod fips202;
        #[path = "%(rs)s/xmss_alt/hash_address.rs"]
        pub mod hash_address;
        #[path = "%(rs)s/xmss_alt/hash_functions.rs"]
        pub mod hash_functions;
    }
}
"""

RUST_FULL = """#![allow(warnings)]
pub mod rust_wrapper {
    #[path = "%(rs)s/errors.rs"]
    pub mod errors;
    #[path = "%(rs)s/qrl/mod.rs"]
    pub mod qrl;
    #[path = "%(rs)s/shasha/mod.rs"]
    pub mod shasha;
    #[path = "%(rs)s/xmss_alt/mod.rs"]
    pub mod xmss_alt;
}
"""

RUST_CRATES = ('sha2', 'rand', 'rayon', 'crossbeam_channel')
RFLAGS = ['--edition', '2021', '-A', 'warnings', '-C', 'opt-level=1', '-C', 'panic=abort', '-C', 'debuginfo=0', '-C', 'overflow-checks=on']


def rust_externs(extra=(), tag=''):
    """the stand-in crates, compiled once per flag set"""
    d = os.path.join(tmp(), 'rsx' + tag)
    if not os.path.isdir(d):
        os.mkdir(d)
        for c in RUST_CRATES:
            run(['rustc'] + RFLAGS + list(extra) + ['--crate-type', 'rlib', '--crate-name', c, HERE + '/stubs/rust/%s.rs' % c, '-o', os.path.join(d, 'lib%s.rlib' % c)])
    return [x for c in RUST_CRATES for x in ('--extern', '%s=%s/lib%s.rlib' % (c, d, c))]


def rust_root(full, shim=True):
    """generated crate root: only names the repository's own module files (and the forwarding shim)"""
    p = os.path.join(tmp(), 'rs_%s.rs' % ('full' if full else 'small'))
    with open(p, 'w') as f:
        f.write((RUST_FULL if full else RUST_SMALL) % {'rs': RS})
        f.write('#[path = "%s/native/rustshim.rs"]\npub mod shim;\n' % HERE)
        if full:
            f.write('#[path = "%s/native/rustshim2.rs"]\npub mod shim2;\n' % HERE)
    return p


RIRFLAGS = ['-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp', '-C', 'codegen-units=1', '-C', 'llvm-args=-unroll-runtime=false -unroll-threshold=0 -rotation-max-header-size=0',
            '--crate-type', 'lib', '--crate-name', 'rsnative']


def rust_shim_ir(full=True):
    """IR of the Rust modules with the extern "C" forwarding functions"""
    o = os.path.join(tmp(), 'rust_%s.ll' % ('full' if full else 'small'))
    if not os.path.exists(o):
        w = '%s.%d' % (o, os.getpid())
        run(['rustc'] + RFLAGS + RIRFLAGS + [rust_root(full), '--emit=llvm-ir', '-o', w] + (rust_externs() if full else []))
        os.rename(w, o)
    return o


NOINLINE = ('core_hash|prf|h_msg|hash_f|hash_h|shake128|shake256|expand_seed|gen_chain|base_w|wots_pkgen|wots_sign|wots_pk_from_sig|l_tree|validate_authpath|xmss_verify_sig|'
            'get_seed|gen_leaf_wots|treehash|compute_authpath_wots|xmss_gen_keypair|xmss_sign_msg|xmss_update_sk')


def rust_marked_ir(fast=False):
    """as rust_shim_ir, from copies of the repository's Rust files in which the functions that have contracts carry #[inline(never)]
    (inserted before `fn NAME` on every run; nothing else is changed)"""
    o = os.path.join(tmp(), 'rust_marked%s.ll' % ('3' if fast else ''))
    if not os.path.exists(o):
        d = '%s.%d' % (os.path.join(tmp(), 'rs_marked%d' % fast), os.getpid())
        shutil.copytree(RS, d)
        for r, _, fs in os.walk(d):
            for n in fs:
                if n.endswith('.rs'):
                    with open(os.path.join(r, n)) as f:
                        t = f.read()
                    u = re.sub(r'(?m)^([ \t]*)((?:pub(?:\([a-z]+\))?[ \t]+)?fn[ \t]+(?:%s)[ \t]*[(<])' % NOINLINE, r'\1#[inline(never)] \2', t)
                    if u != t:
                        with open(os.path.join(r, n), 'w') as f:
                            f.write(u)
        root = d + '.rs'
        with open(root, 'w') as f:
            f.write(RUST_FULL % {'rs': d})
            for m in ('', '2', '3') if fast else ('', '2'):
                f.write('#[path = "%s/native/rustshim%s.rs"]\npub mod shim%s;\n' % (HERE, m, m))
        w = '%s.%d' % (o, os.getpid())
        run(['rustc'] + RFLAGS + RIRFLAGS + [root, '--emit=llvm-ir', '-o', w] + rust_externs())
        os.rename(w, o)
    return o


def rust_lib():
    """shared library of the Rust modules for the native runs; falls back to the modules that need no other crate"""
    out = os.path.join(tmp(), 'librsnative.so')
    if os.path.exists(out):
        return out
    try:
        run(['rustc'] + RFLAGS + ['--crate-type', 'cdylib', '--crate-name', 'rsnative', rust_root(True), '-o', out] + rust_externs())
    except BuildError:
        run(['rustc'] + RFLAGS + ['--crate-type', 'cdylib', '--crate-name', 'rsnative', rust_root(False), '-o', out])
    return out


def native_lib(asan=True):
    """shared library of the repository's C++ sources plus /verif/native/shim.cpp"""
    out = os.path.join(tmp(), 'libqrlnative.so')
    if os.path.exists(out):
        return out
    srcs = sorted(glob.glob(SRC + '/xmss-alt/*.c')) + sorted(glob.glob(SRC + '/qrl/*.cpp')) + sorted(glob.glob(SRC + '/shasha/*.cpp')) + [HERE + '/native/shim.cpp']
    san = ['-fsanitize=address', '-fno-omit-frame-pointer'] if asan else []

    def one(s):
        o = os.path.join(tmp(), 'n_' + os.path.basename(s).replace('.', '_') + '.o')
        shim = s.endswith('/shim.cpp')
        run(['g++', '-x', 'c++', '-std=c++17', '-O1', '-fPIC', '-w', '-pthread', '-c'] + ([] if shim else san) + INC + [s, '-o', o])
        return o
    with ThreadPoolExecutor(8) as p:
        objs = list(p.map(one, srcs))
    run(['g++', '-shared', '-pthread', '-o', out] + san + objs)
    return out


def tall_exe():
    """native/tall.cpp with the repository's tree code; hash.c, wots.c and fips202.c are replaced by cheap stand-ins there; None if it does not build"""
    out = os.path.join(tmp(), 'tall')
    if os.path.exists(out):
        return out
    srcs = [s for s in sorted(glob.glob(SRC + '/xmss-alt/*.c')) + sorted(glob.glob(SRC + '/qrl/*.cpp')) + sorted(glob.glob(SRC + '/shasha/*.cpp')) + [HERE + '/native/tall.cpp']
            if os.path.basename(s) not in ('hash.c', 'wots.c', 'fips202.c')]

    def one(s):
        o = os.path.join(tmp(), 't_' + os.path.basename(s).replace('.', '_') + '.o')
        run(['g++', '-x', 'c++', '-std=c++17', '-O2', '-w', '-pthread', '-c'] + ([] if s.endswith('/tall.cpp') else ['-fsanitize=address']) + INC + [s, '-o', o])
        return o
    try:
        with ThreadPoolExecutor(8) as p:
            objs = list(p.map(one, srcs))
        run(['g++', '-fsanitize=address', '-pthread', '-o', out] + objs)
    except BuildError:
        return None
    return out


def native_run(ctx, parts=None, limit=300, rust=None, case_limit=90):
    from . import nat
    import importlib
    m = importlib.import_module('nat.' + ctx.prop.lower())
    parts = parts or m.PARTS
    rust = getattr(m, 'RUST', False) if rust is None else rust
    lib = native_lib()
    os.environ['DV_TALL'] = (tall_exe() or '') if getattr(m, 'TALL', False) else ''
    rl = None
    what = 'C++ built from /repo with AddressSanitizer'
    fails = []
    if rust:
        try:
            rl = rust_lib()
            what += '; Rust modules built from /repo'
        except BuildError as e:
            what += '; Rust build failed: %s' % str(e)[-300:]
    r = nat.run(ctx.prop, parts, ctx.tier, ctx.seed, lib, rl, limit, case_limit)
    r['what'] = what + '; parts %s; unfinished %s' % (parts, r['unfinished'])
    return r


def native_replay(ctx, envs):
    """runs the verifier's assignments on the real code where the property's native part knows how to"""
    from . import nat
    import importlib
    m = importlib.import_module('nat.' + ctx.prop.lower())
    if not envs or not hasattr(m, 'replay'):
        return {'cases': 0, 'failures': []}
    import json
    p = os.path.join(tmp(), 'envs.json')
    with open(p, 'w') as f:
        json.dump(envs, f, default=str)
    os.environ['DV_ENVS'] = p
    return nat.run(ctx.prop, ['replay'], ctx.tier, ctx.seed, native_lib(), rust_lib() if getattr(m, 'RUST', False) else None, 120, 60)
