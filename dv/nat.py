"""Native runs: the real code, built from /repo, against the reference.  Each case runs in a forked process so that a crash or a hang is a result."""
import ctypes as C
import json
import os
import random
import select
import signal
import subprocess
import sys
import tempfile
import time


class Buf(C.Structure):
    _fields_ = [('p', C.POINTER(C.c_ubyte)), ('n', C.c_size_t)]


EXC = {0: 'returned', 1: 'invalid_argument', 2: 'other std::exception', 3: 'unknown exception'}


class Lib(object):
    """thin ctypes layer; outputs are exactly sized heap buffers (address-sanitised)"""

    def __init__(self, path):
        self.l = C.CDLL(path, mode=C.RTLD_GLOBAL)
        self.l.q_num.restype = C.c_uint64
        self.l.q_index.restype = C.c_uint32
        self.l.q_err.restype = C.c_char_p

    @staticmethod
    def b(x):
        """exactly sized heap copy of x"""
        x = bytes(x)
        return (C.c_ubyte * max(1, len(x)))(*x) if len(x) < 64 else (C.c_ubyte * len(x)).from_buffer_copy(x)

    @staticmethod
    def o(n, fill=0xA5):
        b = (C.c_ubyte * max(1, n))()
        C.memset(b, fill, max(1, n))
        return b

    @staticmethod
    def addr(a):
        return (C.c_uint32 * 8)(*a)

    def call(self, name, *args):
        """function with a Buf result as last argument: (code, bytes or None)"""
        o = Buf()
        rc = getattr(self.l, name)(*(list(args) + [C.byref(o)]))
        if rc:
            return rc, None
        r = C.string_at(o.p, o.n) if o.n else b''
        self.l.q_free(C.byref(o))
        return 0, r

    def shake(self, which, data, n):
        i, o = self.b(data), self.o(n)
        self.l.q_shake(which, o, C.c_size_t(n), i, C.c_size_t(len(data)))
        return bytes(o)[:n], bytes(i)[:len(data)]

    def vec(self, name, data, *args):
        i = self.b(data)
        return self.call(name, i, C.c_size_t(len(data)), *args)

    def new(self, seed, h, f, fast=0, fmt=0, w=16):
        p = C.c_void_p()
        s = self.b(seed)
        rc = self.l.q_new(fast, s, C.c_size_t(len(seed)), C.c_ubyte(h & 255), f, fmt, C.c_uint32(w), C.byref(p))
        return rc, (Signer(self, p) if rc == 0 else None)

    def verify(self, msg, sig, pk, w=16):
        r = C.c_int(-1)
        m, s, p = self.b(msg), self.b(sig), self.b(pk)
        rc = self.l.q_verify(m, C.c_size_t(len(msg)), s, C.c_size_t(len(sig)), p, C.c_size_t(len(pk)), C.c_uint32(w), C.byref(r))
        return EXC[rc] if rc else ('changed its arguments' if r.value & 2 else bool(r.value))


class Signer(object):
    def __init__(self, L, p):
        self.L, self.p = L, p

    def sign(self, m):
        b = self.L.b(m)
        return self.L.call('q_sign', self.p, b, C.c_size_t(len(m)))

    def setindex(self, i):
        r = C.c_uint32(0)
        rc = self.L.l.q_setindex(self.p, C.c_uint32(i), C.byref(r))
        return rc, r.value

    def index(self):
        return self.L.l.q_index(self.p)

    def get(self, what):
        return self.L.call('q_get', self.p, ['sk', 'pk', 'seed', 'eseed', 'root', 'pkseed', 'skseed', 'skprf', 'addr', 'desc'].index(what))[1]

    def num(self, what, w=16):
        return self.L.l.q_num(self.p, ['height', 'nsig', 'remaining', 'sigsize', 'sksize', 'pksize'].index(what), C.c_uint32(w))

    def free(self):
        self.L.l.q_del(self.p)
        self.p = None


def differ(got, want, **kw):
    """None when equal, otherwise a failure description"""
    if got == want:
        return None
    d = dict(kw)

    def s(x):
        if isinstance(x, (bytes, bytearray)):
            return bytes(x).hex() if len(x) <= 80 else '%s... (%d bytes)' % (bytes(x)[:40].hex(), len(x))
        return x if isinstance(x, (int, str, bool, type(None))) else repr(x)[:400]
    d['got'], d['expected'] = s(got), s(want)
    if isinstance(got, (bytes, bytearray)) and isinstance(want, (bytes, bytearray)):
        d['first_difference_at'] = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
    return d


def tall(*args):
    """one run of native/tall.cpp; None when it agrees (or cannot be run)"""
    exe = os.environ.get('DV_TALL')
    if not exe:
        return None
    e = dict((k, v) for k, v in os.environ.items() if k not in ('LD_PRELOAD', 'PYTHONMALLOC'))
    e['ASAN_OPTIONS'] = 'detect_leaks=0'
    p = subprocess.Popen([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
    o, err = p.communicate()
    o, err = o.decode(errors='replace'), err.decode(errors='replace')
    if o.startswith('ok'):
        return None
    if o.startswith('bad'):
        return {'got': o[4:].strip()[:300]}
    if p.returncode == -9:
        return None         # ended from outside (memory ran out)
    i = err.find('ERROR: AddressSanitizer')
    return {'got': 'crash (%d)' % p.returncode, 'output': err[max(i, 0):][:700]}


def envs():
    """assignments of the refuted obligations (see build.native_replay)"""
    with open(os.environ['DV_ENVS']) as f:
        return json.load(f)


def worker(argv):
    """nat.py PROP PART TIER SEED LIB RUSTLIB: runs one part, one JSON line per event"""
    prop, part, tier, seed, lib, rust = argv
    import importlib
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    m = importlib.import_module('nat.' + prop.lower())
    rng = random.Random('%s %s %s' % (prop, part, seed))
    L = Lib(lib)
    R = C.CDLL(rust) if rust != '-' else None
    out = os.fdopen(os.dup(1), 'w', buffering=1)
    os.dup2(2, 1)
    t0 = time.time()
    n = 0
    for desc, thunk in getattr(m, part)(L, R, rng, tier == 'thorough'):
        out.write('C ' + json.dumps(desc, default=str) + '\n')
        out.flush()
        r = thunk()
        n += 1
        if r:
            if r is True:
                r = {}
            r['case'] = desc
            out.write('F ' + json.dumps(r, default=str) + '\n')
            out.flush()
            break
    out.write('D %d\n' % n)
    out.flush()
    os._exit(0)


def cpu(p):
    """processor seconds of a child so far"""
    try:
        with open('/proc/%d/stat' % p.pid) as f:
            x = f.read().rsplit(')', 1)[1].split()
        return (int(x[11]) + int(x[12])) / os.sysconf('SC_CLK_TCK')
    except (IOError, ValueError, IndexError):
        return 0.0


def run(prop, parts, tier, seed, lib, rust, limit, case_limit=90):
    """{'cases', 'failures', 'undone'} over all parts, run concurrently"""
    asan = subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE).stdout.decode().strip()
    env = dict(os.environ)
    cxx = subprocess.run(['gcc', '-print-file-name=libstdc++.so.6'], stdout=subprocess.PIPE).stdout.decode().strip()
    env['LD_PRELOAD'] = asan + ' ' + cxx
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0'
    env['PYTHONMALLOC'] = 'malloc'
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    ps = {}
    res = {'cases': 0, 'failures': [], 'unfinished': []}
    t0 = time.time()
    for part in parts:
        err = tempfile.TemporaryFile()
        p = subprocess.Popen([sys.executable, os.path.abspath(__file__), prop, part, tier, str(seed), lib, rust or '-'], stdout=subprocess.PIPE, stderr=err, env=env)
        ps[p.stdout.fileno()] = [part, p, err, b'', None, 0, time.time(), False, 0.0]
    while ps:
        ready, _, _ = select.select(list(ps), [], [], 1.0)
        now = time.time()
        for fd in list(ps):
            e = ps[fd]
            part, p, err = e[:3]
            end = None
            if fd in ready:
                b = os.read(fd, 65536)
                if b:
                    e[3] += b
                    e[6], e[8] = now, cpu(p)
                    while b'\n' in e[3]:
                        ln, e[3] = e[3].split(b'\n', 1)
                        ln = ln.decode()
                        if ln[0] == 'C':
                            e[4] = json.loads(ln[2:])
                            e[5] += 1
                        elif ln[0] == 'F':
                            res['failures'].append(json.loads(ln[2:]))
                        else:
                            e[7] = True
                    continue
                end = 'exit'
            elif now - e[6] > case_limit and not part.startswith('tall') and (now - e[6] > 2.5 * case_limit or cpu(p) - e[8] > case_limit):
                end = 'hang'     # by processor time: a slow or busy machine is not a hang; a blocked process is one after 2.5 times as long
            elif now - t0 > limit * (2 if tier == "thorough" else 1):
                end = 'limit'
            if end:
                if end != 'exit':
                    p.kill()
                p.stdout.close()
                rc = p.wait()
                del ps[fd]
                res['cases'] += e[5]
                if e[7]:
                    pass
                elif end == 'limit':
                    res['unfinished'].append(part)
                elif end == 'hang':
                    if e[4] is not None:
                        res['failures'].append({'case': e[4], 'got': 'no answer within %d s' % case_limit})
                    else:
                        res['unfinished'].append(part)
                else:
                    err.seek(0)
                    txt = err.read().decode(errors='replace')
                    i = txt.find('ERROR: AddressSanitizer')
                    t = txt[i:i + 700] if i >= 0 else txt[-700:]
                    if rc == -9:
                        res['unfinished'].append(part + ': ended from outside')     # (memory ran out)
                    elif rc < 0 and e[4] is not None or i >= 0:
                        res['failures'].append({'case': e[4], 'got': 'crash (signal %d)' % -rc if rc < 0 else 'crash (exit %d)' % rc, 'output': t})
                    else:
                        res['unfinished'].append(part + ': ' + txt[-500:])
    return res


if __name__ == '__main__':
    worker(sys.argv[1:])
