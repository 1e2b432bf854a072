"""Keys and their parts as reported by the real signers."""
import ctypes as C
import hashlib
from dv import ref
from dv.nat import differ


def sha(x):
    return hashlib.sha256(x).digest()


def parts(L, R, rng, thorough):
    for fast in (0, 1):
        for f in (0, 1, 2):
            for h in (4, 6):
                for fmt in (0, rng.randrange(1, 16)):
                    s = rng.randbytes(48)

                    def t():
                        rc, k = L.new(s, h, f, fast, fmt)
                        if rc:
                            return {'got': 'exception'}
                        i = rng.randrange(1 << h)
                        k.setindex(i)
                        sk = k.get('sk')
                        d = bytes([f, fmt << 4 | h // 2, 0])
                        pk = d + sk[100:132] + sk[68:100]
                        a = d + sha(pk)
                        want = {'desc': d, 'pk': pk, 'seed': s, 'eseed': d + s, 'root': sk[100:132], 'pkseed': sk[68:100], 'skseed': sk[4:36], 'skprf': sk[36:68]}
                        if fmt == 0:
                            want['addr'] = a + sha(a)[28:]
                        r = differ(len(sk), 132) or differ((k.index(), sk[:4]), (i, ref.tb(i, 4)), what='index')
                        for n, v in want.items():
                            r = r or differ(k.get(n), v, what=n)
                        r = r or differ([k.num(x) for x in ('height', 'nsig', 'remaining', 'sigsize', 'sksize', 'pksize')], [h, 1 << h, (1 << h) - i, 36 + 67 * 32 + 32 * h, 132, 67], what='numbers')
                        k.free()
                        if r:
                            return r
                        # rebuild from the extended seed
                        rc, k1 = L.new(s, h, f, fast, fmt)
                        rc, k2 = L.new(d + s, 0, 0, 2)
                        if rc:
                            return {'got': 'exception %d from the extended seed' % rc}
                        for n in ('sk', 'pk', 'seed', 'eseed', 'desc') + (('addr',) if fmt == 0 else ()):
                            r = r or differ(k2.get(n), k1.get(n), what=n + ' of the rebuilt signer')
                        r = r or differ(k2.num('height'), h)
                        k1.free()
                        k2.free()
                        return r
                    yield {'fast': fast, 'hash': f, 'height': h, 'format': fmt, 'seed': s.hex()}, t


def refuse(L, R, rng, thorough):
    def lens():
        for fast in (0, 1):
            for n in list(range(0, 48)) + list(range(49, 120)) + [256 + 48, 65536 + 48]:
                rc, k = L.new(bytes(n), 4, 1, fast)
                if rc != 1:
                    return {'got': 'code %d' % rc, 'expected': 'invalid_argument', 'seed length': n, 'fast': fast}
        for n in list(range(0, 51)) + list(range(52, 120)) + [256 + 51]:
            rc, k = L.new((b'\x01\x02\0' + bytes(n))[:n], 0, 0, 2)
            if rc != 1:
                return {'got': 'code %d' % rc, 'expected': 'invalid_argument', 'extended seed length': n}
    yield {'what': 'seed lengths'}, lens

    def heights():
        for fast in (0, 1):
            for h in [0, 1, 2, 3, 5, 7, 9, 11, 13, 15, 17, 19, 21, 23, 25, 27, 29] + list(range(31, 256)):
                rc, k = L.new(bytes(48), h, 1, fast)
                if rc != 1:
                    return {'got': 'code %d' % rc, 'expected': 'invalid_argument', 'height': h, 'fast': fast}
        for b in ([1, 0, 0], [1, 1, 0], [3, 2, 0], [15, 2, 0], [0x11, 2, 0], [0x21, 2, 0], [0xf0, 2, 0]):
            rc, k = L.new(bytes(b) + bytes(48), 0, 0, 2)
            if rc != 1:
                return {'got': 'code %d' % rc, 'expected': 'invalid_argument', 'extended seed descriptor': bytes(b).hex()}
    yield {'what': 'heights'}, heights
    for w in (0, 1, 3, 8, 15, 17, 32, 255, 257, 65536 + 16, 0xffffffff):
        def ww():
            rc, k = L.new(bytes(48), 4, 1, 0, 0, w)
            if rc != 1:
                return {'got': 'code %d' % rc, 'expected': 'invalid_argument'}
        yield {'what': 'unsupported width', 'w': w}, ww


PARTS = ['parts', 'refuse']
