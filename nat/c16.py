"""Mnemonics of the real code."""
import ctypes as C
from dv.nat import differ, envs


def words(L):
    return [L.call('q_word', i)[1] for i in range(4096)]


def enc(L, R, rng, thorough):
    W = words(L)
    idx = {w: i for i, w in enumerate(W)}

    def lst():
        if len(set(W)) != 4096:
            return {'got': '%d distinct words' % len(set(W)), 'expected': 4096}
        for i, w in enumerate(W):
            if not w or not w.isalnum() or not w.isascii():
                return {'got': 'word %d is %r' % (i, w)}
        if R is not None:
            R.r_word.restype = C.c_size_t
            for i in range(4097):
                o = L.o(64)
                n = R.r_word(C.c_size_t(i), o)
                e = differ(bytes(o)[:n] if n < 64 else None, W[i] if i < 4096 else None, what='Rust word', index=i)
                if e:
                    return e
    yield {'what': 'word list'}, lst

    def mn(d):
        v = [int.from_bytes(d[i:i + 3], 'big') for i in range(0, len(d) // 3 * 3, 3)]
        return b' '.join(W[x >> 12] + b' ' + W[x & 0xfff] for x in v)
    # every word in both halves
    for blk in range(16):
        def t():
            for i in range(256 * blk, 256 * blk + 256):
                j = rng.randrange(4096)
                d = (i << 12 | j).to_bytes(3, 'big')
                rc, r = L.call('q_bin2mn', L.b(d), C.c_size_t(3))
                e = differ((rc, r), (0, W[i] + b' ' + W[j]), bytes=d.hex())
                if e:
                    return e
                d = (j << 12 | i).to_bytes(3, 'big')
                x = W[j] + b' ' + W[i]
                rc, r = L.call('q_mn2bin', L.b(x), C.c_size_t(len(x)))
                e = differ((rc, r), (0, d), words=x.decode())
                if e:
                    return e
        yield {'what': 'words %d..%d' % (256 * blk, 256 * blk + 255)}, t
    for n in list(range(0, 60)) + [96, 99, 300, 3000, 6144, 65538]:
        d = rng.randbytes(n)

        def e():
            rc, r = L.call('q_bin2mn', L.b(d), C.c_size_t(n))
            if n % 3:
                return differ(rc, 1, what='length not a multiple of three')
            q = differ((rc, r), (0, mn(d)))
            if q:
                return q
            x = mn(d)
            rc, r = L.call('q_mn2bin', L.b(x), C.c_size_t(len(x)))
            return differ((rc, r), (0, d), what='decoded')
        yield {'bytes': d.hex()}, e
    for n in (1, 2, 3, 4, 5, 6, 7, 8, 17, 33, 34):
        ws = [rng.choice(W) for _ in range(n)]

        def d():
            x = b' '.join(ws)
            rc, r = L.call('q_mn2bin', L.b(x), C.c_size_t(len(x)))
            if n % 2:
                return differ(rc, 1, what='odd number of words')
            v = 0
            for w in ws:
                v = v << 12 | idx[w]
            q = differ((rc, r), (0, v.to_bytes(n * 3 // 2, 'big')))
            if q:
                return q
            for bad in (b'notaword', b'aba', W[5] + b'x', W[7].upper(), W[9][:-1] if W[9][:-1] not in idx else b'zzzz', b'', W[100].capitalize(), b'\xff', W[3] + b'\0'):
                k = rng.randrange(n)
                if bad in idx:
                    continue
                y = list(ws)
                y[k] = bad
                if bad == b'':
                    y = y[:k] + y[k + 1:]
                z = b' '.join(y)
                rc, r = L.call('q_mn2bin', L.b(z), C.c_size_t(len(z)))
                q = differ(rc, 1, words=z.decode(errors='replace'), what='invalid mnemonic')
                if q:
                    return q
        yield {'words': b' '.join(ws).decode()}, d


def replay(L, R, rng, thorough):
    """the verifier's assignments, as bytes and as words"""
    W = words(L)
    for e in envs():
        t = e.get('third')
        d = bytes.fromhex(e.get('[data]', ''))
        n = min(3 * t, 1 << 16) if t is not None else (len(d) + 2) // 3 * 3
        if d or t is not None:
            d = (d + bytes(n))[:n]

            def enc():
                v = int.from_bytes(d, 'big')
                k = n * 2 // 3
                x = b' '.join(W[(v >> (12 * (k - 1 - i))) & 0xfff] for i in range(k))
                rc, r = L.call('q_bin2mn', L.b(d), C.c_size_t(n))
                q = differ((rc, r), (0, x))
                if q:
                    return q
                rc, r = L.call('q_mn2bin', L.b(x), C.c_size_t(len(x)))
                return differ((rc, r), (0, d), what='decoded')
            yield {'bytes': d.hex()}, enc
        w = bytes.fromhex(e.get('[words]', ''))
        h = e.get('half', e.get('count'))
        k = min(2 * h, 4096) if e.get('half') is not None else len(w) // 4
        if w or h is not None:
            w = (w + bytes(4 * k))[:4 * k]
            toks = [int.from_bytes(w[4 * i:4 * i + 4], 'little') for i in range(k)]

            def dec():
                x = b' '.join(W[i] if i < 4096 else b'notaword' for i in toks)
                rc, r = L.call('q_mn2bin', L.b(x), C.c_size_t(len(x)))
                if k % 2 or any(i > 4095 for i in toks):
                    return differ(rc, 1, what='invalid mnemonic')
                v = 0
                for i in toks:
                    v = v << 12 | i
                return differ((rc, r), (0, v.to_bytes(k * 3 // 2, 'big')))
            yield {'words': toks}, dec


PARTS = ['enc']
RUST = True
