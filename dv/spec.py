"""Specification functions, as terms.  Written from FIPS 202 and RFC 8391, not from the code."""
from . import term as tm
from . import loops
from .term import T

RATE = {'shake128': 168, 'shake256': 136}


# ------------------------------------------------------------------ FIPS 202
def _rcs():
    R = 1
    out = []
    for rnd in range(24):
        rc = 0
        for j in range(7):
            R = ((R << 1) ^ ((R >> 7) * 0x71)) % 256
            if R & 2:
                rc ^= 1 << ((1 << j) - 1)
        out.append(rc)
    return out


RCS = _rcs()


def keccak_f(A):
    """Keccak-f[1600] on 25 lanes, lane (x, y) at x + 5 y"""
    for rnd in range(24):
        C = [0] * 5
        for x in range(5):
            for y in range(5):
                C[x] = tm.xor(C[x], A[x + 5 * y], 64)
        D = [tm.xor(C[(x - 1) % 5], tm.rotl(C[(x + 1) % 5], 1, 64), 64) for x in range(5)]
        A = [tm.xor(A[i], D[i % 5], 64) for i in range(25)]
        B = [0] * 25
        B[0] = A[0]
        x, y = 1, 0
        for t in range(24):
            X, Y = y, (2 * x + 3 * y) % 5
            B[X + 5 * Y] = tm.rotl(A[x + 5 * y], ((t + 1) * (t + 2) // 2) % 64, 64)
            x, y = X, Y
        A = [tm.xor(B[x + 5 * y], tm.and_(tm.not_(B[(x + 1) % 5 + 5 * y], 64), B[(x + 2) % 5 + 5 * y], 64), 64)
             for y in range(5) for x in range(5)]
        A[0] = tm.xor(A[0], RCS[rnd], 64)
    return A


def perm_opaque(A):
    ap = tm.mk('app', 1600, ('keccakf', tuple(A)))
    return [tm.mk('lane', 64, (ap, i)) for i in range(25)]


def le(bs):
    r = 0
    n = len(bs)
    for i, b in enumerate(bs):
        r = tm.or_(r, tm.shl(tm.zext(b, 8, 8 * n), 8 * i, 8 * n), 8 * n)
    return r


def lane_bytes(A, n):
    return [tm.extract(A[i // 8], 8 * (i % 8), 8) for i in range(n)]


def shake_absorb(r, arr, q, rem, perm):
    """lanes before the first squeezing permutation, message = q*r + rem bytes of array arr"""
    S = [tm.var('#s%d' % i, 64) for i in range(25)]
    k = tm.var('#k', 64)
    blk = [tm.sel(arr, tm.add(tm.mul(k, r, 64), i, 64)) for i in range(r)]
    X = [tm.xor(S[i], le(blk[8 * i:8 * i + 8]), 64) if i < r // 8 else S[i] for i in range(25)]
    F = tuple(perm(X))
    if q.__class__ is int:
        A = [0] * 25
        for j in range(q):
            b = [tm.sel(arr, j * r + i) for i in range(r)]
            A = perm([tm.xor(A[i], le(b[8 * i:8 * i + 8]), 64) if i < r // 8 else A[i] for i in range(25)])
    else:
        A = [loops.rec(F, (0,) * 25, (64,) * 25, q, i) for i in range(25)]
    base = tm.mul(q, r, 64)
    tail = [tm.sel(arr, tm.add(base, i, 64)) for i in range(rem)] + [0x1f] + [0] * (r - rem - 1)
    tail[r - 1] = tm.xor(tail[r - 1], 0x80, 8)
    return [tm.xor(A[i], le(tail[8 * i:8 * i + 8]), 64) if i < r // 8 else A[i] for i in range(25)]


def squeeze_at(A, perm, j):
    """lanes of the j-th output block (j >= 0)"""
    S = [tm.var('#s%d' % i, 64) for i in range(25)]
    F = tuple(perm(S))
    if j.__class__ is int:
        for _ in range(j):
            A = perm(A)
        return perm(A)
    return perm([loops.rec(F, tuple(A), (64,) * 25, j, i) for i in range(25)])


def shake_out(r, A, L, perm):
    """canonical pieces of L output bytes: whole blocks, then the truncated one"""
    m = tm.var('#m', 64)
    nb = tm.udiv(L, r, 64)
    tl = tm.urem(L, r, 64)
    blocks = ('map', tuple(lane_bytes(squeeze_at(A, perm, m), r)), nb)
    last = lane_bytes(squeeze_at(A, perm, nb), r)
    tail = ('map', (tm.pick(tuple(last), m, 8),), tl)
    return blocks, tail, tl
