"""C11: index life cycle of the signer objects, from an arbitrary key state."""
from dv import build, frame, xm, term as tm, vc, seq
from dv import exec as E
from props.c04 import need
from props import c08
from props.c07 import be32

NOTE = ('Proved for both signers at every even height 4..30, from an arbitrary secret key (so after any history) and for every 32-bit move target, message and seed: a signature carries '
        'the reported index and the index then grows by one; at 2^h and beyond signing fails and changes nothing; moves are refused or land exactly as stated; only the index bytes change. '
        'Each operation is one induction step over the history. Real wrappers, xmss_Signmsg, xmssfast_Signmsg and xmssfast_update executed; hashes, authentication path and traversal step by contract.')
ASSUMPTIONS = ['key generation by contract with the weakest postcondition: the 132 key bytes are arbitrary',
               'compute_authpath_wots, bds_round, bds_treehash_update by frame contract: they write only their output and the traversal state, never the key (checked by C09, and at fixed heights by C10)',
               'wots_sign, prf, h_msg by contract (C02, C04)', 'operator new/delete and the C++ exception runtime by contract', 'message length below 2^48']


def mods():
    return build.library('tu_base.cpp')


def key():
    return tm.blob_bytes(tm.blobvar('key', 132))


def params(st, par):
    w = xm.get_params(st, par)
    v = [st.load(E.addp(par, 28 + 4 * i), 4) for i in range(3)]
    if v[0] != 32 or v[2] != 2 or v[1] not in range(4, 31, 2):
        raise E.Unsupported('contract needs consistent xmss parameters')
    return w, v[1]


def c_gen(n):
    def c(ex, st, a):
        if len(a) != n:
            raise E.Unsupported('key generation contract: arguments')
        params(st, a[1])
        xm.readb(ex, st, a[-1], 48)
        xm.put(st, a[2], tm.blobvar('pk', 64))
        st.write_bytes(a[3], list(key()))
        return 0
    return c


def c_auth(ex, st, a):
    f, root, out, idx, sk, par, seed, ad = a
    w, h = params(st, par)
    xm.readb(ex, st, sk, 32), xm.readb(ex, st, seed, 32)
    xm.words(st, ad, 3)
    if ex.decide(st, tm.ult(idx, 1 << h, 64)) is not True:
        raise E.Unsupported('authentication path contract: index below 2^h')
    xm.put(st, out, tm.blobvar('auth', 32 * h))
    xm.put(st, root, tm.blobvar('authroot', 32))


def c_bds(n):
    def c(ex, st, a):
        if len(a) != n:
            raise E.Unsupported('traversal contract: arguments')
        f, state, j, sk, par, seed, ad = a
        params(st, par)
        xm.readb(ex, st, sk, 32), xm.readb(ex, st, seed, 32)
        A = tm.blob_bytes(tm.app('BDSADDR', (j,), 32))
        st.write_bytes(ad, list(A))
        return 0
    return c


def new(ctx):
    d = dict(xm.tree_callees())
    d.update({'xmss_Genkeypair': c_gen(5), 'xmssfast_Genkeypair': c_gen(6), 'compute_authpath_wots': c_auth, 'bds_round': c_bds(7), 'bds_treehash_update': c_bds(7)})
    ex = ctx.executor(mods(), d)
    ex.nomerge = True
    ex.max_unroll = 5000
    ex.summarise = True
    return ex


def out(st, name, n):
    p = xm.outbuf(st, name, n)
    b = st.alloc(16, name=name + ' record')
    st.store(b, p, 8)
    st.store(E.addp(b, 8), 0, 8)
    return p, b


NAMES = ('basic', 'fast')


def hints(h):
    n = 1 << h
    out = []
    for i in (0, 1, 2, n - 2, n - 1, n, n + 1, 255, 256, 0xffff, 0x10000, 0xffffff, 0xffffffff):
        if i >> 32 == 0:
            for k in (0, 1, 5):
                out.append({'msglen': k, 'key': tuple(i.to_bytes(4, 'big')) + (7,) * 128})
    return out


def sign(fast, f, w, h):
    def go(ctx):
        ex = new(ctx)
        v = vc.VC('Xmss%s::sign' % NAMES[fast].capitalize(), '%s w=%d h=%d' % (xm.HNAME[f], w, h))
        v.provefirst = True
        st = ex.new_state()
        seed, S = xm.buf(st, 'seed', 48)
        m, ml, M = c08.symlen(st, 'msg')
        K = list(key())
        idx = be32(K[:4])
        N = 1 << h
        size = 36 + xm.WP(w).size + 32 * h
        before, bb = out(st, 'before', 132)
        after, ab = out(st, 'after', 132)
        sig, sb = out(st, 'sig', size)
        ix = xm.outbuf(st, 'idx', 20)
        used = tm.not_(tm.ult(idx, N, 32), 1)
        good = bad = 0
        for s in v.outcomes('memory safe and returns', ex.call_function(st, need(ex, 'v_sign'), [fast, seed, h, f, w, m, ml, bb, ab, ix, sb]), hints=hints(h)):
            rc = s.retval
            v.holds('refused exactly when every index is used', s.pc, tm.eq(tm.eq(rc, 1, 32), used, 1), hints(h))
            v.holds('no other exception', s.pc, tm.ule(rc, 1, 32), hints(h))
            v.eq('index reported before', s.pc, s.load(ix, 4), idx, 32, hints(h))
            v.bytes('key before', s.pc, s.bytes_at(before, 132), K)
            now = tm.add(idx, 1, 32) if rc == 0 else idx
            v.eq('index reported after', s.pc, s.load(E.addp(ix, 4), 4), now, 32, hints(h))
            v.eq('number of signatures', s.pc, s.load(E.addp(ix, 8), 4), N, 32, hints(h))
            v.eq('remaining signatures', s.pc, s.load(E.addp(ix, 12), 4), tm.sub(N, now, 32), 32, hints(h))
            v.bytes('only the index of the key changes', s.pc, s.bytes_at(after, 132), xm.tb32(now, 4) + K[4:], hints(h))
            if rc == 0:
                good += 1
                v.eq('signature size', s.pc, s.load(E.addp(sb, 8), 8), size, 64, hints(h))
                v.bytes('signature carries the index', s.pc, s.bytes_at(sig, 4), K[:4], hints(h))
                if h == 4:
                    v.bytes('canary', s.pc, s.bytes_at(sig, 4), xm.tb32(now, 4), hints(h))
            else:
                bad += 1
                v.eq('no signature', s.pc, s.load(E.addp(sb, 8), 8), 0, 64, hints(h))
        if not good or not bad:
            v.undecided('signing', 'a case is missing (%d successful, %d refused)' % (good, bad))
        return [v], [ex]
    return go


def move(fast, f, w, h):
    def go(ctx):
        ex = new(ctx)
        v = vc.VC('Xmss%s::setIndex' % NAMES[fast].capitalize(), '%s w=%d h=%d' % (xm.HNAME[f], w, h))
        v.provefirst = True
        st = ex.new_state()
        seed, S = xm.buf(st, 'seed', 48)
        K = list(key())
        idx = be32(K[:4])
        to = tm.var('to', 32)
        N = 1 << h
        before, bb = out(st, 'before', 132)
        after, ab = out(st, 'after', 132)
        ix = xm.outbuf(st, 'idx', 20)
        refuse = tm.not_(tm.ult(to, N, 32), 1)
        if fast:
            refuse = tm.or_(refuse, tm.ult(to, idx, 32), 1)
        H = [dict(a, to=t) for a in hints(h)[::3] for t in (0, 1, N - 1, N, N + 1, 255, 256, 0xffffffff, 2 * N, N << 8 & 0xffffffff)]
        good = bad = 0
        for s in v.outcomes('memory safe and returns', ex.call_function(st, need(ex, 'v_move'), [fast, seed, h, f, w, to, bb, ab, ix]), hints=H):
            rc = s.retval
            v.holds('refused exactly as stated', s.pc, tm.eq(tm.eq(rc, 1, 32), refuse, 1), H)
            v.holds('no other exception', s.pc, tm.ule(rc, 1, 32), H)
            v.eq('index reported before', s.pc, s.load(ix, 4), idx, 32, H)
            now = to if rc == 0 else idx
            v.eq('index reported after', s.pc, s.load(E.addp(ix, 4), 4), now, 32, H)
            v.eq('remaining signatures', s.pc, s.load(E.addp(ix, 12), 4), tm.sub(N, now, 32), 32, H)
            v.bytes('only the index of the key changes', s.pc, s.bytes_at(after, 132), xm.tb32(now, 4) + K[4:], H)
            if rc == 0:
                good += 1
                v.eq('returns the new index', s.pc, s.load(E.addp(ix, 16), 4), to, 32, H)
            else:
                bad += 1
        if not good or not bad:
            v.undecided('moving', 'a case is missing (%d successful, %d refused)' % (good, bad))
        return [v], [ex]
    return go


def tasks(ctx):
    mods()
    t = []
    for fast in (0, 1):
        for h in range(4, 31, 2):
            for f in (1, 0, 2) if h in (4, 10) else (1,):
                for w in (16, 2, 4, 256) if h in (4, 10) and f == 1 and not fast else (16,):
                    nm = '%s %s w=%d h=%d' % (NAMES[fast], xm.HNAME[f], w, h)
                    t.append((nm + ' sign', sign(fast, f, w, h), 300))
                    t.append((nm + ' move', move(fast, f, w, h), 300))
    return t


def native(ctx):
    return build.native_run(ctx)
