"""Contents of symbolic-length ranges as canonical piece sequences."""
from . import term as tm
from .term import T


def read_range(ex, st, p, n):
    """pieces for n bytes at p (object of symbolic or concrete size); see canon()"""
    from . import exec as E
    o = st.obj(p)
    if o.sym is None:
        if n.__class__ is not int:
            raise E.Unsupported('symbolic range of a fixed-size object')
        return canon(st.read_vals(p, n))
    f = p.f
    end = tm.add(f, n, 64)
    ex.require(st, tm.and_(tm.ule(f, o.size, 64), tm.ule(n, tm.sub(o.size, f, 64), 64), 1), 'memory', 'read range in bounds of %s' % (o.name or o.kind))
    t = tiling(ex, st, o, f, end)
    if t is not None:
        return canon(t)
    out = []
    cur = f
    log = o.sym.log
    guard = 0
    while True:
        if same(cur, end):
            break
        guard += 1
        if guard > 5000:
            raise E.Unsupported('range read does not terminate')
        hit = None
        for idx in range(len(log) - 1, -1, -1):
            en = log[idx]
            if en[0] == 'fence':
                raise E.Unsupported('read of data written by other iterations')
            if en[0] == 'base':
                hit = (idx, en, None)
                break
            ln = 1 if en[0] == 'b' else en[2]
            if same(en[1], cur):
                hit = (idx, en, ln)
                break
            # strictly inside?
            d = tm.sub(cur, en[1], 64)
            r = ex.decide(st, tm.ult(d, ln, 64)) if not (ln.__class__ is int and d.__class__ is int) else d < ln
            if r is True:
                hit = (idx, en, ln)
                break
            if r is None:
                raise E.Unsupported('ambiguous range read')
        if hit is None and end.__class__ is not int and ex.decide(st, tm.eq(cur, end, 64)) is True:
            break
        if hit is None:
            raise E.Viol('uninit', 'use of uninitialised memory (%s)' % (o.name or o.kind))
        idx, en, ln = hit
        lim = end if ln is None else tm.add(en[1], ln, 64)
        # newer entries that start inside (cur, lim)
        for j in range(idx + 1, len(log)):
            e2 = log[j]
            s2 = e2[1]
            inside = tm.and_(tm.ult(tm.sub(s2, cur, 64), tm.sub(lim, cur, 64), 64), tm.ne(s2, cur, 64), 1)
            r = bool(inside) if inside.__class__ is int else ex.decide(st, inside)
            if r is True:
                lim = s2
            elif r is None:
                raise E.Unsupported('ambiguous range overlap')
        if not same(lim, end):
            over = tm.ult(tm.sub(end, cur, 64), tm.sub(lim, cur, 64), 64)
            r = bool(over) if over.__class__ is int else ex.decide(st, over)
            if r is True:
                lim = end
            elif r is None:
                raise E.Unsupported('ambiguous range end')
        if en[0] == 'dirty':
            raise E.Unsupported('read of data written by other iterations')
        m = tm.sub(lim, cur, 64)
        off = 0 if ln is None else tm.sub(cur, en[1], 64)
        if en[0] == 'b':
            v = E.cellbyte(en[2])
            if v is None:
                raise E.Viol('uninit', 'use of uninitialised memory (%s)' % (o.name or o.kind))
            out.append(v)
        elif en[0] == 'base':
            out.append(('seq', en[1], cur, m))
        elif en[0] == 'map':
            w = en[3]
            if off.__class__ is int and off == 0 and same(m, en[2]):
                out.append(('map', en[4], en[5]))
            else:
                raise E.Unsupported('partial read of a written range')
        elif en[0] == 'cp':
            src = en[4]
            if off.__class__ is int and off == 0 and same(m, en[2]):
                out.extend(src)
            else:
                out.extend(slice_pieces(ex, st, src, off, m))
        cur = lim
    return canon(out)


def tiling(ex, st, o, f, end):
    """pieces when the log is a chain of adjacent entries that covers [f, end) exactly"""
    log = [e for e in o.sym.log]
    if log and log[0][0] == 'base':         # (older than every entry of the chain)
        log = log[1:]
    if not log or len(log) > 64 or any(e[0] in ('fence', 'base', 'dirty') for e in log):
        return None
    out = []
    cur = f
    rest = list(log)
    while rest:
        for i, e in enumerate(rest):
            if same(e[1], cur):
                break
        else:
            return None
        rest.pop(i)
        if e[0] == 'b':
            from . import exec as E
            v = E.cellbyte(e[2])
            if v is None:
                return None
            out.append(v)
            cur = tm.add(cur, 1, 64)
        elif e[0] == 'map':
            out.append(('map', e[4], e[5]))
            cur = tm.add(cur, e[2], 64)
        else:
            out.extend(e[4])
            cur = tm.add(cur, e[2], 64)
    if not same(cur, end) and ex.decide(st, tm.eq(cur, end, 64)) is not True:
        return None
    return out


def piece_len(p):
    if p.__class__ is tuple:
        if p[0] in ('seq', 'hash'):
            return p[3]
        if p[0] == 'map':
            return tm.mul(p[2], len(p[1]), 64)
        if p[0] == 'fill':
            return p[2]
    if p.__class__ is T and p.w > 8 or p.__class__ is T and p.op in ('app', 'cat', 'bite'):
        return p.w // 8
    return 1


def total(ps):
    r = 0
    for p in ps:
        r = tm.add(r, piece_len(p), 64)
    return r


def slice_pieces(ex, st, src, off, m):
    from . import exec as E
    out = []
    pos = 0
    end = tm.add(off, m, 64)
    for p in src:
        ln = piece_len(p)
        nxt = tm.add(pos, ln, 64)

        def dec(c):
            if c.__class__ is int:
                return bool(c)
            r = ex.decide(st, c)
            if r is None:
                raise E.Unsupported('ambiguous slice')
            return r
        if dec(tm.ule(nxt, off, 64)) or dec(tm.ule(end, pos, 64)):
            pos = nxt
            continue

        def pick(x, y):
            c = tm.ult(x, y, 64)
            r = bool(c) if c.__class__ is int else ex.decide(st, c)
            return r if r is not None else dec(tm.ule(x, y, 64))
        a = off if pick(pos, off) else pos
        b = end if pick(end, nxt) else nxt
        if same(a, pos) and same(b, nxt):
            out.append(p)
        elif p.__class__ is tuple and p[0] == 'seq':
            out.append(('seq', p[1], tm.add(p[2], tm.sub(a, pos, 64), 64), tm.sub(b, a, 64)))
        elif p.__class__ is tuple and p[0] == 'fill':
            out.append(('fill', p[1], tm.sub(b, a, 64)))
        elif p.__class__ is T and a.__class__ is int and b.__class__ is int and pos.__class__ is int:
            out.extend(tm.blob_bytes(p)[a - pos:b - pos])
        else:
            raise E.Unsupported('slice of a range')
        pos = nxt
    return out


def same(x, y):
    return x is y or (x.__class__ is int and y.__class__ is int and x == y)


M = None


def canon(ps):
    """canonical piece list: blobs collapsed, contiguous source bytes joined, short known lengths expanded"""
    flat = []
    for p in ps:
        if p.__class__ is tuple and p[0] == 'map':
            p = mapcanon(p)
        if p.__class__ is tuple:
            ln = piece_len(p)
            if ln.__class__ is int and ln <= 4096:
                if ln == 0:
                    continue
                if p[0] == 'hash':
                    flat.extend(tm.blob_bytes(tm.app(p[1], p[2] + (ln,), ln)))
                elif p[0] == 'seq':
                    flat.extend(tm.sel(p[1], tm.add(p[2], i, 64)) for i in range(ln))
                elif p[0] == 'fill':
                    flat.extend([p[1]] * ln)
                else:
                    w = len(p[1])
                    for i in range(ln):
                        flat.append(tm.subst(p[1][i % w], {tm.var('#m', 64): i // w}) if p[1][i % w].__class__ is T else p[1][i % w])
                continue
            flat.append(p)
        elif p.__class__ is T and (p.w > 8 or p.op in ('app', 'cat', 'bite')):
            flat.extend(tm.blob_bytes(p))
        else:
            flat.append(p)
    # join sequences: seq followed by seq / byte of the same array
    out = []
    for p in flat:
        if out:
            q = out[-1]
            if q.__class__ is tuple and q[0] == 'seq':
                qe = tm.add(q[2], q[3], 64)
                if p.__class__ is tuple and p[0] == 'seq' and p[1] == q[1] and same(p[2], qe):
                    out[-1] = ('seq', q[1], q[2], tm.add(q[3], p[3], 64))
                    continue
                if p.__class__ is T and p.op == 'sel' and p.a[0] == q[1] and same(p.a[1], qe):
                    out[-1] = ('seq', q[1], q[2], tm.add(q[3], 1, 64))
                    continue
            elif p.__class__ is tuple and p[0] == 'seq':
                # pull preceding bytes of the same array in
                st = p[2]
                n = 0
                while out and out[-1].__class__ is T and out[-1].op == 'sel' and out[-1].a[0] == p[1] and \
                        same(tm.add(out[-1].a[1], n + 1, 64), tm.add(st, 0, 64)):
                    n += 1
                    out.pop()
                if n:
                    p = ('seq', p[1], tm.sub(st, n, 64), tm.add(p[3], n, 64))
        if p.__class__ is tuple and p[0] == 'map' and len(out) >= len(p[1]):
            # absorb peeled first repetitions
            w = len(p[1])
            m = tm.var('#m', 64)
            while len(out) >= w:
                prev = [tm.subst(c, {m: M64}) if c.__class__ is T else c for c in p[1]]
                if not all(same(a, b) for a, b in zip(out[-w:], prev)):
                    break
                del out[-w:]
                mm = tm.sub(m, 1, 64)
                p = ('map', tuple(tm.subst(c, {m: mm}) if c.__class__ is T else c for c in p[1]), tm.add(p[2], 1, 64))
                if all(c.__class__ is int for c in p[1]):
                    break
        out.append(p)
    return collapse(out)


M64 = (1 << 64) - 1


def collapse(bs):
    out = []
    i = 0
    n = len(bs)
    while i < n:
        b = bs[i]
        if b.__class__ is T and b.op == 'byte' and b.a[1] == 0:
            B = b.a[0]
            k = B.w // 8
            if i + k <= n and list(bs[i:i + k]) == tm.blob_bytes(B):
                out.append(B)
                i += k
                continue
        out.append(b)
        i += 1
    return tuple(out)


def mapcanon(p):
    """('map', cells, K): recognise a copy of a source range"""
    cells, K = p[1], p[2]
    w = len(cells)
    m = tm.var('#m', 64)
    c0 = cells[0]
    if c0.__class__ is T and c0.op == 'sel':
        arr, i0 = c0.a
        st = tm.subst(i0, {m: 0}) if i0.__class__ is T else i0
        for t, c in enumerate(cells):
            if not (c.__class__ is T and c.op == 'sel' and c.a[0] == arr and
                    same(c.a[1], tm.add(tm.add(st, t, 64), tm.mul(m, w, 64), 64))):
                return p
        return ('seq', arr, st, tm.mul(K, w, 64))
    if all(c.__class__ is int and c == c0 for c in cells):
        return ('fill', c0, tm.mul(K, w, 64))
    return p
