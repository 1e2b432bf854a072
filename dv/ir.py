"""Parser for textual LLVM IR (as written by clang 18 and rustc's LLVM), enough of it for this code base."""
import re

TOK = re.compile(r'''
    \s+
  | (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]*))
  | (?P<attr>\#[0-9]+)
  | (?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<num>-?0x[0-9A-Fa-f]+|-?[0-9]+\.[0-9]+(?:e[-+][0-9]+)?|-?[0-9]+)
  | (?P<id>[a-zA-Z_][-a-zA-Z0-9_.]*)
  | (?P<p>\.\.\.|[(){}\[\]<>,=*:|&^~?;!-])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise SyntaxError('IR token at %r' % s[pos:pos + 60])
        pos = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group(k)))
    return out


class P(object):
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('eof', '')

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def accept(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise SyntaxError('expected %r got %r near %r' % (v, x, self.t[max(0, self.i - 8):self.i + 5]))


class IRError(Exception):
    pass


PTR = ('ptr',)
VOID = ('void',)


def I(n):
    return ('i', n)


FLOATS = ('double', 'float', 'half', 'x86_fp80', 'fp128')

# attributes with arguments in parentheses are skipped generically
_ATTRWORDS = set('''noundef nonnull noalias nocapture readonly readnone writeonly writable signext zeroext inreg
immarg returned nofree noreturn nounwind nobuiltin allocptr allocalign dead_on_unwind swiftself swifterror nest
noinline cold tail mustprogress willreturn memory initializes captures range dereferenceable dereferenceable_or_null
align sret byval byref preallocated inalloca elementtype alignstack nofpclass dead_on_return initializes noext
speculatable alwaysinline inlinehint optnone optsize minsize uwtable convergent strictfp builtin allocsize allockind'''.split())


def unq(n):
    n = n[1:]
    if n[:1] == '"':
        n = n[1:-1]
    return n


class Module(object):
    def __init__(self, name):
        self.name = name
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.aliases = {}
        self.comdat = set()


class Func(object):
    def __init__(self, name):
        self.name = name
        self.params = []
        self.ret = None
        self.blocks = {}
        self.order = []
        self.linkage = ''
        self.varargs = False
        self.module = None
        self.sret = None


class Ins(object):
    __slots__ = ('op', 'd', 'ty', 'a', 'x')

    def __init__(self, op, d, ty, a, x=None):
        self.op = op
        self.d = d
        self.ty = ty
        self.a = a
        self.x = x

    def __repr__(self):
        return '%s = %s %r %r %r' % (self.d, self.op, self.ty, self.a, self.x)


class Parser(object):
    def __init__(self, text, name='m'):
        self.m = Module(name)
        self.text = text

    # ---- types
    def type(self, p):
        k, v = p.next()
        if k == 'id':
            if v == 'ptr':
                t = PTR
                if p.accept('addrspace'):
                    p.expect('(')
                    p.next()
                    p.expect(')')
            elif v == 'void':
                t = VOID
            elif v in FLOATS:
                t = ('f', v)
            elif re.match(r'i[0-9]+$', v):
                t = ('i', int(v[1:]))
            elif v == 'metadata' or v == 'label' or v == 'token':
                t = (v,)
            elif v == 'target':
                raise IRError('target type')
            else:
                raise SyntaxError('type %r' % v)
        elif k == 'loc':
            t = ('named', unq(v))
        elif v == '[':
            n = int(p.next()[1])
            p.expect('x')
            e = self.type(p)
            p.expect(']')
            t = ('arr', n, e)
        elif v == '<':
            if p.accept('{'):
                es = self.typelist(p, '}')
                p.expect('>')
                t = ('st', tuple(es), True)
            else:
                n = int(p.next()[1])
                p.expect('x')
                e = self.type(p)
                p.expect('>')
                t = ('vec', n, e)
        elif v == '{':
            t = ('st', tuple(self.typelist(p, '}')), False)
        else:
            raise SyntaxError('type token %r' % v)
        # function type
        if p.peek()[1] == '(' and self._fnty(p):
            p.next()
            args = []
            while not p.accept(')'):
                if p.accept('...'):
                    args.append('...')
                else:
                    args.append(self.type(p))
                p.accept(',')
            t = ('fn', t, tuple(args))
        return t

    def _fnty(self, p):
        # a '(' straight after a type is a function type only in call/invoke callee position
        return self.allow_fnty

    allow_fnty = False

    def typelist(self, p, end):
        es = []
        while not p.accept(end):
            es.append(self.type(p))
            p.accept(',')
        return es

    # ---- attributes
    def attrs(self, p):
        """skip parameter / return attributes; returns sret/byval type if met"""
        info = {}
        while True:
            k, v = p.peek()
            if k == 'attr':
                p.next()
                continue
            if k == 'str':
                p.next()
                if p.accept('='):
                    p.next()
                continue
            if k == 'id' and v in _ATTRWORDS:
                p.next()
                if v == 'align' and p.peek()[0] == 'num':
                    p.next()
                    continue
                if p.peek()[1] == '(':
                    if v in ('sret', 'byval'):
                        p.next()
                        info[v] = self.type(p)
                        p.expect(')')
                    else:
                        self.skip_paren(p)
                continue
            return info

    def skip_paren(self, p):
        p.expect('(')
        d = 1
        while d:
            x = p.next()[1]
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
            elif x == '':
                raise SyntaxError('eof')

    # ---- values.  ('reg',name) ('int',v) ('null',) ('undef',) ('glob',name) ('f',v) ('zero',) ('agg',[..]) ('cstr',bytes) ('ce',op,...)
    def value(self, p, ty):
        k, v = p.next()
        if k == 'loc':
            return ('reg', unq(v))
        if k == 'glob':
            return ('glob', unq(v))
        if k == 'num':
            if ty[0] == 'f':
                if v.startswith('0x'):
                    import struct
                    return ('f', struct.unpack('>d', bytes.fromhex(v[2:].zfill(16)))[0])
                return ('f', float(v))
            if v.startswith('0x'):
                return ('int', int(v, 16))
            w = ty[1]
            return ('int', int(v) & ((1 << w) - 1))
        if k == 'id':
            if v == 'true':
                return ('int', 1)
            if v == 'false':
                return ('int', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'none':
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'splat':
                p.expect('(')
                t = self.type(p)
                val = self.value(p, t)
                p.expect(')')
                return ('agg', [(t, val)] * ty[1])
            if v == 'getelementptr':
                while p.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    x = p.next()[1]
                    if x == 'inrange' and p.peek()[1] == '(':
                        self.skip_paren(p)
                p.expect('(')
                base = self.type(p)
                p.expect(',')
                ops = []
                while True:
                    p.accept('inrange')
                    t = self.type(p)
                    ops.append((t, self.value(p, t)))
                    if not p.accept(','):
                        break
                p.expect(')')
                return ('ce', 'gep', base, ops)
            if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'addrspacecast'):
                p.expect('(')
                t = self.type(p)
                val = self.value(p, t)
                p.expect('to')
                t2 = self.type(p)
                p.expect(')')
                return ('ce', 'cast', v, t, val, t2)
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr'):
                while p.peek()[1] in ('nuw', 'nsw'):
                    p.next()
                p.expect('(')
                t = self.type(p)
                a = self.value(p, t)
                p.expect(',')
                t2 = self.type(p)
                b = self.value(p, t2)
                p.expect(')')
                return ('ce', 'bin', v, t, a, b)
            if v == 'blockaddress' or v == 'dso_local_equivalent' or v == 'no_cfi':
                raise IRError(v)
            if v == 'asm':
                return ('asm',)
            raise SyntaxError('value %r' % v)
        if k == 'str':
            return ('cstr', unesc(v))
        if v in ('{', '[', '<'):
            if v == '<' and p.accept('{'):
                end = '}'
                es = self.vallist(p, end)
                p.expect('>')
                return ('agg', es)
            end = {'{': '}', '[': ']', '<': '>'}[v]
            return ('agg', self.vallist(p, end))
        raise SyntaxError('value token %r' % v)

    def vallist(self, p, end):
        es = []
        while not p.accept(end):
            t = self.type(p)
            es.append((t, self.value(p, t)))
            p.accept(',')
        return es

    def tv(self, p):
        t = self.type(p)
        self.attrs(p)
        return t, self.value(p, t)

    # ---- module
    NAME = re.compile(r'@("[^"]*"|[-a-zA-Z$._0-9]+)')

    def reach(self, lines, roots):
        """names of the definitions reachable from roots (by mention)"""
        at = {}
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('define '):
                j = i
                while lines[j] != '}':
                    j += 1
                at[self.NAME.search(l).group(1).strip('"')] = (i, j)
                i = j
            elif l.startswith('@'):
                at[self.NAME.match(l).group(1).strip('"')] = (i, i)
            i += 1
        seen = set()
        todo = list(roots)
        while todo:
            x = todo.pop()
            if x in seen or x not in at:
                continue
            seen.add(x)
            a, b = at[x]
            for l in lines[a:b + 1]:
                todo += [y.strip('"') for y in self.NAME.findall(l)]
        return seen

    def parse(self, roots=None):
        lines = self.text.split('\n')
        keep = self.reach(lines, roots) if roots else None
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i
                body = []
                j += 1
                while lines[j] != '}':
                    body.append(lines[j])
                    j += 1
                if keep is None or self.NAME.search(l).group(1).strip('"') in keep:
                    self.define(l, body)
                i = j + 1
                continue
            if l.startswith('@'):
                if keep is None or self.NAME.match(l).group(1).strip('"') in keep:
                    self.globaldef(l)
            elif l.startswith('%') and ' = type ' in l:
                name, rest = l.split(' = type ', 1)
                if rest.strip() == 'opaque':
                    self.m.types[unq(name)] = None
                else:
                    self.m.types[unq(name)] = self.type(P(tokenize(rest)))
            elif l.startswith('declare '):
                self.declare(l)
            i += 1
        return self.m

    def globaldef(self, l):
        p = P(tokenize(l))
        name = unq(p.next()[1])
        p.expect('=')
        info = {'const': False, 'external': False, 'name': name}
        while True:
            k, v = p.peek()
            if v in ('alias', 'ifunc'):
                p.next()
                t = self.type(p)
                if p.peek()[1] == '(':
                    self.skip_paren(p)
                p.expect(',')
                t2 = self.type(p)
                tgt = self.value(p, t2)
                self.m.aliases[name] = tgt
                return
            if v in ('constant', 'global'):
                p.next()
                info['const'] = v == 'constant'
                break
            if v in ('external', 'extern_weak'):
                info['external'] = True
            p.next()
            if p.peek()[1] == '(':
                self.skip_paren(p)
        t = self.type(p)
        info['type'] = t
        if not info['external']:
            info['init'] = self.value(p, t)
        al = None
        while p.peek()[0] != 'eof':
            if p.accept(',') and p.accept('align'):
                al = int(p.next()[1])
            else:
                p.next()
        info['align'] = al or 1
        self.m.globals[name] = info

    _LINK = set('''private internal available_externally linkonce weak common appending extern_weak linkonce_odr weak_odr external
dso_local dso_preemptable default hidden protected unnamed_addr local_unnamed_addr fastcc ccc coldcc tailcc preserve_mostcc
preserve_allcc preserve_nonecc swiftcc'''.split())

    def header(self, p):
        f = Func('')
        while p.peek()[1] in self._LINK or p.peek()[1] == 'cc':
            v = p.next()[1]
            if v in ('internal', 'private'):
                f.linkage = 'internal'
            elif v in ('linkonce_odr', 'weak_odr', 'linkonce', 'weak'):
                f.linkage = 'odr'
        self.attrs(p)
        f.ret = self.type(p)
        f.name = unq(p.next()[1])
        p.expect('(')
        while not p.accept(')'):
            if p.accept('...'):
                f.varargs = True
                continue
            t = self.type(p)
            info = self.attrs(p)
            nm = None
            if p.peek()[0] == 'loc':
                nm = unq(p.next()[1])
            if nm is None:
                nm = str(len(f.params))
            f.params.append((t, nm, info))
            p.accept(',')
        return f

    def declare(self, l):
        try:
            p = P(tokenize(l))
            p.next()
            f = self.header(p)
            self.m.decls[f.name] = f
        except (SyntaxError, IRError):
            pass

    def define(self, l, body):
        p = P(tokenize(l))
        p.next()
        f = self.header(p)
        f.module = self.m
        # unnamed params are numbered in order with the entry block
        cnt = 0
        ps = []
        for (t, nm, info) in f.params:
            ps.append((t, nm, info))
        f.params = ps
        cur = None
        i = 0
        nb = len(body)
        # entry block label may be implicit
        while i < nb:
            s = body[i]
            i += 1
            c = s.strip()
            if not c or c.startswith(';'):
                continue
            if not s.startswith(' '):
                mm = re.match(r'("(?:[^"])*"|[-a-zA-Z$._0-9]+):', c)
                if mm:
                    lab = mm.group(1)
                    if lab[0] == '"':
                        lab = lab[1:-1]
                    cur = lab
                    f.blocks[cur] = []
                    f.order.append(cur)
                    continue
            if cur is None:
                cur = '<entry>'
                # implicit label is the next number after the numbered params
                num = [int(nm) for (_, nm, _) in f.params if nm.isdigit()]
                cur = str(max(num) + 1) if num else '0'
                f.blocks[cur] = []
                f.order.append(cur)
            # continuation lines
            if c.startswith('switch') and '[' in c and ']' not in c:
                while ']' not in body[i]:
                    c += ' ' + body[i].strip()
                    i += 1
                c += ' ' + body[i].strip()
                i += 1
            if ' invoke ' in ' ' + c and ' unwind label' not in c:
                c += ' ' + body[i].strip()
                i += 1
            if ' landingpad ' in c:
                while i < nb and re.match(r'\s+(cleanup|catch|filter)\b', body[i]):
                    c += ' ' + body[i].strip()
                    i += 1
            if c.startswith('#dbg'):
                continue
            k = c.find(', !')
            if k > 0 and '!"' not in c and 'metadata' not in c:
                c = c[:k]
            if 'metadata' in c and ('llvm.dbg' in c or 'noalias.scope' in c):
                continue
            try:
                f.blocks[cur].append(self.ins(c))
            except (SyntaxError, IRError, ValueError, IndexError, KeyError):
                mm = re.match(r'(%\S+) = ', c)
                f.blocks[cur].append(Ins('unsupported', unq(mm.group(1)) if mm else None, None, [], c))
        self.m.funcs[f.name] = f

    FLAGS = set('nuw nsw exact inbounds nusw fast nnan ninf nsz arcp contract afn reassoc disjoint volatile nneg samesign inrange'.split())

    def flags(self, p):
        fl = set()
        while p.peek()[1] in self.FLAGS:
            v = p.next()[1]
            fl.add(v)
            if v == 'inrange' and p.peek()[1] == '(':
                self.skip_paren(p)
        return fl

    def ins(self, s):
        p = P(tokenize(s))
        d = None
        if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
            d = unq(p.next()[1])
            p.next()
        k, op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            k, op = p.next()
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = self.flags(p)
            t = self.type(p)
            a = self.value(p, t)
            p.expect(',')
            b = self.value(p, t)
            return Ins(op, d, t, [a, b], fl)
        if op == 'fneg':
            self.flags(p)
            t, a = self.tv(p)
            return Ins(op, d, t, [a])
        if op in ('icmp', 'fcmp'):
            self.flags(p)
            pred = p.next()[1]
            t = self.type(p)
            a = self.value(p, t)
            p.expect(',')
            b = self.value(p, t)
            return Ins(op, d, t, [a, b], pred)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'uitofp', 'sitofp', 'fptoui', 'fptosi',
                  'fpext', 'fptrunc', 'addrspacecast', 'ptrtoaddr'):
            self.flags(p)
            t, a = self.tv(p)
            p.expect('to')
            t2 = self.type(p)
            return Ins(op, d, t2, [a], t)
        if op == 'alloca':
            p.accept('inalloca')
            t = self.type(p)
            cnt = None
            al = 1
            while p.accept(','):
                if p.accept('align'):
                    al = int(p.next()[1])
                elif p.accept('addrspace'):
                    self.skip_paren(p)
                else:
                    ct, cv = self.tv(p)
                    cnt = (ct, cv)
            return Ins('alloca', d, t, [], (cnt, al))
        if op == 'load':
            p.accept('atomic')
            self.flags(p)
            t = self.type(p)
            p.expect(',')
            pt, pv = self.tv(p)
            return Ins('load', d, t, [pv])
        if op == 'store':
            p.accept('atomic')
            self.flags(p)
            t, v = self.tv(p)
            p.expect(',')
            pt, pv = self.tv(p)
            return Ins('store', None, t, [v, pv])
        if op == 'getelementptr':
            fl = self.flags(p)
            t = self.type(p)
            p.expect(',')
            ops = []
            while True:
                ops.append(self.tv(p))
                if not p.accept(','):
                    break
            return Ins('gep', d, t, ops, fl)
        if op == 'phi':
            self.flags(p)
            t = self.type(p)
            inc = []
            while True:
                p.expect('[')
                v = self.value(p, t)
                p.expect(',')
                inc.append((v, unq(p.next()[1])))
                p.expect(']')
                if not p.accept(','):
                    break
            return Ins('phi', d, t, inc)
        if op == 'select':
            self.flags(p)
            ct, c = self.tv(p)
            p.expect(',')
            t, a = self.tv(p)
            p.expect(',')
            t2, b = self.tv(p)
            return Ins('select', d, t, [c, a, b], ct)
        if op == 'br':
            if p.accept('label'):
                return Ins('br', None, None, [], unq(p.next()[1]))
            t, c = self.tv(p)
            p.expect(',')
            p.expect('label')
            a = unq(p.next()[1])
            p.expect(',')
            p.expect('label')
            b = unq(p.next()[1])
            return Ins('cbr', None, None, [c], (a, b))
        if op == 'switch':
            t, v = self.tv(p)
            p.expect(',')
            p.expect('label')
            df = unq(p.next()[1])
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct, cv = self.tv(p)
                p.expect(',')
                p.expect('label')
                cases.append((cv[1], unq(p.next()[1])))
            return Ins('switch', None, t, [v], (df, cases))
        if op == 'ret':
            if p.accept('void'):
                return Ins('ret', None, VOID, [])
            t, v = self.tv(p)
            return Ins('ret', None, t, [v])
        if op == 'unreachable':
            return Ins('unreachable', None, None, [])
        if op in ('call', 'invoke'):
            self.flags(p)
            while p.peek()[1] in self._LINK or p.peek()[1] in self.FLAGS:
                p.next()
            self.attrs(p)
            if p.peek()[1] == 'asm':
                raise IRError('asm')
            t = self.type(p)
            # explicit function type:  i32 (ptr, ...) @f(...)
            if p.peek()[1] == '(':
                self.skip_paren(p)
            if p.peek()[1] == 'asm':
                while p.peek()[0] != 'eof':
                    p.next()
                return Ins('call', d, t, [], ('asm', [], None))
            callee = self.value(p, PTR)
            p.expect('(')
            args = []
            while not p.accept(')'):
                at = self.type(p)
                if at[0] == 'metadata':
                    # skip metadata operand
                    while p.peek()[1] not in (',', ')'):
                        if p.peek()[1] == '(':
                            self.skip_paren(p)
                        else:
                            p.next()
                    args.append((at, ('undef',)))
                    p.accept(',')
                    continue
                info = self.attrs(p)
                av = self.value(p, at)
                args.append((at, av))
                p.accept(',')
            if op == 'call':
                return Ins('call', d, t, args, (callee, None, None))
            while p.peek()[1] != 'to':
                if p.peek()[1] == '[':
                    while not p.accept(']'):
                        p.next()
                else:
                    p.next()
            p.next()
            p.expect('label')
            nrm = unq(p.next()[1])
            p.expect('unwind')
            p.expect('label')
            uw = unq(p.next()[1])
            return Ins('call', d, t, args, (callee, nrm, uw))
        if op == 'landingpad':
            t = self.type(p)
            cl = []
            cleanup = p.accept('cleanup')
            while p.peek()[0] != 'eof':
                if p.accept('cleanup'):
                    cleanup = True
                elif p.accept('catch'):
                    ct, cv = self.tv(p)
                    cl.append(cv)
                elif p.accept('filter'):
                    ct, cv = self.tv(p)
                    cl.append(('filter',))
                else:
                    p.next()
            return Ins('landingpad', d, t, [], (cleanup, cl))
        if op == 'resume':
            t, v = self.tv(p)
            return Ins('resume', None, t, [v])
        if op == 'extractvalue':
            t, v = self.tv(p)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()[1]))
            return Ins('extractvalue', d, t, [v], idx)
        if op == 'insertvalue':
            t, v = self.tv(p)
            p.expect(',')
            t2, v2 = self.tv(p)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()[1]))
            return Ins('insertvalue', d, t, [v, v2], (idx, t2))
        if op == 'freeze':
            t, v = self.tv(p)
            return Ins('freeze', d, t, [v])
        if op == 'fence':
            return Ins('nop', None, None, [])
        if op == 'atomicrmw':
            p.accept('volatile')
            rop = p.next()[1]
            pt, pv = self.tv(p)
            p.expect(',')
            t, v = self.tv(p)
            return Ins('atomicrmw', d, t, [pv, v], rop)
        if op == 'cmpxchg':
            p.accept('weak')
            p.accept('volatile')
            pt, pv = self.tv(p)
            p.expect(',')
            t, a = self.tv(p)
            p.expect(',')
            t, b = self.tv(p)
            return Ins('cmpxchg', d, t, [pv, a, b])
        # anything else is kept, and executing it is an unsupported-instruction outcome
        return Ins('unsupported', d, None, [], s)


def unesc(v):
    if v.startswith('c'):
        v = v[1:]
    v = v[1:-1]
    out = bytearray()
    i = 0
    while i < len(v):
        c = v[i]
        if c == '\\':
            if v[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(v[i + 1:i + 3], 16))
                i += 3
        else:
            out += c.encode('latin1')
            i += 1
    return bytes(out)


def parse_file(path, name=None, roots=None):
    with open(path, encoding='latin1') as f:
        return Parser(f.read(), name or path).parse(roots)
