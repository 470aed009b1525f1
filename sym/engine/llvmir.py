"""Parser for textual LLVM IR and translator of its functions to Python source.

Values: integers and pointers are Python ints (or terms.T), aggregates and vectors are tuples.
"""
import re

TOK = re.compile(r'''
  (?P<str>c"(?:[^"\\]|\\.)*")
 |(?P<id>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|0x[0-9A-Fa-f]+)
 |(?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
 |(?P<md>![a-zA-Z0-9_.]*)
 |(?P<attr>\#\d+)
 |(?P<dots>\.\.\.)
 |(?P<q>"(?:[^"\\]|\\.)*")
 |(?P<p>[()\[\]{}<>,=*:|])
 |(?P<ws>\s+)
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        r = m(s, pos)
        if not r:
            raise SyntaxError('token at %r in %r' % (s[pos:pos + 30], s[:200]))
        k = r.lastgroup
        if k != 'ws':
            out.append(r.group())
        pos = r.end()
    return out


class IntT:
    __slots__ = ('n',)

    def __init__(s, n): s.n = n
    def size(s): return 1 << max(0, ((s.n + 7) // 8 - 1)).bit_length() if s.n <= 64 else (16 if s.n <= 128 else (s.n + 7) // 8)
    def align(s): return min(s.size(), 16)
    def __repr__(s): return 'i%d' % s.n


class PtrT:
    n = 64
    def size(s): return 8
    def align(s): return 8
    def __repr__(s): return 'ptr'


class VoidT:
    def __repr__(s): return 'void'


class FloatT:
    def __init__(s, k): s.k = k
    def size(s): return {'half': 2, 'float': 4, 'double': 8, 'x86_fp80': 16, 'fp128': 16}[s.k]
    def align(s): return s.size()
    def __repr__(s): return s.k


class ArrT:
    def __init__(s, n, e): s.cnt = n; s.e = e
    def size(s): return s.cnt * s.e.size()
    def align(s): return s.e.align()
    def offs(s, i): return i * s.e.size()
    def elt(s, i): return s.e
    def __repr__(s): return '[%d x %r]' % (s.cnt, s.e)


class VecT:
    def __init__(s, n, e): s.cnt = n; s.e = e
    def size(s): return (s.cnt * s.e.n + 7) // 8
    def align(s): return s.size()
    def offs(s, i): return i * s.e.size()
    def elt(s, i): return s.e
    def __repr__(s): return '<%d x %r>' % (s.cnt, s.e)


class StructT:
    def __init__(s, fs, packed):
        s.fs = fs
        s.packed = packed
        o = 0
        s.os = []
        al = 1
        for f in fs:
            a = 1 if packed else f.align()
            al = max(al, a)
            o = (o + a - 1) // a * a
            s.os.append(o)
            o += f.size()
        s.sz = (o + al - 1) // al * al
        s.al = al

    def size(s): return s.sz
    def align(s): return s.al
    def offs(s, i): return s.os[i]
    def elt(s, i): return s.fs[i]
    def __repr__(s): return '{%s}' % ','.join(map(repr, s.fs))


PTR = PtrT()
VOID = VoidT()
PARAM_ATTRS = set('''zeroext signext inreg noalias nocapture nofree nest returned nonnull swiftself swiftasync swifterror
immarg noundef nofpclass readnone readonly writeonly dead_on_unwind writable allocalign allocptr dead_on_return inalloca'''.split())
PARAM_ATTRS_ARG = set('align sret byval byref dereferenceable dereferenceable_or_null captures initializes range elementtype preallocated nofpclass memory'.split())
CCS = set('fastcc coldcc ccc tailcc win64cc preserve_mostcc preserve_allcc x86_vectorcallcc'.split())


class P:
    """token cursor"""

    def __init__(s, mod, toks):
        s.m = mod
        s.t = toks
        s.i = 0

    def peek(s, k=0):
        j = s.i + k
        return s.t[j] if j < len(s.t) else None

    def next(s):
        x = s.t[s.i]
        s.i += 1
        return x

    def acc(s, x):
        if s.i < len(s.t) and s.t[s.i] == x:
            s.i += 1
            return True
        return False

    def exp(s, x):
        if s.t[s.i] != x:
            raise SyntaxError('expected %s got %s in %s' % (x, s.t[s.i:s.i + 6], ' '.join(s.t)[:300]))
        s.i += 1

    def skip_parens(s):
        s.exp('(')
        d = 1
        while d:
            x = s.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def type(s):
        x = s.next()
        t = None
        if x == 'ptr':
            if s.peek() == 'addrspace':
                s.next(); s.skip_parens()
            t = PTR
        elif x == 'void':
            t = VOID
        elif x[0] == 'i' and x[1:].isdigit():
            t = IntT(int(x[1:]))
        elif x in ('float', 'double', 'half', 'x86_fp80', 'fp128'):
            t = FloatT(x)
        elif x == '[':
            n = int(s.next()); s.exp('x'); e = s.type(); s.exp(']')
            t = ArrT(n, e)
        elif x == '<':
            if s.peek() == '{':
                s.next()
                fs = s.tlist('}')
                s.exp('>')
                t = StructT(fs, True)
            else:
                n = int(s.next()); s.exp('x'); e = s.type(); s.exp('>')
                t = VecT(n, e)
        elif x == '{':
            t = StructT(s.tlist('}'), False)
        elif x[0] == '%':
            t = s.m.named(x)
        elif x in ('metadata', 'label', 'token', 'opaque'):
            t = VOID
        else:
            raise SyntaxError('type? %s in %s' % (x, ' '.join(s.t)[:300]))
        if s.peek() == '(' and s.fn_ok:
            # function type: ret (args)
            pass
        return t
    fn_ok = False

    def tlist(s, end):
        r = []
        if s.acc(end):
            return r
        while True:
            r.append(s.type())
            if s.acc(end):
                return r
            s.exp(',')

    def param_attrs(s):
        while True:
            x = s.peek()
            if x in PARAM_ATTRS:
                s.next()
            elif x in PARAM_ATTRS_ARG:
                s.next()
                if s.peek() == '(':
                    s.skip_parens()
                else:
                    s.next()
            elif x is not None and x[0] == '"':
                s.next()
                if s.acc('='):
                    s.next()
            else:
                return


def is_agg(t):
    return t.__class__ in (ArrT, StructT, VecT)


class Module:
    def __init__(self, text):
        self.types = {}
        self.type_src = {}
        self.globals = {}     # name -> (line)
        self.funcs = {}       # name -> (header, [lines])
        self.decls = {}
        self.aliases = {}
        self._index(text)
        self.cache = {}

    def _index(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        gre = re.compile(r'^(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$')
        while i < n:
            l = lines[i]
            if l.startswith('define'):
                name = self._fname(l)
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.funcs[name] = (l, lines[i + 1:j])
                i = j + 1
                continue
            if l.startswith('declare'):
                self.decls[self._fname(l)] = l
            elif l.startswith('@'):
                r = gre.match(l)
                if r:
                    if re.search(r'\balias\b', r.group(2).split('"')[0]) and ' global ' not in r.group(2) and ' constant ' not in r.group(2):
                        m = re.search(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)\s*$', r.group(2))
                        if m:
                            self.aliases[r.group(1)] = m.group().strip()
                    else:
                        self.globals[r.group(1)] = r.group(2)
            elif l.startswith('%') and ' = type ' in l:
                a, b = l.split(' = type ', 1)
                self.type_src[a] = b
            i += 1

    @staticmethod
    def _fname(l):
        return re.search(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)(?=\()', l).group()

    def named(self, x):
        t = self.types.get(x)
        if t is None:
            src = self.type_src[x]
            if src.strip() == 'opaque':
                t = VOID
            else:
                t = P(self, tokenize(src)).type()
            self.types[x] = t
        return t


class Const:
    """constant parsing: returns Python source expression"""


def parse_const(p, t, g):
    """parse constant of type t at cursor p -> python expression string.
    g: FnGen-like object giving gaddr(name)."""
    x = p.next()
    if x in ('null', 'zeroinitializer', 'undef', 'poison', 'none'):
        return zero_expr(t)
    if x == 'true':
        return '1'
    if x == 'false':
        return '0'
    if x[0] == '@':
        return g.gaddr(x)
    if x == 'c' or x[0] == 'c' and len(x) > 1 and x[1] == '"':
        return '(' + ','.join(map(str, decode_cstr(x))) + ',)'
    if x in ('[', '{', '<'):
        close = {'[': ']', '{': '}', '<': '>'}[x]
        packed = False
        if x == '<' and p.peek() == '{':
            p.next()
            packed = True
            close = '}'
        vs = []
        if not p.acc(close):
            while True:
                et = p.type()
                vs.append(parse_const(p, et, g))
                if p.acc(close):
                    break
                p.exp(',')
        if packed:
            p.exp('>')
        return '(' + ''.join(v + ',' for v in vs) + ')'
    if x == 'splat':
        p.exp('(')
        et = p.type()
        v = parse_const(p, et, g)
        p.exp(')')
        return '((%s,)*%d)' % (v, t.cnt)
    if x in ('getelementptr',):
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        if p.peek() == 'inrange':
            p.next(); p.skip_parens()
        p.exp('(')
        bt = p.type()
        p.exp(',')
        p.type()
        base = parse_const(p, PTR, g)
        idx = []
        while p.acc(','):
            if p.peek() == 'inrange':
                p.next()
            it = p.type()
            idx.append((it, parse_const(p, it, g)))
        p.exp(')')
        return gep_expr(bt, base, idx)
    if x in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'addrspacecast', 'sext'):
        p.exp('(')
        ft = p.type()
        v = parse_const(p, ft, g)
        p.exp('to')
        tt = p.type()
        p.exp(')')
        if x == 'trunc' or x == 'ptrtoint':
            return '(%s&%d)' % (v, (1 << tt.n) - 1)
        return v
    if x in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
        while p.peek() in ('nuw', 'nsw'):
            p.next()
        p.exp('(')
        ft = p.type(); a = parse_const(p, ft, g); p.exp(',')
        ft = p.type(); b = parse_const(p, ft, g); p.exp(')')
        op = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^'}[x]
        return '((%s%s%s)&%d)' % (a, op, b, (1 << ft.n) - 1)
    if t.__class__ is IntT:
        return str(int(x) & ((1 << t.n) - 1))
    if t.__class__ is FloatT:
        return '0.0'
    if x == 'blockaddress':
        raise SyntaxError('blockaddress')
    raise SyntaxError('const? %r of %r in %s' % (x, t, ' '.join(p.t)[:200]))


def zero_expr(t):
    if t.__class__ in (ArrT, VecT):
        return '((%s,)*%d)' % (zero_expr(t.e), t.cnt)
    if t.__class__ is StructT:
        return '(' + ''.join(zero_expr(f) + ',' for f in t.fs) + ')'
    return '0'


def decode_cstr(x):
    s = x[2:-1]
    out = []
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return out


def gep_expr(bt, base, idx):
    """idx: list of (type, expr). Returns python expr"""
    const = 0
    dyn = []
    t = bt
    for k, (it, e) in enumerate(idx):
        if k == 0:
            sz = bt.size()
        elif t.__class__ is StructT:
            i = int(e)
            const += t.offs(i)
            t = t.elt(i)
            continue
        else:
            sz = t.e.size()
            t = t.e
        if re.fullmatch(r'\d+', e):
            v = int(e)
            if v >> (it.n - 1):
                v -= 1 << it.n
            const += v * sz
        else:
            if it.n < 64:
                e = 'sext(%s,%d,64)' % (e, it.n)
            dyn.append('%s*%d' % (e, sz) if sz != 1 else e)
    s = base
    for d in dyn:
        s += '+' + d
    if const:
        s += '%+d' % const
    if s == base:
        return base
    return '((%s)&18446744073709551615)' % s


FASTFLAGS = set('nuw nsw exact disjoint nneg inbounds nusw samesign fast nnan ninf nsz arcp contract afn reassoc'.split())
BIN = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^'}


class FnGen:
    def __init__(self, mod, name, rt):
        self.m = mod
        self.name = name
        self.rt = rt
        self.vars = {}
        self.ns = {}
        self.used_ext = set()

    def gaddr(self, x):
        return self.rt.gaddr_expr(self.m.aliases.get(x, x))

    def v(self, x):
        n = self.vars.get(x)
        if n is None:
            n = 'v%d' % len(self.vars)
            self.vars[x] = n
        return n

    def val(self, p, t):
        x = p.peek()
        if x[0] == '%':
            p.next()
            return self.v(x)
        return parse_const(p, t, self)

    def tval(self, p):
        t = p.type()
        return t, self.val(p, t)

    def gen(self):
        header, lines = self.m.funcs[self.name]
        # parameters
        p = P(self.m, tokenize(header[header.index(self.name) + len(self.name):]))
        p.exp('(')
        params = []
        if not p.acc(')'):
            k = 0
            while True:
                if p.acc('...'):
                    p.exp(')')
                    break
                p.type()
                p.param_attrs()
                if p.peek() and p.peek()[0] == '%':
                    params.append(self.v(p.next()))
                else:
                    params.append(self.v('%%%d' % k))
                k += 1
                if p.acc(')'):
                    break
                p.exp(',')
        # split into blocks
        blocks = []
        cur = None
        i = 0
        buf = []
        for l in lines:
            if not l or l[0] == ';':
                continue
            c = l[0]
            if c != ' ':
                m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
                if m:
                    cur = ['%' + m.group(1), []]
                    blocks.append(cur)
                    continue
            if cur is None:
                cur = [None, []]
                blocks.append(cur)
            s = l.strip()
            if buf:
                buf.append(s)
                if s.startswith(']'):
                    cur[1].append(' '.join(buf))
                    buf = []
                continue
            if s.startswith('switch') and not s.rstrip().split(', !')[0].endswith(']'):
                buf = [s]
                continue
            cur[1].append(s)
        # merge continuation lines (landingpad/invoke clauses)
        for b in blocks:
            out = []
            for s in b[1]:
                if s.startswith('to label') or s.startswith('catch') or s.startswith('cleanup') or s.startswith('filter'):
                    out[-1] += ' ' + s
                else:
                    out.append(s)
            b[1] = out
        if blocks[0][0] is None:
            blocks[0][0] = '%%%d' % len(params)
        self.bidx = {b[0]: k for k, b in enumerate(blocks)}
        # collect phis
        self.phis = {}
        parsed = []
        for b in blocks:
            ph = []
            rest = []
            for s in b[1]:
                m = re.match(r'^(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (?:tail |notail |musttail )?phi ', s)
                if m:
                    p = P(self.m, tokenize(strip_md(s)))
                    dst = self.v(p.next())
                    p.exp('='); p.exp('phi')
                    while p.peek() in FASTFLAGS:
                        p.next()
                    t = p.type()
                    inc = {}
                    while True:
                        p.exp('[')
                        val = self.val(p, t)
                        p.exp(',')
                        inc[p.next()] = val
                        p.exp(']')
                        if not p.acc(','):
                            break
                    ph.append((dst, inc))
                else:
                    rest.append(s)
            self.phis[b[0]] = ph
            parsed.append((b[0], rest))
        bodies = []
        for bn, rest in parsed:
            self.cur = bn
            out = []
            for s in rest:
                self.inst(s, out)
            bodies.append(out)
        src = ['def F(%s):' % ','.join(params)]
        if len(bodies) == 1:
            src += ['  ' + x for x in bodies[0]]
        else:
            src.append('  b=0')
            src.append('  while 1:')
            self.dispatch(src, bodies, 0, len(bodies), 4)
        return '\n'.join(src)

    def dispatch(self, src, bodies, lo, hi, ind):
        if hi - lo == 1:
            src += [' ' * ind + x for x in bodies[lo]] or [' ' * ind + 'pass']
            return
        mid = (lo + hi) // 2
        src.append(' ' * ind + 'if b<%d:' % mid)
        self.dispatch(src, bodies, lo, mid, ind + 1)
        src.append(' ' * ind + 'else:')
        self.dispatch(src, bodies, mid, hi, ind + 1)

    def goto(self, lbl):
        """list of statements to jump from self.cur to lbl"""
        ph = self.phis[lbl]
        out = []
        if ph:
            ds = [d for d, _ in ph]
            vs = [inc[self.cur] for _, inc in ph]
            out.append('%s=%s' % (','.join(ds), ','.join(vs)))
        out.append('b=%d' % self.bidx[lbl])
        return out

    def inst(self, s, out):
        s = strip_md(s)
        p = P(self.m, tokenize(s))
        dst = None
        if p.peek()[0] == '%' and p.peek(1) == '=':
            dst = self.v(p.next())
            p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        f = getattr(self, 'i_' + op, None)
        if f is not None:
            r = f(p, dst, out)
            if r is not None:
                out.append('%s=%s' % (dst, r))
            return
        if op in BIN:
            while p.peek() in FASTFLAGS:
                p.next()
            t, a = self.tval(p)
            p.exp(',')
            b = self.val(p, t)
            if t.__class__ is VecT:
                m = (1 << t.e.n) - 1
                out.append('%s=tuple([(x%sy)&%d for x,y in zip(%s,%s)])' % (dst, BIN[op], m, a, b))
                return
            m = (1 << t.n) - 1
            if op in ('and', 'or', 'xor'):
                out.append('%s=%s%s%s' % (dst, a, BIN[op], b))
            else:
                out.append('%s=(%s%s%s)&%d' % (dst, a, BIN[op], b, m))
            return
        if op in ('shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            while p.peek() in FASTFLAGS:
                p.next()
            t, a = self.tval(p)
            p.exp(',')
            b = self.val(p, t)
            if t.__class__ is VecT:
                out.append('%s=tuple([%s(x,y,%d) for x,y in zip(%s,%s)])' % (dst, op, t.e.n, a, b))
                return
            if op == 'lshr' and b.isdigit():
                out.append('%s=%s>>%s' % (dst, a, b))
            elif op == 'shl' and b.isdigit():
                out.append('%s=(%s<<%s)&%d' % (dst, a, b, (1 << t.n) - 1))
            else:
                out.append('%s=%s(%s,%s,%d)' % (dst, op, a, b, t.n))
            return
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            while p.peek() in FASTFLAGS:
                p.next()
            t, a = self.tval(p)
            if op == 'freeze':
                out.append('%s=%s' % (dst, a))
                return
            p.exp('to')
            t2 = p.type()
            if t.__class__ is VecT and t2.__class__ is VecT and op in ('zext', 'sext', 'trunc'):
                e = {'zext': 'zx(x,%d)' % t2.e.n, 'sext': 'sext(x,%d,%d)' % (t.e.n, t2.e.n), 'trunc': 'tr(x,%d)' % t2.e.n}[op]
                out.append('%s=tuple([%s for x in %s])' % (dst, e, a))
                return
            if op == 'zext':
                out.append('%s=zx(%s,%d)' % (dst, a, t2.n))
            elif op == 'sext':
                out.append('%s=sext(%s,%d,%d)' % (dst, a, t.n, t2.n))
            elif op == 'trunc':
                out.append('%s=tr(%s,%d)' % (dst, a, t2.n))
            elif op in ('ptrtoint', 'inttoptr'):
                n1, n2 = t.n, t2.n
                if n2 < n1:
                    out.append('%s=tr(%s,%d)' % (dst, a, n2))
                elif n2 > n1:
                    out.append('%s=zx(%s,%d)' % (dst, a, n2))
                else:
                    out.append('%s=%s' % (dst, a))
            else:
                v1 = t.__class__ is VecT
                v2 = t2.__class__ is VecT
                if not v1 and not v2:
                    out.append('%s=%s' % (dst, a))
                else:
                    out.append('%s=vbitcast(%s,%d,%d,%d,%d)' % (dst, a, t.e.n if v1 else 0, t.cnt if v1 else t.n,
                                                               t2.e.n if v2 else 0, t2.cnt if v2 else t2.n))
            return
        out.append('unsupported(%r)' % s[:120])

    def i_icmp(self, p, dst, out):
        while p.peek() in FASTFLAGS:
            p.next()
        c = p.next()
        t, a = self.tval(p)
        p.exp(',')
        b = self.val(p, t)
        if t.__class__ is VecT:
            return 'tuple([%s for x,y in zip(%s,%s)])' % (self.cmp(c, 'x', 'y', t.e.n), a, b)
        return self.cmp(c, a, b, t.n)

    def cmp(self, c, a, b, w):
        if c in ('eq', 'ne', 'ult', 'ule', 'ugt', 'uge'):
            o = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}[c]
            return '+(%s%s%s)' % (a, o, b)
        if c == 'slt':
            return 'slt(%s,%s,%d)' % (a, b, w)
        if c == 'sgt':
            return 'slt(%s,%s,%d)' % (b, a, w)
        if c == 'sge':
            return '1^slt(%s,%s,%d)' % (a, b, w)
        if c == 'sle':
            return '1^slt(%s,%s,%d)' % (b, a, w)
        raise SyntaxError(c)

    def i_select(self, p, dst, out):
        while p.peek() in FASTFLAGS:
            p.next()
        ct, c = self.tval(p)
        p.exp(',')
        t, a = self.tval(p)
        p.exp(',')
        t, b = self.tval(p)
        if ct.__class__ is VecT:
            return 'tuple([sel(c,x,y,%d) for c,x,y in zip(%s,%s,%s)])' % (t.e.n, c, a, b)
        if t.__class__ is IntT:
            return 'sel(%s,%s,%s,%d)' % (c, a, b, t.n)
        if t.__class__ is VecT:
            return 'vsel(%s,%s,%s,%d)' % (c, a, b, t.e.n)
        return '(%s if %s else %s)' % (a, c, b)

    def i_br(self, p, dst, out):
        if p.acc('label'):
            out.extend(self.goto(p.next()))
            return
        t, c = self.tval(p)
        p.exp(','); p.exp('label'); a = p.next()
        p.exp(','); p.exp('label'); b = p.next()
        out.append('if %s:' % c)
        out.extend(' ' + x for x in self.goto(a))
        out.append('else:')
        out.extend(' ' + x for x in self.goto(b))

    def i_switch(self, p, dst, out):
        t, c = self.tval(p)
        p.exp(','); p.exp('label'); d = p.next()
        p.exp('[')
        cases = []
        while not p.acc(']'):
            ct, v = self.tval(p)
            p.exp(','); p.exp('label')
            cases.append((v, p.next()))
        kw = 'if'
        for v, l in cases:
            out.append('%s %s==%s:' % (kw, c, v))
            out.extend(' ' + x for x in self.goto(l))
            kw = 'elif'
        if cases:
            out.append('else:')
            out.extend(' ' + x for x in self.goto(d))
        else:
            out.extend(self.goto(d))

    def i_ret(self, p, dst, out):
        t = p.type()
        if t is VOID:
            out.append('return')
        else:
            out.append('return ' + self.val(p, t))

    def i_unreachable(self, p, dst, out):
        out.append('unreachable(%r)' % self.name)

    def i_resume(self, p, dst, out):
        out.append('unreachable(%r)' % self.name)

    def i_landingpad(self, p, dst, out):
        return 'unreachable("landingpad")'

    def i_alloca(self, p, dst, out):
        p.acc('inalloca')
        t = p.type()
        n = '1'
        while p.acc(','):
            if p.acc('align'):
                p.next()
            else:
                nt, n = self.tval(p)
        sz = t.size() if t is not VOID else 0
        return 'alloca(%d*%s)' % (sz, n) if n != '1' else 'alloca(%d)' % sz

    def ld(self, t, a):
        if t.__class__ is VecT:
            es = t.e.n // 8
            if t.e.n % 8:
                return 'vldbits(%s,%d,%d)' % (a, t.e.n, t.cnt)
            return 'tuple([ld(%s+i,%d) for i in range(0,%d,%d)])' % (a, es, es * t.cnt, es)
        if is_agg(t):
            n = len(t.fs) if t.__class__ is StructT else t.cnt
            return '(' + ''.join(self.ld(t.elt(i), '%s+%d' % (a, t.offs(i))) + ',' for i in range(n)) + ')'
        if t.__class__ is FloatT:
            return 'ld(%s,%d)' % (a, t.size())
        if t.n % 8:
            return 'tr(ld(%s,%d),%d)' % (a, (t.n + 7) // 8, t.n)
        return 'ld(%s,%d)' % (a, t.n // 8)

    def st(self, t, a, v, out):
        if t.__class__ is VecT:
            es = t.e.n // 8
            if t.e.n % 8:
                out.append('vstbits(%s,%s,%d)' % (a, v, t.e.n))
                return
            out.append('for i,x in enumerate(%s): st(%s+i*%d,x,%d)' % (v, a, es, es))
            return
        if is_agg(t):
            n = len(t.fs) if t.__class__ is StructT else t.cnt
            out.append('q_=%s' % v)
            nm = 'q%d_' % len(self.vars)
            self.vars[nm] = nm
            out[-1] = '%s=%s' % (nm, v)
            for i in range(n):
                self.st(t.elt(i), '%s+%d' % (a, t.offs(i)), '%s[%d]' % (nm, i), out)
            return
        if t.__class__ is FloatT:
            out.append('st(%s,%s,%d)' % (a, v, t.size()))
            return
        if t.n % 8:
            v = 'zx(%s,%d)' % (v, (t.n + 7) // 8 * 8)
        out.append('st(%s,%s,%d)' % (a, v, (t.n + 7) // 8))

    def i_load(self, p, dst, out):
        while p.peek() in ('volatile', 'atomic'):
            p.next()
        t = p.type()
        p.exp(',')
        pt, a = self.tval(p)
        return self.ld(t, a)

    def i_store(self, p, dst, out):
        while p.peek() in ('volatile', 'atomic'):
            p.next()
        t, v = self.tval(p)
        p.exp(',')
        pt, a = self.tval(p)
        self.st(t, a, v, out)

    def i_fence(self, p, dst, out):
        out.append('pass')

    def i_cmpxchg(self, p, dst, out):
        while p.peek() in ('volatile', 'weak'):
            p.next()
        pt, a = self.tval(p)
        p.exp(',')
        t, e = self.tval(p)
        p.exp(',')
        t, n = self.tval(p)
        sz = t.size()
        out.append('q_=ld(%s,%d)' % (a, sz))
        out.append('c_=+(q_==%s)' % e)
        out.append('if c_: st(%s,%s,%d)' % (a, n, sz))
        return '(q_,c_)'

    def i_atomicrmw(self, p, dst, out):
        p.acc('volatile')
        op = p.next()
        pt, a = self.tval(p)
        p.exp(',')
        t, v = self.tval(p)
        sz = t.size()
        m = (1 << t.n) - 1
        out.append('q_=ld(%s,%d)' % (a, sz))
        e = {'xchg': '%s', 'add': '(q_+%s)&' + str(m), 'sub': '(q_-%s)&' + str(m), 'and': 'q_&%s', 'or': 'q_|%s', 'xor': 'q_^%s',
             'umax': 'max(q_,%s)', 'umin': 'min(q_,%s)'}[op] % v
        out.append('st(%s,%s,%d)' % (a, e, sz))
        return 'q_'

    def i_getelementptr(self, p, dst, out):
        while p.peek() in FASTFLAGS:
            p.next()
        if p.peek() == 'inrange':
            p.next(); p.skip_parens()
        bt = p.type()
        p.exp(',')
        t, base = self.tval(p)
        idx = []
        while p.acc(','):
            it, e = self.tval(p)
            idx.append((it, e))
        return gep_expr(bt, base, idx)

    def i_extractvalue(self, p, dst, out):
        t, v = self.tval(p)
        while p.acc(','):
            v += '[%s]' % p.next()
        return v

    def i_insertvalue(self, p, dst, out):
        t, v = self.tval(p)
        p.exp(',')
        et, e = self.tval(p)
        path = []
        while p.acc(','):
            path.append(int(p.next()))
        return 'insv(%s,%s,%r)' % (v, e, tuple(path))

    def i_extractelement(self, p, dst, out):
        t, v = self.tval(p)
        p.exp(',')
        it, i = self.tval(p)
        return '%s[%s]' % (v, i)

    def i_insertelement(self, p, dst, out):
        t, v = self.tval(p)
        p.exp(',')
        et, e = self.tval(p)
        p.exp(',')
        it, i = self.tval(p)
        return 'insv(%s,%s,(%s,))' % (v, e, i)

    def i_shufflevector(self, p, dst, out):
        t, a = self.tval(p)
        p.exp(',')
        t, b = self.tval(p)
        p.exp(',')
        mt, m = self.tval(p)
        out.append('q_=%s+%s' % (a, b))
        return 'tuple([q_[i] for i in %s])' % m

    def callargs(self, p):
        args = []
        p.exp('(')
        if p.acc(')'):
            return args
        while True:
            if p.peek() == 'metadata':
                # skip metadata argument
                d = 0
                while not (d == 0 and p.peek() in (',', ')')):
                    x = p.next()
                    d += (x == '(') - (x == ')')
                args.append('0')
            else:
                t = p.type()
                p.param_attrs()
                args.append(self.val(p, t))
            if p.acc(')'):
                return args
            p.exp(',')

    def i_call(self, p, dst, out):
        while p.peek() in FASTFLAGS or p.peek() in CCS:
            p.next()
        p.param_attrs()
        while p.peek() in CCS:
            p.next()
        p.param_attrs()
        if p.peek() == 'range':
            p.next(); p.skip_parens()
        rt = p.type()
        if p.peek() == '(':
            # function type given: skip parameter types (variadic)
            p.skip_parens()
        if p.peek() == 'asm':
            p.next()
            while p.peek() in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'):
                p.next()
            tmpl = p.next()
            p.exp(',')
            cons = p.next()
            args = self.callargs(p)
            e = 'inline_asm(%r,%r,(%s))' % (tmpl, cons, ''.join(a + ',' for a in args))
        else:
            x = p.next()
            if x[0] == '%':
                args = self.callargs(p)
                e = 'icall(%s,%s)' % (self.v(x), ','.join(args)) if args else 'icall(%s)' % self.v(x)
            elif x[0] == '@':
                x = self.m.aliases.get(x, x)
                args = self.callargs(p)
                e = self.rt.call_expr(x, args, rt, self)
                if e is None:
                    out.append('pass')
                    return
            else:
                p.i -= 1
                fp = parse_const(p, PTR, self)
                args = self.callargs(p)
                e = 'icall(%s)' % ','.join([fp] + args)
        if dst is not None:
            return e
        out.append(e)

    def i_invoke(self, p, dst, out):
        n = len(out)
        r = self.i_call(p, dst, out)
        if r is not None:
            out.append('%s=%s' % (dst, r))
        p.acc
        # skip operand bundles / attributes up to 'to'
        while p.peek() != 'to':
            p.next()
        p.next(); p.exp('label')
        out.extend(self.goto(p.next()))


def strip_md(s):
    # remove trailing metadata attachments ", !dbg !123" and comments
    i = s.find(', !')
    while i != -1:
        # make sure not inside quotes
        if s.count('"', 0, i) % 2 == 0:
            return s[:i] + ('' if not s.startswith('switch') else '')
        i = s.find(', !', i + 1)
    return s
