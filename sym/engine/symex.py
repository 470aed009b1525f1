"""Symbolic executor for LLVM IR (see llvmir.py) with re-execution based path exploration."""
import sys, time, re, os
import z3
from . import terms as X
from .terms import T, Blob, Unsupported, blob, bbyte, bbytes
from .llvmir import Module, FnGen, VOID, PTR, StructT, ArrT, VecT, IntT, parse_const, P, tokenize, is_agg, decode_cstr

sys.setrecursionlimit(20000)
M64 = (1 << 64) - 1


class PathEnd(Exception):
    def __init__(self, kind, msg=''):
        self.kind = kind
        self.msg = msg
        Exception.__init__(self, kind, msg)


class Obj:
    __slots__ = ('data', 'sym', 'size', 'ro')

    def __init__(self, data, sym=None):
        self.data = data
        self.sym = sym
        self.size = len(data)
        self.ro = False


class Z3Ctx:
    """translation of terms to z3 with axioms for idealised primitives"""

    def __init__(self):
        self.fns = {}
        self.epoch = 0
        self.pending = []
        self.queries = 0
        self.time = 0.0
        self.stats = {'sat': 0, 'unsat': 0, 'unknown': 0}
        self.hooks = {}          # uf name -> callable(ctx, term) adding axioms
        self.keep = []

    def reset(self):
        self.epoch += 1
        self.pending = []

    def fn(self, name, dom, rng):
        k = (name, tuple(d.sexpr() for d in dom), rng.sexpr())
        f = self.fns.get(k)
        if f is None:
            f = z3.Function(name + '_%d' % len(self.fns), *(list(dom) + [rng]))
            self.fns[k] = f
        return f

    def conv(self, x, w=None):
        if x.__class__ is int:
            return z3.BitVecVal(x, w)
        if x.z is not None and x.z_epoch == self.epoch:
            return x.z
        # iterative post-order to avoid deep recursion
        stack = [x]
        while stack:
            t = stack[-1]
            if t.z is not None and t.z_epoch == self.epoch:
                stack.pop()
                continue
            kids = [y for y in self._kids(t) if not (y.z is not None and y.z_epoch == self.epoch)]
            if kids:
                stack.extend(kids)
                continue
            z = self._conv1(t)
            t.z = z
            t.z_epoch = self.epoch
            stack.pop()
        return x.z

    def _kids(self, t):
        out = []

        def w(y):
            if y.__class__ is T:
                out.append(y)
            elif y.__class__ is tuple:
                for e in y:
                    w(e)
        if t.op == 'byte':
            return out
        if t.op != 'lookup':
            w(t.a)
        else:
            w(t.a[1])
        return out

    def _conv1(self, t):
        op = t.op
        a = t.a
        c = lambda y, w=None: y.z if y.__class__ is T else z3.BitVecVal(y, w if w is not None else t.w)
        if op == 'var':
            return z3.BitVec(a[0], t.w)
        if op == 'byte':
            return z3.BitVec('blob%d_%d' % (a[0].id, a[1]), 8)
        if op == 'cat':
            zs = [c(x, w) for x, w in a]
            zs.reverse()
            return z3.Concat(*zs) if len(zs) > 1 else zs[0]
        if op == 'ext':
            return z3.Extract(a[1] + t.w - 1, a[1], a[0].z)
        if op == 'lin':
            r = None
            for x, k in a[1]:
                if k == 1:
                    e = x.z
                elif k == X.mask(t.w):
                    r = (r - x.z) if r is not None else -x.z
                    continue
                else:
                    e = x.z * z3.BitVecVal(k, t.w)
                r = e if r is None else r + e
            if a[0]:
                r = r + z3.BitVecVal(a[0], t.w)
            return r
        if op == 'mul':
            return c(a[0]) * c(a[1])
        if op == 'xor':
            r = None
            for x in a[1]:
                r = x.z if r is None else r ^ x.z
            if a[0]:
                if a[0] == X.mask(t.w):
                    r = ~r
                else:
                    r = r ^ z3.BitVecVal(a[0], t.w)
            return r
        if op == 'and':
            return c(a[0]) & c(a[1])
        if op == 'or':
            return c(a[0]) | c(a[1])
        one, zero = z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)
        if op == 'eq':
            w = a[0].w if a[0].__class__ is T else a[1].w
            return z3.If(c(a[0], w) == c(a[1], w), one, zero)
        if op == 'ult':
            return z3.If(z3.ULT(c(a[0], a[2]), c(a[1], a[2])), one, zero)
        if op == 'slt':
            return z3.If(c(a[0], a[2]) < c(a[1], a[2]), one, zero)
        if op == 'ite':
            return z3.If(a[0].z == one, c(a[1]), c(a[2]))
        if op == 'sext':
            return z3.SignExt(t.w - a[0].w, a[0].z)
        if op == 'lookup':
            tab, idx = a
            r = None
            iw = idx.w
            # balanced ite tree over index bits
            def tree(lo, n):
                if n == 1:
                    return z3.BitVecVal(tab[lo] if lo < len(tab) else 0, t.w)
                h = n // 2
                if lo + h >= len(tab):
                    return tree(lo, h)
                return z3.If(z3.ULT(idx.z, z3.BitVecVal(lo + h, iw)), tree(lo, h), tree(lo + h, h))
            n = 1
            while n < len(tab):
                n *= 2
            return tree(0, n)
        if op == 'udiv':
            return z3.UDiv(c(a[0]), c(a[1]))
        if op == 'urem':
            return z3.URem(c(a[0]), c(a[1]))
        if op == 'sdiv':
            return c(a[0]) / c(a[1])
        if op == 'srem':
            return z3.SRem(c(a[0]), c(a[1]))
        if op == 'shl':
            return c(a[0]) << c(a[1])
        if op == 'lshr':
            return z3.LShR(c(a[0]), c(a[1]))
        if op == 'ashr':
            return c(a[0]) >> c(a[1])
        raise Unsupported('z3 ' + op)

    def boolean(self, t):
        """term of width 1 -> z3 Bool"""
        if t.__class__ is int:
            return z3.BoolVal(bool(t))
        m = self.bools
        if self.bools_epoch != self.epoch:
            m = self.bools = {}
            self.bools_epoch = self.epoch
        r = m.get(t.id)
        if r is None:
            r = m[t.id] = self._boolean(t)
        return r

    bools = None
    bools_epoch = -1

    def _boolean(self, t):
        if t.op == 'xor' and t.a[0] == 1 and len(t.a[1]) == 1:
            return z3.Not(self.boolean(t.a[1][0]))
        if t.op == 'and' or t.op == 'or':
            # flatten
            op = t.op
            out, seen, st = [], set(), [t]
            while st:
                x = st.pop()
                if x.__class__ is T and x.op == op and x.w == 1:
                    for y in x.a:
                        if y.__class__ is T:
                            if y.id in seen:
                                continue
                            seen.add(y.id)
                        st.append(y)
                else:
                    out.append(self.boolean(x))
            return z3.And(*out) if op == 'and' else z3.Or(*out)
        if t.op == 'eq':
            x, y = t.a
            w = x.w if x.__class__ is T else y.w
            return self.conv(x, w) == self.conv(y, w)
        if t.op == 'ult':
            return z3.ULT(self.conv(t.a[0], t.a[2]), self.conv(t.a[1], t.a[2]))
        return self.conv(t) == z3.BitVecVal(1, 1)


class Engine:
    def __init__(self, ll_text, models=None, opts=None):
        self.mod = Module(ll_text)
        self.zc = Z3Ctx()
        self.gid = {}
        self.ginfo = {}
        self.next_gid = 16
        self.compiled = {}
        self.models = models or {}       # '@name' -> python callable(engine,*args)
        self.opts = opts or {}
        self.encoded = {}                # functions executed symbolically -> call count
        self.ns = self._namespace()
        self.objs = {}
        self.solver = None
        self.reset_path()
        self.violations = []
        self.nchecks = {}
        self.closed = {'normalised': 0, 'solver': 0}
        self.reach = {}
        self.solver_timeout = self.opts.get('solver_timeout_ms', 120000)

    # ---------------------------------------------------------------- names
    def gaddr(self, name):
        g = self.gid.get(name)
        if g is None:
            g = self.next_gid
            self.next_gid += 1
            self.gid[name] = g
            self.ginfo[g] = name
        return g << 32

    def gaddr_expr(self, name):
        return str(self.gaddr(name))

    # ---------------------------------------------------------------- memory
    def materialize(self, oid):
        name = self.ginfo.get(oid)
        if name is None:
            raise PathEnd('oob', 'access to invalid object %#x' % oid)
        if name in self.mod.globals:
            o = self._global_obj(name)
            self.objs[oid] = o
            return o
        raise Unsupported('data access to %s' % name)

    _gcache = None

    def _global_obj(self, name):
        if self._gcache is None:
            self._gcache = {}
        d = self._gcache.get(name)
        if d is None:
            src = self.mod.globals[name]
            i = 0
            m = re.search(r'\b(global|constant)\b', strip_str(src))
            if not m:
                raise Unsupported('global ' + src[:80])
            rest = src[m.end():]
            p = P(self.mod, tokenize(cut_md(rest)))
            t = p.type()
            if p.peek() is None or p.peek() in (',',):
                raise Unsupported('external global ' + name)
            e = parse_const(p, t, GenProxy(self))
            v = eval(e)
            buf = bytearray(t.size())
            self._fill(buf, 0, t, v)
            const = m.group(1) == 'constant'
            d = (bytes(buf), const)
            self._gcache[name] = d
        return Obj(bytearray(d[0]))

    def _fill(self, buf, off, t, v):
        c = t.__class__
        if c is ArrT or c is VecT:
            if c is ArrT and t.e.__class__ is IntT and t.e.n == 8 and v:
                buf[off:off + t.cnt] = bytes(v)
                return
            for i in range(t.cnt):
                self._fill(buf, off + t.offs(i), t.e, v[i])
        elif c is StructT:
            for i, f in enumerate(t.fs):
                self._fill(buf, off + t.offs(i), f, v[i])
        elif c is IntT:
            n = (t.n + 7) // 8
            buf[off:off + n] = v.to_bytes(n, 'little')
        elif t is PTR:
            buf[off:off + 8] = v.to_bytes(8, 'little')
        else:
            pass

    def alloc(self, n):
        if n.__class__ is not int:
            n = self.conc(n)
        if n > (1 << 31):
            raise PathEnd('panic', 'allocation of %d bytes' % n)
        i = self.next_obj
        self.next_obj += 1
        self.objs[i] = Obj(bytearray(n))
        return i << 32

    def ld(self, p, n):
        if p.__class__ is not int:
            return self.ld_sym(p, n)
        o = self.objs.get(p >> 32)
        if o is None:
            o = self.materialize(p >> 32)
        off = p & 0xffffffff
        e = off + n
        if e > o.size:
            raise PathEnd('oob', 'load of %d at offset %d of object size %d' % (n, off, o.size))
        s = o.sym
        if s:
            for i in range(off, e):
                if i in s:
                    return X.cat([(s.get(j, o.data[j]), 8) for j in range(off, e)])
        return int.from_bytes(o.data[off:e], 'little')

    def st(self, p, v, n):
        if p.__class__ is not int:
            return self.st_sym(p, v, n)
        o = self.objs.get(p >> 32)
        if o is None:
            o = self.materialize(p >> 32)
        off = p & 0xffffffff
        e = off + n
        if e > o.size:
            raise PathEnd('oob', 'store of %d at offset %d of object size %d' % (n, off, o.size))
        if v.__class__ is int:
            o.data[off:e] = v.to_bytes(n, 'little')
            s = o.sym
            if s:
                for i in range(off, e):
                    s.pop(i, None)
        else:
            if v.__class__ is not T:
                if v.__class__ is float:
                    return
                v = int(v)
                return self.st(p, v, n)
            s = o.sym
            if s is None:
                s = o.sym = {}
            for i in range(n):
                b = X.sl(v, 8 * i, 8)
                if b.__class__ is int:
                    o.data[off + i] = b
                    s.pop(off + i, None)
                else:
                    s[off + i] = b

    def cands(self, p):
        """candidate concrete addresses for a symbolic pointer, with conditions"""
        self.sym_ptr += 1
        if p.op == 'ite':
            return [(p.a[0], p.a[1]), (X.bnot1(p.a[0]), p.a[2])]
        return None

    def conc(self, t, limit=520):
        """the value of a term on this path: one path per possible value"""
        if t.__class__ is int:
            return t
        w = t.w
        for _ in range(limit):
            if t.__class__ is int:
                return t
            i = len(self.trace)
            if t.op == 'ite':
                t = t.a[1] if self.decide(t.a[0]) else t.a[2]
                continue
            if i < len(self.prefix):
                m = self.prefix[i][2]
            else:
                z = self.zc.conv(t)
                if not self.query():
                    raise Unsupported('infeasible path')
                m = self.qsolver.model().eval(z, model_completion=True).as_long()
            c = X.eq(t, m, w)
            if c.__class__ is int:
                if c:
                    return m
                raise Unsupported('value of ' + X.show(t))
            if self.decide(c, m):
                return m
        raise Unsupported('more than %d values of %s' % (limit, X.show(t)[:200]))

    def resolve(self, p):
        """returns (base_int, offset term, [possible offsets])"""
        if p.op != 'lin' and p.op != 'cat':
            raise Unsupported('symbolic pointer ' + X.show(p))
        if p.op == 'cat':
            # base bits concrete high, symbolic low
            base = X.umin(p)
            if base < (1 << 32):
                p = self.conc(p)
                base, off = p, 0
            else:
                off = X.sub(p, base, 64)
        else:
            base = p.a[0]
            for x, k in p.a[1]:
                if k < 256 and x.op == 'cat':
                    base += X.umin(x) * k
            base &= M64
            off = X.sub(p, base, 64)
        # the constant part may lie below the object (p = start + index - 1)
        oid = (base + (1 << 31)) >> 32
        if oid == 0 and p.__class__ is not int:
            p = base = self.conc(p)
            off = 0
            oid = base >> 32
        o = self.objs.get(oid)
        if o is None:
            o = self.materialize(oid)
        if off.__class__ is int:
            return base, off, [0], o
        m = X.umax(off)
        if m >= (1 << 31):
            # try negative-coefficient forms: enumerate with the solver
            return base, off, None, o
        step = 1
        if off.op == 'lin' and off.a[0] == 0:
            g = 0
            import math
            for x, k in off.a[1]:
                g = math.gcd(g, k * tz(x))
            step = g or 1
        else:
            step = tz(off)
        return base, off, range(0, m + 1, step), o

    def in_range(self, base, off, rng, n, o):
        """possible offsets; proves with the solver that the access is inside the object, else path forks to oob"""
        lo = ((base + (1 << 31)) & 0xffffffff) - (1 << 31)
        if lo < 0:
            rng = None
        if rng is None or len(rng) > 8192:
            step = 1
            if off.op == 'lin':
                import math
                g = 0
                for x, k in off.a[1]:
                    g = math.gcd(g, k * tz(x))
                step = g or 1
            else:
                step = tz(off)
            step = step & -step
            # absolute offset in [0, size-n]
            a = X.add(off, lo & M64, 64)
            ok = X.ult(a, o.size - n + 1, 64) if o.size >= n else 0
            if not self.decide(ok):
                raise PathEnd('oob', 'symbolic access outside object of size %d' % o.size)
            start = lo % step
            return [(c - lo) & M64 for c in range(start, o.size - n + 1, step)]
        if lo + rng[-1] + n > o.size:
            mx = o.size - n - lo
            ok = X.ult(off, mx + 1, 64) if mx >= 0 else 0
            if not self.decide(ok):
                raise PathEnd('oob', 'symbolic access outside object of size %d' % o.size)
            rng = [c for c in rng if c <= mx]
        return list(rng)

    def ld_sym(self, p, n):
        if p.op == 'ite':
            return X.ite(p.a[0], self.ld(p.a[1], n), self.ld(p.a[2], n), 8 * n)
        if p.op != 'lin' and p.op != 'cat':
            return self.ld(self.conc(p), n)
        base, off, rng, o = self.resolve(p)
        cs = self.in_range(base, off, rng, n, o)
        vals = [self.ld((base + c) & M64, n) for c in cs]
        if all(v.__class__ is int for v in vals) and len(cs) > 1:
            st = cs[1] - cs[0]
            if cs[0] == 0 and all(cs[i] == i * st for i in range(len(cs))):
                # index = off / st
                if st & (st - 1) == 0:
                    idx = X.lshr(off, st.bit_length() - 1, 64)
                    return X.lookup(tuple(vals), idx, 8 * n)
        r = vals[-1]
        for c, v in zip(reversed(cs[:-1]), reversed(vals[:-1])):
            r = X.ite(X.eq(off, c, 64), v, r, 8 * n)
        return r

    def st_sym(self, p, v, n):
        if p.op == 'ite':
            for c, q in ((p.a[0], p.a[1]), (X.bnot1(p.a[0]), p.a[2])):
                old = self.ld(q, n)
                self.st(q, X.ite(c, v, old, 8 * n), n)
            return
        if p.op != 'lin' and p.op != 'cat':
            return self.st(self.conc(p), v, n)
        base, off, rng, o = self.resolve(p)
        for c in self.in_range(base, off, rng, n, o):
            q = (base + c) & M64
            old = self.ld(q, n)
            self.st(q, X.ite(X.eq(off, c, 64), v, old, 8 * n), n)

    def rd(self, p, n):
        """list of n bytes (ints or terms)"""
        if n.__class__ is not int:
            n = self.conc(n)
        if p.__class__ is not int:
            p = self.conc(p)
        if n == 0:
            return []
        o = self.objs.get(p >> 32) or self.materialize(p >> 32)
        off = p & 0xffffffff
        if off + n > o.size:
            raise PathEnd('oob', 'read of %d at offset %d of object size %d' % (n, off, o.size))
        s = o.sym
        if s:
            return [s.get(j, o.data[j]) for j in range(off, off + n)]
        return list(o.data[off:off + n])

    def wr(self, p, bs):
        n = len(bs)
        if n == 0:
            return
        if p.__class__ is not int:
            p = self.conc(p)
        o = self.objs.get(p >> 32) or self.materialize(p >> 32)
        off = p & 0xffffffff
        if off + n > o.size:
            raise PathEnd('oob', 'write of %d at offset %d of object size %d' % (n, off, o.size))
        s = o.sym
        for i, b in enumerate(bs):
            if b.__class__ is int:
                o.data[off + i] = b
                if s:
                    s.pop(off + i, None)
            else:
                if s is None:
                    s = o.sym = {}
                s[off + i] = b

    def cpy(self, d, s, n):
        if n.__class__ is not int:
            n = self.conc(n)
        if n == 0:
            return
        if d.__class__ is T or s.__class__ is T:
            if n <= 64:
                v = [self.ld(s + i, 1) for i in range(n)]
                for i in range(n):
                    self.st(d + i, v[i], 1)
                return
            d, s = self.conc(d), self.conc(s)
        oS = self.objs.get(s >> 32) or self.materialize(s >> 32)
        so = s & 0xffffffff
        if so + n > oS.size:
            raise PathEnd('oob', 'memcpy read')
        if oS.sym:
            self.wr(d, self.rd(s, n))
            return
        oD = self.objs.get(d >> 32) or self.materialize(d >> 32)
        do = d & 0xffffffff
        if do + n > oD.size:
            raise PathEnd('oob', 'memcpy write')
        oD.data[do:do + n] = oS.data[so:so + n]
        if oD.sym:
            for i in range(do, do + n):
                oD.sym.pop(i, None)

    def mset(self, d, v, n):
        if n.__class__ is not int:
            n = self.conc(n)
        self.wr(d, [v] * n)

    # ---------------------------------------------------------------- functions
    def call_expr(self, x, args, rt, gen):
        nm = x[1:].strip('"')
        if nm.startswith('llvm.'):
            return intrinsic(nm, args, rt)
        a = ','.join(args)
        k = self.fkey(x)
        return '%s(%s)' % (k, a)

    def fkey(self, x):
        k = self.fnames.get(x)
        if k is None:
            k = 'f%d' % len(self.fnames)
            self.fnames[x] = k
            self.ns[k] = self._stub(x, k)
        return k
    fnames = None

    def _stub(self, x, k):
        eng = self

        def stub(*a):
            f = eng._compile(x)
            eng.ns[k] = f
            return f(*a)
        return stub

    def _compile(self, x):
        f = self.compiled.get(x)
        if f is not None:
            return f
        m = self.models.get(x)
        if m is not None:
            def f(*a, m=m, self=self):
                return m(self, *a)
            f.__name__ = 'model'
        elif x in self.mod.funcs:
            g = FnGen(self.mod, x, self)
            try:
                src = g.gen()
            except Exception as e:
                raise Unsupported('translating %s: %s' % (x, e)) from e
            loc = {}
            try:
                code = compile(src, x, 'exec')
            except Exception:
                sys.stderr.write(src + '\n')
                raise
            exec(code, self.ns, loc)
            f = loc['F']
            self.encoded[x] = len(src)
        else:
            b = BUILTIN.get(x[1:].strip('"'))
            if b is not None:
                def f(*a, b=b, self=self):
                    return b(self, *a)
            else:
                def f(*a, x=x):
                    raise Unsupported('call to external function ' + x)
        self.compiled[x] = f
        return f

    def icall(self, fp, *args):
        if fp.__class__ is not int:
            raise Unsupported('symbolic function pointer')
        name = self.ginfo.get(fp >> 32)
        if name is None:
            raise PathEnd('oob', 'call through invalid pointer %#x' % fp)
        return self._compile(name)(*args)

    def call(self, name, *args):
        x = name if name[0] == '@' else '@' + name
        return self._compile(x)(*args)

    def _namespace(self):
        self.fnames = {}
        ns = {}
        e = self

        def unsupported(s):
            raise Unsupported('instruction ' + s)

        def unreachable(s):
            raise PathEnd('oob', 'unreachable executed in ' + s)

        def zx(a, w):
            return a if a.__class__ is int else X.zext(a, w)

        def tr(a, w):
            return a & ((1 << w) - 1) if a.__class__ is int else X.sl(a, 0, w)

        def sext(a, w0, w):
            if a.__class__ is int:
                if a >> (w0 - 1) & 1:
                    return a | (((1 << w) - 1) ^ ((1 << w0) - 1))
                return a
            return X.sext(a, w0, w)

        def slt(a, b, w):
            if a.__class__ is int and b.__class__ is int:
                h = 1 << (w - 1)
                return 1 if (a ^ h) < (b ^ h) else 0
            return X.slt(a, b, w)

        def sel(c, a, b, w):
            if c.__class__ is int:
                return a if c else b
            return X.ite(c, a, b, w)

        def vsel(c, a, b, w):
            return tuple([sel(c, x, y, w) for x, y in zip(a, b)])

        def insv(v, x, path):
            i = path[0]
            if len(path) == 1:
                return v[:i] + (x,) + v[i + 1:]
            return v[:i] + (insv(v[i], x, path[1:]),) + v[i + 1:]

        def vbitcast(v, ew, n, ew2, n2):
            # ew=0 -> scalar of n bits
            if ew == 0:
                ps = [(v, n)]
            else:
                ps = [(x, ew) for x in v]
            tot = X.cat(ps)
            if ew2 == 0:
                return tot
            return tuple(X.sl(tot, i * ew2, ew2) for i in range(n2))

        def vldbits(p, w, n):
            v = e.ld(p, (w * n + 7) // 8)
            return tuple(X.sl(v, i * w, w) for i in range(n))

        def vstbits(p, v, w):
            tot = X.cat([(x, w) for x in v])
            n = w * len(v)
            e.st(p, X.zext(tot, (n + 7) // 8 * 8) if tot.__class__ is T else tot, (n + 7) // 8)

        def inline_asm(tmpl, cons, args):
            if 'cpuid' in tmpl:
                return (0, 0, 0, 0)
            if tmpl.strip('"') == '':
                return args[0] if args else None
            raise Unsupported('inline asm ' + tmpl)
        for k, v in list(locals().items()):
            if callable(v):
                ns[k] = v
        ns.update(ld=self.ld, st=self.st, alloca=self.alloc, icall=self.icall, cpy=self.cpy, mset=self.mset,
                  shl=X.shl, lshr=X.lshr, ashr=X.ashr, udiv=self.udiv, urem=self.urem, sdiv=X.sdiv, srem=X.srem,
                  I=Intr, assume=self.llvm_assume)
        return ns

    def udiv(self, a, b, w):
        return X.udiv(a, b, w)

    def urem(self, a, b, w):
        return X.urem(a, b, w)

    def llvm_assume(self, c):
        pass

    # ---------------------------------------------------------------- paths
    def reset_path(self):
        self.objs = {}
        self.next_obj = 1 << 20
        self.trace = []          # decisions taken on this path: (term id, value, forced)
        self.pc = []
        self.known = {}
        self.sym_ptr = 0
        self.units = []
        self.notes = []
        self.user = {}
        self.zpos = 0

    def new_solver(self):
        s = z3.Solver()
        s.set('timeout', self.solver_timeout)
        s.set('random_seed', self.opts.get('seed', 1))
        return s

    def fresh_solver(self):
        s = z3.Tactic('qfbv').solver()
        s.set('timeout', self.solver_timeout)
        s.set('random_seed', self.opts.get('seed', 1))
        return s

    def begin(self, prefix):
        X.reset()
        self.reset_path()
        self.prefix = prefix
        self.zc.reset()
        self.solver = self.new_solver()

    def flush(self):
        p = self.zc.pending
        if p:
            self.zc.pending = []
            for a in p:
                self.solver.add(a)

    def add_pc(self, t):
        """assert a boolean term"""
        if t.__class__ is int:
            if not t:
                raise PathEnd('assume', 'false')
            return
        z = self.zc.boolean(t)
        self.flush()
        self.solver.add(z)
        self.pc.append(t)
        self.known[t.id] = 1
        n = X.bnot1(t)
        if n.__class__ is T:
            self.known[n.id] = 0
        if t.op == 'and':
            for y in t.a:
                if y.__class__ is T:
                    self.known[y.id] = 1
        u = X.conj_units(t)
        if u:
            self.units += u
            if len(self.units) >= 8:
                self.propagate()

    def propagate(self):
        """rewrite memory under the variable values the path condition fixes"""
        m = {}
        for a, b in self.units:
            m.setdefault(a.id, b)
        self.units = []
        # chase chains of variables
        for k in list(m):
            b = m[k]
            n = 0
            while b.__class__ is T and b.id in m and n < 100:
                b = m[b.id]
                n += 1
            m[k] = b
        sb = X.Subst(m)
        for o in list(self.objs.values()):
            if not o.sym:
                continue
            for i, v in list(o.sym.items()):
                w = sb.t(v)
                if w is not v:
                    if w.__class__ is int:
                        o.data[i] = w
                        del o.sym[i]
                    else:
                        o.sym[i] = w

    def add_z(self, z):
        self.flush()
        self.solver.add(z)

    # ---------------------------------------------------------------- assertions
    def note(self, kind, data):
        self.notes.append((kind, data))

    def sat_with(self, t):
        if t.__class__ is int:
            return bool(t)
        k = self.known.get(t.id)
        if k is not None:
            return bool(k)
        return self.query(self.zc.boolean(t))

    def reached(self, label):
        self.reach[label] = self.reach.get(label, 0) + 1

    def inputs(self, m):
        """values of the scenario's inputs in a z3 model"""
        out = {}
        for kind, d in self.notes:
            if kind != 'input':
                continue
            nm, n = d
            if n < 0:
                v = m.eval(z3.BitVec('choice:' + nm, 32), model_completion=True).as_long() if m is not None else 0
                out[nm] = v.to_bytes(4, 'little').hex()
            else:
                out[nm] = bytes(m.eval(z3.BitVec('%s[%d]' % (nm, i), 8), model_completion=True).as_long() if m is not None else 0
                                for i in range(n)).hex()
        return out

    def assignments(self, extra, k):
        """up to k different satisfying assignments of the inputs"""
        import random
        rnd = random.Random(self.opts.get('seed', 1))
        outs = []
        s = self.solver
        self.flush()
        s.push()
        for z in extra:
            s.add(z)
        vs = [(nm, n) for kind, (nm, n) in [x for x in self.notes if x[0] == 'input'] if n > 0]
        try:
            if s.check() != z3.sat:
                return outs
            outs.append(self.inputs(s.model()))
            for a in range(k - 1):
                s.push()
                allv = [(nm, i) for nm, n in vs for i in range(n)]
                rnd.shuffle(allv)
                style = a % 3
                t0 = time.time()
                if style == 0:
                    # as close to zero as possible
                    for nm, n in vs:
                        z = z3.And([z3.BitVec('%s[%d]' % (nm, i), 8) == 0 for i in range(n)])
                        if s.check(z) == z3.sat:
                            s.add(z)
                    allv = allv[:48]
                for nm, i in allv[:96]:
                    val = 0 if style == 0 else (rnd.randrange(256) if style == 1 else rnd.choice([0, 1, 128, 255]))
                    z = z3.BitVec('%s[%d]' % (nm, i), 8) == val
                    if s.check(z) == z3.sat:
                        s.add(z)
                    if time.time() - t0 > 5:
                        break
                if s.check() == z3.sat:
                    o = self.inputs(s.model())
                    if o not in outs:
                        outs.append(o)
                s.pop()
        finally:
            s.pop()
        return outs

    def violation(self, ident, extra=()):
        self.violations.append({'check': ident, 'values': self.assignments(extra, self.opts.get('models', 10)),
                                'notes': sorted({k for k, _ in self.notes if k != 'input'})})

    def check(self, ident, t):
        self.nchecks[ident] = self.nchecks.get(ident, 0) + 1
        if t.__class__ is not int:
            k = self.known.get(t.id)
            if k is not None:
                t = k
        if t.__class__ is int:
            self.closed['normalised'] += 1
            if not t:
                self.violation(ident)
                raise PathEnd('violation', ident)
            return
        self.closed['solver'] += 1
        if os.environ.get('SYM_SHOW') and self.closed['solver'] < int(os.environ['SYM_SHOW']): print('CHECK', ident, X.show(t, 7)[:1500])
        z = self.zc.boolean(t)
        if self.query(z3.Not(z)):
            self.violation(ident, (z3.Not(z),))
            if not self.query(z):
                raise PathEnd('violation', ident)
        self.add_pc(t)

    def query(self, *zs):
        """check path constraints plus zs"""
        self.flush()
        t0 = time.time()
        self.solver.set('timeout', self.opts.get('fast_ms', 700))
        r = self.solver.check(*zs)
        self.qsolver = self.solver
        if r == z3.unknown:
            # the incremental core is weak on large bit-vector problems: preprocess from scratch
            s = self.fresh_solver()
            s.add(self.solver.assertions())
            s.add(*zs)
            r = s.check()
            self.qsolver = s
        dt = time.time() - t0
        self.zc.time += dt
        self.zc.queries += 1
        self.zc.stats[str(r)] += 1
        if dt > self.opts.get('slow', 5):
            sys.stderr.write('slow query %.1fs -> %s\n' % (dt, r))
            if self.opts.get('dump_slow'):
                open(self.opts['dump_slow'] + '-%d.smt2' % self.zc.queries, 'w').write(self.qsolver.to_smt2())
        if r == z3.unknown:
            raise Unsupported('solver gave no verdict (%s)' % self.qsolver.reason_unknown())
        return r == z3.sat

    def decide(self, t, note=None):
        if t.__class__ is int:
            return bool(t)
        k = self.known.get(t.id)
        if k is not None and note is None:
            return bool(k)
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append(v)
            self.add_pc(t if v[0] else X.bnot1(t))
            return v[0]
        z = self.zc.boolean(t)
        can_t = self.query(z)
        if not can_t:
            v = (False, True, note)
        else:
            can_f = self.query(z3.Not(z))
            v = (True, not can_f, note)
        self.trace.append(v)
        self.add_pc(t if v[0] else X.bnot1(t))
        if self.opts.get('trace_decide'):
            import traceback
            sys.stderr.write('decide %s %s %s\n' % (v, X.show(t)[:200], [f.name for f in traceback.extract_stack()[-5:-1]]))
        return v[0]

    def explore(self, run, max_paths=2000, deadline=None, work=None):
        """run(): executes one path from scratch.  yields (kind,msg) per path"""
        X.DECIDE[0] = self.decide
        work = [[]] if work is None else work
        n = 0
        while work:
            if n >= max_paths:
                raise Unsupported('more than %d paths' % max_paths)
            if deadline and time.time() > deadline:
                raise Unsupported('time limit')
            pre = work.pop()
            self.begin(pre)
            try:
                run()
                res = ('done', '')
                if self.user.get('expect_panic'):
                    res = ('violation', 'no panic')
            except PathEnd as e:
                res = (e.kind, e.msg)
                if e.kind in ('panic', 'oob'):
                    if self.opts.get('trace_oob'):
                        import traceback
                        traceback.print_exc()
                    if self.user.get('panic_ok') or self.user.get('expect_panic'):
                        res = ('rejected', e.msg)
                    else:
                        self.violation('panic: ' + e.msg)
            if len(self.trace) < len(pre):
                raise Unsupported('path could not be reproduced')
            n += 1
            # schedule unexplored siblings
            for i in range(len(pre), len(self.trace)):
                v, forced, note = self.trace[i]
                if not forced:
                    work.append(self.trace[:i] + [(not v, True, note)])
            self.work = work
            yield res


def tz(x):
    """largest power of two (<=64) dividing term x"""
    if x.__class__ is int:
        return x & -x if x else 64
    if x.op == 'cat' and x.a[0][0].__class__ is int and x.a[0][0] == 0:
        return 1 << min(x.a[0][1], 12)
    if x.op == 'lin':
        r = 1 << 12
        for y, k in x.a[1]:
            r = min(r, tz(y) * (k & -k))
        if x.a[0]:
            r = min(r, x.a[0] & -x.a[0])
        return r
    return 1


def strip_str(s):
    i = s.find('c"')
    return s if i < 0 else s[:i]


def cut_md(s):
    return s


class GenProxy:
    def __init__(self, e): self.e = e
    def gaddr(self, x): return str(self.e.gaddr(self.e.mod.aliases.get(x, x)))


class Intr:
    pass


def _width(nm):
    m = re.search(r'\.i(\d+)$', nm)
    return int(m.group(1)) if m else None


def fshl(a, b, c, w):
    if c.__class__ is not int:
        c = X.band(c, w - 1, w)
        r = X.shift_sym('lshr', X.cat([(b, w), (a, w)]), X.sub(w, X.zext(c, 2 * w), 2 * w), 2 * w)
        return X.sl(r, 0, w)
    c %= w
    if c == 0:
        return a
    if a.__class__ is int and b.__class__ is int:
        return ((a << c) | (b >> (w - c))) & ((1 << w) - 1)
    return X.cat([(X.sl(b, w - c, c), c), (X.sl(a, 0, w - c), w - c)])


def fshr(a, b, c, w):
    if c.__class__ is not int:
        raise Unsupported('fshr sym')
    c %= w
    if c == 0:
        return b
    return fshl(a, b, w - c, w)


def bswap(a, w):
    if a.__class__ is int:
        return int.from_bytes(a.to_bytes(w // 8, 'little'), 'big')
    return X.cat([(X.sl(a, w - 8 - i, 8), 8) for i in range(0, w, 8)])


def ctpop(a, w):
    if a.__class__ is int:
        return bin(a).count('1')
    r = 0
    for i in range(w):
        r = X.add(r, X.zext(X.sl(a, i, 1), w) if X.sl(a, i, 1).__class__ is T else X.sl(a, i, 1), w)
    return r


def ctlz(a, z, w):
    if a.__class__ is int:
        return w - a.bit_length()
    r = w
    for i in range(w):
        r = X.ite(X.sl(a, i, 1), w - 1 - i, r, w)
    return r


def cttz(a, z, w):
    if a.__class__ is int:
        return (a & -a).bit_length() - 1 if a else w
    r = w
    for i in range(w - 1, -1, -1):
        r = X.ite(X.sl(a, i, 1), i, r, w)
    return r


def uaddo(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        s = a + b
        return (s & X.mask(w), s >> w)
    s = X.add(a, b, w)
    if X.umax(a) + X.umax(b) <= X.mask(w):
        return (s, 0)
    return (s, X.ult(s, a, w))


def usubo(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return ((a - b) & X.mask(w), 1 if a < b else 0)
    return (X.sub(a, b, w), X.ult(a, b, w))


def umulo(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        s = a * b
        return (s & X.mask(w), 1 if s >> w else 0)
    if X.umax(a) * X.umax(b) <= X.mask(w):
        return (X.mul(a, b, w), 0)
    p = X.mul(X.zext(a, 2 * w), X.zext(b, 2 * w), 2 * w)
    return (X.mul(a, b, w), X.bnot1(X.eq(X.sl(p, w, w), 0, w)))


def saddo(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        s = X._sg(a, w) + X._sg(b, w)
        return (s & X.mask(w), 0 if -(1 << (w - 1)) <= s < (1 << (w - 1)) else 1)
    s = X.add(X.sext(a, w, w + 1), X.sext(b, w, w + 1), w + 1)
    return (X.add(a, b, w), X.bxor(X.sl(s, w, 1), X.sl(s, w - 1, 1), 1))


def ssubo(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        s = X._sg(a, w) - X._sg(b, w)
        return (s & X.mask(w), 0 if -(1 << (w - 1)) <= s < (1 << (w - 1)) else 1)
    s = X.sub(X.sext(a, w, w + 1), X.sext(b, w, w + 1), w + 1)
    return (X.sub(a, b, w), X.bxor(X.sl(s, w, 1), X.sl(s, w - 1, 1), 1))


def smulo(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        s = X._sg(a, w) * X._sg(b, w)
        return (s & X.mask(w), 0 if -(1 << (w - 1)) <= s < (1 << (w - 1)) else 1)
    s = X.mul(X.sext(a, w, 2 * w), X.sext(b, w, 2 * w), 2 * w)
    lo = X.sl(s, 0, w)
    return (lo, X.bnot1(X.eq(s, X.sext(lo, w, 2 * w), 2 * w)))


def slt_(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return 1 if X._sg(a, w) < X._sg(b, w) else 0
    return X.slt(a, b, w)


def umax_(a, b, w): return X.ite(X.ult(a, b, w), b, a, w)
def umin_(a, b, w): return X.ite(X.ult(a, b, w), a, b, w)
def smax_(a, b, w): return X.ite(slt_(a, b, w), b, a, w)
def smin_(a, b, w): return X.ite(slt_(a, b, w), a, b, w)
def abs_(a, z, w): return X.ite(slt_(a, 0, w), X.sub(0, a, w), a, w)


def usubsat(a, b, w):
    return X.ite(X.ult(a, b, w), 0, X.sub(a, b, w), w)


def uaddsat(a, b, w):
    s, o = uaddo(a, b, w)
    return X.ite(o, X.mask(w), s, w)


def ucmp(a, b, w, rw):
    return X.ite(X.ult(a, b, w), X.mask(rw), X.ite(X.eq(a, b, w), 0, 1, rw), rw)


def scmp(a, b, w, rw):
    return X.ite(slt_(a, b, w), X.mask(rw), X.ite(X.eq(a, b, w), 0, 1, rw), rw)


def bitreverse(a, w):
    return X.cat([(X.sl(a, w - 1 - i, 1), 1) for i in range(w)])


def trap():
    raise PathEnd('panic', 'trap')


def vred(op, v, w):
    r = v[0]
    f = {'add': X.add, 'or': X.bor, 'and': X.band, 'xor': X.bxor, 'umax': umax_, 'umin': umin_}[op]
    for x in v[1:]:
        r = f(r, x, w)
    return r


for _n in list(globals()):
    if callable(globals()[_n]):
        setattr(Intr, _n, staticmethod(globals()[_n]))

SIMPLE = {'fshl': ('fshl', 3), 'fshr': ('fshr', 3), 'bswap': ('bswap', 1), 'ctpop': ('ctpop', 1), 'ctlz': ('ctlz', 2), 'cttz': ('cttz', 2),
          'uadd.with.overflow': ('uaddo', 2), 'usub.with.overflow': ('usubo', 2), 'umul.with.overflow': ('umulo', 2),
          'sadd.with.overflow': ('saddo', 2), 'ssub.with.overflow': ('ssubo', 2), 'smul.with.overflow': ('smulo', 2),
          'umax': ('umax_', 2), 'umin': ('umin_', 2), 'smax': ('smax_', 2), 'smin': ('smin_', 2), 'abs': ('abs_', 2),
          'usub.sat': ('usubsat', 2), 'uadd.sat': ('uaddsat', 2), 'bitreverse': ('bitreverse', 1)}


def intrinsic(nm, args, rt):
    s = nm[5:]
    if s.startswith(('lifetime', 'dbg', 'experimental.noalias', 'assume', 'invariant', 'prefetch', 'var.annotation', 'donothing', 'sideeffect')):
        if s.startswith('invariant.start'):
            return '0'
        return None
    if s.startswith('memcpy') or s.startswith('memmove'):
        return 'cpy(%s,%s,%s)' % tuple(args[:3])
    if s.startswith('memset'):
        return 'mset(%s,%s,%s)' % tuple(args[:3])
    if s == 'trap' or s == 'debugtrap' or s == 'ubsantrap':
        return 'I.trap()'
    if s.startswith('expect'):
        return args[0]
    if s.startswith('threadlocal.address'):
        return args[0]
    if s.startswith('is.constant'):
        return '0'
    if s.startswith('objectsize'):
        return str(M64)
    if s.startswith('ucmp') or s.startswith('scmp'):
        m = re.match(r'[us]cmp\.i(\d+)\.i(\d+)', s)
        return 'I.%s(%s,%s,%s)' % (s[:4], ','.join(args), m.group(2), m.group(1))
    if s.startswith('x86.sse2.pause') or s.startswith('x86.xgetbv'):
        return '0'
    if s.startswith('stacksave'):
        return '0'
    if s.startswith('stackrestore'):
        return None
    m = re.match(r'vector\.reduce\.(\w+)\.v(\d+)i(\d+)', s)
    if m:
        return 'I.vred(%r,%s,%s)' % (m.group(1), args[0], m.group(3))
    m = re.match(r'(.*)\.v(\d+)i(\d+)$', s)
    if m and m.group(1) in SIMPLE:
        f, n = SIMPLE[m.group(1)]
        vs = ['x%d' % i for i in range(n)]
        if m.group(1) in ('ctlz', 'cttz', 'abs'):
            return 'tuple([I.%s(x,%s,%s) for x in %s])' % (f, args[1], m.group(3), args[0])
        return 'tuple([I.%s(%s,%s) for %s in zip(%s)])' % (f, ','.join(vs), m.group(3), ','.join(vs) + ',', ','.join(args[:n]))
    m = re.match(r'(.*)\.i(\d+)$', s)
    if m and m.group(1) in SIMPLE:
        f, n = SIMPLE[m.group(1)]
        return 'I.%s(%s,%s)' % (f, ','.join(args[:n]), m.group(2))
    return 'unsupported(%r)' % nm


# ------------------------------------------------------------------ libc-level builtins
def _memcmp(e, a, b, n):
    x = e.rd(a, n)
    y = e.rd(b, n)
    r = 0
    for i in range(n - 1, -1, -1):
        if x[i].__class__ is int and y[i].__class__ is int:
            if x[i] != y[i]:
                r = 1 if x[i] > y[i] else X.mask(32)
            continue
        r = X.ite(X.eq(x[i], y[i], 8), r, X.ite(X.ult(x[i], y[i], 8), X.mask(32), 1, 32), 32)
    return r


def _bcmp(e, a, b, n):
    x = e.rd(a, n)
    y = e.rd(b, n)
    r = 1
    for p, q in zip(x, y):
        r = X.band(r, X.eq(p, q, 8), 1)
        if r.__class__ is int and r == 0:
            return 1
    return X.zext(X.bnot1(r), 32)


def _malloc(e, n): return e.alloc(n)
def _free(e, p): e.objs.pop(p >> 32, None)
def _memcpy(e, d, s, n):
    e.cpy(d, s, n)
    return d
def _memset(e, d, v, n):
    e.mset(d, X.sl(v, 0, 8) if v.__class__ is T else v & 255, n)
    return d


BUILTIN = {'memcmp': _memcmp, 'bcmp': _bcmp, 'malloc': _malloc, 'free': _free, 'memcpy': _memcpy, 'memmove': _memcpy, 'memset': _memset}
