"""Hash-consed bit-vector terms with light normalisation.

Concrete values are plain Python ints (always reduced modulo 2^w by the code that
produces them); T objects are symbolic values of width t.w.  Boolean terms have width 1.
Blob objects stand for outputs of idealised primitives (hash states, group elements,
signatures, ...); 'byte' terms select their bytes.
"""
from itertools import count

_tab = {}
_ids = count(1)
RESET = []               # callables run when a new path starts


def reset():
    """forget every term; a path starts with the same identifiers in every process"""
    global _ids
    _tab.clear()
    _btab.clear()
    _beq.clear()
    _slc.clear()
    _ids = count(1)
    for f in RESET:
        f()


DECIDE = [None]          # set by the engine: callable(T width 1) -> bool


class Unsupported(Exception):
    pass


class Blob:
    __slots__ = ('kind', 'args', 'n', 'id', 'z', 'z_epoch')

    def __repr__(self):
        return '%s#%d' % (self.kind, self.id)


_btab = {}


def _key(x):
    if x.__class__ is T:
        return ('t', x.id)
    if x.__class__ is Blob:
        return ('b', x.id)
    if x.__class__ is tuple:
        return tuple(_key(y) for y in x)
    return x


def blob(kind, args, n):
    k = (kind, _key(tuple(args)), n)
    b = _btab.get(k)
    if b is None:
        b = Blob()
        b.kind = kind
        b.args = tuple(args)
        b.n = n
        b.id = next(_ids)
        b.z = None
        b.z_epoch = -1
        _btab[k] = b
    return b


def bbyte(b, i):
    return mk('byte', 8, (b, i), ('byte', b.id, i))


def bbytes(b, lo=0, n=None):
    if n is None:
        n = b.n - lo
    return [bbyte(b, lo + i) for i in range(n)]


class T:
    __slots__ = ('op', 'w', 'a', 'id', 'z', 'z_epoch', 'hb')

    def __hash__(self):
        return self.id

    def __repr__(self):
        return show(self)

    def __bool__(self):
        return DECIDE[0](self)

    def __int__(self):
        raise Unsupported('concrete value needed: ' + show(self))
    __index__ = __int__

    def __pos__(self):
        return self

    def __add__(self, o): return add(self, o, self.w)
    __radd__ = __add__
    def __sub__(self, o): return sub(self, o, self.w)
    def __rsub__(self, o): return sub(o, self, self.w)
    def __mul__(self, o): return mul(self, o, self.w)
    __rmul__ = __mul__
    def __and__(self, o): return band(self, o, self.w)
    __rand__ = __and__
    def __or__(self, o): return bor(self, o, self.w)
    __ror__ = __or__
    def __xor__(self, o): return bxor(self, o, self.w)
    __rxor__ = __xor__
    def __lshift__(self, k): return shl(self, k, self.w)
    def __rshift__(self, k): return lshr(self, k, self.w)
    def __rlshift__(self, o): return shl(o, self, self.w)
    def __rrshift__(self, o): return lshr(o, self, self.w)
    def __eq__(self, o): return eq(self, o, self.w)
    def __ne__(self, o): return bnot1(eq(self, o, self.w))
    def __lt__(self, o): return ult(self, o, self.w)
    def __gt__(self, o): return ult(o, self, self.w)
    def __le__(self, o): return bnot1(ult(o, self, self.w))
    def __ge__(self, o): return bnot1(ult(self, o, self.w))

    def zx(self, w):
        return zext(self, w)

    def sl(self, lo, w):
        return sl(self, lo, w)


def mk(op, w, a, key=None):
    k = key if key is not None else (op, w, _key(a))
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.w = w
        t.a = a
        t.id = next(_ids)
        t.z = None
        t.z_epoch = -1
        t.hb = op == 'byte' or (op != 'uf' and _hb(a))
        _tab[k] = t
    return t


def _hb(a):
    for x in a:
        if x.__class__ is T:
            if x.hb:
                return True
        elif x.__class__ is tuple and x and _hb(x):
            return True
    return False


def var(name, w=8):
    return mk('var', w, (name,), ('var', w, name))


def show(t, d=4):
    if t.__class__ is int:
        return hex(t)
    if t.__class__ is Blob:
        return repr(t)
    if t.__class__ is tuple:
        return '(' + ','.join(show(x, d) if x.__class__ in (T, Blob, tuple, int) else str(x) for x in t) + ')'
    if t.__class__ is not T:
        return str(t)
    if t.op == 'var':
        return t.a[0]
    if t.op == 'byte':
        return '%r[%d]' % t.a
    if d == 0:
        return '..%d' % t.id
    return '%s%d(%s)' % (t.op, t.w, ','.join(show(x, d - 1) if x.__class__ is T else show(x) for x in t.a))


def isint(x):
    return x.__class__ is int


def mask(w):
    return (1 << w) - 1


# ---------------------------------------------------------------- concatenation
def pieces(t, w):
    """list of (x, width), low to high"""
    if t.__class__ is int:
        return [(t, w)]
    if t.op == 'cat':
        return t.a
    return [(t, w)]


def cat(ps):
    """ps: iterable of (x,width) low -> high; x int or T"""
    out = []
    for x, w in ps:
        if w == 0:
            continue
        if x.__class__ is T and x.op == 'cat':
            for y, v in x.a:
                _push(out, y, v)
        else:
            _push(out, x, w)
    if len(out) == 1:
        return out[0][0]
    tot = 0
    for _, w in out:
        tot += w
    return mk('cat', tot, tuple(out), ('cat', tuple((y.id if y.__class__ is T else -1 - y, v) for y, v in out)))


def _push(out, x, w):
    if out:
        y, v = out[-1]
        if x.__class__ is int:
            if y.__class__ is int:
                out[-1] = (y | (x << v), v + w)
                return
        elif y.__class__ is T:
            if x.op == 'ext' and y.op == 'ext':
                if x.a[0] is y.a[0] and x.a[1] == y.a[1] + y.w:
                    out[-1] = (sl(x.a[0], y.a[1], v + w), v + w)
                    return
            if x.op == 'ext' and x.a[1] == v and (x.a[0].op == 'lin' or x.a[0].op == 'mul') and sl(x.a[0], 0, v) is y:
                out[-1] = (sl(x.a[0], 0, v + w), v + w)
                return
    out.append((x, w))


def zext(t, w):
    if t.__class__ is int:
        return t
    if w == t.w:
        return t
    return cat([(t, t.w), (0, w - t.w)])


def sext(t, w0, w):
    if t.__class__ is int:
        if t >> (w0 - 1) & 1:
            return t | (mask(w) ^ mask(w0))
        return t
    if w == t.w:
        return t
    p = pieces(t, w0)
    hx, hw = p[-1]
    if hx.__class__ is int and not (hx >> (hw - 1)) & 1:
        return zext(t, w)
    if t.op == 'sext':
        return sext(t.a[0], t.a[0].w, w)
    return mk('sext', w, (t,))


_slc = {}


def sl(t, lo, w):
    if t.__class__ is int:
        return (t >> lo) & ((1 << w) - 1)
    if w == t.w:
        return t
    op = t.op
    if op == 'cat':
        out = []
        pos = 0
        hi = lo + w
        for x, v in t.a:
            if pos + v > lo and pos < hi:
                s = max(lo - pos, 0)
                e = min(hi - pos, v)
                out.append((x if s == 0 and e == v else sl(x, s, e - s), e - s))
            pos += v
            if pos >= hi:
                break
        return cat(out)
    if op == 'ext':
        return sl(t.a[0], t.a[1] + lo, w)
    if op == 'lin' and lo == 0:
        k = (t.id, w)
        x = _slc.get(k)
        if x is None:
            c, ts = t.a
            r = lin_new(w, c)
            for x, j in ts:
                lin_add(r, sl(x, 0, w), j, w)
            x = _slc[k] = lin_fin(r, w)
        return x
    if op == 'mul' and lo == 0:
        k = (t.id, w)
        x = _slc.get(k)
        if x is None:
            x = _slc[k] = mul(sl(t.a[0], 0, w), sl(t.a[1], 0, w), w)
        return x
    if op == 'xor':
        c, ts = t.a
        r = (c >> lo) & mask(w)
        for x in ts:
            r = bxor(r, sl(x, lo, w), w)
        return r
    if op == 'and' or op == 'or':
        f = band if op == 'and' else bor
        return f(sl(t.a[0], lo, w), sl(t.a[1], lo, w), w)
    if op == 'ite':
        return ite(t.a[0], sl(t.a[1], lo, w), sl(t.a[2], lo, w), w)
    if op == 'sext':
        b = t.a[0]
        if lo + w <= b.w:
            return sl(b, lo, w)
        if lo < b.w:
            return sext(sl(b, lo, b.w - lo), b.w - lo, w)
        return sext(sl(b, b.w - 1, 1), 1, w)
    if op == 'lookup':
        tab = tuple((x >> lo) & mask(w) for x in t.a[0])
        if len(set(tab)) == 1:
            return tab[0]
        return lookup(tab, t.a[1], w)
    return mk('ext', w, (t, lo), ('ext', t.id, lo, w))


def zip_pieces(a, b, w):
    """common refinement of the piece boundaries of a and b, low->high"""
    pa = pieces(a, w)
    pb = pieces(b, w)
    i = j = 0
    oa = ob = 0
    while i < len(pa) and j < len(pb):
        xa, wa = pa[i]
        xb, wb = pb[j]
        ra = wa - oa
        rb = wb - ob
        n = ra if ra < rb else rb
        yield (xa if n == wa else sl(xa, oa, n)), (xb if n == wb else sl(xb, ob, n)), n
        oa += n
        ob += n
        if oa == wa:
            i += 1
            oa = 0
        if ob == wb:
            j += 1
            ob = 0


def runs(c, w):
    out = []
    pos = 0
    while pos < w:
        b = (c >> pos) & 1
        x = c >> pos
        if b:
            n = 0
            y = x
            # count trailing ones
            n = ((~y) & (y + 1)).bit_length() - 1
        else:
            n = (x & -x).bit_length() - 1 if x else w - pos
        n = min(n, w - pos)
        out.append((b, n))
        pos += n
    return out


def is_cat(t):
    return t.__class__ is T and t.op == 'cat'


# ---------------------------------------------------------------- bitwise
def band(a, b, w):
    if a.__class__ is int:
        if b.__class__ is int:
            return a & b
        a, b = b, a
    if b.__class__ is int:
        b &= mask(w)
        if b == 0:
            return 0
        if b == mask(w):
            return a
        out = []
        pos = 0
        for bit, n in runs(b, w):
            out.append((sl(a, pos, n) if bit else 0, n))
            pos += n
        return cat(out)
    if a is b:
        return a
    if is_cat(a) or is_cat(b):
        return cat([(band(x, y, n), n) for x, y, n in zip_pieces(a, b, w)])
    if a.op == 'and' and (a.a[0] is b or a.a[1] is b):
        return a
    if b.op == 'and' and (b.a[0] is a or b.a[1] is a):
        return b
    if w == 1 and (bnot1(a) is b):
        return 0
    if w > 1 and (a.op == 'ite' or b.op == 'ite'):
        # masks
        for x, y in ((a, b), (b, a)):
            if x.op == 'ite' and x.a[1].__class__ is int and x.a[2].__class__ is int and x.a[1] + x.a[2] == mask(w) and x.a[1] * x.a[2] == 0:
                return ite(x.a[0], y if x.a[1] else 0, y if x.a[2] else 0, w)
    if a.id > b.id:
        a, b = b, a
    return mk('and', w, (a, b), ('and', a.id, b.id))


def bor(a, b, w):
    if a.__class__ is int:
        if b.__class__ is int:
            return a | b
        a, b = b, a
    if b.__class__ is int:
        b &= mask(w)
        if b == 0:
            return a
        if b == mask(w):
            return b
        if not is_cat(a):
            out = []
            pos = 0
            for bit, n in runs(b, w):
                out.append((mask(n) if bit else sl(a, pos, n), n))
                pos += n
            return cat(out)
    elif a is b:
        return a
    if is_cat(a) or is_cat(b):
        return cat([(bor(x, y, n), n) for x, y, n in zip_pieces(a, b, w)])
    if w == 1 and (bnot1(a) is b):
        return 1
    if w > 1 and a.op == 'ite' and b.__class__ is T and b.op == 'ite' and a.a[0] is b.a[0]:
        return ite(a.a[0], bor(a.a[1], b.a[1], w), bor(a.a[2], b.a[2], w), w)
    if b.__class__ is T and a.id > b.id:
        a, b = b, a
    return mk('or', w, (a, b), ('or', a.id, b.id))


def bxor(a, b, w):
    if a.__class__ is int:
        if b.__class__ is int:
            return (a ^ b) & mask(w)
        a, b = b, a
    if b.__class__ is int:
        b &= mask(w)
        if b == 0:
            return a
        if w > 1 and a.op == 'ite' and a.a[1].__class__ is int and a.a[2].__class__ is int:
            return ite(a.a[0], a.a[1] ^ b, a.a[2] ^ b, w)
    if is_cat(a) or is_cat(b):
        return cat([(bxor(x, y, n), n) for x, y, n in zip_pieces(a, b, w)])
    c = 0
    s = {}
    for x in (a, b):
        if x.__class__ is int:
            c ^= x
        elif x.op == 'xor':
            c ^= x.a[0]
            for y in x.a[1]:
                if y.id in s:
                    del s[y.id]
                else:
                    s[y.id] = y
        else:
            if x.id in s:
                del s[x.id]
            else:
                s[x.id] = x
    return xor_fin(c, s, w)


def xor_fin(c, s, w):
    if not s:
        return c
    if len(s) == 1 and c == 0:
        return next(iter(s.values()))
    ks = sorted(s)
    return mk('xor', w, (c, tuple(s[k] for k in ks)), ('xor', w, c, tuple(ks)))


def bnot(a, w):
    return bxor(a, mask(w), w)


def bnot1(a):
    if a.__class__ is int:
        return a ^ 1
    return bxor(a, 1, 1)


# ---------------------------------------------------------------- shifts
def shl(a, k, w):
    if k.__class__ is not int:
        if a.__class__ is int and a == 0:
            return 0
        return shift_sym('shl', a, k, w)
    if k >= w:
        return 0
    if a.__class__ is int:
        return (a << k) & mask(w)
    if k == 0:
        return a
    if a.op == 'lin' or a.op == 'mul':
        return mul(a, 1 << k, w)
    return cat([(0, k), (sl(a, 0, w - k), w - k)])


def shift_sym(op, a, k, w):
    if k.__class__ is T:
        m = umax(k)
        if m <= 64 and m < w * 2:
            r = None
            f = {'shl': shl, 'lshr': lshr, 'ashr': ashr}[op]
            for i in range(m, -1, -1):
                v = f(a, i, w)
                r = v if r is None else ite(eq(k, i, k.w), v, r, w)
            return r
    return mk(op, w, (a, k))


def lshr(a, k, w):
    if k.__class__ is not int:
        return shift_sym('lshr', a, k, w)
    if k >= w:
        return 0
    if a.__class__ is int:
        return a >> k
    if k == 0:
        return a
    return cat([(sl(a, k, w - k), w - k), (0, k)])


def ashr(a, k, w):
    if k.__class__ is not int:
        return shift_sym('ashr', a, k, w)
    if k >= w:
        k = w - 1
    if a.__class__ is int:
        if a >> (w - 1):
            return ((a | ~mask(w)) >> k) & mask(w)
        return a >> k
    if k == 0:
        return a
    return sext(sl(a, k, w - k), w - k, w)


# ---------------------------------------------------------------- arithmetic
def lin_new(w, c=0):
    return [c & mask(w), {}]


def lin_add(r, x, k, w):
    m = mask(w)
    k &= m
    if k == 0:
        return
    if x.__class__ is int:
        r[0] = (r[0] + x * k) & m
        return
    if x.op == 'lin':
        c, ts = x.a
        r[0] = (r[0] + c * k) & m
        d = r[1]
        for y, j in ts:
            e = d.get(y.id)
            if e is None:
                v = (j * k) & m
                if v:
                    d[y.id] = (y, v)
            else:
                v = (e[1] + j * k) & m
                if v:
                    d[y.id] = (y, v)
                else:
                    del d[y.id]
        return
    d = r[1]
    e = d.get(x.id)
    if e is None:
        d[x.id] = (x, k)
    else:
        v = (e[1] + k) & m
        if v:
            d[x.id] = (x, v)
        else:
            del d[x.id]


def lin_fin(r, w):
    c, d = r
    if not d:
        return c
    if c == 0 and len(d) == 1:
        x, k = next(iter(d.values()))
        if k == 1:
            return x
    ks = sorted(d)
    ts = tuple(d[k] for k in ks)
    return mk('lin', w, (c, ts), ('lin', w, c, tuple((k, d[k][1]) for k in ks)))


def disjoint(a, b, w):
    for x, y, n in zip_pieces(a, b, w):
        if not ((x.__class__ is int and x == 0) or (y.__class__ is int and y == 0)):
            return False
    return True


def add(a, b, w):
    if a.__class__ is int:
        if b.__class__ is int:
            return (a + b) & mask(w)
        a, b = b, a
    if b.__class__ is int:
        b &= mask(w)
        if b == 0:
            return a
        if is_cat(a) and disjoint(a, b, w):
            return bor(a, b, w)
    elif (is_cat(a) or is_cat(b)) and disjoint(a, b, w):
        return bor(a, b, w)
    r = lin_new(w)
    lin_add(r, a, 1, w)
    lin_add(r, b, 1, w)
    return lin_fin(r, w)


def sub(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return (a - b) & mask(w)
    if b.__class__ is int and (b & mask(w)) == 0:
        return a
    r = lin_new(w)
    lin_add(r, a, 1, w)
    lin_add(r, b, mask(w), w)
    return lin_fin(r, w)


DISTRIBUTE = [False]


def mul(a, b, w):
    if a.__class__ is int:
        if b.__class__ is int:
            return (a * b) & mask(w)
        a, b = b, a
    if b.__class__ is int:
        b &= mask(w)
        if b == 0:
            return 0
        if b == 1:
            return a
        if a.op == 'ite' and a.a[1].__class__ is int and a.a[2].__class__ is int:
            return ite(a.a[0], (a.a[1] * b) & mask(w), (a.a[2] * b) & mask(w), w)
        r = lin_new(w)
        lin_add(r, a, b, w)
        return lin_fin(r, w)
    k = 1
    if a.op == 'lin' and a.a[0] == 0 and len(a.a[1]) == 1:
        k *= a.a[1][0][1]
        a = a.a[1][0][0]
    if b.op == 'lin' and b.a[0] == 0 and len(b.a[1]) == 1:
        k *= b.a[1][0][1]
        b = b.a[1][0][0]
    if DISTRIBUTE[0] and (a.op == 'lin' or b.op == 'lin'):
        ta = a.a if a.op == 'lin' else (0, ((a, 1),))
        tb = b.a if b.op == 'lin' else (0, ((b, 1),))
        r = lin_new(w)
        lin_add(r, ta[0], tb[0] * k, w)
        for x, i in ta[1]:
            if tb[0]:
                lin_add(r, x, i * tb[0] * k, w)
            for y, j in tb[1]:
                lin_add(r, mul(x, y, w), i * j * k, w)
        if ta[0]:
            for y, j in tb[1]:
                lin_add(r, y, j * ta[0] * k, w)
        return lin_fin(r, w)
    if a.id > b.id:
        a, b = b, a
    t = mk('mul', w, (a, b), ('mul', a.id, b.id))
    if k == 1:
        return t
    r = lin_new(w)
    lin_add(r, t, k, w)
    return lin_fin(r, w)


def _sg(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def udiv(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return a // b if b else mask(w)
    if b.__class__ is int and b and b & (b - 1) == 0:
        return lshr(a, b.bit_length() - 1, w)
    return mk('udiv', w, (a, b))


def urem(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return a % b if b else a
    if b.__class__ is int and b and b & (b - 1) == 0:
        return band(a, b - 1, w)
    if b.__class__ is int and umax(a) < b:
        return a
    return mk('urem', w, (a, b))


def sdiv(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        x, y = _sg(a, w), _sg(b, w)
        if y == 0:
            raise Unsupported('sdiv by zero')
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & mask(w)
    return mk('sdiv', w, (a, b))


def srem(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        x, y = _sg(a, w), _sg(b, w)
        r = abs(x) % abs(y)
        return (r if x >= 0 else -r) & mask(w)
    return mk('srem', w, (a, b))


# ---------------------------------------------------------------- comparison
def umax(t, w=None):
    if t.__class__ is int:
        return t
    if t.op == 'cat':
        r = 0
        pos = 0
        for x, v in t.a:
            r |= umax(x) << pos
            pos += v
        return r
    if t.op == 'ite':
        return max(umax(t.a[1]), umax(t.a[2]))
    if t.op == 'lookup':
        return max(t.a[0])
    if t.op == 'lin':
        c, ts = t.a
        s = c
        for x, k in ts:
            s += umax(x) * k
        if s <= mask(t.w):
            return s
        # try treating large coefficients as negative: no information
        return mask(t.w)
    if t.op == 'mul':
        s = umax(t.a[0]) * umax(t.a[1])
        return min(s, mask(t.w))
    if t.op == 'and':
        return min(umax(t.a[0]), umax(t.a[1]))
    if t.op == 'urem' and t.a[1].__class__ is int and t.a[1]:
        return t.a[1] - 1
    return mask(t.w)


def umin(t):
    if t.__class__ is int:
        return t
    if t.op == 'cat':
        r = 0
        pos = 0
        for x, v in t.a:
            r |= umin(x) << pos
            pos += v
        return r
    if t.op == 'ite':
        return min(umin(t.a[1]), umin(t.a[2]))
    return 0


def eq(a, b, w):
    if a.__class__ is int:
        if b.__class__ is int:
            return 1 if a == b else 0
        a, b = b, a
    if a is b:
        return 1
    if b.__class__ is int:
        b &= mask(w)
        if b > umax(a) or b < umin(a):
            return 0
        if w == 1:
            return a if b else bnot1(a)
        if a.op == 'ite':
            x, y = a.a[1], a.a[2]
            if x.__class__ is int or y.__class__ is int:
                return ite(a.a[0], eq(x, b, w), eq(y, b, w), 1)
        if a.op == 'or' and b == 0:
            return band(eq(a.a[0], 0, w), eq(a.a[1], 0, w), 1)
        if a.op == 'and' and b == mask(w):
            return band(eq(a.a[0], b, w), eq(a.a[1], b, w), 1)
        if a.op == 'xor' and a.a[0]:
            return eq(xor_fin(0, {t.id: t for t in a.a[1]}, w), b ^ a.a[0], w)
        if a.op == 'xor' and b == 0 and len(a.a[1]) == 2:
            return eq(a.a[1][0], a.a[1][1], w)
        if a.op == 'lin' and a.a[0]:
            r = [0, {t.id: (t, k) for t, k in a.a[1]}]
            return eq(lin_fin(r, w), (b - a.a[0]) & mask(w), w)
        if a.op == 'lin' and a.a[0] == 0 and len(a.a[1]) == 1:
            x, k = a.a[1][0]
            if 1 < k < 1 << (w - 1) and umax(x) * k <= mask(w):
                return eq(x, b // k, w) if b % k == 0 else 0
        if a.op == 'sext':
            x = a.a[0]
            lo = b & mask(x.w)
            if sext(lo, x.w, w) != b:
                return 0
            return eq(x, lo, x.w)
    if is_cat(a) or is_cat(b):
        r = 1
        for x, y, n in zip_pieces(a, b, w):
            e = eq(x, y, n)
            if e.__class__ is int:
                if e == 0:
                    return 0
                continue
            r = band(r, e, 1)
        return r
    if a.op == 'lookup' and b.__class__ is T and b.op == 'lookup' and a.a[0] == b.a[0] and injective(a.a[0]):
        u, v = a.a[1], b.a[1]
        ww = max(u.w, v.w)
        return eq(zext(u, ww), zext(v, ww), ww)
    if a.op == 'lookup' and b.__class__ is int:
        tab, u = a.a
        hits = [i for i, x in enumerate(tab) if x == b]
        if not hits:
            return 0
        if len(hits) <= 4:
            r = 0
            for i in hits:
                r = bor(r, eq(u, i, u.w), 1)
            return r
    if (a.hb or (b.__class__ is T and b.hb)) and not (w == 1 and (boolish(a) and (b.__class__ is int or boolish(b)))):
        e = geq(a, b, w)
        if e is not None:
            return e
    if w == 1:
        return bnot1(bxor(a, b, 1))
    if b.__class__ is int:
        return mk('eq', 1, (a, b), ('eq', a.id, b, w, 0))
    if (a.op == 'xor' and (b.op == 'xor' or any(b is y for y in a.a[1]))) or (b.op == 'xor' and any(a is y for y in b.a[1])):
        # cancel common parts
        x = bxor(a, b, w)
        if x.__class__ is int:
            return 1 if x == 0 else 0
        if x.op != 'xor':
            return eq(x, 0, w)
    if a.op == 'lin' and b.op == 'lin':
        d = sub(a, b, w)
        if d.__class__ is int:
            return 1 if d == 0 else 0
        if d.op != 'lin' or 2 * len(d.a[1]) <= len(a.a[1]) + len(b.a[1]):
            return eq(d, 0, w)
    if a.id > b.id:
        a, b = b, a
    return mk('eq', 1, (a, b), ('eq', a.id, b.id, w, 1))


_injc = {}


def injective(tab):
    r = _injc.get(id(tab))
    if r is None or r[0] is not tab:
        r = (tab, len(set(tab)) == len(tab))
        _injc[id(tab)] = r
    return r[1]


def boolish(t):
    return t.op in ('eq', 'ult', 'slt', 'and', 'or', 'var') or (t.op == 'xor' and all(boolish(x) for x in t.a[1]))


def _atom(t):
    """(blob, index, lo, w) when t is a whole byte of a blob or a slice of one"""
    if t.op == 'byte':
        return (t.a[0], t.a[1], 0, 8)
    if t.op == 'ext' and t.a[0].__class__ is T and t.a[0].op == 'byte':
        b = t.a[0]
        return (b.a[0], b.a[1], t.a[1], t.w)
    return None


def geq(a, b, w):
    """equality of terms that contain bytes of ideal primitives, which are treated as
    indeterminates: a xor of them is a fixed value only if they cancel pairwise"""
    # push through if-then-else
    for x, y in ((a, b), (b, a)):
        if x.__class__ is T and x.op == 'ite' and x.w == w:
            return ite(x.a[0], eq(x.a[1], y, w), eq(x.a[2], y, w), 1)
    x = bxor(a, b, w)
    if x.__class__ is int:
        return 1 if x == 0 else 0
    if is_cat(x):
        return eq(x, 0, w)
    parts = list(x.a[1]) if x.op == 'xor' else [x]
    c = x.a[0] if x.op == 'xor' else 0
    at = []
    rest = []
    for p in parts:
        k = _atom(p)
        if k is not None:
            at.append(k)
        elif p.op == 'ite' and p.hb:
            o = bxor(x, p, w)
            return ite(p.a[0], eq(o, p.a[1], w), eq(o, p.a[2], w), 1)
        elif p.hb:
            return None
        else:
            rest.append(p)
    if not at:
        # everything ideal cancelled
        return eq(x, 0, w)
    if len(at) % 2:
        if w < 8:
            return None
        return 0
    if len(at) > 8:
        raise Unsupported('xor of %d ideal bytes in a comparison' % len(at))
    base = eq(xor_fin(c, {t.id: t for t in rest}, w), 0, w)
    if base.__class__ is int and base == 0:
        return 0
    return band(base, match(at), 1)


def match(at):
    if not at:
        return 1
    p = at[0]
    r = 0
    for j in range(1, len(at)):
        q = at[j]
        if q[1:] != p[1:]:
            continue
        e = blobeq(p[0], q[0])
        if e.__class__ is int and e == 0:
            continue
        m = match(at[1:j] + at[j + 1:])
        r = bor(r, band(e, m, 1), 1)
        if r.__class__ is int and r == 1:
            return 1
    return r


_beq = {}
BLOBEQ = {}      # kind -> callable(b1, b2) -> condition


def blobeq(a, b):
    if a is b:
        return 1
    if a.kind != b.kind or a.n != b.n:
        return 0
    k = (a.id, b.id) if a.id < b.id else (b.id, a.id)
    r = _beq.get(k)
    if r is None:
        f = BLOBEQ.get(a.kind)
        r = f(a, b) if f else argeq(a.args, b.args)
        _beq[k] = r
    return r


def argeq(x, y):
    if x.__class__ is T or y.__class__ is T:
        if x.__class__ is tuple or y.__class__ is tuple or x.__class__ is Blob or y.__class__ is Blob:
            return 0
        return eq(x, y, x.w if x.__class__ is T else y.w)
    if x.__class__ is Blob or y.__class__ is Blob:
        if x.__class__ is not Blob or y.__class__ is not Blob:
            return 0
        return blobeq(x, y)
    if x.__class__ is tuple:
        if y.__class__ is not tuple or len(x) != len(y):
            return 0
        # cheap constants first
        sym = []
        for p, q in zip(x, y):
            if p is q:
                continue
            if p.__class__ is int and q.__class__ is int:
                if p != q:
                    return 0
            elif p.__class__ is str or q.__class__ is str:
                if p != q:
                    return 0
            else:
                sym.append((p, q))
        r = 1
        seen = set()
        for p, q in sym:
            if p.__class__ is T and q.__class__ is T and p.op == 'byte' and q.op == 'byte' and p.a[1] == q.a[1]:
                k = (p.a[0].id, q.a[0].id)
                if k in seen:
                    continue
                seen.add(k)
            r = band(r, argeq(p, q), 1)
            if r.__class__ is int and r == 0:
                return 0
        return r
    return 1 if x == y else 0


def bytes_eq(x, y):
    """condition for equality of two byte lists"""
    return argeq(tuple(x), tuple(y))


def blob_prefix(bs, kind=None):
    """the blob b if bs is exactly its bytes 0..len-1, else None"""
    if not bs or bs[0].__class__ is not T or bs[0].op != 'byte' or bs[0].a[1] != 0:
        return None
    b = bs[0].a[0]
    if kind is not None and b.kind != kind:
        return None
    if len(bs) != b.n:
        return None
    for i, x in enumerate(bs):
        if x.__class__ is not T or x.op != 'byte' or x.a[0] is not b or x.a[1] != i:
            return None
    return b


def blob_candidates(bs, kind):
    """blobs of the given kind whose byte i occurs in (a xor inside) bs[i] for some i"""
    out = []

    def go(t, i, d):
        if t.__class__ is not T or d > 6:
            return
        if t.op == 'byte':
            b = t.a[0]
            if b.kind == kind and t.a[1] == i and b.n == len(bs) and b not in out:
                out.append(b)
            return
        if t.op == 'xor':
            for y in t.a[1]:
                go(y, i, d + 1)
        elif t.op == 'ite':
            go(t.a[1], i, d + 1)
            go(t.a[2], i, d + 1)
        elif t.op == 'cat':
            for y, _ in t.a:
                go(y, i, d + 1)
        elif t.op == 'ext':
            go(t.a[0], i, d + 1)
    for i, t in enumerate(bs):
        go(t, i, 0)
    return out


def ult(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return 1 if a < b else 0
    if a is b:
        return 0
    if umax(a) < umin(b):
        return 1
    if umin(a) >= umax(b):
        return 0
    if b.__class__ is int and b & (b - 1) == 0:
        # a < 2^k  <=> high bits zero
        k = b.bit_length() - 1
        return eq(sl(a, k, w - k), 0, w - k)
    if a.__class__ is int and (a + 1) & a == 0:
        k = (a + 1).bit_length() - 1
        if k < w:
            return bnot1(eq(sl(b, k, w - k), 0, w - k))
    if a.__class__ is int and a == 0:
        return bnot1(eq(b, 0, w))
    if a.__class__ is T and b.__class__ is T and a.id > b.id and (a.hb or b.hb):
        # bytes of ideal primitives: keep the order total and consistent with equality
        e = eq(a, b, w)
        if e.__class__ is int and e == 0:
            return bnot1(ult(b, a, w))
    return mk('ult', 1, (a, b, w))


def slt(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return 1 if _sg(a, w) < _sg(b, w) else 0
    if a is b:
        return 0
    if b.__class__ is int and b == 0:
        return sl(a, w - 1, 1)
    if a.__class__ is int and a == mask(w):
        return bnot1(sl(b, w - 1, 1))
    if not a.__class__ is int or not b.__class__ is int:
        if umax(a) >> (w - 1) == 0 and umax(b) >> (w - 1) == 0:
            return ult(a, b, w)
    return mk('slt', 1, (a, b, w))


def ite(c, a, b, w):
    if c.__class__ is int:
        return a if c else b
    if a.__class__ is int and b.__class__ is int:
        if a == b:
            return a
        if w == 1:
            return c if a else bnot1(c)
        if a + b == 1:
            return cat([(c if a else bnot1(c), 1), (0, w - 1)])
    elif a is b:
        return a
    if w == 1:
        if a.__class__ is int:
            return bor(c, b, 1) if a else band(bnot1(c), b, 1)
        if b.__class__ is int:
            return bor(bnot1(c), a, 1) if b else band(c, a, 1)
    if c.op == 'xor' and c.a[0] == 1:
        return ite(bnot1(c), b, a, w)
    if b.__class__ is int and a.__class__ is T and a.op == 'ite' and a.a[2].__class__ is int and a.a[2] == b:
        return ite(band(c, a.a[0], 1), a.a[1], b, w)
    if w > 1 and (is_cat(a) or is_cat(b)):
        # share identical / zero pieces
        ps = list(zip_pieces(a, b, w))
        if any(x is y or (x.__class__ is int and y.__class__ is int and x == y) for x, y, n in ps):
            return cat([(ite(c, x, y, n), n) for x, y, n in ps])
    return mk('ite', w, (c, a, b))


def lookup(table, idx, w):
    """table: tuple of ints, idx term (any width)"""
    if idx.__class__ is int:
        return table[idx]
    return mk('lookup', w, (intern_tab(table), idx), ('lookup', w, intern_tab(table), idx.id))


_tabs = {}


def intern_tab(t):
    return _tabs.setdefault(t, t)


def uf(name, w, args):
    return mk('uf', w, (name,) + tuple(args))


# value evaluation under a model callback ------------------------------------
def atoms(t, acc, seen):
    st = [t]
    while st:
        x = st.pop()
        if x.__class__ is tuple:
            st.extend(x)
            continue
        if x.__class__ is not T and x.__class__ is not Blob:
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.__class__ is Blob:
            acc.append(x)
            st.extend(x.args)
        else:
            if x.op == 'var' or x.op == 'uf':
                acc.append(x)
            st.extend(x.a)
    return acc


# ---------------------------------------------------------------- substitution
SUBST = {}       # kind -> callable(blob, f) -> Blob or None (default rebuild); f maps terms/tuples/blobs


class Subst:
    """replaces variables by equal terms, re-normalising everything built from them"""

    def __init__(self, m):
        self.m = m           # id of variable -> int or T
        self.c = {}

    def any(self, x):
        c = x.__class__
        if c is T:
            return self.t(x)
        if c is Blob:
            return self.b(x)
        if c is tuple:
            ch = False
            out = []
            for y in x:
                if y.__class__ is int or y.__class__ is str:
                    out.append(y)
                    continue
                z = self.any(y)
                ch |= z is not y
                out.append(z)
            return tuple(out) if ch else x
        return x

    def b(self, x):
        r = self.c.get(x.id)
        if r is not None:
            return r
        f = SUBST.get(x.kind)
        if f is not None:
            r = f(x, self)
        else:
            a = self.any(x.args)
            r = x if a is x.args else blob(x.kind, a, x.n)
        self.c[x.id] = r
        return r

    def t(self, x):
        r = self.c.get(x.id)
        if r is not None:
            return r
        r = self._t(x)
        self.c[x.id] = r
        return r

    def _t(self, x):
        op = x.op
        if op == 'var':
            return self.m.get(x.id, x)
        a = self.any(x.a)
        if a is x.a:
            return x
        w = x.w
        if op == 'byte':
            o, i = a
            if o.__class__ is list:
                return o[i]
            return bbyte(o, i)
        if op == 'cat':
            return cat(a)
        if op == 'ext':
            return sl(a[0], a[1], w)
        if op == 'lin':
            r = lin_new(w, a[0])
            for y, k in a[1]:
                lin_add(r, y, k, w)
            return lin_fin(r, w)
        if op == 'xor':
            r = a[0]
            for y in a[1]:
                r = bxor(r, y, w)
            return r
        if op == 'sext':
            return sext(a[0], x.a[0].w, w)
        if op == 'lookup':
            return lookup(a[0], a[1], w)
        if op == 'eq':
            y = x.a[0] if x.a[0].__class__ is T else x.a[1]
            return eq(a[0], a[1], y.w)
        if op == 'ult' or op == 'slt':
            return (ult if op == 'ult' else slt)(a[0], a[1], a[2])
        if op == 'ite':
            return ite(a[0], a[1], a[2], w)
        if op == 'uf':
            return mk('uf', w, a)
        f = {'and': band, 'or': bor, 'mul': mul, 'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem, 'shl': shl, 'lshr': lshr, 'ashr': ashr}[op]
        return f(a[0], a[1], w)


def conj_units(t):
    """(variable, value) for the conjuncts of t that fix a variable"""
    out = []
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x.__class__ is not T or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'and' and x.w == 1:
            st.extend(x.a)
        elif x.op == 'eq':
            a, b = x.a
            if a.__class__ is T and a.op == 'var':
                if b.__class__ is T and b.op == 'var' and b.id > a.id:
                    a, b = b, a
                if b.__class__ is int or b.op == 'var':
                    out.append((a, b))
    return out
