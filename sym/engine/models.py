"""Models of the boundary of symbolic execution: scenario interface, panics, allocation and
idealised primitives (hash compression functions, stream-cipher cores, permutations, group
arithmetic in the generic-group style, KEM core, signature FFI).

Everything not listed here is executed from the compiled code.
"""
import re
from . import terms as X
from .terms import T, Blob, blob, bbyte, bbytes, Unsupported, bytes_eq, blob_prefix, blob_candidates
from .symex import PathEnd, BUILTIN

ELL = 2**252 + 27742317777372353535851937790883648493
P25519 = 2**255 - 19

# ---------------------------------------------------------------- polynomials over Z_ell
def patom(kind, *args):
    return blob(kind, args, 0)


def pconst(c):
    c %= ELL
    return {(): c} if c else {}


def pvar(a):
    return {(a.id,): 1}


_reg = {}


def reg(a):
    _reg[a.id] = a
    return a


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = (r.get(m, 0) + k * c) % ELL
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = tuple(sorted(m + n))
            v = (r.get(k, 0) + c * d) % ELL
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def pkey(p):
    return tuple((tuple(_reg[i] for i in m), c) for m, c in sorted(p.items()))


def pfrom(key):
    r = {}
    for m, c in key:
        for a in m:
            _reg[a.id] = a
        r[tuple(sorted(a.id for a in m))] = c
    return r


_pz = {}


def pzero(d, distinct=frozenset()):
    """condition under which polynomial d vanishes identically"""
    if not d:
        return 1
    if len(d) == 1 and () in d:
        return 0
    k = (tuple(sorted(d.items())), distinct)
    r = _pz.get(k)
    if r is not None:
        return r
    at = sorted({i for m in d for i in m})
    pick = None
    for x in range(len(at)):
        for y in range(x + 1, len(at)):
            if (at[x], at[y]) in distinct:
                continue
            a, b = _reg[at[x]], _reg[at[y]]
            if a.kind != b.kind:
                continue
            e = X.blobeq(a, b)
            if e.__class__ is int:
                continue
            pick = (at[x], at[y], e)
            break
        if pick:
            break
    if pick is None:
        r = 0
    else:
        i, j, c = pick
        s = {}
        for m, v in d.items():
            n = tuple(sorted(i if z == j else z for z in m))
            w = (s.get(n, 0) + v) % ELL
            if w:
                s[n] = w
            else:
                s.pop(n, None)
        r = X.ite(c, pzero(s, distinct), pzero(d, distinct | {(i, j)}), 1)
    _pz[k] = r
    return r


def peq(p, q):
    return pzero(padd(p, q, -1))


def _polyblobeq(a, b):
    # args: (poly key, ...)
    if len(a.args) != len(b.args):
        return 0
    r = peq(pfrom(a.args[0]), pfrom(b.args[0]))
    for x, y in zip(a.args[1:], b.args[1:]):
        r = X.band(r, X.argeq(x, y), 1)
    return r


for _k in ('sc', 'ep', 'edc', 'risc', 'mon'):
    X.BLOBEQ[_k] = _polyblobeq


# ---------------------------------------------------------------- scalars
def scalar_of(bs):
    b = blob_prefix(bs, 'sc')
    if b is not None:
        return pfrom(b.args[0])
    if all(x.__class__ is int for x in bs):
        return pconst(int.from_bytes(bytes(bs), 'little'))
    if len(bs) == 32:
        # an encoding that may have been altered
        for c in blob_candidates(bs, 'sc'):
            if X.DECIDE[0](bytes_eq(bs, bbytes(c))):
                return pfrom(c.args[0])
    return pvar(reg(patom('satom', tuple(bs))))


def scalar_bytes(p):
    if not p:
        return [0] * 32
    if len(p) == 1 and () in p:
        return list(p[()].to_bytes(32, 'little'))
    return bbytes(blob('sc', (pkey(p),), 32))


def rsc(e, p):
    return scalar_of(e.rd(p, 32))


def wsc(e, p, v):
    e.wr(p, scalar_bytes(v))


# ---------------------------------------------------------------- points
def _inv(x):
    return pow(x, P25519 - 2, P25519)


D_ED = (-121665 * _inv(121666)) % P25519
SQRTM1 = pow(2, (P25519 - 1) // 4, P25519)
BASE_ENC = bytes([0x58] + [0x66] * 31)
class _Gen:
    g = None


def GENP():
    if _Gen.g is None:
        _Gen.g = reg(patom('gen'))
    return pvar(_Gen.g)


def _reset():
    _Gen.g = None
    _reg.clear()
    _pz.clear()


X.RESET.append(_reset)


def ed_decompress(b):
    y = int.from_bytes(b, 'little') & (2**255 - 1)
    s = b[31] >> 7
    y %= P25519
    u = (y * y - 1) % P25519
    v = (D_ED * y * y + 1) % P25519
    x2 = u * _inv(v) % P25519
    x = pow(x2, (P25519 + 3) // 8, P25519)
    if (x * x - x2) % P25519:
        x = x * SQRTM1 % P25519
    if (x * x - x2) % P25519:
        return None
    if x & 1 != s:
        x = (-x) % P25519
    return x, y


BASE = ed_decompress(BASE_ENC)


def affine_atom(x, y):
    """polynomial of a concrete affine point"""
    if (x, y) == (0, 1):
        return {}
    if (x, y) == BASE:
        return GENP()
    if ((-x) % P25519, y) == BASE:
        return padd({}, GENP(), -1)
    return pvar(reg(patom('cpoint', str(x), str(y))))


def fe(bs):
    r = 0
    for i in range(5):
        r += int.from_bytes(bytes(bs[8 * i:8 * i + 8]), 'little') << (51 * i)
    return r % P25519


def rpt(e, p):
    bs = e.rd(p, 160)
    b = blob_prefix(bs, 'ep')
    if b is not None:
        return pfrom(b.args[0])
    if all(x.__class__ is int for x in bs):
        x, y, z = fe(bs[0:40]), fe(bs[40:80]), fe(bs[80:120])
        if z == 0:
            raise Unsupported('concrete point with Z=0')
        zi = _inv(z)
        return affine_atom(x * zi % P25519, y * zi % P25519)
    raise Unsupported('point in memory is not a known value')


def wpt(e, p, v):
    e.wr(p, bbytes(blob('ep', (pkey(v),), 160)))


IDENT = bytes([1] + [0] * 31)


def enc_point(kind, v):
    if not v:
        return list(IDENT) if kind == 'edc' else [0] * 32
    if kind == 'edc' and len(v) == 1:
        (m, c), = v.items()
        if c == 1 and len(m) == 1:
            a = _reg[m[0]]
            if a.kind == 'decbase' and a.args[0] == kind:
                return list(a.args[1])
            if a.kind == 'cpoint':
                x, y = int(a.args[0]), int(a.args[1])
                return list((y | (x & 1) << 255).to_bytes(32, 'little'))
    if kind == 'risc' and len(v) == 1:
        (m, c), = v.items()
        if c == 1 and len(m) == 1:
            a = _reg[m[0]]
            if a.kind == 'decbase' and a.args[0] == kind:
                return list(a.args[1])
    return bbytes(blob(kind, (pkey(v),), 32))


def dec_point(e, bs, kind):
    """-> polynomial or None (invalid encoding)"""
    b = blob_prefix(bs, kind)
    if b is not None:
        return pfrom(b.args[0])
    if all(x.__class__ is int for x in bs):
        c = bytes(bs)
        if kind == 'edc':
            q = ed_decompress(c)
            return None if q is None else affine_atom(*q)
        if kind == 'risc' and c == bytes(32):
            return {}
    for c in blob_candidates(bs, kind):
        if X.DECIDE[0](bytes_eq(bs, bbytes(c))):
            return pfrom(c.args[0])
    a = reg(patom('decbase', kind, tuple(bs)))
    v = X.var('valid_%s_%d' % (kind, a.id), 1)
    e.note('encoding validity', a)
    if X.DECIDE[0](v):
        return pvar(a)
    return None


def _subst_poly(b, sb):
    """-> Blob, or list of bytes"""
    ch = False
    r = {}
    for mon, c in b.args[0]:
        p = pconst(c)
        for a in mon:
            q = _subst_atom(a, sb)
            if not (len(q) == 1 and q.get((a.id,)) == 1):
                ch = True
            p = pmul(p, q)
        r = padd(r, p)
    if not ch:
        return b
    if b.kind == 'sc':
        bs = scalar_bytes(r)
    elif b.kind == 'ep':
        return blob('ep', (pkey(r),), 160)
    else:
        bs = enc_point(b.kind, r)
    k = blob_prefix(bs, b.kind)
    return k if k is not None else bs


def _subst_atom(a, sb):
    x = a.args
    y = sb.any(x)
    if y is x:
        return {(a.id,): 1}
    if a.kind == 'satom':
        bs = list(y[0])
        b = blob_prefix(bs, 'sc')
        if b is not None:
            return pfrom(b.args[0])
        if all(v.__class__ is int for v in bs):
            return pconst(int.from_bytes(bytes(bs), 'little'))
    elif a.kind == 'decbase' or a.kind == 'monbase':
        bs = list(y[-1])
        b = blob_prefix(bs, 'mon' if a.kind == 'monbase' else y[0])
        if b is not None:
            return pfrom(b.args[0])
        # a concrete encoding: keep the symbolic name
        if all(v.__class__ is int for v in bs):
            return {(a.id,): 1}
    return pvar(reg(blob(a.kind, y, a.n)))


for _k in ('sc', 'ep', 'edc', 'risc', 'mon'):
    X.SUBST[_k] = _subst_poly


# ---------------------------------------------------------------- table
MODELS = []
DEFAULT = frozenset(['', 'kem'])


def model(pat, group=''):
    """group: the models in use are chosen per scenario (props.groups_of)"""
    def d(f):
        MODELS.append((re.compile(pat), f, group))
        return f
    return d


def norm(d):
    d = re.sub(r'\[[0-9a-f]{6,}\]', '', d)
    return d.replace(': usize', '')


def find(d, mangled, groups=DEFAULT):
    d = norm(d)
    for pat, f, g in MODELS:
        if g in groups and pat.search(d):
            return f
    return None


# ---------------------------------------------------------------- scenario interface
def cstr(e, p, n):
    return bytes(e.rd(p, n)).decode()


@model(r'^sym_bytes$')
def m_bytes(e, name, nl, p, n):
    nm = cstr(e, name, nl)
    e.note('input', (nm, n))
    e.wr(p, [X.var('%s[%d]' % (nm, i), 8) for i in range(n)])


@model(r'^sym_choice$')
def m_choice(e, name, nl, n):
    nm = cstr(e, name, nl)
    e.note('input', (nm, -n))
    v = X.var('choice:' + nm, 32)
    e.add_pc(X.ult(v, n, 32))
    for i in range(n - 1):
        if e.decide(X.eq(v, i, 32)):
            return i
    return n - 1


@model(r'^sym_rng$')
def m_rng(e, stream, ctr, p, n):
    e.wr(p, bbytes(blob('rng', ('rng', stream, ctr), n)))


@model(r'^sym_assume$')
def m_assume(e, c):
    if c.__class__ is int:
        if not c:
            raise PathEnd('assume', '')
        return
    if not e.sat_with(c):
        raise PathEnd('assume', '')
    e.add_pc(c)


@model(r'^sym_check$')
def m_check(e, name, nl, c):
    e.check(cstr(e, name, nl), c)


@model(r'^sym_eq$')
def m_eq(e, a, b, n):
    return bytes_eq(e.rd(a, n), e.rd(b, n))


@model(r'^sym_contains$')
def m_contains(e, h, hn, n, nn):
    """is the needle a substring?  Ideal bytes that are not the same term are different (the
    secrets are random values)"""
    hay, nd = e.rd(h, hn), e.rd(n, nn)
    r = 0
    for i in range(hn - nn + 1):
        c = 1
        for j in range(nn):
            p, q = hay[i + j], nd[j]
            if p is q:
                continue
            if p.__class__ is int and q.__class__ is int:
                if p != q:
                    c = 0
                    break
                continue
            if (p.__class__ is int or p.op in ('byte', 'xor', 'var')) and (q.__class__ is int or q.op in ('byte', 'xor', 'var')):
                c = 0
                break
            c = X.band(c, X.eq(p, q, 8), 1)
            if c.__class__ is int and not c:
                break
        r = X.bor(r, c, 1)
    return r


@model(r'^sym_reach$')
def m_reach(e, name, nl):
    e.reached(cstr(e, name, nl))


@model(r'^sym_panic_ok$')
def m_pok(e, on):
    e.user['panic_ok'] = on


@model(r'^sym_expect_panic$')
def m_xp(e):
    e.user['expect_panic'] = 1


# ---------------------------------------------------------------- runtime
@model(r'^(__rustc::)?__rust_alloc(_zeroed)?$')
def m_alloc(e, n, al):
    return e.alloc(n)


@model(r'^(__rustc::)?__rust_no_alloc_shim_is_unstable_v2$')
def m_shim(e):
    return None


@model(r'^(__rustc::)?__rust_dealloc$')
def m_dealloc(e, p, n, al):
    if p.__class__ is int:
        e.objs.pop(p >> 32, None)


@model(r'^(__rustc::)?__rust_realloc$')
def m_realloc(e, p, old, al, new):
    q = e.alloc(new)
    e.cpy(q, p, min(old, new))
    e.objs.pop(p >> 32, None)
    return q


def panic_msg(e, args):
    """best effort: text and location of a panic"""
    out = []
    for a in args:
        if a.__class__ is int and a >> 32:
            nm = e.ginfo.get(a >> 32)
            if nm is None:
                continue
            try:
                o = e.objs.get(a >> 32) or e.materialize(a >> 32)
                if o.size == 24 and not o.sym:
                    fp = int.from_bytes(o.data[0:8], 'little')
                    fl = int.from_bytes(o.data[8:16], 'little')
                    ln = int.from_bytes(o.data[16:20], 'little')
                    f = bytes(e.rd(fp, fl)).decode(errors='replace')
                    out.append('%s:%d' % (f, ln))
            except Exception:
                pass
    return ' '.join(out)


@model(r'^core::panicking::|^core::(option|result)::(unwrap|expect)_failed$|^core::(slice|str)::.*fail|^alloc::(raw_vec::(capacity_overflow|handle_error)|alloc::handle_alloc_error)$|^core::cell::panic_already|^std::(rt|panicking)::(begin_panic|rust_panic)|^<core::slice::.*len_mismatch_fail|^__rust_start_panic|rust_begin_unwind$|^core::slice::.*len_mismatch|^copy_from_slice_impl::len_mismatch|len_mismatch_fail|^<\[_\]>::(split_at|split_at_mut)::do_panic')
def m_panic(e, *args):
    raise PathEnd('panic', panic_msg(e, args))


@model(r'^core::hint::black_box|^subtle::black_box')
def m_bb(e, *a):
    if len(a) == 1:
        return a[0]
    raise Unsupported('black_box by pointer')


def rd_int(e, p, n):
    return e.ld(p, n)


def _mk_cteq(w):
    def f(e, a, b):
        return X.zext(X.eq(e.ld(a, w // 8), e.ld(b, w // 8), w), 8)
    return f


for _w in (8, 16, 32, 64):
    model(r'^<u%d as subtle::ConstantTimeEq>::ct_eq$' % _w)(_mk_cteq(_w))


# ---------------------------------------------------------------- hashing
def compress(e, tag, pst, stlen, extra, pblk, blklen):
    st = e.rd(pst, stlen)
    blk = e.rd(pblk, blklen)
    b = blob('hash', (tag, tuple(st), tuple(blk)) + tuple(extra), stlen)
    e.wr(pst, bbytes(b))


@model(r'^<blake2::Blake2bVarCore>::compress$')
def m_b2b(e, self, blk, f0, f1):
    t = e.rd(self + 64, 8)
    compress(e, 'blake2b', self, 64, (tuple(t), f0, f1), blk, 128)


@model(r'^<blake2::Blake2sVarCore>::compress$')
def m_b2s(e, self, blk, f0, f1):
    t = e.rd(self + 32, 8)
    compress(e, 'blake2s', self, 32, (tuple(t), f0, f1), blk, 64)


@model(r'^sha2::sha256::compress256$')
def m_sha256(e, st, blks, n):
    for i in range(n):
        compress(e, 'sha256', st, 32, (), blks + 64 * i, 64)


@model(r'^sha2::sha512::compress512$')
def m_sha512(e, st, blks, n):
    for i in range(n):
        compress(e, 'sha512', st, 64, (), blks + 128 * i, 128)


@model(r'^<hmac_sha512::State>::blocks$')
def m_hs512(e, st, p, n):
    while n >= 128:
        compress(e, 'sha512', st, 64, (), p, 128)
        p += 128
        n -= 128
    return n


# ---------------------------------------------------------------- permutations, stream ciphers
def perm(tag):
    def f(e, p, *extra):
        st = e.rd(p, 200)
        for i, x in enumerate(st):
            # a selection on a secret condition: one path for each case
            while st[i].__class__ is T and st[i].op == 'ite':
                c, y, z = st[i].a
                st[i] = y if X.DECIDE[0](c) else z
        e.wr(p, bbytes(blob('perm', (tag, tuple(st)) + tuple(extra), 200)))
    return f


model(r'^keccak::keccak_p::<u64>$')(perm('keccak_p'))
model(r'^keccak::f1600$')(perm('f1600'))
model(r'^<deck_farfalle::kravatte::RollC as deck_farfalle::RollFunction>::apply$')(perm('roll_c'))
model(r'^<deck_farfalle::kravatte::RollE as deck_farfalle::RollFunction>::apply$')(perm('roll_e'))


@model(r'^chacha20::(?:backends::soft|xchacha)::quarter_round$')
def m_quarter(e, a, b, c, d, st, *n):
    """The core adds the input state to the permuted state; the permuted state is represented
    as (output block - input state), so that the sum is the idealised output block.  `rounds`
    double rounds are told apart."""
    run = e.user.get('chacha')
    cur = e.rd(st, 64)
    if (a, b, c, d) == (0, 4, 8, 12):
        if run is not None and run[0] == st and run[2] == cur:
            inp, rounds = run[1], run[3] + 1
        else:
            inp, rounds = cur, 1
        out = bbytes(blob('chacha', (rounds, tuple(inp)), 64))
        w = []
        for k in range(16):
            x = X.cat([(y, 8) for y in out[4 * k:4 * k + 4]])
            y = X.cat([(z, 8) for z in inp[4 * k:4 * k + 4]])
            e.st(st + 4 * k, X.sub(x, y, 32), 4)
        e.user['chacha'] = (st, inp, e.rd(st, 64), rounds)
    elif run is None or run[0] != st:
        raise Unsupported('ChaCha20 round function used in an unexpected way')


@model(r'^rand_chacha::guts::refill_wide|^<rand_chacha::guts::ChaCha>::refill4$')
def m_refill(e, self, rounds, out, *rest):
    st = e.rd(self, 48)
    e.wr(out, bbytes(blob('chacharng', (rounds, tuple(st)), 256)))
    # 64-bit block counter in the first half of the last row
    d = self + 32
    e.st(d, X.add(e.ld(d, 8), 4, 64), 8)


# ---------------------------------------------------------------- system randomness
def fresh(e, n):
    k = e.user.get('os', 0)
    e.user['os'] = k + 1
    return bbytes(blob('rng', ('os', e.user.get('osstream', 0), k), n))


@model(r'^sym_os_stream$')
def m_osstream(e, k):
    e.user['osstream'] = k
    e.user['os'] = 0


# the thread-local generator behaves like the operating system's
@model(r'^rand::rngs::thread::thread_rng$')
def m_thread_rng(e):
    p = e.alloc(64)
    e.st(p, 1 << 40, 8)
    e.st(p + 8, 1 << 40, 8)
    return p


@model(r'^<rand::rngs::thread::ThreadRng as rand_core::RngCore>::(try_)?fill_bytes$')
def m_thread_fill(e, self, p, n):
    e.wr(p, fresh(e, n))
    return 0


@model(r'^<rand::rngs::thread::ThreadRng as rand_core::RngCore>::next_u(32|64)$')
def m_thread_next(e, self):
    raise Unsupported('thread_rng integers')


@model(r'^getrandom::getrandom$')
def m_getrandom(e, p, n):
    e.wr(p, fresh(e, n))
    return 0


@model(r'^getrandom$')
def m_getrandom_c(e, p, n, fl):
    e.wr(p, fresh(e, n))
    return n


@model(r'^syscall$')
def _syscall(e, nr, *a):
    if nr == 318:        # getrandom(buf, len, flags)
        if a[1]:
            e.wr(a[0], fresh(e, a[1]))
        return a[1]
    raise Unsupported('system call %r' % nr)


BUILTIN['syscall'] = _syscall


# ---------------------------------------------------------------- Dilithium (ideal signatures)
# Key pairs are functions of the coins; a signature is a value determined by secret key and
# message; verification accepts exactly the signatures made by the matching secret key on that
# message (strong unforgeability).
DIL = {2: (1312, 2560, 2420), 3: (1952, 4032, 3309), 5: (2592, 4896, 4627)}


def ident(bs):
    """short name for a byte string"""
    b = bs[0]
    if b.__class__ is T and b.op == 'byte':
        o, i = b.a
        if all(x.__class__ is T and x.op == 'byte' and x.a[0] is o and x.a[1] == i + j for j, x in enumerate(bs)):
            return (o, i, len(bs))
    return tuple(bs)


def dil_models():
    for k, (npk, nsk, nsig) in DIL.items():
        pre = r'^PQCLEAN_DILITHIUM%d_(CLEAN|AVX2)_crypto_sign_' % k

        def keypair_det(e, coins, pk, sk, k=k, npk=npk, nsk=nsk):
            c = tuple(e.rd(coins, 32))
            e.wr(pk, bbytes(blob('dpk', (k, c), npk)))
            e.wr(sk, bbytes(blob('dsk', (k, c), nsk)))
            return 0

        def signature(e, sig, siglen, m, mlen, sk, k=k, nsk=nsk, nsig=nsig):
            e.wr(sig, bbytes(blob('dsig', (k, ident(e.rd(sk, nsk)), tuple(e.rd(m, mlen))), nsig)))
            e.st(siglen, nsig, 8)
            return 0

        def verify(e, sig, siglen, m, mlen, pk, k=k, npk=npk, nsig=nsig):
            if siglen != nsig:
                return 0xffffffff
            sb, mb, pb = e.rd(sig, nsig), tuple(e.rd(m, mlen)), e.rd(pk, npk)
            b = blob_prefix(sb, 'dsig')
            for c in ([b] if b is not None else blob_candidates(sb, 'dsig')):
                kk, ski, msg = c.args
                if kk != k or len(msg) != mlen or not (len(ski) == 3 and ski[0].__class__ is Blob and ski[0].kind == 'dsk' and ski[1] == 0):
                    continue
                own = bbytes(blob('dpk', (k, ski[0].args[1]), npk))
                g = X.band(X.band(bytes_eq(sb, bbytes(c)), bytes_eq(pb, own), 1), bytes_eq(list(mb), list(msg)), 1)
                if X.DECIDE[0](g):
                    return 0
            return 0xffffffff
        model(pre + 'keypair_det$')(keypair_det)
        model(pre + 'signature$')(signature)
        model(pre + 'verify$')(verify)
        BUILTIN['PQCLEAN_DILITHIUM%d_CLEAN_crypto_sign_keypair_det' % k] = keypair_det
        for v in ('CLEAN', 'AVX2'):
            BUILTIN['PQCLEAN_DILITHIUM%d_%s_crypto_sign_signature' % (k, v)] = signature
            BUILTIN['PQCLEAN_DILITHIUM%d_%s_crypto_sign_verify' % (k, v)] = verify


dil_models()


# ---------------------------------------------------------------- curve arithmetic
PT = r'curve25519_dalek::(?:edwards::EdwardsPoint|ristretto::RistrettoPoint)'
SC = r'curve25519_dalek::scalar::Scalar'


@model(r'^<&?(%s) as core::ops::arith::Add(<&?\1>)?>::add$' % PT)
def m_ptadd(e, o, a, b):
    wpt(e, o, padd(rpt(e, a), rpt(e, b)))


@model(r'^<&?(%s) as core::ops::arith::Sub(<&?\1>)?>::sub$' % PT)
def m_ptsub(e, o, a, b):
    wpt(e, o, padd(rpt(e, a), rpt(e, b), -1))


@model(r'^<&?%s as core::ops::arith::Neg>::neg$' % PT)
def m_ptneg(e, o, a):
    wpt(e, o, padd({}, rpt(e, a), -1))


@model(r'^<&?%s as core::ops::arith::Mul<&?%s>>::mul$' % (PT, SC))
def m_ptmul(e, o, a, s):
    wpt(e, o, pmul(rpt(e, a), rsc(e, s)))


@model(r'^<&?%s as core::ops::arith::Mul<&?%s>>::mul$' % (SC, PT))
def m_mulpt(e, o, s, a):
    wpt(e, o, pmul(rpt(e, a), rsc(e, s)))


@model(r'^<%s>::mul_base$' % PT)
def m_mulbase(e, o, s):
    wpt(e, o, pmul(GENP(), rsc(e, s)))


@model(r'^<&?curve25519_dalek::(edwards::EdwardsBasepointTable|ristretto::RistrettoBasepointTable) as core::ops::arith::Mul<&?%s>>::mul$' % SC)
def m_tabmul(e, o, t, s):
    wpt(e, o, pmul(GENP(), rsc(e, s)))


@model(r'^<&?%s as core::ops::arith::Mul<&?curve25519_dalek::(edwards::EdwardsBasepointTable|ristretto::RistrettoBasepointTable)>>::mul$' % SC)
def m_multab(e, o, s, t):
    wpt(e, o, pmul(GENP(), rsc(e, s)))


@model(r'^<%s>::vartime_double_scalar_mul_basepoint$' % PT)
def m_dsm(e, o, a, A, b):
    wpt(e, o, padd(pmul(rpt(e, A), rsc(e, a)), pmul(GENP(), rsc(e, b))))


@model(r'^<curve25519_dalek::edwards::EdwardsPoint>::compress$')
def m_edc(e, o, p):
    e.wr(o, enc_point('edc', rpt(e, p)))


@model(r'^<curve25519_dalek::ristretto::RistrettoPoint>::compress$')
def m_risc(e, o, p):
    e.wr(o, enc_point('risc', rpt(e, p)))


def opt_point(e, o, v):
    if v is None:
        e.mset(o, 0, 168)
        return
    e.st(o, 1, 8)
    wpt(e, o + 8, v)


@model(r'^<curve25519_dalek::edwards::CompressedEdwardsY>::decompress$')
def m_eddec(e, o, p):
    opt_point(e, o, dec_point(e, e.rd(p, 32), 'edc'))


@model(r'^<curve25519_dalek::ristretto::CompressedRistretto>::decompress$')
def m_risdec(e, o, p):
    opt_point(e, o, dec_point(e, e.rd(p, 32), 'risc'))


@model(r'^<%s as subtle::ConstantTimeEq>::ct_eq$' % PT)
def m_pteq(e, a, b):
    return X.zext(peq(rpt(e, a), rpt(e, b)), 8)


@model(r'^<%s as curve25519_dalek::traits::IsIdentity>::is_identity$' % PT)
def m_isid(e, a):
    return pzero(rpt(e, a))


@model(r'^<curve25519_dalek::edwards::EdwardsPoint>::(is_small_order)$')
def m_small(e, a):
    return pzero(rpt(e, a))


@model(r'^<curve25519_dalek::edwards::EdwardsPoint>::is_torsion_free$')
def m_tf(e, a):
    return 1


@model(r'^<curve25519_dalek::ristretto::RistrettoPoint>::from_uniform_bytes$')
def m_fub(e, o, p):
    wpt(e, o, pvar(reg(patom('hpoint', tuple(e.rd(p, 64))))))


# scalars
@model(r'^<&?(%s) as core::ops::arith::Add(<&?\1>)?>::add$' % SC)
def m_scadd(e, o, a, b):
    wsc(e, o, padd(rsc(e, a), rsc(e, b)))


@model(r'^<&?(%s) as core::ops::arith::Sub(<&?\1>)?>::sub$' % SC)
def m_scsub(e, o, a, b):
    wsc(e, o, padd(rsc(e, a), rsc(e, b), -1))


@model(r'^<&?(%s) as core::ops::arith::Mul(<&?\1>)?>::mul$' % SC)
def m_scmul(e, o, a, b):
    wsc(e, o, pmul(rsc(e, a), rsc(e, b)))


@model(r'^<&?%s as core::ops::arith::Neg>::neg$' % SC)
def m_scneg(e, o, a):
    wsc(e, o, padd({}, rsc(e, a), -1))


@model(r'^<(%s) as core::ops::arith::(Add|Sub|Mul)Assign(<&?\1>)?>::\w+$' % SC)
def m_scassign(e, *a):
    raise Unsupported('scalar assign')


@model(r'^<%s>::from_bytes_mod_order_wide$' % SC)
def m_wide(e, o, p):
    wsc(e, o, scalar_of(e.rd(p, 64)))


@model(r'^<%s>::from_bytes_mod_order$' % SC)
def m_modo(e, o, p):
    wsc(e, o, scalar_of(e.rd(p, 32)))


@model(r'^<%s>::reduce$' % SC)
def m_reduce(e, o, p):
    wsc(e, o, rsc(e, p))


@model(r'^<%s>::from_canonical_bytes$' % SC)
def m_canon(e, o, p):
    bs = e.rd(p, 32)
    if all(x.__class__ is int for x in bs):
        v = int.from_bytes(bytes(bs), 'little')
        e.wr(o, bs + [1 if v < ELL else 0])
        return
    s = scalar_of(bs)
    if len(s) == 1 and list(s.values()) == [1]:
        (m, _), = s.items()
        if len(m) == 1 and _reg[m[0]].kind == 'satom' and _reg[m[0]].args[0] == tuple(bs):
            # not a known scalar: canonical or not
            v = X.var('canon_%d' % m[0], 1)
            e.wr(o, scalar_bytes(s) + [X.zext(v, 8)])
            return
    e.wr(o, scalar_bytes(s) + [1])


# Montgomery form (up to sign, which the model keeps)
@model(r'^<curve25519_dalek::edwards::EdwardsPoint>::to_montgomery$')
def m_tomon(e, o, p):
    e.wr(o, enc_point('mon', rpt(e, p)))


@model(r'^<&?curve25519_dalek::montgomery::MontgomeryPoint as core::ops::arith::Mul<&?%s>>::mul$' % SC)
def m_monmul(e, o, p, s):
    bs = e.rd(p, 32)
    b = blob_prefix(bs, 'mon')
    v = None
    if b is not None:
        v = pfrom(b.args[0])
    else:
        # x25519 ignores the top bit of the last byte
        for c in blob_candidates(bs, 'mon'):
            cb = bbytes(c)
            t = bytes_eq(bs[:31], cb[:31])
            if t.__class__ is int and not t:
                continue
            t = X.band(t, X.eq(X.band(X.bxor(bs[31], cb[31], 8), 0x7f, 8), 0, 8), 1)
            if X.DECIDE[0](t):
                v = pfrom(c.args[0])
                break
        if v is None:
            bs = bs[:31] + [X.band(bs[31], 0x7f, 8)]
            if bytes(bs) == bytes([9] + [0] * 31) if all(x.__class__ is int for x in bs) else False:
                v = GENP()
            else:
                v = pvar(reg(patom('monbase', tuple(bs))))
    r = pmul(v, rsc(e, s))
    e.wr(o, enc_point('mon', r))




# ---------------------------------------------------------------- Saber core (IND-CPA scheme)
# The key pair, encryption and decryption of the underlying IND-CPA scheme are idealised: the
# key pair is a function of the seeds; Dec(sk, Enc(pk, m, r)) = m for the matching pair; a
# ciphertext altered by a known difference may or may not decrypt to the same message (the
# scheme is malleable); anything else decrypts to an unrelated value.
SABER_PK = {'lightsaber': 2, 'saber': 3, 'firesaber': 4}
SABER_CT = {2: 736, 3: 1088, 4: 1472}
_SB = r'<saber::(lightsaber|saber|firesaber)::\w+>$'


def saber_models():
    for name, k in SABER_PK.items():
        npk, nsk, nb, nct = 512 * k + 32, 512 * k, 320 * k + 32, SABER_CT[k]
        par = r'<saber::%s::\w+>$' % name

        def keypair(e, out, seed, noise, k=k, n=npk + nsk):
            e.wr(out, bbytes(blob('kempair', (k, tuple(e.rd(seed, 32)), tuple(e.rd(noise, 32))), n)))

        def pk_bytes(e, out, pk, npk=npk, nb=nb):
            bs = e.rd(pk, npk)
            b = blob_prefix(bs, 'kempk')
            if b is not None:
                e.wr(out, list(b.args[0]))
                return
            e.wr(out, bbytes(blob('kempkb', (ident(bs),), nb)))

        def pk_from(e, out, p, n, npk=npk, nb=nb):
            if n != nb:
                raise PathEnd('panic', 'public key of %d bytes' % n)
            bs = e.rd(p, n)
            b = blob_prefix(bs, 'kempkb')
            if b is None:
                for c in blob_candidates(bs, 'kempkb'):
                    if X.DECIDE[0](bytes_eq(bs, bbytes(c))):
                        b = c
                        break
            if b is not None:
                i = b.args[0]
                e.wr(out, bbytes(i[0], i[1], i[2]) if len(i) == 3 and i[0].__class__ is Blob else list(i))
                return
            e.wr(out, bbytes(blob('kempk', (tuple(bs),), npk)))

        def enc(e, out, m, ml, r, rl, pk, npk=npk, nct=nct):
            e.wr(out, bbytes(blob('kemct', (ident(e.rd(pk, npk)), tuple(e.rd(m, ml)), tuple(e.rd(r, rl))), nct)))

        def dec(e, out, sk, ct, nsk=nsk, nct=nct):
            skid = ident(e.rd(sk, nsk))
            bs = e.rd(ct, nct)

            def ours(c):
                p = c.args[0]
                return len(p) == 3 and p[0].__class__ is Blob and len(skid) == 3 and p[0] is skid[0] and p[0].kind == 'kempair'
            b = blob_prefix(bs, 'kemct')
            if b is not None and ours(b):
                e.wr(out, list(b.args[1]))
                return
            if b is None:
                for c in blob_candidates(bs, 'kemct'):
                    if not ours(c):
                        continue
                    if X.DECIDE[0](bytes_eq(bs, bbytes(c))):
                        e.wr(out, list(c.args[1]))
                        return
                    # a change that an idealised primitive made is not a chosen one
                    if any(x.__class__ is T and x.hb for x in (X.bxor(p, q, 8) for p, q in zip(bs, bbytes(c)))):
                        continue
                    d = blob('kemdec', (skid, tuple(bs)), 32)
                    v = X.var('malleable_%d_%d' % (c.id, d.id), 1)
                    e.note('altered ciphertext decrypts to the same message', c)
                    if X.DECIDE[0](v):
                        e.wr(out, list(c.args[1]))
                        return
            e.wr(out, bbytes(blob('kemdec', (skid, tuple(bs)), 32)))
        model(r'^saber::generic::indcpa_kem_keypair_deterministic::' + par, 'kem')(keypair)
        model(r'^saber::generic::indcpa_kem_enc::' + par, 'kem')(enc)
        model(r'^saber::generic::indcpa_kem_dec::' + par, 'kem')(dec)
        T_ = r'^<saber::%s::INDCPAPublicKey as saber::generic::INDCPAPublicKey<saber::%s::\w+>>::' % (name, name)
        model(T_ + 'to_bytes$', 'kem')(pk_bytes)
        model(T_ + 'from_bytes$', 'kem')(pk_from)


saber_models()


@model(r'^<saber::poly::Poly as core::ops::arith::Mul>::mul$', 'polymul')
def m_polymul(e, out, a, b):
    """an arbitrary commutative operation (scenarios about what is built from products)"""
    x, y = tuple(e.rd(a, 512)), tuple(e.rd(b, 512))
    if X._key(y) < X._key(x):
        x, y = y, x
    e.wr(out, bbytes(blob('polymul', (x, y), 512)))
