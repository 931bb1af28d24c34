"""Bit-vector term helpers on top of z3: linear normal forms, smart constructors."""
import z3
M64 = (1 << 64) - 1

_keep = {}          # ast id -> ast (keeps terms alive so that ids stay unique)
_lin_cache = {}     # ast id -> (atoms tuple, const)
_rebuild = {}


def bv(v, w=64):
    return z3.BitVecVal(v, w)


def is_const(t):
    return z3.is_bv_value(t)


def cval(t):
    return t.as_long()


def sval(t):
    return t.as_signed_long()


def _hold(t):
    _keep[t.get_id()] = t
    return t


class Lin:
    """sum(coeff*atom)+const modulo 2^w"""
    __slots__ = ('w', 'd', 'c')

    def __init__(self, w, d, c):
        self.w = w
        self.d = d
        self.c = c

    def key(self):
        return (self.w, tuple(sorted(self.d.items())), self.c)

    def is_const(self):
        return not self.d


def _mask(w):
    return (1 << w) - 1


def lin(t):
    i = t.get_id()
    r = _lin_cache.get(i)
    if r is not None:
        return r
    w = t.size()
    m = _mask(w)
    if z3.is_bv_value(t):
        r = Lin(w, {}, t.as_long())
    else:
        k = t.decl().kind()
        if k == z3.Z3_OP_BADD:
            d = {}
            c = 0
            for a in t.children():
                l = lin(a)
                c += l.c
                for x, v in l.d.items():
                    d[x] = d.get(x, 0) + v
            r = Lin(w, {x: v & m for x, v in d.items() if v & m}, c & m)
        elif k == z3.Z3_OP_BSUB:
            ch = t.children()
            l = lin(ch[0])
            d = dict(l.d)
            c = l.c
            for a in ch[1:]:
                q = lin(a)
                c -= q.c
                for x, v in q.d.items():
                    d[x] = d.get(x, 0) - v
            r = Lin(w, {x: v & m for x, v in d.items() if v & m}, c & m)
        elif k == z3.Z3_OP_BNEG:
            l = lin(t.arg(0))
            r = Lin(w, {x: (-v) & m for x, v in l.d.items()}, (-l.c) & m)
        elif k == z3.Z3_OP_BMUL and t.num_args() == 2 and (z3.is_bv_value(t.arg(0)) or z3.is_bv_value(t.arg(1))):
            a, b = t.arg(0), t.arg(1)
            if z3.is_bv_value(b):
                a, b = b, a
            q = a.as_long()
            l = lin(b)
            r = Lin(w, {x: (v * q) & m for x, v in l.d.items() if (v * q) & m}, (l.c * q) & m)
        elif k == z3.Z3_OP_BSHL and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long() < w:
            q = 1 << t.arg(1).as_long()
            l = lin(t.arg(0))
            r = Lin(w, {x: (v * q) & m for x, v in l.d.items() if (v * q) & m}, (l.c * q) & m)
        elif k == z3.Z3_OP_BNOT:
            l = lin(t.arg(0))   # ~x = -x-1
            r = Lin(w, {x: (-v) & m for x, v in l.d.items()}, (-l.c - 1) & m)
        else:
            _hold(t)
            r = Lin(w, {i: 1}, 0)
    _hold(t)
    _lin_cache[i] = r
    return r


def unlin(l):
    key = l.key()
    t = _rebuild.get(key)
    if t is not None:
        return t
    w = l.w
    m = _mask(w)
    parts = []
    neg = []
    for x, v in sorted(l.d.items()):
        a = _keep[x]
        if v == 1:
            parts.append(a)
        elif v == m:
            neg.append(a)
        elif v & (v - 1) == 0:
            parts.append(a << bv(v.bit_length() - 1, w))
        elif ((-v) & m) & (((-v) & m) - 1) == 0:
            neg.append(a << bv(((-v) & m).bit_length() - 1, w))
        else:
            parts.append(a * bv(v, w))
    c = l.c
    t = None
    for p in parts:
        t = p if t is None else t + p
    if c or t is None:
        if t is None:
            t = bv(c, w)
        else:
            t = t + bv(c, w)
    for p in neg:
        t = t - p
    _rebuild[key] = t
    _hold(t)
    _lin_cache[t.get_id()] = l
    return t


def norm(t):
    return unlin(lin(t))


def add(a, b):
    la, lb = lin(a), lin(b)
    m = _mask(la.w)
    d = dict(la.d)
    for x, v in lb.d.items():
        q = (d.get(x, 0) + v) & m
        if q:
            d[x] = q
        else:
            d.pop(x, None)
    return unlin(Lin(la.w, d, (la.c + lb.c) & m))


def sub(a, b):
    la, lb = lin(a), lin(b)
    m = _mask(la.w)
    d = dict(la.d)
    for x, v in lb.d.items():
        q = (d.get(x, 0) - v) & m
        if q:
            d[x] = q
        else:
            d.pop(x, None)
    return unlin(Lin(la.w, d, (la.c - lb.c) & m))


def mulc(a, q):
    l = lin(a)
    m = _mask(l.w)
    q &= m
    return unlin(Lin(l.w, {x: (v * q) & m for x, v in l.d.items() if (v * q) & m}, (l.c * q) & m))


def is_ite01(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and is_const(t.arg(1)) and is_const(t.arg(2)) \
        and cval(t.arg(1)) == 1 and cval(t.arg(2)) == 0


def mul(a, b):
    if is_const(a):
        return mulc(b, cval(a))
    if is_const(b):
        return mulc(a, cval(b))
    if is_ite01(b):
        return ite(b.arg(0), a, bv(0, a.size()))
    if is_ite01(a):
        return ite(a.arg(0), b, bv(0, b.size()))
    return z3.simplify(a * b)


def ite(c, a, b):
    if c is True or z3.is_true(c):
        return a
    if c is False or z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def diffc(a, b):
    """constant signed difference a-b, or None"""
    d = sub(a, b)
    if is_const(d):
        return sval(d)
    return None


def shl(a, b):
    w = a.size()
    if is_const(b):
        n = cval(b)
        if n >= w:
            return bv(0, w)
        return mulc(a, 1 << n)
    if is_const(a) and cval(a) == 0:
        return a
    return a << b


_range = {}
_reg = {}


def register_range(t, lo, hi):
    """t's signed value is proved (by the caller) to lie in [lo,hi]"""
    _hold(t)
    _reg[t.get_id()] = (lo, hi)
    _range.pop(t.get_id(), None)


def srange(t):
    """interval of the signed value of t (python ints), by structure"""
    i = t.get_id()
    r = _range.get(i)
    if r is None:
        r = _srange(t)
        _hold(t)
        _range[i] = r
    return r


def _full(w):
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1)


def lin_range(l):
    """exact integer interval of a linear form (before wrapping), atoms at their signed intervals"""
    h = 1 << (l.w - 1)
    lo = hi = l.c - (1 << l.w) if l.c & h else l.c
    for x, v in l.d.items():
        if v & h:
            v -= 1 << l.w
        a, b = srange(_keep[x])
        if v > 0:
            lo += v * a
            hi += v * b
        else:
            lo += v * b
            hi += v * a
    return lo, hi


def _srange(t):
    w = t.size()
    f = _full(w)
    if t.get_id() in _reg:
        return _reg[t.get_id()]
    if z3.is_bv_value(t):
        v = t.as_signed_long()
        return (v, v)
    k = t.decl().kind()
    if k == z3.Z3_OP_ZERO_EXT:
        x = t.arg(0)
        a, b = srange(x)
        if a >= 0:
            return (a, b)
        return (0, (1 << x.size()) - 1)
    if k == z3.Z3_OP_SIGN_EXT:
        return srange(t.arg(0))
    if k == z3.Z3_OP_ITE:
        a, b = srange(t.arg(1)), srange(t.arg(2))
        return (min(a[0], b[0]), max(a[1], b[1]))
    if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BMUL, z3.Z3_OP_BNEG, z3.Z3_OP_BSHL, z3.Z3_OP_BNOT):
        l = lin(t)
        if list(l.d) == [t.get_id()]:
            return f
        r = lin_range(l)
        if r[0] >= f[0] and r[1] <= f[1]:
            return r
        return f
    if k == z3.Z3_OP_BLSHR and z3.is_bv_value(t.arg(1)):
        n = t.arg(1).as_long()
        a, b = srange(t.arg(0))
        if n == 0:
            return (a, b)
        if a >= 0:
            return (a >> n, b >> n)
        return (0, (1 << (w - n)) - 1)
    if k == z3.Z3_OP_BASHR and z3.is_bv_value(t.arg(1)):
        n = t.arg(1).as_long()
        a, b = srange(t.arg(0))
        return (a >> n, b >> n)
    if k == z3.Z3_OP_BAND:
        hi = None
        for x in t.children():
            a, b = srange(x)
            if a >= 0:
                hi = b if hi is None else min(hi, b)
        if hi is not None:
            return (0, hi)
        return f
    if k == z3.Z3_OP_CONCAT:
        x = t.arg(0)
        if z3.is_bv_value(x) and x.as_long() == 0:
            return (0, (1 << (w - x.size())) - 1)
        return f
    if k == z3.Z3_OP_EXTRACT:
        hi, lo = t.params()
        if lo == 0:
            a, b = srange(t.arg(0))
            if a >= f[0] and b <= f[1]:
                return (a, b)
        return f
    return f


def nonneg(t):
    return srange(t)[0] >= 0


def split_pow2(t, n):
    """(A, B) with t = A*2^n + B as integers (no wrap), or None; B the part not divisible"""
    l = lin(t)
    r = lin_range(l)
    f = _full(l.w)
    if r[0] < f[0] or r[1] > f[1]:
        return None
    q = 1 << n
    m = _mask(l.w)
    da, db = {}, {}
    for x, v in l.d.items():
        sv = v - (1 << l.w) if v >> (l.w - 1) else v
        if sv % q == 0:
            da[x] = (sv // q) & m
        else:
            db[x] = v
    c = l.c - (1 << l.w) if l.c >> (l.w - 1) else l.c
    ca, cb = c >> n, c & (q - 1)
    la, lb = Lin(l.w, da, ca & m), Lin(l.w, db, cb)
    rb = lin_range(lb)
    ra = lin_range(la)
    if rb[0] < f[0] or rb[1] > f[1] or ra[0] < f[0] or ra[1] > f[1]:
        return None
    if not da and not db:
        return None
    return unlin(la), unlin(lb), rb


def _floor(b, rb, n):
    """b >> n arithmetically, b with range rb"""
    lo, hi = rb[0] >> n, rb[1] >> n
    w = b.size()
    if lo == hi:
        return bv(lo & _mask(w), w)
    if w == 64 and hi - lo <= 2:
        r = bv(hi & _mask(w), w)
        for q in range(hi, lo, -1):
            r = z3.If(b < bv((q << n) & _mask(w), w), bv((q - 1) & _mask(w), w), r) if q == hi else _ite_deep(b, q, n, r)
        return r
    if rb[0] >= 0:
        return z3.LShR(b, bv(n, w))
    return b >> bv(n, w)


def _ite_deep(b, q, n, r):
    w = b.size()
    c, x, y = r.children()
    return z3.If(c, z3.If(b < bv((q << n) & _mask(w), w), bv((q - 1) & _mask(w), w), x), y)


def choice(t):
    """condition of a constant-valued choice atom of the linear form of t, or None"""
    if not isinstance(t, z3.BitVecRef) or t.size() != 64:
        return None
    for x in lin(t).d:
        y = _keep[x]
        if y.decl().kind() == z3.Z3_OP_ITE and _const_leaves(y):
            return y
    return None


def _const_leaves(y):
    if is_const(y):
        return True
    return y.decl().kind() == z3.Z3_OP_ITE and _const_leaves(y.arg(1)) and _const_leaves(y.arg(2))


def lshr(a, b):
    w = a.size()
    if is_const(b):
        n = cval(b)
        if n >= w:
            return bv(0, w)
        if n == 0:
            return a
        if is_const(a):
            return bv(cval(a) >> n, w)
        if w in (32, 64) and nonneg(a):
            sp = split_pow2(a, n)
            if sp is not None and not (is_const(sp[0]) and cval(sp[0]) == 0 and (sp[2][1] >> n) - (sp[2][0] >> n) > 2):
                return add(sp[0], _floor(sp[1], sp[2], n))
    return z3.simplify(z3.LShR(a, b)) if is_const(a) and is_const(b) else z3.LShR(a, b)


def ashr(a, b):
    w = a.size()
    if is_const(b):
        n = cval(b)
        if n == 0:
            return a
        if is_const(a):
            return bv(sval(a) >> min(n, w - 1), w)
        if n >= w - 1:
            lo, hi = srange(a)
            if lo >= 0:
                return bv(0, w)
            if hi < 0:
                return bv(_mask(w), w)
            return a >> b
        if w in (32, 64):
            sp = split_pow2(a, n)
            if sp is not None:
                return add(sp[0], _floor(sp[1], sp[2], n))
    return a >> b


def _sf(op):
    def f(a, b):
        r = op(a, b)
        if is_const(a) and is_const(b):
            return z3.simplify(r)
        return r
    return f


def and_(a, b):
    for x, y in ((a, b), (b, a)):
        if is_const(x):
            if cval(x) == 0:
                return x
            if cval(x) == _mask(x.size()):
                return y
            if is_const(y):
                return bv(cval(x) & cval(y), x.size())
            if x.size() in (32, 64) and cval(x) & (cval(x) + 1) == 0:
                n = cval(x).bit_length()
                # drop multiples of 2^n (exact modulo 2^n)
                l = lin(y)
                q = 1 << n
                d = {i: v for i, v in l.d.items() if v % q}
                c = l.c % q
                if len(d) != len(l.d) or c != l.c:
                    y = unlin(Lin(l.w, d, c))
                    if is_const(y):
                        return bv(cval(y) & cval(x), x.size())
                    r = srange(y)
                    if 0 <= r[0] and r[1] < q:
                        return y
                    y2 = unlin(Lin(l.w, d, (c - q) & _mask(l.w)))
                    r = srange(y2)
                    if 0 <= r[0] and r[1] < q:
                        return y2
                    rl = lin_range(lin(y))
                    if x.size() == 64 and rl[0] >= -2 * q and rl[1] < 2 * q and (rl[1] >> n) - (rl[0] >> n) <= 2:
                        r = sub(y, mulc(_floor(y, rl, n), q))
                        register_range(r, 0, q - 1)
                        return r
                    return y & x
                r = srange(y)
                if 0 <= r[0] and r[1] < q:
                    return y
    return z3.simplify(a & b) if is_const(a) and is_const(b) else a & b


def or_(a, b):
    for x, y in ((a, b), (b, a)):
        if is_const(x):
            if cval(x) == 0:
                return y
            if cval(x) == _mask(x.size()):
                return x
    return z3.simplify(a | b) if is_const(a) and is_const(b) else a | b


def xor_(a, b):
    for x, y in ((a, b), (b, a)):
        if is_const(x):
            if cval(x) == 0:
                return y
            if cval(x) == _mask(x.size()):
                return unlin(lin(~y))  # -y-1
    if a.eq(b):
        return bv(0, a.size())
    return z3.simplify(a ^ b) if is_const(a) and is_const(b) else a ^ b


def zext(a, w):
    if a.size() == w:
        return a
    if is_const(a):
        return bv(cval(a), w)
    if a.decl().kind() == z3.Z3_OP_EXTRACT and a.params()[1] == 0 and a.arg(0).size() == w:
        r = srange(a.arg(0))
        if r[0] >= 0 and r[1] < 1 << a.size():
            return a.arg(0)
    if a.decl().kind() == z3.Z3_OP_EXTRACT and a.params()[1] == 0 and a.arg(0).size() > w:
        r = srange(a.arg(0))
        if r[0] >= 0 and r[1] < 1 << a.size():
            return trunc(a.arg(0), w)
    if a.decl().kind() == z3.Z3_OP_ZERO_EXT:
        return zext(a.arg(0), w)
    if a.size() == 32 and w == 64:
        r = lift(a)
        if r is not None and srange(r)[0] >= 0:
            return r
    return z3.ZeroExt(w - a.size(), a)


def lift(a):
    """64-bit term with the same signed value as the 32-bit term a (when it is built from
    truncations of 64-bit values that fit)"""
    l = lin(a)
    lo, hi = lin_range(l)
    if lo < -(1 << 31) or hi >= 1 << 31:
        return None
    acc = bv((l.c - (1 << 32) if l.c >> 31 else l.c) & M64)
    for x, v in l.d.items():
        t = _keep[x]
        k = t.decl().kind()
        if k == z3.Z3_OP_EXTRACT and t.params() == [31, 0] and t.arg(0).size() == 64:
            s = t.arg(0)
            r = srange(s)
            if r[0] < -(1 << 31) or r[1] >= 1 << 31:
                return None
        elif k == z3.Z3_OP_ZERO_EXT and t.arg(0).size() < 32:
            s = z3.ZeroExt(64 - t.arg(0).size(), t.arg(0))
        elif k == z3.Z3_OP_ITE and is_const(t.arg(1)) and is_const(t.arg(2)):
            s = z3.If(t.arg(0), bv(sval(t.arg(1)) & M64), bv(sval(t.arg(2)) & M64))
        else:
            return None
        if v >> 31:
            v -= 1 << 32
        acc = add(acc, mulc(s, v))
    return acc


def sext(a, w):
    if a.size() == w:
        return a
    if is_const(a):
        return bv(sval(a), w)
    if a.size() == 32 and w == 64:
        r = lift(a)
        if r is not None:
            return r
    return z3.SignExt(w - a.size(), a)


def trunc(a, w):
    if a.size() == w:
        return a
    if is_const(a):
        return bv(cval(a), w)
    k = a.decl().kind()
    if k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
        i = a.arg(0)
        if i.size() == w:
            return i
        if i.size() > w:
            return trunc(i, w)
        return zext(i, w) if k == z3.Z3_OP_ZERO_EXT else sext(i, w)
    if w == 32 and a.size() == 64:
        # keep 32-bit linear structure: trunc distributes over + and *const
        l = lin(a)
        if (len(l.d) > 1 or l.c or (l.d and list(l.d)[0] != a.get_id())) and (
                all(-(1 << 31) <= srange(_keep[x])[0] and srange(_keep[x])[1] < 1 << 32 for x in l.d)):
            m = _mask(32)
            acc = bv(l.c & m, 32)
            for x, v in l.d.items():
                if v & m:
                    acc = add(acc, mulc(trunc(_keep[x], 32), v & m))
            return acc
    return z3.Extract(w - 1, 0, a)


def b2bv(c):
    """bool -> 1 bit vector term kept as If so that icmp ne 0 folds back"""
    if z3.is_true(c):
        return bv(1, 1)
    if z3.is_false(c):
        return bv(0, 1)
    return z3.If(c, bv(1, 1), bv(0, 1))


def bv2b(t):
    if is_const(t):
        return z3.BoolVal(cval(t) != 0)
    if is_ite01(t):
        return t.arg(0)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and is_const(t.arg(1)) and is_const(t.arg(2)) \
            and cval(t.arg(1)) == 0 and cval(t.arg(2)) == 1:
        return z3.Not(t.arg(0))
    return t == bv(1, 1)


def log2(n):
    assert n & (n - 1) == 0 and n > 0
    return n.bit_length() - 1
