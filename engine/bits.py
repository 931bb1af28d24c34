"""Bit-level view of word terms: bitof(t, b) is the Bool 'bit b of t' with shifts turned into
index arithmetic and memory words M(i) turned into uninterpreted bit predicates B(i, b).
The translation only forgets facts (the link between M and B), so a validity proof on the
translated goal is a proof of the original word equality; a failed one decides nothing."""
import z3
import terms as T
from terms import bv

K = {n: getattr(z3, 'Z3_OP_' + n) for n in (
    'BAND', 'BOR', 'BXOR', 'BNOT', 'BSHL', 'BLSHR', 'ITE', 'ZERO_EXT', 'SIGN_EXT', 'EXTRACT', 'CONCAT', 'BADD', 'BSUB',
    'BMUL', 'BNEG', 'UNINTERPRETED', 'BASHR')}
_fn = {}
FLAT = {}        # memory words given by their bits: function name -> (word, bit) -> Bool


def is01(y):
    k = y.decl().kind()
    if y.size() == 1:
        return True
    if z3.is_bv_value(y):
        return y.as_long() <= 1
    if k == K['ZERO_EXT']:
        return is01(y.arg(0))
    if k == K['CONCAT']:
        return all(z3.is_bv_value(c) and c.as_long() == 0 for c in y.children()[:-1]) and is01(y.children()[-1])
    if k == K['ITE']:
        return is01(y.arg(1)) and is01(y.arg(2))
    if k == K['EXTRACT']:
        return y.params()[1] == 0 and is01(y.arg(0))
    return False


class Bits:
    def __init__(self, lia=None):
        self.lia = lia
        self.sk = {}
        self.memo = {}
        self.keep = []
        self.opaque = 0

    def of(self, t, b):
        key = (t.get_id(), b.get_id())
        r = self.memo.get(key)
        if r is None:
            r = self.go(t, b)
            self.keep.append((t, b))
            self.memo[key] = r
        return r

    def weaken(self, c, b, pos=True):
        """a consequence of c (or of not c) in which word equalities are read at bit b and word
        disequalities at a skolem bit; atoms that say nothing at bit level become True"""
        k = c.decl().kind()
        TR = z3.BoolVal(True)
        if k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
            return c if pos else z3.Not(c)
        if k == z3.Z3_OP_NOT:
            return self.weaken(c.arg(0), b, not pos)
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            xs = [self.weaken(x, b, pos) for x in c.children()]
            return z3.And(xs) if (k == z3.Z3_OP_AND) == pos else z3.Or(xs)
        if k == z3.Z3_OP_IMPLIES:
            x, y = self.weaken(c.arg(0), b, not pos), self.weaken(c.arg(1), b, pos)
            return z3.Or(x, y) if pos else z3.And(x, y)
        if k == z3.Z3_OP_ITE:
            g = c.arg(0)
            return z3.And(z3.Or(self.weaken(g, b, False), self.weaken(c.arg(1), b, pos)),
                          z3.Or(self.weaken(g, b, True), self.weaken(c.arg(2), b, pos)))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and c.num_args() == 2 and z3.is_bv(c.arg(0)):
            x, y = c.children()
            if not (self.idx(x) and self.idx(y)):
                n = x.size()
                if (k == z3.Z3_OP_EQ) == pos:
                    if b is None:
                        return TR
                    if n == 1:
                        return self.of(x, bv(0)) == self.of(y, bv(0))
                    return z3.Implies(z3.ULT(b, bv(n)), self.of(x, b) == self.of(y, b))
                key = c.get_id()
                sk = self.sk.get(key)
                if sk is None:
                    sk = z3.BitVec('sk!%d' % key, 64)
                    T.register_range(sk, 0, n - 1)
                    self.sk[key] = sk
                    self.keep.append((c, sk))
                return z3.And(z3.ULT(sk, bv(n)), self.of(x, sk) != self.of(y, sk))
            return c if pos else z3.Not(c)
        if self.lia is not None and not self.lia.B(c)[2]:
            return c if pos else z3.Not(c)
        return TR

    def idx(self, x):
        return self.lia is not None and self.lia.index_like(x)

    def weak_pc(self, conds, b):
        """translated path condition: index conditions as they are, data conditions weakened"""
        out = []
        for c in conds:
            if self.lia.B(c)[2]:
                c2 = self.weaken(c, b)
                if not z3.is_true(c2):
                    out.append(c2)
            else:
                out.append(c)
        return out

    def amount(self, s):
        return T.zext(s, 64) if s.size() < 64 else s

    def ex(self, t, b):
        self.opaque += 1
        w = t.size()
        bb = T.trunc(b, w) if w < 64 else (T.zext(b, w) if w > 64 else b)
        if T.is_const(b):
            return z3.Extract(T.cval(b), T.cval(b), t) == bv(1, 1)
        if w < 7:
            return z3.Extract(0, 0, z3.LShR(z3.ZeroExt(64 - w, t), b)) == bv(1, 1)
        return z3.Extract(0, 0, z3.LShR(t, bb)) == bv(1, 1)

    def const(self, v, w, b):
        m = (1 << w) - 1
        if v == 0:
            return z3.BoolVal(False)
        if v == m:
            return z3.BoolVal(True)
        if T.is_const(b):
            return z3.BoolVal(bool(v >> T.cval(b) & 1))
        # contiguous runs
        lo = (v & -v).bit_length() - 1
        u = v >> lo
        if u & (u + 1) == 0:
            hi = lo + u.bit_length()
            c = []
            if lo:
                c.append(z3.UGE(b, bv(lo)))
            if hi < w:
                c.append(z3.ULT(b, bv(hi)))
            return z3.And(c) if len(c) != 1 else c[0]
        return self.ex(bv(v, w), b)

    def go(self, t, b):
        w = t.size()
        if z3.is_bv_value(t):
            return self.const(t.as_long(), w, b)
        k = t.decl().kind()
        if k == K['BAND']:
            return z3.And([self.of(x, b) for x in t.children()])
        if k == K['BOR']:
            return z3.Or([self.of(x, b) for x in t.children()])
        if k == K['BXOR']:
            r = self.of(t.arg(0), b)
            for i in range(1, t.num_args()):
                r = z3.Xor(r, self.of(t.arg(i), b))
            return r
        if k == K['BNOT']:
            return z3.Not(self.of(t.arg(0), b))
        if k == K['ITE']:
            return z3.If(t.arg(0), self.of(t.arg(1), b), self.of(t.arg(2), b))
        if k == K['BSHL']:
            s = self.amount(t.arg(1))
            x = t.arg(0)
            if z3.is_bv_value(x) and x.as_long() == 1:
                return b == s
            return z3.And(z3.UGE(b, s), self.of(x, T.sub(b, s)))
        if k == K['BLSHR']:
            s = self.amount(t.arg(1))
            x = t.arg(0)
            q = T.add(b, s)
            # guard against wrap of huge amounts: s < w is required for a set bit
            return z3.And(z3.ULT(s, bv(w)), z3.ULT(q, bv(w)), self.of(x, q))
        if k == K['BASHR']:
            s = self.amount(t.arg(1))
            q = T.add(b, s)
            x = t.arg(0)
            return z3.If(z3.And(z3.ULT(s, bv(w)), z3.ULT(q, bv(w))), self.of(x, q), self.of(x, bv(w - 1)))
        if k == K['ZERO_EXT']:
            x = t.arg(0)
            return z3.And(z3.ULT(b, bv(x.size())), self.of(x, b))
        if k == K['SIGN_EXT']:
            x = t.arg(0)
            return z3.If(z3.ULT(b, bv(x.size())), self.of(x, b), self.of(x, bv(x.size() - 1)))
        if k == K['EXTRACT']:
            hi, lo = t.params()
            return self.of(t.arg(0), T.add(b, bv(lo)))
        if k == K['CONCAT']:
            r = None
            off = 0
            parts = list(t.children())[::-1]
            offs = []
            for x in parts:
                offs.append(off)
                off += x.size()
            r = self.of(parts[-1], T.sub(b, bv(offs[-1])))
            for x, o in list(zip(parts, offs))[-2::-1]:
                r = z3.If(z3.ULT(b, bv(o + x.size())), self.of(x, T.sub(b, bv(o))), r)
            return r
        if k in (K['BADD'], K['BSUB'], K['BMUL'], K['BNEG']):
            return self.linear(t, b, w)
        if k == K['UNINTERPRETED'] and t.num_args() == 1 and t.decl().name().startswith('bitrev'):
            return z3.And(z3.ULT(b, bv(w)), self.of(t.arg(0), T.sub(bv(w - 1), b)))
        if k == K['UNINTERPRETED'] and t.num_args() == 1 and t.arg(0).size() == 64:
            name = t.decl().name()
            f = FLAT.get(name)
            if f is not None:
                return f(t.arg(0), b)
            f = _fn.get(name)
            if f is None:
                f = _fn[name] = z3.Function('B_' + name, z3.BitVecSort(64), z3.BitVecSort(64), z3.BoolSort())
            return f(t.arg(0), b)
        return self.ex(t, b)

    def linear(self, t, b, w):
        if t.decl().kind() == K['BMUL'] and t.num_args() == 2:
            for y, x in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
                if is01(y):      # factor 0 or 1
                    return z3.And(self.of(y, bv(0)), self.of(x, b))
        l = T.lin(t)
        m = (1 << w) - 1
        if not l.d:
            return self.const(l.c, w, b)
        if len(l.d) == 1:
            (xid, c), = l.d.items()
            x = T._keep[xid]
            xk = x.decl().kind()
            if xk == K['ITE'] and not (c == m and l.c == m):
                def rep(y):
                    ly = T.mulc(y, c)
                    return T.add(ly, bv(l.c, w))
                return z3.If(x.arg(0), self.of(rep(x.arg(1)), b), self.of(rep(x.arg(2)), b))
            if xk == K['BSHL'] and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == 1:
                n = self.amount(x.arg(1))
                if c == 1 and l.c == 0:
                    return b == n
                if c == 1 and l.c == m:
                    return z3.ULT(b, n)
                if c == m and l.c == 0:
                    return z3.UGE(b, n)
                if c == m and l.c == m:
                    return b != n
            if c == m and l.c == m:
                return z3.Not(self.of(x, b))
            if l.c == 0 and c == 1 and x.eq(t):
                return self.ex(t, b)
            if l.c == 0 and c & (c - 1) == 0:
                j = c.bit_length() - 1
                return z3.And(z3.UGE(b, bv(j)), self.of(x, T.sub(b, bv(j))))
        return self.ex(t, b)
