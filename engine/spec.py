"""Specification helpers: bit ranges over word memory, windows, masks, range end arithmetic."""
import z3
import terms as T
from terms import bv
from sym import Region, State, Ptr, MInit, Obligation


def log2(n):
    return n.bit_length() - 1


class Cfg:
    """word type configuration"""

    def __init__(self, D):
        self.D = D
        self.es = D // 8
        self.l2 = log2(D)
        self.maxw = 1 << (62 - self.l2)      # bound on word counts: every bit index fits in 62 bits
        self.ones = (1 << D) - 1


def word_cast(cfg, p):
    """64-bit amount -> D-bit amount"""
    return T.trunc(p, cfg.D) if cfg.D < 64 else p


def win(cfg, rd, w, p):
    """D bits starting at word w, bit p (p < D)"""
    q = word_cast(cfg, p)
    if T.is_const(p) and T.cval(p) == 0:
        return rd(w)
    return z3.LShR(rd(w), q) | (rd(T.add(w, bv(1))) << (bv(cfg.D, cfg.D) - q))


def lowmask(cfg, p):
    """mask of the bits below p (p < D)"""
    return (bv(1, cfg.D) << word_cast(cfg, p)) - bv(1, cfg.D)


def mask(cfg, w, a, b):
    """mask of the bits of word w lying in [a,b); a,b = (word,pos)"""
    ones, zero = bv(cfg.ones, cfg.D), bv(0, cfg.D)
    lo = z3.If(w > a[0], ones, z3.If(w == a[0], ~lowmask(cfg, a[1]), zero))
    hi = z3.If(w < b[0], ones, z3.If(w == b[0], lowmask(cfg, b[1]), zero))
    return lo & hi


def norm(cfg, w, p, lo=-2, hi=2):
    """normalise (word, pos) with pos in [lo*D, hi*D] signed -> (word,pos) with pos<D"""
    D = cfg.D
    wd = w
    conds = []
    r = z3.If(p < bv(0), T.sub(w, bv(1)), z3.If(p >= bv(2 * D), T.add(w, bv(2)), z3.If(p >= bv(D), T.add(w, bv(1)), w)))
    if lo <= -2:
        r = z3.If(p < bv(-D & T.M64), T.sub(w, bv(2)), r)
    return z3.simplify(r), T.and_(p, bv(D - 1))


def lt(a, b):
    return z3.Or(a[0] < b[0], z3.And(a[0] == b[0], z3.ULT(a[1], b[1])))


def le(a, b):
    return z3.Or(a[0] < b[0], z3.And(a[0] == b[0], z3.ULE(a[1], b[1])))


def nbits(cfg, a, b):
    """b - a in bits (64 bit signed)"""
    return T.sub(T.add(T.mulc(b[0], cfg.D), b[1]), T.add(T.mulc(a[0], cfg.D), a[1]))


def plus(cfg, a, b, c):
    """a + (c - b)  as (word,pos), exact linear arithmetic with position carry"""
    p = T.sub(T.add(a[1], c[1]), b[1])
    w = T.sub(T.add(a[0], c[0]), b[0])
    return norm(cfg, w, p, -1, 2)


def covers(a, b):
    """predicate: the words of [a,b): from a's word up to b's word, which exists when b points
    behind its first bit"""
    def pred(i):
        return z3.And(i >= a[0], z3.Or(i < b[0], z3.And(i == b[0], b[1] != bv(0))))
    return pred


class World:
    """initial symbolic state with word regions and the accumulated preconditions"""

    def __init__(self, cfg):
        self.cfg = cfg
        self.pre = []
        self.st = State()
        self.init = {}

    def region(self, name, readable, writable, es=None):
        es = es or self.cfg.es
        r = Region(name, 'words', es=es, readable=readable, writable=writable)
        fn = z3.Function('M_' + name, z3.BitVecSort(64), z3.BitVecSort(8 * es))
        node = MInit(lambda w, fn=fn: fn(w))
        self.st.mem[r] = node
        self.init[r] = fn
        return r

    def pos(self, name):
        # a position in a word is a log2(D)-bit number: the range condition is built in
        return z3.ZeroExt(64 - self.cfg.l2, z3.BitVec(name, self.cfg.l2))

    def word(self, name, lo=0, hi=None):
        if lo == 0 and hi is None:
            return z3.ZeroExt(2 + self.cfg.l2, z3.BitVec(name, 62 - self.cfg.l2))
        w = z3.BitVec(name, 64)
        hi = self.cfg.maxw if hi is None else hi
        self.pre.append(z3.And(w >= bv(lo & T.M64), w < bv(hi)))
        return w

    def range(self, pfx, w0=None):
        """[first,last) with first in word 0 (or w0)"""
        f = (bv(0) if w0 is None else w0, self.pos(pfx + 'fp'))
        n = self.word(pfx + 'lw')
        l = (n if w0 is None else T.add(w0, n), self.pos(pfx + 'lp'))
        self.pre.append(le(f, l))
        return f, l

    def finish(self):
        self.st.pc = list(self.pre)
        return self.st


def unchanged(E, s, W, regs, w):
    return [E.read(s.mem[r], w, s) == W.init[r](w) for r in regs]
