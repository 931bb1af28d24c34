"""C15: word-level primitives.  Every operand is a symbolic machine word; the oracle is the mathematical definition written
as a bit-vector term (or, for the loops, the recursive definition used as a loop invariant)."""
import z3
import terms as T
import sym
from terms import bv
from sym import Agg, Ptr, light
from loops import LoopContract
from tasks import task, GROUPS, NOINLINE, ALL

GROUPS['prim'] = '''#include <cstdint>
#include <cassert>
#include <tuple>
#include "bitlib/bitlib.hpp"
typedef %(W)s W;
struct P2 { W a; W b; };
struct CR { W d; unsigned char c; };
extern "C" {
W H_popcnt(W x){ return bit::_popcnt(x); }
W H_popcnt_g(W x){ return bit::_popcnt(x, std::ignore); }
W H_lzcnt(W x){ return bit::_lzcnt(x); }
W H_lzcnt_g(W x){ return bit::_lzcnt(x, std::ignore); }
W H_tzcnt(W x){ return bit::_tzcnt(x); }
W H_tzcnt_g(W x){ return bit::_tzcnt(x, std::ignore); }
W H_bextr(W x, W s, W n){ return bit::_bextr<W>(x, s, n); }
W H_bextr_g(W x, W s, W n){ return bit::_bextr(x, s, n, std::ignore); }
W H_pdep(W x, W m){ return bit::_pdep(x, m); }
W H_pdep_g(W x, W m){ return bit::_pdep(x, m, std::ignore); }
W H_pext(W x, W m){ return bit::_pext(x, m); }
W H_pext_g(W x, W m){ return bit::_pext(x, m, std::ignore); }
W H_byteswap(W x){ return bit::_byteswap(x); }
W H_byteswap_g(W x){ return bit::_byteswap(x, std::ignore); }
W H_bitswap(W x){ return bit::_bitswap(x); }
W H_bitblend_m(W a, W b, W m){ return bit::_bitblend<W>(a, b, m); }
W H_bitblend(W a, W b, W s, W n){ return bit::_bitblend<W>(a, b, s, n); }
P2 H_bitexch_m(W a, W b, W m){ bit::_bitexch<W>(a, b, m); return P2{a, b}; }
P2 H_bitexch(W a, W b, W s, W n){ bit::_bitexch<W, W>(a, b, s, n); return P2{a, b}; }
P2 H_bitexch3(W a, W b, W s, W t, W n){ bit::_bitexch<W, W>(a, b, s, t, n); return P2{a, b}; }
bool H_bitcmp(W a, W b, W s, W t, W n){ return bit::_bitcmp<W>(a, b, s, t, n) != 0; }
W H_shld(W d, W s, W n){ return bit::_shld<W>(d, s, n); }
W H_shrd(W d, W s, W n){ return bit::_shrd<W>(d, s, n); }
CR H_addcarry(unsigned char c, W a, W b){ CR r; r.c = bit::_addcarry(c, a, b, &r.d); return r; }
CR H_addcarry_g(unsigned char c, W a, W b){ CR r; r.c = bit::_addcarry(c, a, b, &r.d, std::ignore); return r; }
CR H_subborrow(unsigned char c, W a, W b){ CR r; r.c = bit::_subborrow(c, a, b, &r.d); return r; }
CR H_subborrow_g(unsigned char c, W a, W b){ CR r; r.c = bit::_subborrow(c, a, b, &r.d, std::ignore); return r; }
P2 H_mulx(W a, W b){ P2 r; r.a = bit::_mulx(a, b, &r.b); return r; }
P2 H_mulx_g(W a, W b){ P2 r; r.a = bit::_mulx(a, b, &r.b, std::ignore); return r; }
}
'''


def data(x, *names):
    return [z3.Function('M_' + n, z3.BitVecSort(64), z3.BitVecSort(x.D))(bv(0)) for n in names]


def flat(v):
    """scalar members of a returned struct"""
    if isinstance(v, Agg):
        return [q for e in v.e for q in flat(e)]
    return [v]


def parts(v, sizes):
    """members of a returned aggregate, whether or not the ABI packed them into one integer"""
    f = flat(v)
    out, acc = [], None
    if len(f) == len(sizes):
        return [T.trunc(q, n) if q.size() > n else q for q, n in zip(f, sizes)]
    t = f[0] if len(f) == 1 else z3.Concat(*reversed(f))
    off = 0
    for n in sizes:
        out.append(z3.Extract(off + n - 1, off, t))
        off += n
    return out


def ret(v, D):
    return T.trunc(v, D) if v.size() > D else v


def fn1(name, fn, spec, n, note, pre=None, setup=None, bitwise=False):
    def t(x):
        a = data(x, *['xyzuv'[i] for i in range(n)])
        if pre is not None:
            x.W.pre.extend(pre(x, *a))
        if setup is not None:
            setup(x, a)

        def post(s, v):
            want = spec(x, *a)
            got = parts(v, [q.size() for q in want]) if isinstance(want, list) else [ret(v, x.D)]
            for i, (p, q) in enumerate(zip(got, want if isinstance(want, list) else [want])):
                nm = note + (' (%d)' % i if isinstance(want, list) else '')
                if bitwise:
                    x.E.oblige_word(s.clone(), 'post', nm, p, q, timeout=60000)
                else:
                    x.E.oblige(s.clone(), 'post', nm, p == q, 60000)
        x.E.unroll_fallback = True
        x.run(fn, list(a), post)
    task(name, 'prim', 'C15', covers=('bit::_' + name.replace('_generic', '').split('_')[0],))(t)


def lowmask(D, n):
    """ones in the low n positions, all ones for n >= D"""
    return z3.If(z3.UGE(n, bv(D, D)), bv((1 << D) - 1, D), (bv(1, D) << n) - bv(1, D))


def sh(D, v):
    return bv(v, D)


def s_bextr(x, a, s, n):
    return z3.If(z3.UGE(s, bv(x.D, x.D)), bv(0, x.D), z3.LShR(a, s) & lowmask(x.D, n))


def s_blend(x, a, b, s, n):
    m = z3.If(z3.UGE(s, bv(x.D, x.D)), bv(0, x.D), lowmask(x.D, n) << s)
    return (a & ~m) | (b & m)


def s_exch(x, a, b, s, n):
    m = lowmask(x.D, n) << s
    return [(a & ~m) | (b & m), (b & ~m) | (a & m)]


def s_exch3(x, a, b, s, t, n):
    k = lowmask(x.D, n)
    return [(a & ~(k << s)) | ((z3.LShR(b, t) & k) << s), (b & ~(k << t)) | ((z3.LShR(a, s) & k) << t)]


def fits(x, s, n):
    D = x.D
    return [z3.ULE(z3.ZeroExt(2, s) + z3.ZeroExt(2, n), z3.BitVecVal(D, D + 2)), z3.ULT(s, bv(D, D)), z3.ULE(n, bv(D, D))]


def s_shd(left):
    def f(x, d, s, n):
        D = x.D
        w = z3.ZeroExt(2 * D, n)
        if left:
            t = z3.Concat(d, s, bv(0, D)) << w
            return z3.Extract(3 * D - 1, 2 * D, t)
        t = z3.LShR(z3.Concat(bv(0, D), s, d), w)
        return z3.Extract(D - 1, 0, t)
    return f


def byterev(x, a):
    n = x.D // 8
    if n == 1:
        return a
    return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a) for i in range(n)])


def bitrev(x, a):
    return z3.Concat(*[z3.Extract(i, i, a) for i in range(x.D)])


def s_mul(x, a, b):
    p = z3.ZeroExt(x.D, a) * z3.ZeroExt(x.D, b)
    return [z3.Extract(x.D - 1, 0, p), z3.Extract(2 * x.D - 1, x.D, p)]


fn1('lzcnt', 'H_lzcnt', lambda x, a: sym.lz(a), 1, 'number of leading zero bits')
fn1('lzcnt_generic', 'H_lzcnt_g', lambda x, a: sym.lz(a), 1, 'number of leading zero bits')
fn1('tzcnt', 'H_tzcnt', lambda x, a: sym.tz(a), 1, 'number of trailing zero bits')
fn1('tzcnt_generic', 'H_tzcnt_g', lambda x, a: sym.tz(a), 1, 'number of trailing zero bits')
fn1('bextr', 'H_bextr', s_bextr, 3, 'the field of len bits from start')
fn1('bextr_generic', 'H_bextr_g', s_bextr, 3, 'the field of len bits from start')
fn1('byteswap', 'H_byteswap', byterev, 1, 'bytes in reverse order')
fn1('byteswap_generic', 'H_byteswap_g', byterev, 1, 'bytes in reverse order')
fn1('bitswap', 'H_bitswap', bitrev, 1, 'bits in reverse order')
fn1('bitblend_mask', 'H_bitblend_m', lambda x, a, b, m: (a & ~m) | (b & m), 3, 'bits of b under the mask, else bits of a')
fn1('bitblend', 'H_bitblend', s_blend, 4, 'field replaced by the bits of the second word')
fn1('bitexch_mask', 'H_bitexch_m', lambda x, a, b, m: [(a & ~m) | (b & m), (b & ~m) | (a & m)], 3, 'bits under the mask exchanged')
fn1('bitexch', 'H_bitexch', s_exch, 4, 'field exchanged', pre=lambda x, a, b, s, n: fits(x, s, n))
fn1('bitexch_offset', 'H_bitexch3', s_exch3, 5, 'fields exchanged', bitwise=True, pre=lambda x, a, b, s, t, n: fits(x, s, n) + fits(x, t, n))
fn1('shld', 'H_shld', s_shd(True), 3, 'upper word of the shifted double word')
fn1('shrd', 'H_shrd', s_shd(False), 3, 'lower word of the shifted double word')


def carry_task(name, fn, sub):
    def t(x):
        D = x.D
        a, b = data(x, 'x', 'y')
        c = z3.BitVec('carry', 8)
        wa, wb = z3.ZeroExt(1, a), z3.ZeroExt(1, b)
        cin = z3.If(c == bv(0, 8), bv(0, D + 1), bv(1, D + 1))
        r = wa - wb - cin if sub else wa + wb + cin

        def post(s, v):
            d, co = parts(v, [D, 8])
            x.E.oblige(s.clone(), 'post', 'low word', d == z3.Extract(D - 1, 0, r), 60000)
            x.E.oblige(s.clone(), 'post', 'carry out', co == z3.ZeroExt(7, z3.Extract(D, D, r)), 60000)
        x.run(fn, [c, a, b], post)
    task(name, 'prim', 'C15', covers=('bit::_' + name.split('_')[0],))(t)


carry_task('addcarry', 'H_addcarry', False)
carry_task('addcarry_generic', 'H_addcarry_g', False)
carry_task('subborrow', 'H_subborrow', True)
carry_task('subborrow_generic', 'H_subborrow_g', True)


# ------------------------------------------------------------------ loops with recursive specifications
class Count(LoopContract):
    """result so far + P(remaining word) = P(operand), where P(0) = 0, P(x) = (x & 1) + P(x >> 1)"""

    def __init__(self, P, a, D):
        self.P, self.a, self.D = P, a, D
        self.ghosts = [bv(0, D)]

    def lemmas(self, v, g):
        w = v[self.iw]
        P = self.P
        return [P(bv(0, self.D)) == bv(0, self.D), P(w) == (w & bv(1, self.D)) + P(z3.LShR(w, bv(1, self.D)))]

    def inv(self, v, g):
        return [v[1 - self.iw] + self.P(v[self.iw]) == self.P(self.a)]

    def variant(self, v, g):
        return v[self.iw]


def find_phi(vals, t):
    r = [i for i, (n, v) in enumerate(vals) if isinstance(v, z3.BitVecRef) and v.eq(t)]
    return r[0] if r else None


@task('popcnt_generic', 'prim', 'C15', covers=('bit::_popcnt',))
def t_popcnt_g(x):
    D = x.D
    a, = data(x, 'x')
    P = z3.Function('P_pop%d' % D, z3.BitVecSort(D), z3.BitVecSort(D))

    def hook(E, f, hdr, st, vals):
        if len(vals) != 2 or find_phi(vals, a) is None:
            return None
        L = Count(P, a, D)
        L.iw = find_phi(vals, a)
        return L
    x.E.user_loop = hook
    x.W.pre.append(P(bv(0, D)) == bv(0, D))

    def post(s, v):
        x.E.oblige(s.clone(), 'post', 'number of one bits', ret(v, D) == P(a))
    x.run('H_popcnt_g', [a], post)


@task('popcnt', 'prim', 'C15', covers=('bit::_popcnt',))
def t_popcnt(x):
    a, = data(x, 'x')

    def post(s, v):
        p = sym.popcount(T.zext(a, 2 * x.D) if x.D < 64 else a)
        x.E.oblige(s.clone(), 'post', 'number of one bits', ret(v, x.D) == ret(p, x.D), 60000)
    x.run('H_popcnt', [a], post)


class Pick(LoopContract):
    """pdep / pext: S(src0, msk0) = (S(src, msk) << done) | (dst >> (D - done)) for the recursively defined S"""

    def __init__(self, S, a, m, D, dep, isrc, imsk, idst, icnt):
        self.S, self.a, self.m, self.D, self.dep = S, a, m, D, dep
        self.ix = (isrc, imsk, idst, icnt)
        self.ghosts = [bv(0, D)]

    def get(self, v):
        return [v[i] for i in self.ix]

    def lemmas(self, v, g):
        s, m, d, c = self.get(v)
        D, S = self.D, self.S
        one = bv(1, D)
        s1, m1 = z3.LShR(s, one), z3.LShR(m, one)
        bit = (m & one) == one
        hit = (S(s1, m1) << one) | (s & one)
        miss = (S(s, m1) << one) if self.dep else S(s1, m1)
        return [S(s, bv(0, D)) == bv(0, D), z3.Implies(m != bv(0, D), S(s, m) == z3.If(bit, hit, miss))]

    def inv(self, v, g):
        s, m, d, c = self.get(v)
        D = self.D
        dd = bv(D, D)
        r = [z3.ULE(g[0], dd), z3.ULE(c, g[0]), z3.Implies(g[0] == dd, m == bv(0, D)),
             z3.LShR(m, dd - g[0]) == bv(0, D)]
        if self.dep:
            r.append(c == g[0])
        r.append(z3.If(c == bv(0, D), d == bv(0, D), (d & ~(bv(-1, D) << (dd - c))) == bv(0, D)))
        r.append(self.S(self.a, self.m) == (z3.If(c == dd, bv(0, D), self.S(s, m) << c) | z3.If(c == bv(0, D), bv(0, D), z3.LShR(d, dd - c))))
        return r

    def step(self, v, g, nv):
        return [g[0] + bv(1, self.D)]

    def variant(self, v, g):
        return v[self.ix[1]]


def pick_task(name, fn, dep):
    def t(x):
        D = x.D
        a, m = data(x, 'x', 'm')
        S = z3.Function('P_%s%d' % ('dep' if dep else 'ext', D), z3.BitVecSort(D), z3.BitVecSort(D), z3.BitVecSort(D))

        def hook(E, f, hdr, st, vals):
            i, j = find_phi(vals, a), find_phi(vals, m)
            z = [k for k, (n, v) in enumerate(vals) if isinstance(v, z3.BitVecRef) and T.is_const(v) and T.cval(v) == 0]
            if i is None or j is None or len(z) != 2 or len(vals) != 4:
                return None
            # which of the two is the counter: it is used as the final shift amount only, never or-ed with data
            for c in z:
                d = [k for k in z if k != c][0]
                ins = uses(f, vals[c][0])
                if any(q in ('add', 'sub') for q in ins):
                    return Pick(S, a, m, D, dep, i, j, d, c)
            return None
        x.E.user_loop = hook
        x.W.pre.append(S(a, bv(0, D)) == bv(0, D))

        def post(s, v):
            x.E.oblige(s.clone(), 'post', 'bits %s under the mask' % ('deposited' if dep else 'extracted'), ret(v, D) == S(a, m), 60000)
        x.run(fn, [a, m], post)
    task(name, 'prim', 'C15', covers=('bit::_' + name.split('_')[0],))(t)


def uses(f, vid):
    """opcodes of the instructions that use value vid, through width conversions"""
    out, todo, seen = set(), [vid], set()
    while todo:
        u = todo.pop()
        for b in f['blocks']:
            for i in b:
                if i.get('id') in seen or not any(isinstance(o, dict) and o.get('k') == 'v' and o.get('id') == u for o in operands(i)):
                    continue
                if i['op'] in ('zext', 'sext', 'trunc'):
                    seen.add(i['id'])
                    todo.append(i['id'])
                else:
                    out.add(i['op'])
    return out


def operands(i):
    for k, v in i.items():
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            for q in v:
                if isinstance(q, dict):
                    yield q


pick_task('pdep', 'H_pdep', True)
pick_task('pdep_generic', 'H_pdep_g', True)
pick_task('pext', 'H_pext', False)
pick_task('pext_generic', 'H_pext_g', False)


# ------------------------------------------------------------------ widening multiply
def products(t, acc, seen):
    """products of two non-constant factors inside t"""
    if t.get_id() in seen:
        return
    seen.add(t.get_id())
    if t.decl().kind() == z3.Z3_OP_BMUL and not any(z3.is_bv_value(c) for c in t.children()):
        acc.append(t)
    for c in t.children():
        products(c, acc, seen)


def t_mulx(fn):
    def t(x):
        D, h = x.D, x.D // 2
        a, b = data(x, 'x', 'y')
        W = 2 * D

        def post(s, v):
            lo, hi = parts(v, [D, D])
            got = z3.Concat(hi, lo)
            p = z3.ZeroExt(D, a) * z3.ZeroExt(D, b)
            s2 = s.clone()
            acc = []
            products(got, acc, set())
            if D >= 16 and acc and z3.simplify(got).eq(z3.simplify(p)) is False:
                # lemma (distributivity): a*b = l0*l1 + (m0*l1 + l0*m1) 2^h + m0*m1 2^D, and a product of two halves
                # has no more than D bits.  Each machine product is replaced by the exact product of its halves.
                m0, l0, m1, l1 = z3.LShR(a, bv(h, D)), a & bv((1 << h) - 1, D), z3.LShR(b, bv(h, D)), b & bv((1 << h) - 1, D)
                q = [z3.BitVec('prod_%d' % i, D) for i in range(4)]
                pairs = [(l0, l1), (m0, l1), (l0, m1), (m0, m1)]
                sub = []
                for t in acc:
                    u, w = t.children()
                    for n, (c, d) in zip(q, pairs):
                        cw, dw = [T.zext(e, t.size()) if t.size() > D else e for e in (c, d)]
                        hit = False
                        for (r, k) in ((cw, dw), (dw, cw)):
                            sv = z3.Solver()
                            sv.set('timeout', 5000)
                            sv.add(z3.Or(u != r, w != k))
                            if t.num_args() == 2 and sv.check() == z3.unsat:
                                hit = True
                        if hit:
                            sub.append((t, T.zext(n, t.size()) if t.size() > D else n))
                            break
                if len(sub) < 3:
                    x.E.oblige(s2, 'post', 'low and high word of the product', got == p, 120000)
                    return
                got2 = z3.substitute(got, *sub)
                big = bv(((1 << h) - 1) ** 2, D)
                E = [z3.ZeroExt(D, n) for n in q]
                want = E[0] + ((E[1] + E[2]) << bv(h, W)) + (E[3] << bv(D, W))
                for n, (c, d) in zip(q, pairs):
                    s2.pc.append(z3.ULE(n, big))
                s2.pc = [z3.substitute(c, *sub) for c in s2.pc]
                # the sum of the partial products is the full product (no carry is lost)
                s2.model = None
                x.E.oblige(s2, 'post', 'low and high word of the product', got2 == want, 120000)
                iv = z3.Ints('M0 L0 M1 L1')
                sv = z3.Solver()
                sv.add((iv[0] * 2 ** h + iv[1]) * (iv[2] * 2 ** h + iv[3]) !=
                       iv[1] * iv[3] + (iv[0] * iv[3] + iv[1] * iv[2]) * 2 ** h + iv[0] * iv[2] * 2 ** D)
                x.E.obls.append(sym.Obligation('post', 'lemma: distributivity of the product of halves',
                                               'discharged' if sv.check() == z3.unsat else 'unknown'))
                return
            x.E.oblige(s2, 'post', 'low and high word of the product', got == p, 120000)
        x.run(fn, [a, b], post)
    return t


task('mulx', 'prim', 'C15', covers=('bit::_mulx',))(t_mulx('H_mulx'))
task('mulx_generic', 'prim', 'C15', covers=('bit::_mulx',))(t_mulx('H_mulx_g'))
