"""Contracts of the BitLib functions, stated over the extracted code, one task per (function, configuration).

A task builds the symbolic initial state (precondition), runs the extracted code of the function
under contract and states the postcondition for a symbolic word index / bit index.  No range
length is fixed: ranges are (word, position) pairs with 2^56..2^59 words."""
import z3
import spec
import terms as T
from terms import bv
from sym import Engine, Ptr, Obligation, Unsupported, light, MFun

TASKS = {}


class Task:
    def __init__(self, name, group, props, ds, fn, covers):
        self.name, self.group, self.props, self.ds, self.fn, self.covers = name, group, props, ds, fn, covers


ALL = (8, 16, 32, 64)


def task(name, group, prop, ds=ALL, covers=()):
    def deco(fn):
        TASKS[name] = Task(name, group, prop, ds, fn, covers)
        return fn
    return deco


NOWHERE = (lambda i: z3.BoolVal(False))
w_ = z3.BitVec('w', 64)


def uniq(ts):
    out, seen = [], set()
    for t in ts:
        if t.get_id() not in seen:
            seen.add(t.get_id())
            out.append(t)
    return out


class Ctx:
    def __init__(self, prog, D, log=None):
        self.D = D
        self.cfg = spec.Cfg(D)
        self.E = Engine(prog, log=log)
        self.E.D = D
        self.W = spec.World(self.cfg)
        self.w = z3.BitVec('w', 64)
        self.nret = 0
        self.params = {}       # named inputs, for counterexamples

    def wpos(self, name):
        return self.W.word(name + 'w'), self.W.pos(name + 'p')

    def it(self, reg, a):
        return [Ptr(reg, a[0]), a[1]]

    def run(self, fn, args, post):
        """run the function; call post(state, value) for each normally returning path"""
        st = self.W.finish()
        self.st0 = st
        r, m = self.E.sol.check(st.pc, exact=False)
        self.presat = r
        st.model = None
        outs = self.E.run(fn, args, st)
        self.npaths = len(outs)
        for s, v in outs:
            if isinstance(v, str):
                self.E.obls.append(Obligation('exception', 'no exception escapes', 'refuted', None, s))
                continue
            self.nret += 1
            post(s, v)

    def ret(self, s, v, exp, cond=None, name='returned iterator'):
        g = z3.And(v.e[0].off == exp[0], v.e[1] == exp[1])
        if cond is not None:
            g = z3.Implies(cond, g)
        self.E.oblige(s.clone(), 'post', name, g)

    def read(self, s, reg, w=None):
        return self.E.read(s.mem[reg], self.w if w is None else w, s)

    def words(self, s, name, lhs, rhs, cond=None, points=None):
        self.E.oblige_word(s.clone(), 'post', name, lhs, rhs, cond, points=points)

    def same(self, s, reg, name=None):
        self.words(s, name or 'no bit of %s changes' % reg.name, self.read(s, reg), self.W.init[reg](self.w))

    def contradiction(self, s, name, cond, eqs):
        """obligation: cond is impossible when all word equalities of eqs hold.  Bit level first: the path's word
        disequalities give skolem bits, the equalities are read at these bits"""
        import bits
        E = self.E
        cond = light(cond)
        if z3.is_false(cond):
            E.obls.append(Obligation('post', name, 'discharged'))
            return
        B = bits.Bits(E.sol.lia)
        hyp = B.weak_pc(s.pc + [cond], None)
        for sk in list(B.sk.values()):
            for a, b in eqs:
                hyp.append(B.weaken(a == b, sk))
        E.tick()
        r, o = E.sol.lia_check(hyp)
        if r == 'unsat':
            E.obls.append(Obligation('post', name, 'discharged'))
            return
        s2 = s.clone()
        s2.pc = s2.pc + [a == b for a, b in eqs]
        s2.model = None
        self.E.oblige(s2, 'post', name, z3.Not(cond))

    def check(self, s, name, goal):
        self.E.oblige(s.clone(), 'post', name, goal)


# ------------------------------------------------------------------ contracts of callees
def inbits(p, a, b):
    """position p = (word, bit) lies in [a, b)"""
    return z3.And(spec.le(a, p), spec.lt(p, b))


def need_range(E, s, reg, f, l, what, write=True):
    """callee precondition: [f,l) is a valid range over accessible words of reg"""
    E.oblige(s, 'pre', 'precondition of %s: valid range' % what, z3.And(spec.le(f, l), z3.ULT(f[1], bv(E.D)), z3.ULT(l[1], bv(E.D))))
    n = T.sub(T.add(l[0], z3.If(l[1] != bv(0), bv(1), bv(0))), f[0])
    E.range_ok(s, reg, f[0], n, 'precondition of %s: range inside accessible words' % what, reg.writable if write else reg.readable, 'pre')


def ret_it(s, reg, it):
    from sym import Agg
    return [(s, Agg([Ptr(reg, it[0]), it[1]]))]


def pick(E, s, conds):
    """split the path over conds (exhaustive): returns [(state, index)]"""
    out = []
    for i, c in enumerate(conds):
        c = light(c)
        f, m = E.feasible(s, c)
        if f:
            s2 = s.clone()
            if not z3.is_true(c):
                s2.pc.append(c)
            s2.model = None
            out.append((s2, i))
    return out


def shift_contract(x, left):
    """bit::shift_left / shift_right as proved by the C08/C09 tasks; vacated bits are arbitrary"""
    cfg = x.cfg

    def handler(E, s, ins, a):
        fp, fi, lp, li, n = a
        reg = fp.reg
        if lp.reg is not reg:
            raise Unsupported('shift over two arrays')
        f, l = (fp.off, fi), (lp.off, li)
        name = 'shift_left' if left else 'shift_right'
        need_range(E, s, reg, f, l, name)
        N = spec.nbits(cfg, f, l)
        out = []
        for s2, i in pick(E, s, [n <= bv(0), z3.And(n > bv(0), n >= N), z3.And(n > bv(0), n < N)]):
            if i == 0:
                out += ret_it(s2, reg, l if left else f)
                continue
            E.fresh += 1
            junk = z3.Function('M_junk%d' % E.fresh, z3.BitVecSort(64), z3.BitVecSort(x.D))
            par = s2.mem[reg]
            nw, np = T.ashr(n, bv(cfg.l2)), T.and_(n, bv(x.D - 1))
            if i == 1:
                def fn(w, rd):
                    m = spec.mask(cfg, w, f, l)
                    return (rd(w) & ~m) | (junk(w) & m)
                r = f if left else l
            elif left:
                e1 = spec.norm(cfg, T.sub(l[0], nw), T.sub(l[1], np), -1, 1)

                def fn(w, rd):
                    m, k = spec.mask(cfg, w, f, l), spec.mask(cfg, w, f, e1)
                    return (rd(w) & ~m) | (spec.win(cfg, rd, T.add(w, nw), np) & k) | (junk(w) & m & ~k)
                r = e1
            else:
                e1 = spec.norm(cfg, T.add(f[0], nw), T.add(f[1], np), 0, 1)

                def fn(w, rd):
                    m, k = spec.mask(cfg, w, f, l), spec.mask(cfg, w, e1, l)
                    sw, sp = spec.norm(cfg, T.sub(w, nw), T.sub(bv(0), np), -1, 0)
                    return (rd(w) & ~m) | (spec.win(cfg, rd, sw, sp) & k) | (junk(w) & m & ~k)
                r = e1
            s2.mem[reg] = MFun(par, fn)
            s2.stores.append((reg, 'bulk', f[0], T.add(T.sub(l[0], f[0]), bv(1))))
            out += ret_it(s2, reg, r)
        return out
    nm = 'bit::shift_left<' if left else 'bit::shift_right<'
    x.E.contracts.append((lambda name, dem: nm in dem.split('(')[0], handler))


def len_mask(D, n):
    """mask of the low n bits, n <= D (64 bit term)"""
    ones = bv((1 << D) - 1, D)
    return z3.If(n == bv(D), ones, (bv(1, D) << T.trunc(n, D)) - bv(1, D))


def get_word_contract(x):
    """bit::get_word as proved by the C16 task: bits [p, p+len) in the low len bits; the bits above are arbitrary"""
    cfg, D = x.cfg, x.D

    def handler(E, s, ins, a):
        p, i, n = a
        reg = p.reg
        E.oblige(s, 'pre', 'precondition of get_word: len <= digits', z3.And(z3.ULE(n, bv(D)), z3.ULT(i, bv(D))))
        E.range_ok(s, reg, p.off, z3.If(z3.UGT(T.add(i, n), bv(D)), bv(2), bv(1)), 'precondition of get_word: words accessible', reg.readable, 'pre')
        par = s.mem[reg]
        E.fresh += 1
        junk = z3.Function('M_junk%d' % E.fresh, z3.BitVecSort(64), z3.BitVecSort(D))(bv(0))
        m = len_mask(D, n)
        v = spec.win(cfg, lambda w: E.read(par, w, s), p.off, i)
        s.reads.append((reg, p.off))
        return [(s, (v & m) | (junk & ~m))]
    x.E.contracts.append((lambda name, dem: 'bit::get_word<' in dem.split('(')[0], handler))


def write_word_contract(x):
    """bit::write_word as proved by the C16 task: bits [p, p+len) become the low len bits of src"""
    cfg, D = x.cfg, x.D

    def handler(E, s, ins, a):
        src, p, i, n = a
        src = T.trunc(src, D) if src.size() > D else src
        n = T.zext(n, 64)
        reg = p.reg
        E.oblige(s, 'pre', 'precondition of write_word: len <= digits', z3.And(z3.ULE(n, bv(D)), z3.ULT(i, bv(D))))
        E.range_ok(s, reg, p.off, z3.If(z3.UGT(T.add(i, n), bv(D)), bv(2), bv(1)), 'precondition of write_word: words accessible', reg.writable, 'pre')
        q = word_of = spec.word_cast(cfg, i)
        a0, e0 = (p.off, i), spec.norm(cfg, p.off, T.add(i, n), 0, 2)

        def fn(w, rd):
            m = spec.mask(cfg, w, a0, e0)
            v = z3.If(w == p.off, src << q, z3.LShR(src, bv(D, D) - q))
            return (rd(w) & ~m) | (v & m)
        s.mem[reg] = MFun(s.mem[reg], fn)
        s.stores.append((reg, 'bulk', p.off, bv(2)))
        return [(s, None)]
    x.E.contracts.append((lambda name, dem: 'bit::write_word<' in dem.split('(')[0], handler))


def rotated(x, rd, f, n, l):
    """word function: [f,l) rotated so that n comes first"""
    cfg = x.cfg
    e = spec.plus(cfg, f, n, l)      # f + (l - n)

    def fn(w):
        m1, m2 = spec.mask(cfg, w, f, e), spec.mask(cfg, w, e, l)
        s1 = spec.norm(cfg, T.add(w, T.sub(n[0], f[0])), T.sub(n[1], f[1]), -1, 1)
        s2 = spec.norm(cfg, T.add(w, T.sub(n[0], l[0])), T.sub(n[1], l[1]), -1, 1)
        return (rd(w) & ~m1 & ~m2) | (spec.win(cfg, rd, *s1) & m1) | (spec.win(cfg, rd, *s2) & m2)
    return e, fn


def rotate_contract(x):
    """bit::_rotate_via_raw as stated by the rotate_via_raw task"""
    def handler(E, s, ins, a):
        fp, fi, np, ni, lp, li = a[:6]
        reg = fp.reg
        f, n, l = (fp.off, fi), (np.off, ni), (lp.off, li)
        need_range(E, s, reg, f, l, '_rotate_via_raw')
        E.oblige(s, 'pre', 'precondition of _rotate_via_raw: first < n_first < last', z3.And(spec.lt(f, n), spec.lt(n, l)))
        par = s.mem[reg]
        e, _ = rotated(x, None, f, n, l)
        s.mem[reg] = MFun(par, lambda w, rd: rotated(x, rd, f, n, l)[1](w))
        s.stores.append((reg, 'bulk', f[0], T.add(T.sub(l[0], f[0]), bv(1))))
        return ret_it(s, reg, e)
    x.E.contracts.append((lambda name, dem: 'bit::_rotate_via_raw<' in dem.split('(')[0], handler))


def bitswap_contract(x):
    """bit::_bitswap as proved by the C15 task: bit b of the result is bit D-1-b of the operand"""
    rev = z3.Function('bitrev%d' % x.D, z3.BitVecSort(x.D), z3.BitVecSort(x.D))
    x.E.contracts.append((lambda name, dem: 'bit::_bitswap<' in dem.split('(')[0],
                          lambda E, s, ins, a: [(s, rev(T.trunc(a[0], x.D) if a[0].size() > x.D else a[0]))]))


# ------------------------------------------------------------------ harness code
ALG_HEAD = '''#include <cstdint>
#include <cassert>
#include <vector>
#include <functional>
#include "bitlib/bitlib.hpp"
typedef %(W)s W;
using It = bit::bit_iterator<std::vector<W>::iterator>;
struct R { W* p; uint64_t i; };
static inline It mk(W* p, uint64_t i){ return It(std::vector<W>::iterator(p), i); }
static inline R un(It r){ return R{&*r.base(), (uint64_t)r.position()}; }
'''
ALG = ALG_HEAD + '''
#define RANGE W* fp, uint64_t fi, W* lp, uint64_t li
#define FL mk(fp,fi),mk(lp,li)
extern "C" {
R H_copy(RANGE, W* dp, uint64_t di){ return un(bit::copy(FL,mk(dp,di))); }
R H_move(RANGE, W* dp, uint64_t di){ return un(bit::move(FL,mk(dp,di))); }
R H_copy_backward(RANGE, W* dp, uint64_t di){ return un(bit::copy_backward(FL,mk(dp,di))); }
R H_shift_left(RANGE, int64_t n){ return un(bit::shift_left(FL,n)); }
R H_shift_right(RANGE, int64_t n){ return un(bit::shift_right(FL,n)); }
void H_fill(RANGE, bool v){ bit::fill(FL,bit::bit_value(v)); }
R H_find(RANGE, bool v){ return un(bit::find(FL,bit::bit_value(v))); }
int64_t H_count(RANGE, bool v){ return bit::count(FL,bit::bit_value(v)); }
bool H_equal(RANGE, W* dp, uint64_t di){ return bit::equal(FL,mk(dp,di)); }
void H_reverse(RANGE){ bit::reverse(FL); }
R H_rotate(W* fp, uint64_t fi, W* np, uint64_t ni, W* lp, uint64_t li){ return un(bit::rotate(mk(fp,fi),mk(np,ni),mk(lp,li))); }
R H_swap_ranges(RANGE, W* dp, uint64_t di){ return un(bit::swap_ranges(FL,mk(dp,di))); }
R H_rotate_raw(W* fp, uint64_t fi, W* np, uint64_t ni, W* lp, uint64_t li){ return un(bit::_rotate_via_raw(mk(fp,fi),mk(np,ni),mk(lp,li),std::random_access_iterator_tag())); }
W H_get_word(W* p, uint64_t i, uint64_t len){ return bit::get_word<W>(mk(p,i), len); }
void H_write_word(W src, W* p, uint64_t i, W len){ bit::write_word<W>(src, mk(p,i), len); }
W bitop1(W); W bitop2(W, W);
struct Op1 { W operator()(W x) const { return bitop1(x); } };
struct Op2 { W operator()(W x, W y) const { return bitop2(x, y); } };
R H_transform1(RANGE, W* dp, uint64_t di){ return un(bit::transform(FL,mk(dp,di),Op1())); }
R H_transform2(RANGE, W* gp, uint64_t gi, W* dp, uint64_t di){ return un(bit::transform(FL,mk(gp,gi),mk(dp,di),Op2())); }
R H_not(RANGE, W* dp, uint64_t di){ return un(bit::transform(FL,mk(dp,di),std::bit_not<W>())); }
R H_and(RANGE, W* gp, uint64_t gi, W* dp, uint64_t di){ return un(bit::transform(FL,mk(gp,gi),mk(dp,di),std::bit_and<W>())); }
}
'''
GROUPS = {'alg': ALG, 'mod': ALG}
NOINLINE = {'alg': r'^popcnt\(void const\*',
            'mod': r'bit::(_bitswap|shift_left|shift_right|get_word|write_word|swap_ranges|copy|copy_backward|_rotate_via_raw)<'}   # functions replaced by their contract at call sites (demangled name)


# ------------------------------------------------------------------ C01 copy / move
def copy_like(fn):
    def t(x):
        f, l = x.W.range('')
        d = (bv(0), x.W.pos('dp'))
        dl = spec.plus(x.cfg, d, f, l)
        A = x.W.region('src', spec.covers(f, l), NOWHERE)
        B = x.W.region('dst', spec.covers(d, dl), spec.covers(d, dl))

        def post(s, v):
            x.ret(s, v, dl)
            m = spec.mask(x.cfg, x.w, d, dl)
            sw, sp = spec.norm(x.cfg, T.add(f[0], T.sub(x.w, d[0])), T.sub(f[1], d[1]), -1, 1)
            src = spec.win(x.cfg, x.W.init[A], sw, sp)
            x.words(s, 'destination bits are the source bits, others unchanged', x.read(s, B), (x.W.init[B](x.w) & ~m) | (src & m))
            x.same(s, A)
        x.run(fn, x.it(A, f) + x.it(A, l) + x.it(B, d), post)
    return t


def copy_overlap(fn):
    def t(x):
        # one storage; the destination starts before the source or at it
        fw, fp = x.wpos('f')
        f = (fw, fp)
        _, l = x.W.range('', fw)
        # range() made its own first position; tie it
        x.W.pre.append(x.W.pos('fp') == fp)
        d = (bv(0), x.W.pos('dp'))
        x.W.pre.append(spec.le(d, f))
        dl = spec.plus(x.cfg, d, f, l)
        cs, cd = spec.covers(f, l), spec.covers(d, dl)
        A = x.W.region('a', lambda i: z3.Or(cs(i), cd(i)), cd)

        def post(s, v):
            x.ret(s, v, dl)
            m = spec.mask(x.cfg, x.w, d, dl)
            sw, sp = spec.norm(x.cfg, T.add(f[0], T.sub(x.w, d[0])), T.sub(f[1], d[1]), -1, 1)
            src = spec.win(x.cfg, x.W.init[A], sw, sp)
            x.words(s, 'destination bits are the original source bits, others unchanged', x.read(s, A),
                    (x.W.init[A](x.w) & ~m) | (src & m))
        x.run(fn, x.it(A, f) + x.it(A, l) + x.it(A, d), post)
    return t


for _n in ('copy', 'move'):
    task(_n, 'alg', 'C01', covers=('bit::' + _n,))(copy_like('H_' + _n))
    task(_n + '_overlap', 'alg', 'C01', covers=('bit::' + _n,))(copy_overlap('H_' + _n))


# ------------------------------------------------------------------ C02 copy_backward
@task('copy_backward', 'alg', 'C02', covers=('bit::copy_backward',))
def t_cb(x):
    f, l = x.W.range('')
    d = (bv(0), x.W.pos('dp'))
    dl = spec.plus(x.cfg, d, f, l)
    A = x.W.region('src', spec.covers(f, l), NOWHERE)
    B = x.W.region('dst', spec.covers(d, dl), spec.covers(d, dl))

    def post(s, v):
        x.ret(s, v, d)
        m = spec.mask(x.cfg, x.w, d, dl)
        sw, sp = spec.norm(x.cfg, T.add(f[0], T.sub(x.w, d[0])), T.sub(f[1], d[1]), -1, 1)
        src = spec.win(x.cfg, x.W.init[A], sw, sp)
        x.words(s, 'destination bits are the source bits, others unchanged', x.read(s, B), (x.W.init[B](x.w) & ~m) | (src & m))
        x.same(s, A)
    x.run('H_copy_backward', x.it(A, f) + x.it(A, l) + x.it(B, dl), post)


@task('copy_backward_overlap', 'alg', 'C02', covers=('bit::copy_backward',))
def t_cbo(x):
    # one storage; the destination ends after the source or at it: d >= f
    f, l = x.W.range('')
    d = x.wpos('d')
    x.W.pre.append(spec.le(f, d))
    dl = spec.plus(x.cfg, d, f, l)
    cs, cd = spec.covers(f, l), spec.covers(d, dl)
    A = x.W.region('a', lambda i: z3.Or(cs(i), cd(i)), cd)

    def post(s, v):
        x.ret(s, v, d)
        m = spec.mask(x.cfg, x.w, d, dl)
        sw, sp = spec.norm(x.cfg, T.add(f[0], T.sub(x.w, d[0])), T.sub(f[1], d[1]), -1, 1)
        src = spec.win(x.cfg, x.W.init[A], sw, sp)
        x.words(s, 'destination bits are the original source bits, others unchanged', x.read(s, A),
                (x.W.init[A](x.w) & ~m) | (src & m))
    x.run('H_copy_backward', x.it(A, f) + x.it(A, l) + x.it(A, dl), post)


# ------------------------------------------------------------------ C03 fill
@task('fill', 'alg', 'C03', covers=('bit::fill',))
def t_fill(x):
    f, l = x.W.range('')
    A = x.W.region('a', spec.covers(f, l), spec.covers(f, l))
    val = z3.Bool('val')

    def post(s, v):
        m = spec.mask(x.cfg, x.w, f, l)
        M = x.W.init[A](x.w)
        x.words(s, 'bits of the range equal the value, others unchanged', x.read(s, A), z3.If(val, M | m, M & ~m))
    x.run('H_fill', x.it(A, f) + x.it(A, l) + [val], post)


# ------------------------------------------------------------------ C04 find
@task('find', 'alg', 'C04', covers=('bit::find',))
def t_find(x):
    f, l = x.W.range('')
    A = x.W.region('a', spec.covers(f, l), NOWHERE)
    val = z3.Bool('val')
    D = x.D
    M = x.W.init[A]

    def post(s, v):
        r = (v.e[0].off, v.e[1])

        def g(w):
            return z3.If(val, M(w), ~M(w))
        x.check(s, 'result lies in [first,last]', z3.And(spec.le(f, r), spec.le(r, l), z3.ULT(r[1], bv(D))))
        x.check(s, 'result is last or holds the value',
                z3.Or(z3.And(r[0] == l[0], r[1] == l[1]), (z3.LShR(g(r[0]), spec.word_cast(x.cfg, r[1])) & bv(1, D)) == bv(1, D)))
        k = spec.mask(x.cfg, x.w, f, r)
        x.words(s, 'no bit before the result holds the value', g(x.w) & k, bv(0, D), points={A: [x.w]})
        x.same(s, A)
    x.run('H_find', x.it(A, f) + x.it(A, l) + [val], post)


# ------------------------------------------------------------------ C06 equal
@task('equal', 'alg', 'C06', covers=('bit::equal',))
def t_equal(x):
    f, l = x.W.range('')
    d = (bv(0), x.W.pos('dp'))
    dl = spec.plus(x.cfg, d, f, l)
    A = x.W.region('a', spec.covers(f, l), NOWHERE)
    B = x.W.region('b', spec.covers(d, dl), NOWHERE)

    def agree(w):
        """the bits of word w of the second range equal the corresponding bits of the first"""
        m = spec.mask(x.cfg, w, d, dl)
        sw, sp = spec.norm(x.cfg, T.add(f[0], T.sub(w, d[0])), T.sub(f[1], d[1]), -1, 1)
        return (spec.win(x.cfg, x.W.init[A], sw, sp) & m), (x.W.init[B](w) & m)

    def post(s, v):
        r = x.E.tobool(v)
        a, b = agree(x.w)
        x.words(s, 'true only if all corresponding bits agree', a, b, r, points={B: [x.w], A: [T.add(f[0], x.w), T.add(f[0], T.add(x.w, bv(1)))]})
        # false: the corresponding bits differ somewhere. Assume they agree at every word of b read on this path
        pts = [i for reg, i in s.reads if reg is B] + [i for reg, i in s.ghost.get('witness', ()) if reg is B]
        x.contradiction(s, 'false only if some corresponding bits differ', z3.Not(r), [agree(i) for i in uniq(pts)])
        x.same(s, A)
        x.same(s, B)
    x.run('H_equal', x.it(A, f) + x.it(A, l) + x.it(B, d), post)


# ------------------------------------------------------------------ C08 / C09 shifts
def shift_amount(x):
    nw = x.W.word('nw')
    np = x.W.pos('np')
    return nw, np, T.add(T.mulc(nw, x.D), np)


def t_shift(left):
    def t(x):
        f, l = x.W.range('')
        nw, np, n = shift_amount(x)
        A = x.W.region('a', spec.covers(f, l), spec.covers(f, l))
        M = x.W.init[A]
        N = spec.nbits(x.cfg, f, l)
        mid = z3.And(n > bv(0), n < N)

        def post(s, v):
            m = spec.mask(x.cfg, x.w, f, l)
            R = x.read(s, A)
            if left:
                x.ret(s, v, l, n <= bv(0), 'n <= 0 returns last')
                x.ret(s, v, f, z3.And(n > bv(0), n >= N), 'n >= length returns first')
                e1 = spec.norm(x.cfg, T.sub(l[0], nw), T.sub(l[1], np), -1, 1)
                x.ret(s, v, e1, mid, 'returns first + (length - n)')
                k = spec.mask(x.cfg, x.w, f, e1)
                src = spec.win(x.cfg, M, T.add(x.w, nw), np)
            else:
                x.ret(s, v, f, n <= bv(0), 'n <= 0 returns first')
                x.ret(s, v, l, z3.And(n > bv(0), n >= N), 'n >= length returns last')
                e1 = spec.norm(x.cfg, T.add(f[0], nw), T.add(f[1], np), 0, 1)
                x.ret(s, v, e1, mid, 'returns first + n')
                k = spec.mask(x.cfg, x.w, e1, l)
                sw, sp = spec.norm(x.cfg, T.sub(x.w, nw), T.sub(bv(0), np), -1, 0)
                src = spec.win(x.cfg, M, sw, sp)
            x.words(s, 'no bit outside the range changes', R & ~m, M(x.w) & ~m, mid)
            x.words(s, 'nothing changes for n <= 0', R, M(x.w), n <= bv(0))
            x.words(s, 'no bit outside the range changes (n >= length)', R & ~m, M(x.w) & ~m, z3.Not(mid))
            x.words(s, 'surviving bits moved by n', R & k, src & k, mid)
        x.run('H_shift_left' if left else 'H_shift_right', x.it(A, f) + x.it(A, l) + [n], post)
    return t


def t_shift_neg(left):
    def t(x):
        f, l = x.W.range('')
        nw, np, q = shift_amount(x)
        n = T.sub(bv(0), q)
        A = x.W.region('a', spec.covers(f, l), spec.covers(f, l))

        def post(s, v):
            x.ret(s, v, l if left else f, None, 'n <= 0 returns last' if left else 'n <= 0 returns first')
            x.same(s, A)
        x.run('H_shift_left' if left else 'H_shift_right', x.it(A, f) + x.it(A, l) + [n], post)
    return t


task('shift_left', 'alg', 'C08', covers=('bit::shift_left',))(t_shift(True))
task('shift_left_nonpositive', 'alg', 'C08', covers=('bit::shift_left',))(t_shift_neg(True))
task('shift_right', 'alg', 'C09', covers=('bit::shift_right',))(t_shift(False))
task('shift_right_nonpositive', 'alg', 'C09', covers=('bit::shift_right',))(t_shift_neg(False))


# ------------------------------------------------------------------ C12 transform
def bit_op(E, s, args, name, D, arity):
    """an arbitrary operator acting bit by bit: result bit = f_b(bits) for an uninterpreted truth table per bit"""
    c = [z3.BitVec('%s_tt%d' % (name, i), D) for i in range(1 << arity)]
    if arity == 1:
        a, = args
        return (c[0] & ~a) | (c[1] & a)
    a, b = args
    return (c[0] & ~a & ~b) | (c[1] & a & ~b) | (c[2] & ~a & b) | (c[3] & a & b)


def op_contract(x, fname, arity):
    """contract of the user's operator: any operator that treats every bit of the word alike"""
    ones = bv(x.cfg.ones, x.D)
    c = [z3.If(z3.Bool('tt%d' % i), ones, bv(0, x.D)) for i in range(1 << arity)]

    def f(*a):
        if arity == 1:
            return (c[0] & ~a[0]) | (c[1] & a[0])
        a, b = a
        return (c[0] & ~a & ~b) | (c[1] & a & ~b) | (c[2] & ~a & b) | (c[3] & a & b)

    def handler(E, s, ins, args):
        args = [T.trunc(a, x.D) for a in args]
        return [(s, f(*args))]
    x.E.contracts.append((lambda name, dem, q=fname: dem.split('(')[0] == q or name.startswith('_Z6' + q), handler))
    return f


def window_for(x, reg, a, d):
    """the D bits of the range starting at a that correspond to word x.w of the range starting at d"""
    sw, sp = spec.norm(x.cfg, T.add(a[0], T.sub(x.w, d[0])), T.sub(a[1], d[1]), -1, 1)
    return spec.win(x.cfg, x.W.init[reg], sw, sp)


def transform1(fn, inplace):
    def t(x):
        f, l = x.W.range('')
        op = op_contract(x, 'bitop1', 1)
        if fn == 'H_not':
            op = lambda a: ~a
        if inplace:
            A = B = x.W.region('a', spec.covers(f, l), spec.covers(f, l))
            d, dl = f, l
        else:
            d = (bv(0), x.W.pos('dp'))
            dl = spec.plus(x.cfg, d, f, l)
            A = x.W.region('src', spec.covers(f, l), NOWHERE)
            B = x.W.region('dst', spec.covers(d, dl), spec.covers(d, dl))

        def post(s, v):
            x.ret(s, v, dl)
            m = spec.mask(x.cfg, x.w, d, dl)
            src = x.W.init[A](x.w) if inplace else window_for(x, A, f, d)
            x.words(s, 'destination bits are op of the source bits, others unchanged', x.read(s, B),
                    (x.W.init[B](x.w) & ~m) | (op(src) & m))
            if A is not B:
                x.same(s, A)
        x.run(fn, x.it(A, f) + x.it(A, l) + x.it(B, d), post)
    return t


def transform2(fn, mode):
    def t(x):
        f, l = x.W.range('')
        op = op_contract(x, 'bitop2', 2)
        if fn == 'H_and':
            op = lambda a, b: a & b
        A = None
        if mode == 'inplace':
            A = B = x.W.region('a', spec.covers(f, l), spec.covers(f, l))
            d, dl = f, l
            g = (bv(0), x.W.pos('gp'))
            G = x.W.region('src2', spec.covers(g, spec.plus(x.cfg, g, f, l)), NOWHERE)
        else:
            d = (bv(0), x.W.pos('dp'))
            dl = spec.plus(x.cfg, d, f, l)
            g = (bv(0), x.W.pos('gp'))
            A = x.W.region('src', spec.covers(f, l), NOWHERE)
            G = x.W.region('src2', spec.covers(g, spec.plus(x.cfg, g, f, l)), NOWHERE)
            B = x.W.region('dst', spec.covers(d, dl), spec.covers(d, dl))

        def post(s, v):
            x.ret(s, v, dl)
            m = spec.mask(x.cfg, x.w, d, dl)
            s1 = x.W.init[A](x.w) if A is B else window_for(x, A, f, d)
            s2 = window_for(x, G, g, d)
            x.words(s, 'destination bits are op of the source bits, others unchanged', x.read(s, B),
                    (x.W.init[B](x.w) & ~m) | (op(s1, s2) & m))
            x.same(s, G)
            if A is not B:
                x.same(s, A)
        x.run(fn, x.it(A, f) + x.it(A, l) + x.it(G, g) + x.it(B, d), post)
    return t


task('transform_unary', 'alg', 'C12', covers=('bit::transform',))(transform1('H_transform1', False))
task('transform_unary_inplace', 'alg', 'C12', covers=('bit::transform',))(transform1('H_transform1', True))
task('transform_not', 'alg', 'C12', covers=('bit::transform',))(transform1('H_not', False))
task('transform_binary', 'alg', 'C12', covers=('bit::transform',))(transform2('H_transform2', ''))
task('transform_binary_inplace', 'alg', 'C12', covers=('bit::transform',))(transform2('H_transform2', 'inplace'))


# ------------------------------------------------------------------ C05 count
@task('count', 'alg', 'C05', covers=('bit::count',))
def t_count(x):
    f, l = x.W.range('')
    A = x.W.region('a', spec.covers(f, l), NOWHERE)
    val = z3.Bool('val')
    D = x.D
    # ghost: number of one bits before (word, bit) ; G(w, D) = G(w+1, 0)
    G = z3.Function('G_ones', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))

    def pop(E, s, t):
        n = E.sym('pop', 64)
        T.register_range(n, 0, t.size())
        s.pc.append(z3.And(n >= bv(0), n <= bv(t.size())))
        s.model = None
        s.ghost['pops'] = s.ghost.get('pops', ()) + ((t, n),)
        return T.trunc(n, t.size()) if t.size() < 64 else n

    def popcnt(E, s, ins, a):
        """libpopcnt: popcnt(data, size) = number of one bits of the size bytes at data"""
        p, n = a
        q = E.bytes_to_words(s, n, x.cfg.es)
        E.range_ok(s, p.reg, p.off, q, 'popcnt reads inside accessible words of a', p.reg.readable)
        r = E.sym('popcnt', 64)
        T.register_range(r, 0, 1 << 62)
        s.pc.append(r == G(T.add(p.off, q), bv(0)) - G(p.off, bv(0)))
        s.model = None
        return [(s, r)]
    x.E.pop_hook = pop
    x.E.contracts.append((lambda name, dem: dem.startswith('popcnt(') or name.startswith('_ZL6popcntPKvm'), popcnt))

    def fields():
        for i in uniq([f[0], l[0], T.sub(l[0], bv(1))]):
            for a in (bv(0), f[1]):
                for c in (bv(D), l[1]):
                    yield i, a, c

    def post(s, v):
        import bits
        E = x.E
        M = x.W.init[A]
        hyp = []
        for t, n in s.ghost.get('pops', ()):
            for i, a, c in fields():
                b = z3.BitVec('b!cnt', 64)
                T.register_range(b, 0, 63)
                ok = None
                for sh in uniq([bv(0), a, T.sub(c, bv(D)), T.sub(c, bv(t.size())), T.sub(a, c)]):
                    B = bits.Bits(E.sol.lia)
                    # bit b of the counted word is bit b+sh of word i when b+sh lies in the field, else 0
                    q = T.add(b, sh)
                    g = z3.Implies(z3.ULT(b, bv(t.size())), B.of(t, b) == z3.And(q >= a, q < c, B.of(M(i), q)))
                    # and every bit of the field is reached
                    h = z3.Implies(z3.And(a < c), z3.And(a - sh >= bv(0), c - sh <= bv(t.size())))
                    r, o = E.sol.lia_check(B.weak_pc(s.pc, b) + [z3.Not(z3.And(g, h))])
                    if r == 'unsat':
                        ok = True
                        break
                if ok:
                    # popcount of a relocated field = difference of the prefix counts
                    hyp.append(z3.If(a < c, n == G(i, c) - G(i, a), n == bv(0)))
                    break
        for i in uniq([f[0], l[0], T.sub(l[0], bv(1))]):
            hyp.append(G(i, bv(D)) == G(T.add(i, bv(1)), bv(0)))
        hyp.append(z3.Implies(z3.And(f[0] == l[0], f[1] == l[1]), G(l[0], l[1]) == G(f[0], f[1])))
        ones = G(l[0], l[1]) - G(f[0], f[1])
        N = spec.nbits(x.cfg, f, l)
        s2 = s.clone()
        s2.pc = s2.pc + hyp + [ones >= bv(0), ones <= N]
        s2.model = None
        E.oblige(s2, 'post', 'count is the number of matching bits', v == z3.If(val, ones, N - ones))
        x.same(s, A)
    x.run('H_count', x.it(A, f) + x.it(A, l) + [val], post)


# ------------------------------------------------------------------ C07 reverse
@task('reverse', 'mod', 'C07', covers=('bit::reverse',))
def t_reverse(x):
    f, l = x.W.range('')
    A = x.W.region('a', spec.covers(f, l), spec.covers(f, l))
    M = x.W.init[A]
    bitswap_contract(x)
    shift_contract(x, True)
    shift_contract(x, False)

    def exp(B, b):
        p = T.sub(T.add(f[1], l[1]), T.add(b, bv(1)))
        src = spec.norm(x.cfg, T.sub(T.add(f[0], l[0]), x.w), p, -1, 2)
        return z3.If(inbits((x.w, b), f, l), B.of(M(src[0]), src[1]), B.of(M(x.w), b))

    def post(s, v):
        x.E.oblige_bits(s.clone(), 'post', 'bit i of the range is the original bit n-1-i, others unchanged', x.read(s, A), exp)
    x.run('H_reverse', x.it(A, f) + x.it(A, l), post)


# ------------------------------------------------------------------ C11 swap_ranges
def rd_init(x, A):
    M = x.W.init[A]
    return lambda w: M(w)


def swapped(x, f, l, d, dl, A, B, side):
    """word w of side 'A' or 'B' after exchanging [f,l) of A with the range of B starting at d"""
    cfg = x.cfg
    MA, MB = x.W.init[A], x.W.init[B]

    def wordfn(w, L, DL):
        def part(w, own, a, al, other, b):
            m = spec.mask(cfg, w, a, al)
            sw, sp = spec.norm(cfg, T.add(b[0], T.sub(w, a[0])), T.sub(b[1], a[1]), -1, 1)
            return m, spec.win(cfg, other, sw, sp)
        if A is B:
            m1, v1 = part(w, MA, f, L, MA, d)
            m2, v2 = part(w, MA, d, DL, MA, f)
            return (MA(w) & ~m1 & ~m2) | (v1 & m1) | (v2 & m2)
        if side == 'A':
            m1, v1 = part(w, MA, f, L, MB, d)
            return (MA(w) & ~m1) | (v1 & m1)
        m2, v2 = part(w, MB, d, DL, MA, f)
        return (MB(w) & ~m2) | (v2 & m2)
    return wordfn


def swap_task(same_storage):
    def t(x):
        cfg = x.cfg
        if not same_storage:
            f, l = x.W.range('')
            d = (bv(0), x.W.pos('dp'))
            dl = spec.plus(cfg, d, f, l)
            A = x.W.region('a', spec.covers(f, l), spec.covers(f, l))
            B = x.W.region('b', spec.covers(d, dl), spec.covers(d, dl))
        else:
            fw, fp = x.wpos('f')
            f = (fw, fp)
            _, l = x.W.range('', fw)
            x.W.pre.append(x.W.pos('fp') == fp)
            d = x.wpos('d')
            dl = spec.plus(cfg, d, f, l)
            x.W.pre.append(spec.le(l, d) if same_storage == 'after' else spec.le(dl, f))
            cs, cd = spec.covers(f, l), spec.covers(d, dl)
            A = B = x.W.region('a', lambda i: z3.Or(cs(i), cd(i)), lambda i: z3.Or(cs(i), cd(i)))
        fa, fb = swapped(x, f, l, d, dl, A, B, 'A'), swapped(x, f, l, d, dl, A, B, 'B')

        def mem_inv(E, fn, hdr, st, vars_):
            """the part of the first range before the word `it1` points to has been exchanged"""
            from sym import MFun
            for v in vars_:
                if isinstance(v.x0, Ptr) and v.x0.reg is A and v.form == 'aff' and v.c == 1 and E.valid(st, v.x0.off == T.add(f[0], bv(1))):
                    def end(k):
                        e = (T.add(v.x0.off, k), bv(0))
                        return e, spec.plus(cfg, d, f, e)

                    def mk(g):
                        return lambda k: MFun(None, lambda w, rd: g(w, *end(k)))
                    return {A: mk(fa)} if A is B else {A: mk(fa), B: mk(fb)}
            return None
        x.E.mem_inv = mem_inv

        def post(s, v):
            x.ret(s, v, dl)
            x.words(s, 'the ranges are exchanged, other bits unchanged (%s)' % A.name, x.read(s, A), fa(x.w, l, dl))
            if A is not B:
                x.words(s, 'the ranges are exchanged, other bits unchanged (%s)' % B.name, x.read(s, B), fb(x.w, l, dl))
        x.run('H_swap_ranges', x.it(A, f) + x.it(A, l) + x.it(B, d), post)
    return t


task('swap_ranges', 'alg', 'C11', covers=('bit::swap_ranges',))(swap_task(None))
task('swap_ranges_same_after', 'alg', 'C11', covers=('bit::swap_ranges',))(swap_task('after'))
task('swap_ranges_same_before', 'alg', 'C11', covers=('bit::swap_ranges',))(swap_task('before'))


# ------------------------------------------------------------------ C10 rotate
@task('rotate', 'mod', 'C10', covers=('bit::rotate',))
def t_rotate(x):
    cfg = x.cfg
    f, l = x.W.range('')
    n = x.wpos('n')
    x.W.pre.append(z3.And(spec.le(f, n), spec.le(n, l)))
    A = x.W.region('a', spec.covers(f, l), spec.covers(f, l))
    shift_contract(x, True)
    shift_contract(x, False)
    get_word_contract(x)
    write_word_contract(x)
    rotate_contract(x)

    def post(s, v):
        e, fn = rotated(x, x.W.init[A], f, n, l)
        x.ret(s, v, e)
        x.words(s, 'bit i is the original bit (i + k) mod n, others unchanged', x.read(s, A), fn(x.w))
    x.run('H_rotate', x.it(A, f) + x.it(A, n) + x.it(A, l), post)


# ------------------------------------------------------------------ C16 partial words
def field(x):
    i = x.W.pos('i')
    n = z3.BitVec('len', 64)
    T.register_range(n, 0, x.D)
    x.W.pre.append(z3.ULE(n, bv(x.D)))

    def words(w):
        return z3.Or(w == bv(0), z3.And(w == bv(1), z3.UGT(T.add(i, n), bv(x.D))))
    return i, n, words


@task('get_word', 'alg', 'C16', covers=('bit::get_word',))
def t_get_word(x):
    i, n, words = field(x)
    A = x.W.region('a', words, NOWHERE)

    def post(s, v):
        v = T.trunc(v, x.D)
        m = len_mask(x.D, n)
        x.words(s, 'bits below len are the bits read, in order', v & m, spec.win(x.cfg, x.W.init[A], bv(0), i) & m)
        x.same(s, A)
    x.run('H_get_word', x.it(A, (bv(0), i)) + [n], post)


@task('write_word', 'alg', 'C16', covers=('bit::write_word',))
def t_write_word(x):
    i, n, words = field(x)
    A = x.W.region('a', words, words)
    src = z3.Function('M_srcword', z3.BitVecSort(64), z3.BitVecSort(x.D))(bv(0))

    def post(s, v):
        M = x.W.init[A]
        e = spec.norm(x.cfg, bv(0), T.add(i, n), 0, 2)
        m = spec.mask(x.cfg, x.w, (bv(0), i), e)
        q = spec.word_cast(x.cfg, i)
        val = z3.If(x.w == bv(0), src << q, z3.LShR(src, bv(x.D, x.D) - q))
        x.words(s, 'the field holds the low bits of src, neighbours unchanged', x.read(s, A), (M(x.w) & ~m) | (val & m))
    x.run('H_write_word', [src] + x.it(A, (bv(0), i)) + [T.trunc(n, x.D)], post)
