"""C13, C14: bit iterators, bit pointers, bit references and bit values.  One small contract per operation."""
import z3
import spec
import terms as T
from terms import bv
from sym import Agg, Ptr, light
from tasks import task, GROUPS, NOINLINE, ALL, uniq
from prim import flat, parts

HEAD = '''#include <cstdint>
#include <cassert>
#include <vector>
#include <utility>
#include "bitlib/bitlib.hpp"
typedef %(W)s W;
typedef std::vector<W>::iterator VI;
typedef std::vector<W>::const_iterator CI;
typedef bit::bit_reference<W> BR;
typedef bit::bit_pointer<W> BP;
typedef bit::bit_value BV;
template<class I> struct R { I p; uint64_t i; };
template<class I> struct RR { R<I> a, b; };
template<class I> struct MK { typedef bit::bit_iterator<I> it; };
static inline bit::bit_iterator<VI> mk(VI*, W* p, uint64_t i){ return bit::bit_iterator<VI>(VI(p), i); }
static inline bit::bit_iterator<CI> mk(CI*, W* p, uint64_t i){ return bit::bit_iterator<CI>(CI(p), i); }
static inline bit::bit_iterator<W*> mk(W**, W* p, uint64_t i){ return bit::bit_iterator<W*>(p, i); }
static inline BP mk(BP*, W* p, uint64_t i){ return BP(p, i); }
template<class I> static inline R<const W*> un(const bit::bit_iterator<I>& r){ return R<const W*>{&*r.base(), (uint64_t)r.position()}; }
template<class T> static inline R<const W*> un(const bit::bit_pointer<T>& r){ bit::bit_reference<T> q = *r; return R<const W*>{q.address(), (uint64_t)q.position()}; }
template<class T> static inline R<const W*> ur(bit::bit_reference<T> r){ uint64_t k = r.position(); return R<const W*>{r.address(), r.mask() == (W)((W)1 << k) ? k : (uint64_t)9999}; }
#define M(p,i) mk((K*)nullptr, p, i)
'''
OPS = '''
R<const W*> H_%(n)s_plus(W* p, uint64_t i, int64_t n){ typedef %(K)s K; return un(M(p,i) + n); }
R<const W*> H_%(n)s_nplus(W* p, uint64_t i, int64_t n){ typedef %(K)s K; return un(n + M(p,i)); }
R<const W*> H_%(n)s_minus(W* p, uint64_t i, int64_t n){ typedef %(K)s K; return un(M(p,i) - n); }
R<const W*> H_%(n)s_pluseq(W* p, uint64_t i, int64_t n){ typedef %(K)s K; auto x = M(p,i); return un(x += n); }
R<const W*> H_%(n)s_minuseq(W* p, uint64_t i, int64_t n){ typedef %(K)s K; auto x = M(p,i); return un(x -= n); }
R<const W*> H_%(n)s_inc(W* p, uint64_t i){ typedef %(K)s K; auto x = M(p,i); return un(++x); }
R<const W*> H_%(n)s_dec(W* p, uint64_t i){ typedef %(K)s K; auto x = M(p,i); return un(--x); }
R<const W*> H_%(n)s_postinc(W* p, uint64_t i){ typedef %(K)s K; auto x = M(p,i); x++; return un(x); }
R<const W*> H_%(n)s_postdec(W* p, uint64_t i){ typedef %(K)s K; auto x = M(p,i); x--; return un(x); }
R<const W*> H_%(n)s_oldinc(W* p, uint64_t i){ typedef %(K)s K; auto x = M(p,i); return un(x++); }
R<const W*> H_%(n)s_olddec(W* p, uint64_t i){ typedef %(K)s K; auto x = M(p,i); return un(x--); }
R<const W*> H_%(n)s_copy(W* p, uint64_t i, W* q, uint64_t j){ typedef %(K)s K; auto x = M(p,i); auto y = M(q,j); x = y; auto z(x); return un(z); }
R<const W*> H_%(n)s_index(W* p, uint64_t i, int64_t n){ typedef %(K)s K; return ur(M(p,i)[n]); }
R<const W*> H_%(n)s_deref(W* p, uint64_t i){ typedef %(K)s K; return ur(*M(p,i)); }
int64_t H_%(n)s_diff(W* p, uint64_t i, W* q, uint64_t j){ typedef %(K)s K; return M(p,i) - M(q,j); }
bool H_%(n)s_eq(W* p, uint64_t i, W* q, uint64_t j){ typedef %(K)s K; return M(p,i) == M(q,j); }
bool H_%(n)s_ne(W* p, uint64_t i, W* q, uint64_t j){ typedef %(K)s K; return M(p,i) != M(q,j); }
bool H_%(n)s_lt(W* p, uint64_t i, W* q, uint64_t j){ typedef %(K)s K; return M(p,i) < M(q,j); }
bool H_%(n)s_le(W* p, uint64_t i, W* q, uint64_t j){ typedef %(K)s K; return M(p,i) <= M(q,j); }
bool H_%(n)s_gt(W* p, uint64_t i, W* q, uint64_t j){ typedef %(K)s K; return M(p,i) > M(q,j); }
bool H_%(n)s_ge(W* p, uint64_t i, W* q, uint64_t j){ typedef %(K)s K; return M(p,i) >= M(q,j); }
'''
ITOPS = '''
R<const W*> H_%(n)s_next(W* p, uint64_t i, int64_t n){ typedef %(K)s K; return un(bit::next(M(p,i), n)); }
R<const W*> H_%(n)s_advance(W* p, uint64_t i, int64_t n){ typedef %(K)s K; auto x = M(p,i); bit::advance(x, n); return un(x); }
R<const W*> H_%(n)s_stdnext(W* p, uint64_t i, int64_t n){ typedef %(K)s K; return un(std::next(M(p,i), n)); }
R<const W*> H_%(n)s_stdprev(W* p, uint64_t i, int64_t n){ typedef %(K)s K; return un(std::prev(M(p,i), n)); }
int64_t H_%(n)s_distance(W* p, uint64_t i, W* q, uint64_t j){ typedef %(K)s K; return bit::distance(M(p,i), M(q,j)); }
int64_t H_%(n)s_stddistance(W* p, uint64_t i, W* q, uint64_t j){ typedef %(K)s K; return std::distance(M(p,i), M(q,j)); }
W H_%(n)s_mask(W* p, uint64_t i){ typedef %(K)s K; return M(p,i).mask(); }
R<const W*> H_%(n)s_arrow(W* p, uint64_t i){ typedef %(K)s K; return un(M(p,i).operator->()); }
R<const W*> H_%(n)s_aligned(W* p){ typedef %(K)s K; return un(bit::bit_iterator<K>(M(p,0).base())); }
'''
KINDS = [('vi', 'VI'), ('ci', 'CI'), ('wp', 'W*')]
code = HEAD + 'extern "C" {'
for n, K in KINDS:
    code += (OPS + ITOPS).replace('%(n)s', n).replace('%(K)s', K)
code += OPS.replace('%(n)s', 'bp').replace('%(K)s', 'BP')
code += '''
bool H_mix_lt(W* p, uint64_t i, W* q, uint64_t j){ return mk((VI*)nullptr,p,i) < mk((CI*)nullptr,q,j); }
bool H_mix_eq(W* p, uint64_t i, W* q, uint64_t j){ return mk((CI*)nullptr,p,i) == mk((VI*)nullptr,q,j); }
int64_t H_mix_diff(W* p, uint64_t i, W* q, uint64_t j){ return mk((CI*)nullptr,p,i) - mk((VI*)nullptr,q,j); }
R<const W*> H_mix_conv(W* p, uint64_t i){ bit::bit_iterator<CI> c(mk((VI*)nullptr,p,i)); return un(c); }
R<const W*> H_bp_conv(W* p, uint64_t i){ bit::bit_pointer<const W> c(BP(p,i)); return un(c); }
R<const W*> H_bp_assign(W* p, uint64_t i){ bit::bit_pointer<const W> c(nullptr); c = BP(p,i); return un(c); }
R<const W*> H_mix_assign(W* p, uint64_t i){ bit::bit_iterator<CI> c; c = mk((VI*)nullptr,p,i); return un(c); }
R<const W*> H_bp_aligned(W* p){ return un(BP(p)); }
bool H_bp_bool(W* p, uint64_t i){ return bool(BP(p,i)); }
bool H_bp_null(W* p, uint64_t i){ BP x(p,i); x = nullptr; BP y; BP z(nullptr); return bool(x) || bool(z); }
R<const W*> H_bp_arrow(W* p, uint64_t i){ BP b(p,i); return R<const W*>{b->address(), (uint64_t)b->position()}; }
}
'''
GROUPS['iter'] = code

REF = HEAD + '''
#define BRF BR(*p, i)
extern "C" {
bool H_get(W* p, uint64_t i){ return bool(BRF); }
bool H_value(W* p, uint64_t i){ return bool(BV(BRF)); }
bool H_viaiter(W* p, uint64_t i){ return bool(*bit::bit_iterator<VI>(VI(p), i)); }
R<const W*> H_where(W* p, uint64_t i){ return ur(BRF); }
R<const W*> H_copyctor(W* p, uint64_t i){ BR a(*p,i); BR b(a); return ur(b); }
R<const W*> H_constctor(W* p, uint64_t i){ bit::bit_reference<const W> b(BR(*p,i)); return ur(b); }
R<const W*> H_address(W* p, uint64_t i){ return ur(*(&BRF)); }
R<const W*> H_aligned(W* p){ return ur(BR(*p)); }
void H_set(W* p, uint64_t i){ BR b(*p,i); b.set(); }
void H_reset(W* p, uint64_t i){ BR b(*p,i); b.reset(); }
void H_flip(W* p, uint64_t i){ BR b(*p,i); b.flip(); }
void H_setb(W* p, uint64_t i, bool v){ BR b(*p,i); b.set(v); }
void H_assignv(W* p, uint64_t i, bool v){ BR b(*p,i); b = BV(v); }
void H_assignw(W* p, uint64_t i, W v){ BR b(*p,i); b.assign(v); }
void H_assignwp(W* p, uint64_t i, W v, uint64_t k){ BR b(*p,i); b.assign(v, k); }
void H_and(W* p, uint64_t i, bool v){ BR b(*p,i); b &= BV(v); }
void H_or(W* p, uint64_t i, bool v){ BR b(*p,i); b |= BV(v); }
void H_xor(W* p, uint64_t i, bool v){ BR b(*p,i); b ^= BV(v); }
void H_assignref(W* p, uint64_t i, W* q, uint64_t j){ BR b(*p,i); BR c(*q,j); b = c; }
void H_assigncref(W* p, uint64_t i, W* q, uint64_t j){ BR b(*p,i); bit::bit_reference<const W> c(BR(*q,j)); b = c; }
void H_andref(W* p, uint64_t i, W* q, uint64_t j){ BR b(*p,i); BR c(*q,j); b &= c; }
void H_orref(W* p, uint64_t i, W* q, uint64_t j){ BR b(*p,i); BR c(*q,j); b |= c; }
void H_xorref(W* p, uint64_t i, W* q, uint64_t j){ BR b(*p,i); BR c(*q,j); b ^= c; }
void H_swapm(W* p, uint64_t i, W* q, uint64_t j){ BR b(*p,i); BR c(*q,j); b.swap(c); }
void H_swapf(W* p, uint64_t i, W* q, uint64_t j){ BR b(*p,i); BR c(*q,j); bit::swap(b, c); }
void H_iterswap(W* p, uint64_t i, W* q, uint64_t j){ bit::swap(*bit::bit_iterator<VI>(VI(p),i), *bit::bit_iterator<VI>(VI(q),j)); }
bool H_swapmv(W* p, uint64_t i, bool v){ BR b(*p,i); BV c(v); b.swap(c); return bool(c); }
bool H_swapfv(W* p, uint64_t i, bool v){ BR b(*p,i); BV c(v); bit::swap(b, c); return bool(c); }
bool H_swapvf(W* p, uint64_t i, bool v){ BR b(*p,i); BV c(v); bit::swap(c, b); return bool(c); }
bool H_swapvm(W* p, uint64_t i, bool v){ BR b(*p,i); BV c(v); c.swap(b); return bool(c); }
bool H_eqrr(W* p, uint64_t i, W* q, uint64_t j){ return BR(*p,i) == BR(*q,j); }
bool H_nerr(W* p, uint64_t i, W* q, uint64_t j){ return BR(*p,i) != BR(*q,j); }
bool H_ltrr(W* p, uint64_t i, W* q, uint64_t j){ return BR(*p,i) < BR(*q,j); }
bool H_notr(W* p, uint64_t i){ return bool(~BRF); }
bool H_andrr(W* p, uint64_t i, W* q, uint64_t j){ return bool(BR(*p,i) & BR(*q,j)); }
bool H_vdef(){ return bool(BV()); }
bool H_vbool(bool v){ return bool(BV(v)); }
bool H_vword(W v){ return bool(BV(v)); }
bool H_vwordp(W v, uint64_t k){ return bool(BV(v, k)); }
bool H_vassign(W v, bool o){ BV b(o); b.assign(v); return bool(b); }
bool H_vassignp(W v, uint64_t k, bool o){ BV b(o); b.assign(v, k); return bool(b); }
bool H_vref(W* p, uint64_t i, bool o){ BV b(o); b = BRF; return bool(b); }
bool H_vset(bool v){ BV b(v); b.set(); return bool(b); }
bool H_vreset(bool v){ BV b(v); b.reset(); return bool(b); }
bool H_vflip(bool v){ BV b(v); b.flip(); return bool(b); }
bool H_vsetb(bool v, bool o){ BV b(o); b.set(v); return bool(b); }
bool H_vandeq(bool v, bool o){ BV b(v); b &= BV(o); return bool(b); }
bool H_voreq(bool v, bool o){ BV b(v); b |= BV(o); return bool(b); }
bool H_vxoreq(bool v, bool o){ BV b(v); b ^= BV(o); return bool(b); }
bool H_vnot(bool v){ return bool(~BV(v)); }
bool H_vand(bool v, bool o){ return bool(BV(v) & BV(o)); }
bool H_vor(bool v, bool o){ return bool(BV(v) | BV(o)); }
bool H_vxor(bool v, bool o){ return bool(BV(v) ^ BV(o)); }
bool H_veq(bool v, bool o){ return BV(v) == BV(o); }
bool H_vne(bool v, bool o){ return BV(v) != BV(o); }
bool H_vlt(bool v, bool o){ return BV(v) < BV(o); }
bool H_vle(bool v, bool o){ return BV(v) <= BV(o); }
bool H_vgt(bool v, bool o){ return BV(v) > BV(o); }
bool H_vge(bool v, bool o){ return BV(v) >= BV(o); }
bool H_vswapa(bool v, bool o){ BV a(v), b(o); a.swap(b); return bool(a); }
bool H_vswapb(bool v, bool o){ BV a(v), b(o); a.swap(b); return bool(b); }
bool H_const0(){ return bool(bit::bit0) || bool(bit::bit_off); }
bool H_const1(){ return bool(bit::bit1) && bool(bit::bit_on); }
}
'''
GROUPS['ref'] = REF


def rng(x):
    """a position (word, bit) anywhere in the array"""
    return x.wpos('a'), x.wpos('b')


def reg_any(x, name='m', ro=False):
    yes = lambda i: z3.BoolVal(True)
    return x.W.region(name, yes, NOWHERE if ro else yes)


NOWHERE = (lambda i: z3.BoolVal(False))


def noaccess(x):
    """storage that must not be accessed at all"""
    return x.W.region('m', NOWHERE, NOWHERE)


def moved(x, a, n):
    """a + n bits"""
    t = T.add(a[1], n)
    return T.add(a[0], T.ashr(t, bv(x.cfg.l2))), T.and_(t, bv(x.D - 1))


def dist(x, a, b):
    return T.sub(T.add(T.mulc(a[0], x.D), a[1]), T.add(T.mulc(b[0], x.D), b[1]))


def where(x, s, v, want, name):
    if not isinstance(v.e[0], Ptr):
        x.check(s, name, z3.BoolVal(False))
        return
    x.check(s, name, z3.And(v.e[0].off == want[0], v.e[1] == want[1]))


def arg_n(x):
    n = z3.BitVec('n', 64)
    x.W.pre.append(z3.And(n > bv(-(1 << 61) & T.M64), n < bv(1 << 61)))
    return n


def step_task(prefix, ops, covers):
    """position after an operation"""
    def t(x):
        for op, f in ops.items():
            x.W = spec.World(x.cfg)
            a = x.wpos('a')
            n = arg_n(x)
            m = noaccess(x)
            fn = 'H_%s_%s' % (prefix, op)
            one = f(x, a, n)
            args = x.it(m, a) if op != 'aligned' else x.it(m, a)[:1]
            if op in NARG:
                args = args + [n]
            x.run(fn, args, lambda s, v, op=op, one=one: where(x, s, v, one, '%s designates the right bit' % op))
    return t


NARG = ('plus', 'nplus', 'minus', 'pluseq', 'minuseq', 'index', 'next', 'advance', 'stdnext', 'stdprev')
ID = lambda x, a, n: a
STEPS = dict(plus=moved, nplus=moved, minus=lambda x, a, n: moved(x, a, -n), pluseq=moved, minuseq=lambda x, a, n: moved(x, a, -n),
             inc=lambda x, a, n: moved(x, a, bv(1)), dec=lambda x, a, n: moved(x, a, bv(-1 & T.M64)),
             postinc=lambda x, a, n: moved(x, a, bv(1)), postdec=lambda x, a, n: moved(x, a, bv(-1 & T.M64)), oldinc=ID, olddec=ID,
             index=moved, deref=ID)
ITSTEPS = dict(next=moved, advance=moved, stdnext=moved, stdprev=lambda x, a, n: moved(x, a, -n), arrow=ID, aligned=lambda x, a, n: (a[0], bv(0)))
REL = dict(eq=lambda d: d == bv(0), ne=lambda d: d != bv(0), lt=lambda d: d < bv(0), le=lambda d: d <= bv(0), gt=lambda d: d > bv(0), ge=lambda d: d >= bv(0))


def rel_task(prefix, names, diffs):
    def t(x):
        for op in list(names) + list(diffs) + (['copy'] if prefix != 'mix' else []):
            x.W = spec.World(x.cfg)
            a, b = x.wpos('a'), x.wpos('b')
            m = noaccess(x)
            d = dist(x, a, b)

            def post(s, v, op=op):
                if op == 'copy':
                    return where(x, s, v, b, 'copy and assignment designate the bit of the right hand side')
                if op in diffs:
                    g = v == (d if op == 'diff' else -d)
                    return x.check(s, '%s is the signed number of bits between the positions' % op, g)
                x.check(s, '%s agrees with the sign of the difference' % op, tob(v) == REL[op](d))
            x.run('H_%s_%s' % (prefix, op), x.it(m, a) + x.it(m, b), post)
    return t


def tob(v):
    return v if z3.is_bool(v) else (T.trunc(v, 1) == bv(1, 1))


COV = ('bit::bit_iterator', 'bit::distance', 'bit::advance', 'bit::next')
for n, K in KINDS:
    task('iter_steps_' + n, 'iter', 'C13', covers=COV)(step_task(n, dict(STEPS, **ITSTEPS), COV))
    task('iter_relations_' + n, 'iter', 'C13', covers=COV)(rel_task(n, REL, ('diff', 'distance', 'stddistance')))
task('pointer_steps', 'iter', 'C13', covers=('bit::bit_pointer',))(step_task('bp', dict(STEPS, conv=ID, assign=ID, arrow=ID, aligned=lambda x, a, n: (a[0], bv(0))), ()))
task('pointer_relations', 'iter', 'C13', covers=('bit::bit_pointer',))(rel_task('bp', REL, ('diff',)))
task('iter_mixed', 'iter', 'C13', covers=COV)(rel_task('mix', ('lt', 'eq'), ('diff',)))
task('iter_convert', 'iter', 'C13', covers=COV)(step_task('mix', dict(conv=ID, assign=ID), ()))


@task('iter_mask', 'iter', 'C13', covers=COV)
def t_mask(x):
    for n, K in KINDS:
        x.W = spec.World(x.cfg)
        a = x.wpos('a')
        m = noaccess(x)
        x.run('H_%s_mask' % n, x.it(m, a), lambda s, v: x.check(s, 'mask has exactly the bit of the position', T.trunc(v, x.D) == bv(1, x.D) << spec.word_cast(x.cfg, a[1])))
    x.W = spec.World(x.cfg)
    a = x.wpos('a')
    m = noaccess(x)
    x.run('H_bp_bool', x.it(m, a), lambda s, v: x.check(s, 'a bit pointer to a word is not null', tob(v)))
    x.W = spec.World(x.cfg)
    m = noaccess(x)
    x.run('H_bp_null', x.it(m, a), lambda s, v: x.check(s, 'a null bit pointer converts to false', z3.Not(tob(v))))


# ------------------------------------------------------------------ C14
def bit_of(x, fn, a):
    return (z3.LShR(fn(a[0]), spec.word_cast(x.cfg, a[1])) & bv(1, x.D)) == bv(1, x.D)


def with_bit(x, fn, a, val):
    """word function: the bit at a replaced by val"""
    def g(w):
        m = z3.If(w == a[0], bv(1, x.D) << spec.word_cast(x.cfg, a[1]), bv(0, x.D))
        return z3.If(val, fn(w) | m, fn(w) & ~m)
    return g


def word_covers(*ps):
    return lambda i: z3.Or(*[i == p[0] for p in ps])


def ref_ops(ops):
    """ops: name -> (argument kinds, memory after, returned value); argument kinds: a b positions, v o bools, w word, k bit index"""
    def t(x):
        for op, (kinds, mem, res) in ops.items():
            x.W = spec.World(x.cfg)
            D = x.D
            a, b = x.wpos('a'), x.wpos('b')
            v, o = z3.Bool('v'), z3.Bool('o')
            wd = z3.Function('M_val', z3.BitVecSort(64), z3.BitVecSort(D))(bv(0))
            k = x.W.pos('k')
            ps = [p for c, p in (('a', a), ('b', b)) if c in kinds]
            m = x.W.region('m', word_covers(*ps) if ps and op not in NOREAD else NOWHERE, word_covers(*[p for c, p in (('a', a), ('b', b)) if c in mem[0]]) if mem else NOWHERE)
            M = x.W.init[m]
            env = dict(a=a, b=b, v=v, o=o, w=wd, k=k, A=bit_of(x, M, a), B=bit_of(x, M, b),
                       wbit0=(wd & bv(1, D)) == bv(1, D), wbit=(z3.LShR(wd, spec.word_cast(x.cfg, k)) & bv(1, D)) == bv(1, D))
            args = []
            for c in kinds:
                args += x.it(m, a if c == 'a' else b) if c in 'ab' else [env[c]]
            if op == 'aligned':
                args = args[:1]

            def post(s, val, op=op, mem=mem, res=res, m=m, M=M, env=env):
                fn = M
                if mem:
                    for c, g in mem[1](env):
                        fn = with_bit(x, fn, c, g)
                x.words(s, '%s: exactly the addressed bit takes the documented value' % op if mem else '%s: no bit of memory changes' % op, x.read(s, m), fn(x.w))
                if res == 'where':
                    where(x, s, val, env['a'] if op != 'aligned' else (env['a'][0], bv(0)), '%s designates the same bit' % op)
                elif res:
                    x.check(s, '%s returns the documented value' % op, tob(val) == res(env))
            x.run('H_' + op, args, post)
    return t


NOREAD = ('where', 'copyctor', 'constctor', 'address', 'aligned')
one = lambda f: ('a', lambda e: [(e['a'], f(e))])
X = z3.Xor
two = ('ab', lambda e: [(e['a'], e['B']), (e['b'], e['A'])])
TR, FA = z3.BoolVal(True), z3.BoolVal(False)
REFOPS = dict(
    get=('a', None, lambda e: e['A']), value=('a', None, lambda e: e['A']), viaiter=('a', None, lambda e: e['A']),
    where=('a', None, 'where'), copyctor=('a', None, 'where'), constctor=('a', None, 'where'), address=('a', None, 'where'), aligned=('a', None, 'where'),
    set=('a', one(lambda e: TR), None), reset=('a', one(lambda e: FA), None), flip=('a', one(lambda e: z3.Not(e['A'])), None),
    setb=('av', one(lambda e: e['v']), None), assignv=('av', one(lambda e: e['v']), None), assignw=('aw', one(lambda e: e['wbit0']), None),
    assignwp=('awk', one(lambda e: e['wbit']), None))
REFOPS['and'] = ('av', one(lambda e: z3.And(e['A'], e['v'])), None)
REFOPS['or'] = ('av', one(lambda e: z3.Or(e['A'], e['v'])), None)
REFOPS['xor'] = ('av', one(lambda e: X(e['A'], e['v'])), None)
REF2 = dict(
    assignref=('ab', one(lambda e: e['B']), None), assigncref=('ab', one(lambda e: e['B']), None),
    andref=('ab', one(lambda e: z3.And(e['A'], e['B'])), None), orref=('ab', one(lambda e: z3.Or(e['A'], e['B'])), None),
    xorref=('ab', one(lambda e: X(e['A'], e['B'])), None),
    eqrr=('ab', None, lambda e: e['A'] == e['B']), nerr=('ab', None, lambda e: e['A'] != e['B']), ltrr=('ab', None, lambda e: z3.And(z3.Not(e['A']), e['B'])),
    andrr=('ab', None, lambda e: z3.And(e['A'], e['B'])), notr=('a', None, lambda e: z3.Not(e['A'])))
SWAPS = dict(
    swapm=('ab', two, None), swapf=('ab', two, None), iterswap=('ab', two, None),
    swapmv=('av', one(lambda e: e['v']), lambda e: e['A']), swapfv=('av', one(lambda e: e['v']), lambda e: e['A']),
    swapvf=('av', one(lambda e: e['v']), lambda e: e['A']), swapvm=('av', one(lambda e: e['v']), lambda e: e['A']))
V = lambda f: ('vo', None, f)
U = lambda f: ('v', None, f)
VALOPS = dict(
    vdef=('', None, lambda e: FA), vbool=U(lambda e: e['v']), vword=('w', None, lambda e: e['wbit0']), vwordp=('wk', None, lambda e: e['wbit']),
    vassign=('wo', None, lambda e: e['wbit0']), vassignp=('wko', None, lambda e: e['wbit']), vref=('ao', None, lambda e: e['A']),
    vset=U(lambda e: TR), vreset=U(lambda e: FA), vflip=U(lambda e: z3.Not(e['v'])), vsetb=V(lambda e: e['v']),
    vandeq=V(lambda e: z3.And(e['v'], e['o'])), voreq=V(lambda e: z3.Or(e['v'], e['o'])), vxoreq=V(lambda e: X(e['v'], e['o'])),
    vnot=U(lambda e: z3.Not(e['v'])), vand=V(lambda e: z3.And(e['v'], e['o'])), vor=V(lambda e: z3.Or(e['v'], e['o'])), vxor=V(lambda e: X(e['v'], e['o'])),
    veq=V(lambda e: e['v'] == e['o']), vne=V(lambda e: e['v'] != e['o']), vlt=V(lambda e: z3.And(z3.Not(e['v']), e['o'])),
    vle=V(lambda e: z3.Implies(e['v'], e['o'])), vgt=V(lambda e: z3.And(e['v'], z3.Not(e['o']))), vge=V(lambda e: z3.Implies(e['o'], e['v'])),
    vswapa=V(lambda e: e['o']), vswapb=V(lambda e: e['v']), const0=('', None, lambda e: FA), const1=('', None, lambda e: TR))
task('ref_ops', 'ref', 'C14', covers=('bit::bit_reference',))(ref_ops(REFOPS))
task('ref_pairs', 'ref', 'C14', covers=('bit::bit_reference', 'bit::bit_value'))(ref_ops(REF2))
task('ref_swaps', 'ref', 'C14', covers=('bit::bit_reference::swap', 'bit::swap', 'bit::bit_value::swap'))(ref_ops(SWAPS))
task('value_ops', 'ref', 'C14', covers=('bit::bit_value',))(ref_ops(VALOPS))
