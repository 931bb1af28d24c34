"""C18-C21: bit_vector under contract"""
from tasks import task, GROUPS, NOINLINE, ALL, NOWHERE, pick
VEC = '''#include <cstdint>
#include <cassert>
#include <vector>
#include <string>
#include <string_view>
#include <functional>
#include <new>
#include "bitlib/bitlib.hpp"
#include "bitlib/bit-containers/bit-containers.hpp"
typedef %(W)s W;
typedef bit::bit_vector<W> V;
using It = V::iterator;
using CI = V::const_iterator;
struct R { W* p; uint64_t i; };
struct CR { const W* p; uint64_t i; };
static inline It mk(W* p, uint64_t i){ return It(std::vector<W>::iterator(p), i); }
static inline CI cmk(const W* p, uint64_t i){ return CI(std::vector<W>::const_iterator(p), i); }
static inline R un(It r){ return R{&*r.base(), (uint64_t)r.position()}; }
static inline CR un(CI r){ return CR{&*r.base(), (uint64_t)r.position()}; }
static inline R un(bit::bit_reference<W> r){ return R{r.address(), (uint64_t)r.position()}; }
static inline CR un(bit::bit_reference<const W> r){ return CR{r.address(), (uint64_t)r.position()}; }
extern "C" {
void H_push_back(V* v, bool b){ v->push_back(bit::bit_value(b)); }
void H_pop_back(V* v){ v->pop_back(); }
void H_clear(V* v){ v->clear(); }
R H_insert(V* v, const W* p, uint64_t i, bool b){ return un(v->insert(cmk(p,i), bit::bit_value(b))); }
R H_insert_n(V* v, const W* p, uint64_t i, uint64_t n, bool b){ return un(v->insert(cmk(p,i), n, bit::bit_value(b))); }
R H_insert_range(V* v, const W* p, uint64_t i, W* fp, uint64_t fi, W* lp, uint64_t li){ return un(v->insert(cmk(p,i), mk(fp,fi), mk(lp,li))); }
R H_erase(V* v, W* p, uint64_t i){ return un(v->erase(mk(p,i))); }
R H_erase_range(V* v, W* fp, uint64_t fi, W* lp, uint64_t li){ return un(v->erase(mk(fp,fi), mk(lp,li))); }
void H_resize(V* v, uint64_t n){ v->resize(n); }
void H_resize_value(V* v, uint64_t n, bool b){ v->resize(n, bit::bit_value(b)); }
void H_reserve(V* v, uint64_t n){ v->reserve(n); }
void H_shrink(V* v){ v->shrink_to_fit(); }
void H_assign(V* v, V* o){ *v = *o; }
void H_move_assign(V* v, V* o){ *v = std::move(*o); }
void H_set(V* v, uint64_t n, bool b){ (*v)[n] = bit::bit_value(b); }
void H_set_at(V* v, uint64_t n, bool b){ v->at(n) = bit::bit_value(b); }
R H_index(V* v, uint64_t n){ return un((*v)[n]); }
CR H_cindex(const V* v, uint64_t n){ return un((*v)[n]); }
R H_at(V* v, uint64_t n){ return un(v->at(n)); }
CR H_cat(const V* v, uint64_t n){ return un(v->at(n)); }
R H_front(V* v){ return un(v->front()); }
R H_back(V* v){ return un(v->back()); }
CR H_cfront(const V* v){ return un(v->front()); }
CR H_cback(const V* v){ return un(v->back()); }
R H_begin(V* v){ return un(v->begin()); }
R H_end(V* v){ return un(v->end()); }
CR H_begin_c(const V* v){ return un(v->begin()); }
CR H_end_c(const V* v){ return un(v->end()); }
CR H_cbegin(const V* v){ return un(v->cbegin()); }
CR H_cend(const V* v){ return un(v->cend()); }
W* H_data(V* v){ return v->data(); }
const W* H_cdata(const V* v){ return v->data(); }
uint64_t H_size(const V* v){ return v->size(); }
bool H_empty(const V* v){ return v->empty(); }
uint64_t H_capacity(const V* v){ return v->capacity(); }
void H_new(void* m){ new (m) V(); }
void H_new_alloc(void* m){ std::allocator<W> a; new (m) V(a); }
void H_new_count(void* m, uint64_t n){ new (m) V(n); }
void H_new_count_value(void* m, uint64_t n, bool b){ new (m) V(n, bit::bit_value(b)); }
void H_new_bits(void* m, W* fp, uint64_t fi, W* lp, uint64_t li){ new (m) V(mk(fp,fi), mk(lp,li)); }
void H_new_words(void* m, W* f, W* l){ new (m) V(std::vector<W>::iterator(f), std::vector<W>::iterator(l)); }
void H_new_copy(void* m, const V* o){ new (m) V(*o); }
void H_new_copy_alloc(void* m, const V* o){ std::allocator<W> a; new (m) V(*o, a); }
void H_new_move(void* m, V* o){ new (m) V(std::move(*o)); }
void H_new_move_alloc(void* m, V* o){ std::allocator<W> a; new (m) V(std::move(*o), a); }
void H_new_bools(void* m, const bool* f, const bool* l){ new (m) V(f, l); }
void H_new_list_bit(void* m, const std::initializer_list<bit::bit_value>* l){ new (m) V(*l); }
void H_new_list_bool(void* m, const std::initializer_list<bool>* l){ new (m) V(*l); }
void H_new_list_word(void* m, const std::initializer_list<W>* l){ new (m) V(*l); }
void H_new_string(void* m, const char* p, uint64_t n){ new (m) V(std::string_view(p, n)); }
void H_delete(V* v){ v->~V(); }
}
'''
GROUPS['vec'] = VEC
STR = VEC[:VEC.index('extern "C"')] + '''#include <istream>
#include <ostream>
extern "C" {
void H_debug_string(std::string* m, V* v){ new (m) std::string(v->debug_string()); }
void H_debug_string_range(std::string* m, V* v, const W* fp, uint64_t fi, const W* lp, uint64_t li){ new (m) std::string(v->debug_string(cmk(fp,fi), cmk(lp,li))); }
void H_put_value(std::ostream* os, bool b){ *os << bit::bit_value(b); }
void H_put_ref(std::ostream* os, W* p, uint64_t i){ *os << bit::bit_reference<W>(*p, i); }
void H_put_cref(std::ostream* os, const W* p, uint64_t i){ *os << bit::bit_reference<const W>(*p, i); }
void H_get_value(std::istream* is, bit::bit_value* x){ *is >> *x; }
void H_get_ref(std::istream* is, W* p, uint64_t i){ bit::bit_reference<W> r(*p, i); *is >> r; }
}
'''
GROUPS['str'] = STR
NOINLINE['str'] = r'^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>::|^std::basic_(istream|ostream|ios|streambuf)<char, std::char_traits<char> ?>::|& std::operator<<|^std::ios_base::'
NOINLINE['vec'] = (r'^(std::vector<unsigned [a-z ]+, std::allocator<unsigned [a-z ]+ ?> ?>::(vector|~vector|resize|reserve|push_back|emplace_back|pop_back|clear|shrink_to_fit|operator=|assign|insert|erase|swap)[(<]'
                   r'|std::(out_of_range|length_error)::)|bit::(shift_left|shift_right|fill|copy)<')

import itertools
import z3
import bits
import spec
import terms as T
from terms import bv
from loops import LoopContract
from sym import Agg, Ptr, PtrInt, Region, MFlat, MStore, MInit, Obligation, Unsupported, light

B64 = z3.BitVecSort(64)
Bool = z3.BoolSort()
BIG = 1 << 60            # more bits than this are never available: such requests fail with an exception


def nat(n, w=61):
    return z3.ZeroExt(64 - w, z3.BitVec(n, w))


class VM:
    """vector model: std::vector<W> objects (three pointers), word arrays as bits at flat indices"""

    def __init__(self, x):
        self.x, self.D, self.E = x, x.D, x.E
        x.W = spec.World(x.cfg)
        x.E.contracts = []
        self.maxw = BIG // self.D
        self.inputs = []         # arrays of elements or characters: no bit iterators into them
        self.B = bits.Bits(x.E.sol.lia)
        self.contracts()

    # -------------------------------------------------------------- storage
    def array(self, s, name, n, g):
        """fresh word array of n accessible words with bits g"""
        r = Region(name, 'words', es=self.D // 8, readable=NOWHERE, writable=NOWHERE)
        s.mem[r] = MFlat(g, self.D)
        s.ghost[('words', r)] = n
        return r

    def words(self, s, r):
        return s.ghost[('words', r)]

    def bitsof(self, s, r):
        """bits of array r in state s at flat indices"""
        def view(m):
            if isinstance(m, MFlat):
                return m.g
            if isinstance(m, MStore):
                p = view(m.par)
                at = T.mulc(m.idx, self.D)
                return lambda i: z3.If(z3.And(at <= i, i < T.add(at, bv(self.D))), self.B.of(m.val, T.sub(i, at)), p(i))
            raise Unsupported('memory form')
        return view(s.mem[r])

    def setbits(self, s, r, g):
        s.mem[r] = MFlat(g, self.D)
        s.stores.append((r, 'bulk', None, None))

    def array_in(self, name, n):
        """input array with unknown bits F_name"""
        f = z3.Function('F_' + name, B64, Bool)
        return self.array(self.x.W.st, name, n, lambda i: f(i)), (lambda i: f(i))

    # -------------------------------------------------------------- std::vector objects
    def get(self, s, p):
        if not isinstance(p, Ptr) or p.reg.kind != 'cells':
            raise Unsupported('vector object expected')
        c = self.E.cells_of(s, p.reg)
        v = [c.get(p.off + k, (0, None))[1] for k in (0, 8, 16)]
        v = [a.p if isinstance(a, PtrInt) else a for a in v]
        if not all(isinstance(a, Ptr) for a in v) or len({a.reg for a in v}) != 1 or not v[0].off.eq(bv(0)):
            raise Unsupported('vector object of unknown form')
        return v[0].reg, v[1].off, v[2].off

    def put(self, s, p, reg, n, cap):
        c = self.E.cells_of(s, p.reg)
        for o in [o for o in c if p.off - 8 < o < p.off + 24]:
            del c[o]
        for k, w in ((0, bv(0)), (8, n), (16, cap)):
            c[p.off + k] = (8, Ptr(reg, w))
        s.ghost[('words', reg)] = n

    def drop(self, s, reg):
        s.ghost[('words', reg)] = bv(0)

    def fresh_vec(self, s, p, n, g, lo=None):
        """p becomes a vector of n words with bits g in storage of its own; the capacity is unknown, at least n (and lo)"""
        self.E.fresh += 1
        cap = nat('cap!%d' % self.E.fresh, 61 - self.x.cfg.l2)
        r = self.array(s, 'heap%d' % self.E.fresh, n, g)
        s.pc = s.pc + [n <= cap] + ([lo <= cap] if lo is not None else [])
        s.model = None
        self.put(s, p, r, n, cap)
        return r

    def split(self, s, n, f):
        """a request for n words: fails with an exception beyond the available storage"""
        out = []
        for s2, i in pick(self.E, s, [z3.ULT(n, bv(self.maxw)), z3.UGE(n, bv(self.maxw))]):
            out += f(s2) if i == 0 else [(s2, 'UNWIND')]
        return out

    def resize(self, s, p, n, fill):
        """word-wise resize; fill(bit in word) for new words"""
        reg, old, cap = self.get(s, p)
        v = self.bitsof(s, reg)
        at, end = T.mulc(old, self.D), T.mulc(n, self.D)
        g = lambda i: z3.If(z3.And(at <= i, i < end), fill(T.and_(i, bv(self.D - 1))), v(i))
        def go(s):
            out = []
            for s2, i in pick(self.E, s, [n <= old, z3.And(old < n, n <= cap), z3.And(old < n, n > cap)]):
                if i == 0:
                    self.put(s2, p, reg, n, cap)
                elif i == 1:
                    self.setbits(s2, reg, g)
                    self.put(s2, p, reg, n, cap)
                else:
                    self.drop(s2, reg)
                    self.fresh_vec(s2, p, n, g)
                out.append((s2, None))
            return out
        return self.split(s, n, go)

    def load_arg(self, s, p):
        """word behind a const W& argument"""
        return self.E.load(s, p, 'i%d' % self.D)

    def contracts(self):
        E = self.E
        D = self.D
        zero = lambda i: z3.BoolVal(False)

        def std(names, h):
            pre = tuple('::%s' % n for n in names)

            def pred(name, dem):
                if not dem.startswith('std::vector<'):
                    return False
                i = match(dem, len('std::vector'))
                return any(dem[i:].startswith(q) for q in pre)
            E.contracts.append((pred, h))

        def match(d, i):
            depth = 0
            while True:
                depth += (d[i] == '<') - (d[i] == '>')
                i += 1
                if depth == 0:
                    return i

        def ret(s):
            return [(s, None)]

        def ctor(E, s, ins, a):
            args = ins['dem']
            i = match(args, len('std::vector'))
            m = args[i:]
            sig = m[m.index('('):] if not m.startswith('::vector<') else 'range'
            W = args[len('std::vector<'):args.index(',')]
            if sig in ('()',) or sig.startswith('(std::allocator<'):
                self.fresh_vec(s, a[0], bv(0), zero)
                return ret(s)
            if sig.startswith('(unsigned long, std::allocator'):
                return self.split(s, a[1], lambda s: (self.fresh_vec(s, a[0], a[1], zero), ret(s))[1])
            if sig.startswith('(unsigned long, %s const&' % W):
                w = self.load_arg(s, a[2])
                g = lambda i: self.B.of(w, T.and_(i, bv(D - 1)))
                return self.split(s, a[1], lambda s: (self.fresh_vec(s, a[0], a[1], g), ret(s))[1])
            if sig.startswith('(std::vector<'):
                reg, n, cap = self.get(s, a[1])
                v = self.bitsof(s, reg)
                if '&&' in sig:
                    if a[0].reg is a[1].reg and a[0].off == a[1].off:
                        raise Unsupported('self move construction')
                    self.put(s, a[0], reg, n, cap)
                    self.fresh_vec(s, a[1], bv(0), zero)
                    return ret(s)
                self.fresh_vec(s, a[0], n, v)
                return ret(s)
            if sig.startswith('(std::initializer_list<'):
                f, n = a[1], a[2]
                l = Ptr(f.reg, T.add(f.off, n))
            elif sig == 'range':
                f, l = a[1], a[2]
            else:
                raise Unsupported('std::vector constructor ' + sig[:80])
            if f.reg is not l.reg or f.reg.kind != 'words':
                raise Unsupported('range constructor')
            n = T.sub(l.off, f.off)
            E.oblige(s, 'pre', 'vector(first, last): valid range of accessible words', z3.And(bv(0) <= f.off, f.off <= l.off, l.off <= self.words(s, f.reg)))
            v = self.bitsof(s, f.reg)
            base = T.mulc(f.off, D)
            self.fresh_vec(s, a[0], n, lambda i: v(T.add(i, base)))
            return ret(s)

        def dtor(E, s, ins, a):
            reg, n, cap = self.get(s, a[0])
            self.drop(s, reg)
            c = E.cells_of(s, a[0].reg)
            for k in (0, 8, 16):
                c.pop(a[0].off + k, None)
            return ret(s)

        def assign(E, s, ins, a):
            if a[0].reg is a[1].reg and a[0].off == a[1].off:
                if '&&' in ins['dem']:
                    self.fresh_vec(s, a[0], bv(0), zero)
                return [(s, a[0])]
            reg, n, cap = self.get(s, a[1])
            v = self.bitsof(s, reg)
            old, on, oc = self.get(s, a[0])
            if '&&' in ins['dem']:
                self.drop(s, old)
                self.put(s, a[0], reg, n, cap)
                self.fresh_vec(s, a[1], bv(0), zero)
                return [(s, a[0])]
            out = []
            for s2, i in pick(E, s, [n <= oc, n > oc]):
                if i == 0:
                    self.setbits(s2, old, v)
                    self.put(s2, a[0], old, n, oc)
                else:
                    self.drop(s2, old)
                    self.fresh_vec(s2, a[0], n, v)
                out.append((s2, a[0]))
            return out

        def push(E, s, ins, a):
            w = self.load_arg(s, a[1])
            reg, n, cap = self.get(s, a[0])
            if 'emplace_back' in ins['dem']:
                out = self.resize(s, a[0], T.add(n, bv(1)), lambda b: self.B.of(w, b))
                return [(s2, v if isinstance(v, str) else Ptr(self.get(s2, a[0])[0], n)) for s2, v in out]
            return self.resize(s, a[0], T.add(n, bv(1)), lambda b: self.B.of(w, b))

        def pop(E, s, ins, a):
            reg, n, cap = self.get(s, a[0])
            E.oblige(s, 'pre', 'pop_back of a non-empty vector', n > bv(0))
            self.put(s, a[0], reg, T.sub(n, bv(1)), cap)
            return ret(s)

        def clear(E, s, ins, a):
            reg, n, cap = self.get(s, a[0])
            self.put(s, a[0], reg, bv(0), cap)
            return ret(s)

        def resize(E, s, ins, a):
            if len(a) > 2:
                w = self.load_arg(s, a[2])
                return self.resize(s, a[0], a[1], lambda b: self.B.of(w, b))
            return self.resize(s, a[0], a[1], zero)

        def vassign(E, s, ins, a):
            if '(unsigned long,' not in ins['dem']:
                raise Unsupported('vector::assign of a range')
            w = self.load_arg(s, a[2])
            g = lambda i: self.B.of(w, T.and_(i, bv(D - 1)))
            reg, n, cap = self.get(s, a[0])

            def go(s):
                out = []
                for s2, i in pick(E, s, [a[1] <= cap, a[1] > cap]):
                    if i == 0:
                        self.setbits(s2, reg, g)
                        self.put(s2, a[0], reg, a[1], cap)
                    else:
                        self.drop(s2, reg)
                        self.fresh_vec(s2, a[0], a[1], g)
                    out.append((s2, None))
                return out
            return self.split(s, a[1], go)

        def reserve(E, s, ins, a):
            reg, n, cap = self.get(s, a[0])
            v = self.bitsof(s, reg)

            def go(s):
                out = []
                for s2, i in pick(E, s, [a[1] <= cap, a[1] > cap]):
                    if i:
                        self.drop(s2, reg)
                        self.fresh_vec(s2, a[0], n, v, a[1])
                    out.append((s2, None))
                return out
            return self.split(s, a[1], go)

        def shrink(E, s, ins, a):
            reg, n, cap = self.get(s, a[0])
            v = self.bitsof(s, reg)
            s2 = s.clone()
            self.drop(s2, reg)
            self.fresh_vec(s2, a[0], n, v)
            return [(s, None), (s2, None)]

        def swap(E, s, ins, a):
            p, q = self.get(s, a[0]), self.get(s, a[1])
            self.put(s, a[0], *q)
            self.put(s, a[1], *p)
            return ret(s)
        for names, h in ((('vector(', 'vector<'), ctor), (('~vector(',), dtor), (('operator=(',), assign), (('push_back(', 'emplace_back(', 'emplace_back<'), push),
                         (('pop_back(',), pop), (('clear(',), clear), (('resize(',), resize), (('assign(',), vassign), (('reserve(',), reserve),
                         (('shrink_to_fit(',), shrink), (('swap(',), swap)):
            std(names, h)

        # ---- exceptions
        E.contracts.append((lambda n, d: n == '__cxa_allocate_exception', lambda E, s, ins, a: [(s, Ptr(Region('exception', 'cells', size=T.cval(a[0])), 0))]))
        E.contracts.append((lambda n, d: d.startswith(('std::out_of_range::', 'std::length_error::')), self.mkexc))
        E.contracts.append((lambda n, d: n in ('__cxa_free_exception',), lambda E, s, ins, a: [(s, None)]))

        def throw(E, s, ins, a):
            s.ghost['exception'] = s.ghost.get(('exc', a[0].reg))
            return [(s, 'UNWIND')]
        E.contracts.append((lambda n, d: n == '__cxa_throw', throw))

        # ---- bit algorithms, as their own checks prove them
        def at(s, what, *its):
            reg = its[0][0].reg
            if any(p.reg is not reg for p, i in its):
                raise Unsupported('iterators of two arrays')
            fl = [T.add(T.mulc(p.off, D), i) for p, i in its]
            lim = T.mulc(self.words(s, reg), D)
            g = [z3.And(bv(0) <= fl[0], fl[-1] <= lim)] + [a <= b for a, b in zip(fl, fl[1:])] + [z3.ULT(i, bv(D)) for p, i in its]
            E.oblige(s, 'pre', 'precondition of %s: valid range of accessible words' % what, z3.And(g))
            return reg, fl

        def iter_at(reg, i):
            return Agg([Ptr(reg, T.ashr(i, bv(self.x.cfg.l2))), T.and_(i, bv(D - 1))])

        def shift(left):
            def h(E, s, ins, a):
                reg, (f, l) = at(s, 'shift_left' if left else 'shift_right', a[0:2], a[2:4])
                n = a[4]
                m = self.bitsof(s, reg)
                E.fresh += 1
                junk = z3.Function('F_junk%d' % E.fresh, B64, Bool)
                N = T.sub(l, f)
                out = []
                for s2, i in pick(E, s, [n <= bv(0), z3.And(n > bv(0), n >= N), z3.And(n > bv(0), n < N)]):
                    if i == 0:
                        out.append((s2, iter_at(reg, l if left else f)))
                        continue
                    if i == 1:
                        self.setbits(s2, reg, lambda i: z3.If(z3.And(f <= i, i < l), junk(i), m(i)))
                        out.append((s2, iter_at(reg, f if left else l)))
                        continue
                    e = T.sub(l, n) if left else T.add(f, n)
                    self.setbits(s2, reg, (lambda i, e=e: z3.If(z3.And(f <= i, i < l), z3.If(i < e, m(T.add(i, n)), junk(i)), m(i))) if left else
                                 (lambda i, e=e: z3.If(z3.And(f <= i, i < l), z3.If(i < e, junk(i), m(T.sub(i, n))), m(i))))
                    out.append((s2, iter_at(reg, e)))
                return out
            return h

        def fill(E, s, ins, a):
            reg, (f, l) = at(s, 'fill', a[0:2], a[2:4])
            v = a[4]
            b = v if isinstance(v, z3.BoolRef) else self.B.of(v, bv(0))
            m = self.bitsof(s, reg)
            self.setbits(s, reg, lambda i: z3.If(z3.And(f <= i, i < l), b, m(i)))
            return [(s, None)]

        def copy(E, s, ins, a):
            src, (f, l) = at(s, 'copy (source)', a[0:2], a[2:4])
            n = T.sub(l, f)
            d = T.add(T.mulc(a[4].off, D), a[5])
            reg = a[4].reg
            e = T.add(d, n)
            E.oblige(s, 'pre', 'precondition of copy: destination range of accessible words',
                     z3.And(z3.ULT(a[5], bv(D)), bv(0) <= d, e <= T.mulc(self.words(s, reg), D)))
            if src is reg:
                E.oblige(s, 'pre', 'precondition of copy: the destination does not begin inside the source', z3.Or(d <= f, d >= l))
            m, q = self.bitsof(s, src), self.bitsof(s, reg)
            self.setbits(s, reg, lambda i: z3.If(z3.And(d <= i, i < e), m(T.add(i, T.sub(f, d))), q(i)))
            return [(s, iter_at(reg, e))]
        for nm, h in (('shift_left', shift(True)), ('shift_right', shift(False)), ('fill', fill), ('copy', copy)):
            E.contracts.append((lambda name, dem, nm=nm: 'bit::%s<' % nm in dem.split('(')[0], h))

    def mkexc(self, E, s, ins, a):
        s.ghost[('exc', a[0].reg)] = ins['dem'].split('::')[1]
        return [(s, None)]


class Vector(VM):
    """bit_vector objects"""

    def obj(self, name, nonempty=False):
        """an arbitrary reachable bit_vector: any storage that is large enough, any content of the unused bits"""
        x, s = self.x, self.x.W.st
        nw, cap, L = nat(name + 'n', 60 - x.cfg.l2), nat(name + 'c', 60 - x.cfg.l2), nat(name + 'l', 60)
        reg, g = self.array_in(name, nw)
        x.W.pre += [nw <= cap, L <= T.mulc(nw, self.D)]
        if nonempty:
            x.W.pre.append(L > bv(0))
        p = Ptr(Region(name, 'cells', size=32), 0)
        self.put(s, p, reg, nw, cap)
        self.E.cells_of(s, p.reg)[24] = (8, L)
        return p, reg, L, g

    def raw(self, name):
        """uninitialised storage for a bit_vector"""
        p = Ptr(Region(name, 'cells', size=32), 0)
        self.x.W.st.cells[p.reg] = {}
        return p

    def length(self, s, p):
        v = self.E.cells_of(s, p.reg).get(24, (0, None))[1]
        if v is None or not isinstance(v, z3.BitVecRef):
            raise Unsupported('length of a bit_vector object')
        return v

    def check(self, s, p, L2, seq, what=''):
        """the object is a valid vector holding the L2 bits seq"""
        x = self.x
        x.check(s, what + 'size is as specified', self.length(s, p) == L2)
        reg, n, cap = self.get(s, p)
        x.check(s, what + 'storage is large enough for the size', z3.And(bv(0) <= n, n <= cap, z3.ULE(L2, T.mulc(n, self.D))))
        g = self.bitsof(s, reg)
        i = nat('i!seq')
        s = s.clone()
        s.pc = s.pc + [i < L2]
        s.model = None
        x.check(s, what + 'bit i is as specified', g(i) == seq(i))
        return reg

    def iter(self, reg, k):
        """arguments for an iterator at bit k of array reg"""
        return [Ptr(reg, T.ashr(k, bv(self.x.cfg.l2))), T.and_(k, bv(self.D - 1))]

    def flat(self, v):
        return T.add(T.mulc(v.e[0].off, self.D), v.e[1])

    def check_iter(self, s, v, reg, k, name='returned iterator'):
        ok = isinstance(v.e[0], Ptr) and v.e[0].reg is reg
        self.x.check(s, name, z3.And(self.flat(v) == k, z3.ULT(v.e[1], bv(self.D))) if ok else z3.BoolVal(False))

    def run(self, fn, args, post, exc=None, exc_name='no exception'):
        x = self.x
        st = x.W.finish()
        r, m = x.E.sol.check(st.pc, exact=False)
        x.presat = r if getattr(x, 'presat', None) != 'unsat' else 'unsat'
        st.model = None
        n = x.nret
        for s, v in x.E.run(fn, args, st):
            if isinstance(v, str):
                x.E.oblige(s, 'exception', exc_name, exc(s) if exc is not None else z3.BoolVal(False))
                continue
            x.nret += 1
            post(s, v)
        if x.nret == n:
            x.check(st, fn[2:] + ' returns', z3.BoolVal(False))
        x.E.user_loop = None


def vtask(name, prop, covers, ds=ALL):
    return task(name, 'vec', prop, ds, covers)


def toobig(n, D):
    return lambda s: z3.UGT(n, bv(BIG - 2 * D))


def bitarg(n='b'):
    return z3.Bool(n)


@vtask('vec_push_pop', 'C19', ('bit_vector::push_back', 'bit_vector::pop_back', 'bit_vector::clear'))
def t_push_pop(x):
    V = Vector(x)
    p, reg, L, f = V.obj('v')
    b = bitarg()
    V.run('H_push_back', [p, b], lambda s, v: V.check(s, p, T.add(L, bv(1)), lambda i: z3.If(i == L, b, f(i)), 'push_back: '), toobig(L, x.D))
    V = Vector(x)
    p, reg, L, f = V.obj('v', True)
    V.run('H_pop_back', [p], lambda s, v: V.check(s, p, T.sub(L, bv(1)), f, 'pop_back: '))
    V = Vector(x)
    p, reg, L, f = V.obj('v')
    V.run('H_clear', [p], lambda s, v: V.check(s, p, bv(0), f, 'clear: '))


def inserted(f, k, n, g):
    return lambda i: z3.If(i < k, f(i), z3.If(i < T.add(k, n), g(T.sub(i, k)), f(T.sub(i, n))))


@vtask('vec_insert', 'C19', ('bit_vector::insert(pos, value)', 'bit_vector::insert(pos, count, value)', 'bit_vector::insert(pos, first, last)'))
def t_insert(x):
    D = x.D

    def start():
        V = Vector(x)
        p, reg, L, f = V.obj('v')
        k = nat('k', 60)
        x.W.pre.append(k <= L)
        return V, p, reg, L, f, k
    for fn in ('H_insert', 'H_insert_n', 'H_insert_range'):
        V, p, reg, L, f, k = start()
        b = bitarg()
        if fn == 'H_insert':
            n, g, args = bv(1), (lambda i: b), [b]
        elif fn == 'H_insert_n':
            n = nat('n', 60)
            g, args = (lambda i: b), [n, b]
        else:
            nw = nat('sn', 60 - x.cfg.l2)
            a, sf = V.array_in('src', nw)
            u, n = nat('u', 60), nat('n', 60)
            x.W.pre.append(T.add(u, n) <= T.mulc(nw, D))
            g, args = (lambda i: sf(T.add(i, u))), V.iter(a, u) + V.iter(a, T.add(u, n))

        def post(s, v, what=fn[2:] + ': '):
            r = V.check(s, p, T.add(L, n), inserted(f, k, n, g), what)
            V.check_iter(s, v, r, k, what + 'returned iterator designates the first inserted bit')
            if fn == 'H_insert_range':
                i = nat('i!src')
                x.check(s, what + 'the source is unchanged', z3.Implies(i < T.mulc(nw, D), V.bitsof(s, a)(i) == sf(i)))
        V.run(fn, [p] + V.iter(reg, k) + args, post, toobig(T.add(L, n), D))


@vtask('vec_erase', 'C19', ('bit_vector::erase(pos)', 'bit_vector::erase(first, last)'))
def t_erase(x):
    V = Vector(x)
    p, reg, L, f = V.obj('v')
    k = nat('k', 60)
    x.W.pre.append(k < L)

    def post(s, v):
        r = V.check(s, p, T.sub(L, bv(1)), lambda i: z3.If(i < k, f(i), f(T.add(i, bv(1)))), 'erase(pos): ')
        V.check_iter(s, v, r, k, 'erase(pos): returned iterator designates the bit after the erased one')
    V.run('H_erase', [p] + V.iter(reg, k), post)
    V = Vector(x)
    p, reg, L, f = V.obj('v')
    k, e = nat('k', 60), nat('e', 60)
    x.W.pre += [k <= e, e <= L]

    def post(s, v):
        n = T.sub(e, k)
        r = V.check(s, p, T.sub(L, n), lambda i: z3.If(i < k, f(i), f(T.add(i, n))), 'erase(range): ')
        V.check_iter(s, v, r, k, 'erase(range): returned iterator designates the bit after the erased ones')
    V.run('H_erase_range', [p] + V.iter(reg, k) + V.iter(reg, e), post)


@vtask('vec_resize', 'C19', ('bit_vector::resize(count)', 'bit_vector::resize(count, value)'))
def t_resize(x):
    for fn in ('H_resize', 'H_resize_value'):
        V = Vector(x)
        p, reg, L, f = V.obj('v')
        n, b = z3.BitVec('n', 64), bitarg()
        new = b if fn == 'H_resize_value' else z3.BoolVal(False)
        V.run(fn, [p, n] + ([b] if fn == 'H_resize_value' else []),
              lambda s, v: V.check(s, p, n, lambda i: z3.If(i < L, f(i), new), fn[2:] + ': '), toobig(n, x.D))


@vtask('vec_assign', 'C19', ('bit_vector::operator=', 'bit_vector element write through operator[], at'))
def t_assign(x):
    for fn in ('H_assign', 'H_move_assign'):
        for same in (False, True):
            V = Vector(x)
            p, reg, L, f = V.obj('v')
            if same:
                if fn == 'H_assign':
                    V.run(fn, [p, p], lambda s, v: V.check(s, p, L, f, 'self assignment: '))
                else:
                    V.run(fn, [p, p], lambda s, v: V.check(s, p, V.length(s, p), lambda i: V.bitsof(s, V.get(s, p)[0])(i), 'self move assignment leaves a valid vector: '))
                continue
            q, qreg, M, g = V.obj('o')

            def post(s, v, what=fn[2:] + ': '):
                r = V.check(s, p, M, g, what)
                if fn == 'H_assign':
                    r2 = V.check(s, q, M, g, what + 'source: ')
                else:
                    r2 = V.check(s, q, V.length(s, q), lambda i: V.bitsof(s, V.get(s, q)[0])(i), what + 'source stays valid: ')
                x.check(s, what + 'the two vectors share no storage', z3.BoolVal(r is not r2))
            V.run(fn, [p, q], post)
    for fn in ('H_set', 'H_set_at'):
        V = Vector(x)
        p, reg, L, f = V.obj('v')
        k, b = z3.BitVec('k', 64), bitarg()
        if fn == 'H_set':
            x.W.pre.append(z3.ULT(k, L))
        V.run(fn, [p, k, b], lambda s, v: V.check(s, p, L, lambda i: z3.If(i == k, b, f(i)), fn[2:] + ': '),
              (lambda s: z3.UGE(k, L)) if fn == 'H_set_at' else None)


@vtask('vec_observe', 'C20', tuple('bit_vector::' + f for f in ('operator[]', 'at', 'front', 'back', 'begin', 'end', 'cbegin', 'cend', 'data', 'size', 'empty')))
def t_observe(x):
    def unchanged(V, s, p, reg, L, f, what):
        r = V.check(s, p, L, f, what)
        x.check(s, what + 'the storage is not moved', z3.BoolVal(r is reg))
    for c in ('', 'c'):
        for fn in ('index', 'at', 'front', 'back', 'begin', 'end', 'data', 'size', 'empty') + (('begin_c', 'end_c') if c else ()):
            if not c or fn in ('begin_c', 'end_c', 'index', 'at', 'front', 'back', 'begin', 'end', 'data'):
                name = 'H_' + (fn if fn.endswith('_c') else c + fn)
                V = Vector(x)
                p, reg, L, f = V.obj('v', fn in ('front', 'back'))
                k = z3.BitVec('k', 64)
                args = [p]
                what = name[2:] + ': '
                if fn in ('index', 'at'):
                    args.append(k)
                if fn == 'index':
                    x.W.pre.append(z3.ULT(k, L))

                def post(s, v):
                    if fn in ('index', 'at'):
                        x.check(s, what + 'returns only for positions below the size', z3.ULT(k, L))
                        V.check_iter(s, v, reg, k, what + 'designates bit k')
                    elif fn == 'data':
                        x.check(s, what + 'points to the first word, or is null only for an empty vector',
                                L == bv(0) if v is None else (v.off == bv(0) if isinstance(v, Ptr) and v.reg is reg else z3.BoolVal(False)))
                    elif fn == 'size':
                        x.check(s, what + 'result', v == L)
                    elif fn == 'empty':
                        x.check(s, what + 'result', x.E.tobool(v) == (L == bv(0)))
                    else:
                        at = {'fr': bv(0), 'be': bv(0), 'ba': T.sub(L, bv(1)), 'en': L}[fn[:2]]
                        V.check_iter(s, v, reg, at, what + 'designated bit')
                    unchanged(V, s, p, reg, L, f, what)

                def exc(s):
                    if s.ghost.get('exception') != 'out_of_range':
                        return z3.BoolVal(False)
                    return z3.UGE(k, L)
                V.run(name, args, post, exc if fn == 'at' else None, what + 'out_of_range is thrown exactly for positions not below the size')


@vtask('vec_capacity', 'C20', ('bit_vector::reserve', 'bit_vector::shrink_to_fit', 'bit_vector::capacity'))
def t_capacity(x):
    V = Vector(x)
    p, reg, L, f = V.obj('v')
    n = z3.BitVec('n', 64)

    def post(s, v):
        V.check(s, p, L, f, 'reserve: ')
        for s2, c in x.E.run('H_capacity', [p], s):
            x.check(s2, 'reserve: the capacity is at least the requested number of bits', z3.UGE(c, n) if not isinstance(c, str) else z3.BoolVal(False))
    V.run('H_reserve', [p, n], post, toobig(n, x.D))
    V = Vector(x)
    p, reg, L, f = V.obj('v')
    V.run('H_shrink', [p], lambda s, v: V.check(s, p, L, f, 'shrink_to_fit: '))
    V = Vector(x)
    p, reg, L, f = V.obj('v')
    V.run('H_capacity', [p], lambda s, v: (x.check(s, 'capacity: at least the size', z3.UGE(v, L)),
                                           x.check(s, 'capacity: at most the bits of the storage', z3.ULE(v, T.mulc(V.get(s, p)[2], x.D)))))


@vtask('vec_construct', 'C18', ('bit_vector constructors: default, count, count and value, bit range, words, copy, move, allocator-extended, list of words', '~bit_vector'))
def t_construct(x):
    D = x.D
    zero = lambda i: z3.BoolVal(False)
    for fn in ('H_new', 'H_new_alloc'):
        V = Vector(x)
        m = V.raw('m')
        V.run(fn, [m], lambda s, v: V.check(s, m, bv(0), zero, fn[2:] + ': '))
    for fn in ('H_new_count', 'H_new_count_value'):
        V = Vector(x)
        m = V.raw('m')
        n, b = z3.BitVec('n', 64), bitarg()
        val = fn == 'H_new_count_value'
        V.run(fn, [m, n] + ([b] if val else []), lambda s, v: V.check(s, m, n, (lambda i: b) if val else zero, fn[2:] + ': '), toobig(n, D))
    V = Vector(x)
    m = V.raw('m')
    nw = nat('sn', 60 - x.cfg.l2)
    a, f = V.array_in('src', nw)
    u, n = nat('u', 60), nat('n', 60)
    x.W.pre.append(T.add(u, n) <= T.mulc(nw, D))

    def post(s, v):
        r = V.check(s, m, n, lambda i: f(T.add(i, u)), 'bit range: ')
        x.check(s, 'bit range: storage of its own', z3.BoolVal(r is not a))
        i = nat('i!src')
        x.check(s, 'bit range: the source is unchanged', z3.Implies(i < T.mulc(nw, D), V.bitsof(s, a)(i) == f(i)))
    V.run('H_new_bits', [m] + V.iter(a, u) + V.iter(a, T.add(u, n)), post, lambda s: z3.UGE(n, bv(BIG // D - D)))
    for fn in ('H_new_words', 'H_new_list_word'):
        V = Vector(x)
        m = V.raw('m')
        nw = nat('sn', 60 - x.cfg.l2)
        a, f = V.array_in('src', nw)
        u, n = nat('u', 60 - x.cfg.l2), nat('n', 60 - x.cfg.l2)
        x.W.pre.append(T.add(u, n) <= nw)
        if fn == 'H_new_words':
            args = [m, Ptr(a, u), Ptr(a, T.add(u, n))]
        else:
            l = Region('list', 'cells', size=16)
            x.W.st.cells[l] = {0: (8, Ptr(a, u)), 8: (8, n)}
            args = [m, Ptr(l, 0)]

        def post(s, v):
            r = V.check(s, m, T.mulc(n, D), lambda i: f(T.add(i, T.mulc(u, D))), fn[2:] + ': ')
            x.check(s, fn[2:] + ': storage of its own', z3.BoolVal(r is not a))
        V.run(fn, args, post)
    for fn in ('H_new_copy', 'H_new_copy_alloc', 'H_new_move', 'H_new_move_alloc'):
        V = Vector(x)
        m = V.raw('m')
        q, qreg, M, g = V.obj('o')

        def post(s, v):
            r = V.check(s, m, M, g, fn[2:] + ': ')
            if 'copy' in fn:
                r2 = V.check(s, q, M, g, fn[2:] + ', source: ')
            else:
                r2 = V.check(s, q, V.length(s, q), lambda i: V.bitsof(s, V.get(s, q)[0])(i), fn[2:] + ', source stays valid: ')
            x.check(s, fn[2:] + ': the two vectors share no storage', z3.BoolVal(r is not r2))
        V.run(fn, [m, q], post)
    V = Vector(x)
    p, reg, L, f = V.obj('v')
    V.run('H_delete', [p], lambda s, v: x.check(s, 'destructor releases the storage', V.words(s, reg) == bv(0)))


# ------------------------------------------------------------------ loops over bit_vector objects
class VLoop(LoopContract):
    """iteration j of a loop over input elements.  Header variables are closed forms of j: pointers and counters advance by
    one, (word pointer, position) pairs designate bit start + j."""

    def __init__(self, V, forms, n):
        self.V, self.forms, self.n = V, forms, n
        self.ghosts = [bv(0)]

    def fresh(self, E):
        E.fresh += 1
        return [nat('j!%d' % E.fresh, 60)]

    def vals(self, g):
        return [None if f is None else f(g[0]) for f in self.forms]

    def inv(self, v, g):
        return [g[0] <= self.n]

    def step(self, v, g, nv):
        return [T.add(g[0], bv(1))]

    def variant(self, v, g):
        return T.sub(self.n, g[0])


def forms(V, hv, counters=()):
    """all ways to read the header variables: lists of closed forms in the iteration number"""
    D, l2 = V.D, V.x.cfg.l2
    per = []
    ptrs = [i for i, (k, x) in enumerate(hv) if isinstance(x, Ptr)]
    ints = [i for i, (k, x) in enumerate(hv) if isinstance(x, z3.BitVecRef)]
    step = lambda x: (lambda j: T.add(x, T.zext(j, x.size()) if x.size() > 64 else T.trunc(j, x.size()) if x.size() < 64 else j))

    def rec(rest, free):
        if not rest:
            opts = []
            for i in free:
                x = hv[i][1]
                opts.append([(i, step(x))] + [(i, c(x)) for c in counters] + [(i, None)])
            for c in itertools.product(*opts):
                yield dict(c)
            return
        i = rest[0]
        x = hv[i][1]
        if x.reg.es == D // 8 and x.reg.kind == 'words' and x.reg not in V.inputs:
            for k in free:
                if hv[k][1].size() != 64:
                    continue
                start = T.add(T.mulc(x.off, D), hv[k][1])
                for d in rec(rest[1:], [a for a in free if a != k]):
                    d = dict(d)
                    d[i] = lambda j, x=x, start=start: Ptr(x.reg, T.ashr(T.add(start, j), bv(l2)))
                    d[k] = lambda j, start=start: T.and_(T.add(start, j), bv(D - 1))
                    yield d
        for d in rec(rest[1:], free):
            d = dict(d)
            d[i] = lambda j, x=x: Ptr(x.reg, T.add(x.off, j))
            yield d
    for d in rec(ptrs, ints):
        yield [d.get(i) for i in range(len(hv))]


def elements(V, name, n, g):
    """input array of n one-byte bools"""
    r = Region(name, 'words', es=1, readable=NOWHERE, writable=NOWHERE)
    s = V.x.W.st
    s.mem[r] = MInit(lambda w: z3.If(g(w), bv(1, 8), bv(0, 8)))
    s.ghost[('words', r)] = n
    V.inputs.append(r)
    return r


class Grow(VLoop):
    """the vector at p holds the first j elements"""

    def __init__(self, V, forms, n, p, f):
        VLoop.__init__(self, V, forms, n)
        self.p, self.f = p, f

    def owned(self, s):
        return (self.p.reg, self.V.get(s, self.p)[0])

    def enter(self, s, g):
        V, E = self.V, self.V.E
        V.drop(s, V.get(s, self.p)[0])
        E.fresh += 1
        junk = z3.Function('F_rest%d' % E.fresh, B64, Bool)
        n = nat('n!%d' % E.fresh, 60 - V.x.cfg.l2)
        V.fresh_vec(s, self.p, n, lambda i: z3.If(i < g[0], self.f(i), junk(i)))
        s.pc = s.pc + [g[0] <= T.mulc(n, V.D)]
        V.E.cells_of(s, self.p.reg)[self.p.off + 24] = (8, g[0])

    def heap(self, s, g):
        V = self.V
        reg, n, cap = V.get(s, self.p)
        i = nat('i!inv')
        return [('size', V.length(s, self.p) == g[0], ()),
                ('storage', z3.And(bv(0) <= n, n <= cap, g[0] <= T.mulc(n, V.D)), ()),
                ('bit i', V.bitsof(s, reg)(i) == self.f(i), [i < g[0]])]


def user(V, mk):
    """contract every loop whose header variables mk can describe"""
    V.E.user_loop = lambda E, f, hdr, st, hv: [mk(fm, st) for fm in forms(V, hv)] or None


@vtask('vec_construct_list', 'C18', ('bit_vector(std::initializer_list<bit_value>)', 'bit_vector(std::initializer_list<bool>)'))
def t_list(x):
    for fn in ('H_new_list_bit', 'H_new_list_bool'):
        V = Vector(x)
        m = V.raw('m')
        nw, u, n = nat('sn', 60), nat('u', 60), nat('n', 60)
        F = z3.Function('F_src', B64, Bool)
        a = elements(V, 'src', nw, lambda i: F(i))
        x.W.pre.append(T.add(u, n) <= nw)
        l = Region('list', 'cells', size=16)
        x.W.st.cells[l] = {0: (8, Ptr(a, u)), 8: (8, n)}
        f = lambda i: F(T.add(i, u))
        user(V, lambda fm, st: Grow(V, fm, n, m, f))
        V.run(fn, [m, Ptr(l, 0)], lambda s, v: V.check(s, m, n, f, fn[2:] + ': '), toobig(n, x.D))


class Write(VLoop):
    """the first c(j) bits of the vector at p are written, the storage stays where it is"""

    def __init__(self, V, forms, n, st, p, f, c=lambda j: j):
        VLoop.__init__(self, V, forms, n)
        self.p, self.f, self.c = p, f, c
        self.reg, self.len = V.get(st, p)[0], V.length(st, p)

    def owned(self, s):
        return (self.reg,)

    def enter(self, s, g):
        E = self.V.E
        E.fresh += 1
        junk = z3.Function('F_rest%d' % E.fresh, B64, Bool)
        s.mem[self.reg] = MFlat(lambda i: z3.If(i < self.c(g[0]), self.f(i), junk(i)), self.V.D)

    def heap(self, s, g):
        i = nat('i!inv')
        return [('bit i', self.V.bitsof(s, self.reg)(i) == self.f(i), [i < self.c(g[0])])]


@vtask('vec_construct_bools', 'C18', ('bit_vector(first, last) over bool',))
def t_bools(x):
    V = Vector(x)
    m = V.raw('m')
    nw, u, n = nat('sn', 60), nat('u', 60), nat('n', 60)
    F = z3.Function('F_src', B64, Bool)
    a = elements(V, 'src', nw, lambda i: F(i))
    x.W.pre.append(T.add(u, n) <= nw)
    f = lambda i: F(T.add(i, u))
    user(V, lambda fm, st: Write(V, fm, n, st, m, f))
    V.run('H_new_bools', [m, Ptr(a, u), Ptr(a, T.add(u, n))], lambda s, v: V.check(s, m, n, f, 'bools: '), lambda s: z3.UGE(n, bv(BIG // x.D - x.D)))


class Chars:
    """a string of n characters at a[u..]: Z(i)/O(i) = character i is '0'/'1'; T(j), C0(j) = number of digits, zeros among the
    first j characters; S(i) = the i-th digit is '1'"""

    def __init__(self, V, name, total, u, n):
        self.V, self.u, self.n = V, u, n
        self.z, self.o = z3.Function('F_zero_' + name, B64, Bool), z3.Function('F_one_' + name, B64, Bool)
        h, l = z3.Function('c7_' + name, B64, z3.BitVecSort(7)), z3.Function('c1_' + name, B64, z3.BitVecSort(1))
        self.T, self.C0 = z3.Function('G_digits_' + name, B64, B64), z3.Function('G_zeros_' + name, B64, B64)
        self.S = z3.Function('F_digit_' + name, B64, Bool)
        self.reg = r = Region(name, 'words', es=1, readable=NOWHERE, writable=NOWHERE)
        s = V.x.W.st
        # '0' = 24 * 2 + 0, '1' = 24 * 2 + 1; every other byte has its upper seven bits different from 24
        other = lambda w: z3.Concat(z3.If(h(w) == bv(24, 7), bv(0, 7), h(w)), l(w))
        s.mem[r] = MInit(lambda w: z3.If(self.z(w), bv(48, 8), z3.If(self.o(w), bv(49, 8), other(w))))
        s.ghost[('words', r)] = total
        V.inputs.append(r)

    def zero(self, j):
        return self.z(T.add(self.u, j))

    def one(self, j):
        w = T.add(self.u, j)
        return z3.And(z3.Not(self.z(w)), self.o(w))

    def ones(self, j):
        return T.sub(self.T(j), self.C0(j))

    def defs(self, j):
        """defining equations at 0 and j, the digit sequence at j"""
        j1 = T.add(j, bv(1))
        d = z3.Or(self.zero(j), self.one(j))
        return [self.T(bv(0)) == bv(0), self.C0(bv(0)) == bv(0),
                self.T(j1) == T.add(self.T(j), z3.If(d, bv(1), bv(0))), self.C0(j1) == T.add(self.C0(j), z3.If(self.zero(j), bv(1), bv(0))),
                z3.Implies(d, self.S(self.T(j)) == self.one(j))]

    def bounds(self, j):
        """proved by induction in prove()"""
        return [bv(0) <= self.C0(j), self.C0(j) <= self.T(j), self.T(j) <= j]

    def mono(self, j, n):
        return z3.Implies(j <= n, self.T(j) <= self.T(n))

    def prove(self):
        x = self.V.x
        s = x.W.st.clone()
        s.model = None
        j, n = nat('j!ind', 60), nat('n!ind', 60)

        def lemma(name, hyp, goal):
            q = s.clone()
            q.pc = list(hyp)
            x.check(q, 'lemma: ' + name, goal)
        lemma('counts of the empty prefix', self.defs(j), z3.And(self.bounds(bv(0))))
        lemma('counts are bounded (induction)', self.defs(j) + self.bounds(j), z3.And(self.bounds(T.add(j, bv(1)))))
        lemma('counts grow (base)', [], self.mono(n, n))
        n1 = T.add(n, bv(1))
        lemma('counts grow (induction)', self.defs(n) + self.bounds(n) + [self.mono(j, n), j <= n1, z3.Implies(j == n1, self.T(j) == self.T(n1))], self.mono(j, n1))

    def lemmas(self, j):
        j1 = T.add(j, bv(1))
        return self.defs(j) + self.bounds(j) + self.bounds(j1) + self.bounds(self.n) + [self.mono(j1, self.n), self.mono(j, self.n)]


class CountLoop(VLoop):
    def __init__(self, C, forms):
        VLoop.__init__(self, C.V, forms, C.n)
        self.C = C

    def lemmas(self, v, g):
        return self.C.lemmas(g[0])


class Digits(Write):
    def __init__(self, C, forms, st, p):
        Write.__init__(self, C.V, forms, C.n, st, p, lambda i: C.S(i), lambda j: C.T(j))
        self.C = C

    def lemmas(self, v, g):
        return self.C.lemmas(g[0])


@vtask('vec_construct_string', 'C18', ('bit_vector(std::string_view)',))
def t_string(x):
    V = Vector(x)
    m = V.raw('m')
    tot, u, n = nat('sn', 60), nat('u', 60), nat('n', 60)
    C = Chars(V, 'text', tot, u, n)
    x.W.pre.append(T.add(u, n) <= tot)
    C.prove()
    x.W.pre += C.bounds(n)
    cs = (lambda c0: (lambda j: T.add(c0, C.C0(j))), lambda c0: (lambda j: T.add(c0, C.ones(j))), lambda c0: (lambda j: T.add(c0, C.T(j))))

    def hook(E, f, hdr, st, hv):
        fs = [fm for fm in forms(V, hv, cs) if not all(a is None for a in fm)]
        made = 24 in E.cells_of(st, m.reg) and 0 in E.cells_of(st, m.reg)
        return ([Digits(C, fm, st, m) for fm in fs] if made else []) + [CountLoop(C, fm) for fm in fs] or None
    V.E.user_loop = hook
    V.run('H_new_string', [m, Ptr(C.reg, u), n], lambda s, v: V.check(s, m, C.T(n), lambda i: C.S(i), 'string: '), lambda s: z3.UGE(C.T(n), bv(BIG // x.D - x.D)))
