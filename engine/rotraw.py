"""C10: bit::_rotate_via_raw under contract.  The function touches memory only through functions that have contracts of
their own (swap_ranges, shift_left, shift_right, get_word, write_word), so its memory is modelled by the bits at flat bit
indices; any direct word access of the code fails the memory obligation.  Both loops carry user-written contracts."""
import z3
import spec
import terms as T
from terms import bv
from sym import Ptr, Agg, Obligation, Unsupported, light
from tasks import task, GROUPS, NOINLINE, ALL, NOWHERE, pick
from loops import LoopContract

B64 = z3.BitVecSort(64)
R = z3.Function('F_R', B64, z3.BoolSort())        # bits after the rotation
PROD = z3.Function('F_prod', B64, B64, z3.BoolSort())   # F_prod(a, c): c == a * k for the k of the loop
BIG = 1 << 62


def mid(x, p, k, e):
    """bits at index x while [p, e) still has to be rotated by k"""
    n_k = T.sub(T.sub(e, p), k)
    return z3.If(z3.And(p <= x, x < e), z3.If(x < T.add(p, k), R(T.add(x, n_k)), R(T.sub(x, k))), R(x))


class Outer(LoopContract):
    def __init__(self, x, reg, F, Lf, ix, init):
        self.x, self.reg, self.F, self.L, self.ix = x, reg, F, Lf, ix      # ix: header index of pointer, position, n, k
        self.ghosts = [init[ix[0]].off] + [init[i] for i in ix[1:]]

    def fresh(self, E):
        c = self.x.cfg
        g = [z3.ZeroExt(2 + c.l2, z3.BitVec('o!w%d' % E.fresh, 62 - c.l2)), z3.ZeroExt(64 - c.l2, z3.BitVec('o!p%d' % E.fresh, c.l2)),
             z3.ZeroExt(2, z3.BitVec('o!n%d' % E.fresh, 62)), z3.ZeroExt(2, z3.BitVec('o!k%d' % E.fresh, 62))]
        E.fresh += 1
        return g

    def vals(self, g):
        r = [None] * 4
        for j, i in enumerate(self.ix):
            r[i] = Ptr(self.reg, g[0]) if j == 0 else g[j]
        return r

    def P(self, g):
        return flat(self.x, (g[0], g[1]))

    def inv(self, v, g):
        p, n, k = self.P(g), g[2], g[3]
        return [g[0] >= bv(0), g[0] < bv(self.x.cfg.maxw), g[1] >= bv(0), g[1] < bv(self.x.D), n >= bv(0), n < bv(BIG), bv(0) < k, k < n,
                self.F <= p, T.add(p, n) <= self.L]

    def step(self, v, g, nv):
        return [nv[self.ix[0]].off] + [nv[i] for i in self.ix[1:]]

    def bits(self, g):
        return lambda x: mid(x, self.P(g), g[3], T.add(self.P(g), g[2]))

    def enter(self, s, g):
        s.ghost['fm'] = self.bits(g)
        s.ghost['outer'] = g

    def variant(self, v, g):
        return g[2]


class Inner(LoopContract):
    """p and/or q with q = p + k ; S = remaining swaps * k bits still to be moved block by block, r bits after that"""

    def __init__(self, x, reg, fwd, P, E, k, r, S, total, its, fs, up, init):
        """its: [(header index of the word pointer, of the position, 'p' or 'q')], fs: index of the counter"""
        self.x, self.reg, self.fwd, self.p0, self.e0, self.k, self.r = x, reg, fwd, P, E, k, r
        self.its, self.fs, self.up, self.total = its, fs, up, total
        self.w = init[fs].size()
        self.nv = len(init)
        self.ghosts = self.flatten(init) + [S]

    def flatten(self, v):
        out = []
        for a, b, role in self.its:
            out += [v[a].off, v[b]]
        return out + [v[self.fs]]

    def fresh(self, E):
        c = self.x.cfg
        E.fresh += 1
        z = lambda n, w: z3.ZeroExt(64 - w, z3.BitVec('i!%s%d' % (n, E.fresh), w))
        out = []
        for a, b, role in self.its:
            out += [z(role + 'w', 62 - c.l2), z(role + 'p', c.l2)]
        return out + [z3.BitVec('i!f%d' % E.fresh, self.w) if self.w < 64 else z('f', 62), z('S', 62)]

    def vals(self, g):
        r = [None] * self.nv
        for j, (a, b, role) in enumerate(self.its):
            r[a], r[b] = Ptr(self.reg, g[2 * j]), g[2 * j + 1]
        r[self.fs] = g[-2]
        return r

    def pq(self, g):
        p = q = None
        for j, (a, b, role) in enumerate(self.its):
            t = flat(self.x, g[2 * j:2 * j + 2])
            if role == 'p':
                p = t
            else:
                q = t
        return (p if p is not None else T.sub(q, self.k)), (q if q is not None else T.add(p, self.k))

    def left(self, g):
        t = T.zext(g[-2], 64) if self.w < 64 else g[-2]
        return T.sub(self.total, t) if self.up else t

    def lemmas(self, v, g):
        n, S, k = self.left(g), g[-1], self.k
        one = bv(1)
        return [z3.Implies(z3.And(PROD(n, S), n == bv(0)), S == bv(0)),                                   # S = n * k
                z3.Implies(z3.And(PROD(n, S), n > bv(0)), z3.And(S >= k, PROD(T.sub(n, one), T.sub(S, k))))]

    def inv(self, v, g):
        c = self.x.cfg
        p, q = self.pq(g)
        n, S = self.left(g), g[-1]
        w = []
        for j in range(len(self.its)):
            w += [g[2 * j] >= bv(0), g[2 * j] < bv(c.maxw), g[2 * j + 1] >= bv(0), g[2 * j + 1] < bv(c.D)]
        w += [g[-2] >= bv(0, self.w), n >= bv(0), n < bv(BIG), S >= bv(0), S < bv(BIG), PROD(n, S), q == T.add(p, self.k), self.p0 <= p, q <= self.e0]
        if self.fwd:
            return w + [T.sub(self.e0, p) == T.add(self.k, T.add(S, self.r))]
        return w + [T.sub(p, self.p0) == T.add(S, self.r)]

    def step(self, v, g, nv):
        return self.flatten(nv) + [T.sub(g[-1], self.k)]

    def bits(self, g):
        p, q = self.pq(g)
        if self.fwd:
            return lambda x: mid(x, p, self.k, self.e0)
        return lambda x: mid(x, self.p0, T.sub(T.sub(q, self.p0), self.k), q)

    def enter(self, s, g):
        s.ghost['fm'] = self.bits(g)

    def variant(self, v, g):
        return self.left(g)


def flat(x, p):
    return T.add(T.mulc(p[0], x.D), p[1])


def unflat(x, t):
    return T.ashr(t, bv(x.cfg.l2)), T.and_(t, bv(x.D - 1))


def flat_contracts(x, A, F, Lf):
    """contracts of the callees, on flat bit indices"""
    D = x.D

    def pre(E, s, what, *conds):
        for c in conds:
            E.oblige(s, 'pre', 'precondition of %s' % what, c)

    def it(a, b):
        if a.reg is not A:
            raise Unsupported('iterator of another array')
        return flat(x, (a.off, b))

    def ret(s, t):
        w, p = unflat(x, t)
        return [(s, Agg([Ptr(A, w), p]))]

    def inside(a, b):
        return z3.And(F <= a, a <= b, b <= Lf)

    def posok(*ps):
        return z3.And([z3.ULT(p, bv(D)) for p in ps])

    def swap(E, s, ins, a):
        f, l, d = it(a[0], a[1]), it(a[2], a[3]), it(a[4], a[5])
        n = T.sub(l, f)
        e = T.add(d, n)
        pre(E, s, 'swap_ranges: valid ranges inside the range', posok(a[1], a[3], a[5]), inside(f, l), inside(d, e))
        pre(E, s, 'swap_ranges: no overlap', z3.Or(l <= d, e <= f))
        m = s.ghost['fm']
        s.ghost['fm'] = lambda i: z3.If(z3.And(f <= i, i < l), m(T.add(i, T.sub(d, f))), z3.If(z3.And(d <= i, i < e), m(T.add(i, T.sub(f, d))), m(i)))
        return ret(s, e)

    def shift(left):
        def h(E, s, ins, a):
            f, l, n = it(a[0], a[1]), it(a[2], a[3]), a[4]
            name = 'shift_left' if left else 'shift_right'
            pre(E, s, name + ': valid range inside the range', posok(a[1], a[3]), inside(f, l))
            m = s.ghost['fm']
            out = []
            E.fresh += 1
            junk = z3.Function('F_junk%d' % E.fresh, B64, z3.BoolSort())
            N = T.sub(l, f)
            for s2, i in pick(E, s, [n <= bv(0), z3.And(n > bv(0), n >= N), z3.And(n > bv(0), n < N)]):
                if i == 0:
                    out += ret(s2, l if left else f)
                    continue
                if i == 1:
                    s2.ghost['fm'] = lambda i: z3.If(z3.And(f <= i, i < l), junk(i), m(i))
                    out += ret(s2, f if left else l)
                elif left:
                    e = T.sub(l, n)
                    s2.ghost['fm'] = lambda i: z3.If(z3.And(f <= i, i < l), z3.If(i < e, m(T.add(i, n)), junk(i)), m(i))
                    out += ret(s2, e)
                else:
                    e = T.add(f, n)
                    s2.ghost['fm'] = lambda i: z3.If(z3.And(f <= i, i < l), z3.If(i < e, junk(i), m(T.sub(i, n))), m(i))
                    out += ret(s2, e)
            return out
        return h

    def get(E, s, ins, a):
        p, n = it(a[0], a[1]), a[2]
        pre(E, s, 'get_word', posok(a[1]), z3.ULE(n, bv(D)), inside(p, T.add(p, n)))
        v = E.sym('word', D)
        s.ghost['tok'] = s.ghost.get('tok', ()) + ((v, p, n, s.ghost['fm']),)
        return [(s, v)]

    def put(E, s, ins, a):
        src, p, n = a[0], it(a[1], a[2]), T.zext(a[3], 64) if a[3].size() < 64 else a[3]
        pre(E, s, 'write_word', posok(a[2]), z3.ULE(n, bv(D)), inside(p, T.add(p, n)))
        for v, q, k, m0 in s.ghost.get('tok', ()):
            if src.size() >= D and T.trunc(src, D).eq(v):
                break
        else:
            raise Unsupported('write_word of a word of unknown content')
        E.oblige(s, 'pre', 'write_word writes no more bits than were read', z3.ULE(n, k))
        m = s.ghost['fm']
        s.ghost['fm'] = lambda i: z3.If(z3.And(p <= i, i < T.add(p, n)), m0(T.add(i, T.sub(q, p))), m(i))
        return [(s, None)]
    for nm, h in (('swap_ranges', swap), ('shift_left', shift(True)), ('shift_right', shift(False)), ('get_word', get), ('write_word', put)):
        x.E.contracts.append((lambda name, dem, nm=nm: 'bit::%s<' % nm in dem.split('(')[0], h))


def arith(x):
    """a / k, a % k, q * k for symbolic k > 0: a = q*k + r, 0 <= r < k"""
    def hook(E, s, op, a, b):
        divs = s.ghost.get('divs', ())
        if op in ('sdiv', 'udiv', 'srem', 'urem') and not T.is_const(b) and b.size() == 64:
            E.oblige(s, 'arith', 'division of a non-negative number by a positive one', z3.And(a >= bv(0), b > bv(0), a < bv(BIG)))
            for a0, b0, q, pr, r in divs:
                if b0.eq(b):
                    l = T.lin(T.sub(a, a0))
                    lb = T.lin(b)
                    for c in (-2, -1, 0, 1, 2):
                        if T.sub(T.sub(a, a0), T.mulc(b, c & T.M64)).eq(bv(0)):
                            return r if op[1:] == 'rem' else T.add(q, bv(c & T.M64))
            E.fresh += 1
            q, pr, r = [z3.ZeroExt(2, z3.BitVec('%s!%d' % (n, E.fresh), 62)) for n in ('dq', 'dp', 'dr')]
            s.pc = s.pc + [a == T.add(pr, r), r < b, PROD(q, pr), z3.Implies(q == bv(0), pr == bv(0)), z3.Implies(q > bv(0), pr >= b)]
            s.model = None
            s.ghost['divs'] = divs + ((a, b, q, pr, r),)
            return r if op[1:] == 'rem' else q
        if op == 'mul' and a.size() == 64:
            for a0, b0, q, pr, r in divs:
                if (a.eq(q) and b.eq(b0)) or (b.eq(q) and a.eq(b0)):
                    return pr
        return None
    x.E.arith_hook = hook


@task('rotate_via_raw', 'mod', 'C10', covers=('bit::_rotate_via_raw',))
def t_raw(x):
    cfg = x.cfg
    f, l, n = x.wpos('f'), x.wpos('l'), x.wpos('n')
    F, Lf, N = flat(x, f), flat(x, l), flat(x, n)
    x.W.pre.append(z3.And(F < N, N < Lf))
    A = x.W.region('a', NOWHERE, NOWHERE)
    flat_contracts(x, A, F, Lf)
    arith(x)
    x.W.st.ghost['fm'] = lambda i: mid(i, F, T.sub(N, F), Lf)     # = the inverse rotation of R

    def hook(E, fn, hdr, st, vals):
        ps = [i for i, (_, v) in enumerate(vals) if isinstance(v, Ptr)]
        v = [a for _, a in vals]
        rest = [i for i in range(len(v)) if i not in ps]
        if 'outer' not in st.ghost:
            if len(ps) != 1 or len(rest) != 3:
                return None
            ok = lambda i, t: v[i].size() == 64 and E.valid(st, v[i] == t)
            ip = [i for i in rest if v[i].eq(f[1])]
            i_n = [i for i in rest if i not in ip and ok(i, T.sub(Lf, F))]
            i_k = [i for i in rest if i not in ip and i not in i_n and ok(i, T.sub(N, F))]
            if not (len(ip) == len(i_n) == len(i_k) == 1):
                return None
            return Outer(x, A, F, Lf, (ps[0], ip[0], i_n[0], i_k[0]), v)
        if len(ps) not in (1, 2) or len(rest) != len(ps) + 1 or not st.ghost.get('divs'):
            return None
        og = st.ghost['outer']
        P, n0 = flat(x, og[:2]), og[2]
        e0 = T.add(P, n0)
        a0, kk, q, pr, r = st.ghost['divs'][-1]
        for fs in rest:
            up = T.is_const(v[fs]) and T.cval(v[fs]) == 0
            if not up and not T.zext(v[fs], 64).eq(q) and not v[fs].eq(T.trunc(q, v[fs].size()) if v[fs].size() < 64 else q):
                continue
            pos = [i for i in rest if i != fs]
            for perm in ((pos,) if len(pos) == 1 else (pos, pos[::-1])):
                its = []
                dirs = set()
                for a, b in zip(ps, perm):
                    t = flat(x, (v[a].off, v[b]))
                    if not E.valid(st, z3.And(v[b] >= bv(0), v[b] < bv(x.D))):
                        break
                    for role, fwd, want in (('p', True, P), ('q', True, T.add(P, kk)), ('p', False, T.sub(e0, kk)), ('q', False, e0)):
                        if E.valid(st, t == want):
                            its.append((a, b, role))
                            dirs.add(fwd)
                            break
                if len(its) == len(ps) and len(dirs) == 1 and len({i[2] for i in its}) == len(its):
                    return Inner(x, A, dirs.pop(), P, e0, kk, r, pr, q, its, fs, up, v)
        return None
    x.E.user_loop = hook

    def post(s, v):
        e = T.add(F, T.sub(Lf, N))
        got = flat(x, (v.e[0].off, v.e[1]))
        x.check(s, 'returned iterator is first + (last - n_first)', z3.And(got == e, v.e[1] >= bv(0), v.e[1] < bv(x.D)))
        i = z3.BitVec('i!bit', 62)
        i = z3.ZeroExt(2, i)
        x.check(s, 'bit i is the original bit (i + k) mod n, others unchanged', s.ghost['fm'](i) == R(i))
    x.run('H_rotate_raw', x.it(A, f) + x.it(A, n) + x.it(A, l), post)


@task('rotate_inverse', 'mod', 'C10', ds=(64,), covers=())
def t_inv(x):
    """the contract of _rotate_via_raw is stated through its result R: the start is the inverse rotation of R, so R is the
    rotation of the start (and every start is the inverse rotation of its rotation)"""
    x.nret = 1
    x.presat = 'sat'
    z = lambda n: z3.ZeroExt(2, z3.BitVec(n, 62))
    f, n, l, i = z('f'), z('n'), z('l'), z('i')
    st = x.W.finish()
    st.pc = [f < n, n < l]
    k = T.sub(n, f)

    def rot(m, i):
        j = T.add(i, k)
        return z3.If(z3.And(f <= i, i < l), z3.If(j < l, m(j), m(T.sub(j, T.sub(l, f)))), m(i))
    start = lambda i: mid(i, f, k, l)
    x.check(st, 'the rotation of the inverse rotation of R is R', rot(start, i) == R(i))
    M = z3.Function('F_M', B64, z3.BoolSort())
    r = lambda i: rot(M, i)
    e = T.sub(T.sub(l, f), k)
    inv = z3.If(z3.And(f <= i, i < l), z3.If(i < T.add(f, k), r(T.add(i, e)), r(T.sub(i, k))), r(i))
    x.check(st, 'every content is the inverse rotation of its rotation', inv == M(i))
