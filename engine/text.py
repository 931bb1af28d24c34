"""C21: text rendering and parsing of bits.  std::string and the stream buffer calls are trusted contracts: a string is its
length and its characters, a stream is the next character, the characters consumed and the state bits."""
import z3
import bits
import terms as T
from terms import bv
from sym import Agg, Ptr, Region, MFlat, MInit, Unsupported, Undef
from tasks import task, ALL, NOWHERE, pick
from vec import Vector, VM, VLoop, Chars, forms, nat, vtask, B64, Bool, BIG

CH = lambda c: bv(ord(c))


def ttask(name, covers):
    return task(name, 'str', 'C21', ALL, covers)


class Text(Vector):
    """adds std::string and the streams"""

    def sget(self, s, p):
        r = s.ghost.get(('str', p.reg, p.off))
        if r is None:
            raise Unsupported('std::string object of unknown form')
        return r

    def sput(self, s, p, n, ch):
        s.ghost[('str', p.reg, p.off)] = (n, ch)

    def literal(self, s, p):
        out = []
        while True:
            c = self.E.load(s, Ptr(p.reg, p.off + len(out)), 'i8')
            if not T.is_const(c):
                raise Unsupported('string that is not a literal')
            if T.cval(c) == 0:
                return [T.zext(x, 64) for x in out]
            out.append(c)

    def contracts(self):
        VM.contracts(self)
        E = self.E

        def split(s, t):
            """case split on the tests inside a character term"""
            t = z3.simplify(t)
            todo, seen = [t], set()
            while todo:
                e = todo.pop()
                if e.get_id() in seen:
                    continue
                seen.add(e.get_id())
                if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
                    out = []
                    for s2, i in pick(E, s, [e.arg(0), z3.Not(e.arg(0))]):
                        out += split(s2, z3.substitute(t, (e, e.arg(1 + i))))
                    return out
                todo += e.children()
            return [(s, t)]
        self.cases = split

        def append(s, p, cs):
            n, ch = self.sget(s, p)
            for k, c in enumerate(cs):
                at = T.add(n, bv(k))
                ch = lambda t, at=at, c=c, ch=ch: z3.If(t == at, c, ch(t))
            self.sput(s, p, T.add(n, bv(len(cs))), ch)

        def string(E, s, ins, a):
            d = ins['dem']
            m = d[d.index('>::') + 3:]
            if d.startswith('std::__cxx11::basic_string<') and '> >::' in d:
                m = d[d.index('> >::') + 5:]
            if m.startswith('basic_string'):
                sig = m[m.index('('):]
                if sig in ('()',) or sig.startswith('(std::allocator'):
                    self.sput(s, a[0], bv(0), lambda t: bv(0))
                    return [(s, None)]
                if sig.startswith('(char const*'):
                    self.sput(s, a[0], bv(0), lambda t: bv(0))
                    append(s, a[0], self.literal(s, a[1]))
                    return [(s, None)]
                if sig.startswith('(std::__cxx11::basic_string<'):
                    self.sput(s, a[0], *self.sget(s, a[1]))
                    if '&&' in sig:
                        self.sput(s, a[1], bv(0), lambda t: bv(0))
                    return [(s, None)]
                raise Unsupported('std::string ' + sig)
            if m.startswith('~basic_string'):
                self.sget(s, a[0])
                del s.ghost[('str', a[0].reg, a[0].off)]
                return [(s, None)]
            if m.startswith(('operator+=(char)', 'push_back(char)')):
                out = []
                for s2, c in split(s, a[1]):
                    append(s2, a[0], [T.zext(c, 64)])
                    out.append((s2, a[0]))
                return out
            elif m.startswith(('operator+=(char const*)', 'append(char const*)')):
                append(s, a[0], self.literal(s, a[1]))
            elif m.startswith('append(unsigned long, char)') and T.is_const(a[1]):
                append(s, a[0], [T.zext(a[2], 64)] * T.cval(a[1]))
            elif m.startswith('reserve('):
                return [(s, None)]
            else:
                raise Unsupported('std::string::' + m)
            return [(s, a[0])]
        E.contracts.append((lambda n, d: d.startswith('std::__cxx11::basic_string<'), string))

        # ---- streams
        def c(cond, h):
            E.contracts.append((lambda n, d: cond(d), h))

        def has(sub):
            return lambda d: sub in d

        def may_throw(s, out):
            s2 = s.clone()
            s2.ghost['threw'] = True
            return out + ([(s2, 'UNWIND')] if s.ghost.get('throws') else [])

        def sentry(E, s, ins, a):
            E.store(s, a[0], z3.If(z3.Bool('sentry_ok'), bv(1, 8), bv(0, 8)), 'i8')
            return [(s, None)]

        def widen(E, s, ins, a):
            return may_throw(s, [(s, a[1])])

        def sbumpc(E, s, ins, a):
            """the next character as unsigned char value, or -1"""
            out = []
            for s2, i in pick(E, s, [z3.Not(z3.Bool('at_end')), z3.Bool('at_end')]):
                if i == 0:
                    E.oblige(s2, 'pre', 'at most one character is taken from the stream', z3.BoolVal(not s2.ghost.get('taken')))
                    s2.ghost['taken'] = 1
                    out.append((s2, T.zext(z3.BitVec('next', 8), 32)))
                else:
                    out.append((s2, bv(0xFFFFFFFF, 32)))
            return may_throw(s, out)

        def putback(E, s, ins, a):
            E.oblige(s, 'pre', 'the character put back is the one taken', z3.And(z3.BoolVal(s.ghost.get('taken') == 1), a[1] == z3.BitVec('next', 8)))
            out = []
            for s2, i in pick(E, s, [z3.Bool('putback_ok'), z3.Not(z3.Bool('putback_ok'))]):
                s2.ghost['taken'] = 0 if i == 0 else s2.ghost.get('taken')
                out.append((s2, T.zext(a[1], 32) if i == 0 else bv(0xFFFFFFFF, 32)))
            return may_throw(s, out)

        def setstate(E, s, ins, a):
            s.ghost['state'] = s.ghost.get('state', bv(0, 32)) | a[1]
            return [(s, None)]

        def put(E, s, ins, a):
            s.ghost['out'] = s.ghost.get('out', ()) + ((a[0], a[1]),)
            return [(s, a[0])]
        c(has('::sentry::sentry('), sentry)
        c(has('>::widen(char) const'), widen)
        c(has('>::rdbuf() const'), lambda E, s, ins, a: [(s, Ptr(s.ghost['buf'], 0))])
        c(has('>::sbumpc()'), sbumpc)
        c(has('>::sputbackc(char)'), putback)
        c(has('>::setstate('), setstate)
        c(has('& std::operator<<<'), put)
        c(lambda d: d.startswith('std::ostream::put(') or '>::put(char)' in d, put)
        E.contracts.append((lambda n, d: n == '__cxa_begin_catch', lambda E, s, ins, a: [(s, None)]))
        E.contracts.append((lambda n, d: n == '__cxa_end_catch', lambda E, s, ins, a: [(s, None)]))

    def stream(self, name):
        """stream object with its virtual base"""
        s = self.x.W.st
        vt = Region(name + ' vtable', 'cells', size=64)
        s.cells[vt] = {0: (8, bv(16))}
        r = Region(name, 'cells', size=280)
        s.cells[r] = {0: (8, Ptr(vt, 24))}
        s.ghost['buf'] = Region('streambuf', 'cells', size=64)
        return Ptr(r, 0)


# ------------------------------------------------------------------ debug_string
def textlen(j):
    """characters used for the first j bits: one per bit, one separator before bits 8, 16, ..."""
    return T.add(j, z3.If(j > bv(0), T.lshr(T.sub(j, bv(1)), bv(3)), bv(0)))


def pos(p):
    """text position of bit p"""
    return T.add(p, T.lshr(p, bv(3)))


def digit(F, p):
    return z3.If(F(p), CH('1'), CH('0'))


def sep(D, p):
    return z3.If(T.and_(p, bv(D - 1)) == bv(0), CH(' '), CH('.'))


class Render(VLoop):
    """the string object holds the text of the first j bits.  The two skolem bits p (any bit) and q (any bit that starts a
    group) stand for all of them."""

    def __init__(self, V, forms, n, sp, F):
        VLoop.__init__(self, V, forms, n)
        self.sp, self.F = sp, F
        self.p, self.q = nat('p!sk', 59), nat('q!sk', 59)

    def owned(self, s):
        return ()

    def facts(self, ch, j):
        p, q = self.p, self.q
        return [z3.Implies(p < j, ch(pos(p)) == digit(self.F, p)),
                z3.Implies(z3.And(bv(0) < q, q < j, T.and_(q, bv(7)) == bv(0)), ch(T.sub(pos(q), bv(1))) == sep(self.V.D, q))]

    def enter(self, s, g):
        E = self.V.E
        E.fresh += 1
        f = z3.Function('G_text%d' % E.fresh, B64, B64)
        self.V.sput(s, self.sp, textlen(g[0]), lambda t: f(t))
        s.pc = s.pc + self.facts(f, g[0])

    def heap(self, s, g):
        n, ch = self.V.sget(s, self.sp)
        at = self.V.at(s)
        a, b = self.facts(ch, g[0])
        return [('length of the text', n == textlen(g[0]), ()), ('character of bit p', a, (), at), ('separator before bit q', b, (), at)]


@ttask('text_debug_string', ('bit_vector::debug_string', 'bit_vector::debug_string(first, last)'))
def t_debug(x):
    D = x.D
    for fn in ('H_debug_string', 'H_debug_string_range'):
        V = Text(x)
        p, reg, L, f = V.obj('v')
        out = Ptr(Region('text', 'cells', size=32), 0)
        x.W.st.cells[out.reg] = {}
        if fn == 'H_debug_string':
            u, n, args = bv(0), L, [out, p]
        else:
            u, n = nat('u', 60), nat('n', 60)
            x.W.pre.append(T.add(u, n) <= L)
            args = [out, p] + V.iter(reg, u) + V.iter(reg, T.add(u, n))
        F = lambda i: f(T.add(i, u))
        cur = [None]
        V.at = lambda s: None if cur[0] is None else T.and_(T.add(u, cur[0]), bv(D - 1))

        class R(Render):
            def fresh(self, E):
                g = VLoop.fresh(self, E)
                cur[0] = g[0]
                return g

        def hook(E, fd, hdr, st, hv):
            cur[0] = None
            return [R(V, fm, n, out, F) for fm in forms(V, hv) if not all(a is None for a in fm)] or None
        V.E.user_loop = hook

        def post(s, v):
            r = R(V, [], n, out, F)
            k, ch = V.sget(s, out)
            x.check(s, fn[2:] + ': length of the text', k == textlen(n))
            a, b = r.facts(ch, n)
            x.check(s, fn[2:] + ': every bit is rendered as one character, in order', a)
            x.check(s, fn[2:] + ': bits are separated by "." or " " every eight bits', b)
            V.check(s, p, L, f, fn[2:] + ', vector unchanged: ')
        V.run(fn, args, post)


# ------------------------------------------------------------------ parsing the text gives the bits back
@ttask('text_round_trip', ('lemma: bit_vector(std::string_view) of the text of debug_string is the same sequence',))
def t_round(x):
    """the constructor contract proved by vec_construct_string gives size T(n) and bits S(i); with the text contract of
    text_debug_string these are the bits rendered: T(textlen(j)) = j and S(p) = F(p), by induction on j"""
    V = Text(x)
    F = z3.Function('F_bits', B64, Bool)
    C = Chars(V, 'text', nat('total', 62), bv(0), nat('len', 62))
    s = x.W.st.clone()
    s.model = None
    j = nat('j!ind', 59)
    is0, is1 = lambda t: C.zero(t), lambda t: C.one(t)
    # text contract at bit j: its character, and the separator before it
    text = [is1(pos(j)) == F(j), is0(pos(j)) == z3.Not(F(j)),
            z3.Implies(z3.And(j > bv(0), T.and_(j, bv(7)) == bv(0)), z3.And(z3.Not(is0(T.sub(pos(j), bv(1)))), z3.Not(is1(T.sub(pos(j), bv(1))))))]
    l0, l1 = textlen(j), textlen(T.add(j, bv(1)))

    def lemma(name, hyp, goal):
        q = s.clone()
        q.pc = list(hyp)
        x.check(q, 'lemma: ' + name, goal)
        x.nret += 1
    x.presat = 'sat'         # no precondition
    lemma('text positions: the text of j + 1 bits ends behind the character of bit j', [], l1 == T.add(pos(j), bv(1)))
    lemma('text positions: the text of j bits ends at the character of bit j or at the separator before it', [],
          z3.If(z3.And(j > bv(0), T.and_(j, bv(7)) == bv(0)), T.add(l0, bv(1)) == pos(j), l0 == pos(j)))
    at = [l1 == T.add(pos(j), bv(1)), z3.If(z3.And(j > bv(0), T.and_(j, bv(7)) == bv(0)), T.add(l0, bv(1)) == pos(j), l0 == pos(j))]
    lemma('digits of the empty text', C.defs(bv(0)), C.T(textlen(bv(0))) == bv(0))
    lemma('digits of the text (induction)', at + text + C.defs(l0) + C.defs(pos(j)) + C.bounds(l0) + [C.T(l0) == j,
          z3.Implies(T.add(l0, bv(1)) == pos(j), C.T(T.add(l0, bv(1))) == C.T(pos(j))), z3.Implies(l0 == pos(j), C.T(l0) == C.T(pos(j))),
          C.T(l1) == C.T(T.add(pos(j), bv(1)))], C.T(l1) == T.add(j, bv(1)))
    lemma('digit j of the text is bit j', at + text + C.defs(pos(j)) + C.defs(l0) + [C.T(l0) == j,
          z3.Implies(T.add(l0, bv(1)) == pos(j), C.T(T.add(l0, bv(1))) == C.T(pos(j))), z3.Implies(l0 == pos(j), C.T(l0) == C.T(pos(j))),
          C.S(C.T(pos(j))) == C.S(j)], C.S(j) == F(j))


# ------------------------------------------------------------------ streams
def bitword(V, name):
    """a word array with one designated bit"""
    nw = nat(name + 'n', 60 - V.x.cfg.l2)
    a, f = V.array_in(name, nw)
    k = nat(name + 'k', 60)
    V.x.W.pre.append(k < T.mulc(nw, V.D))
    return a, f, k


@ttask('text_put', ('operator<<(ostream, bit_value)', 'operator<<(ostream, bit_reference)'))
def t_put(x):
    for fn in ('H_put_value', 'H_put_ref', 'H_put_cref'):
        V = Text(x)
        os = V.stream('os')
        if fn == 'H_put_value':
            want, args, at = z3.Bool('b'), [z3.Bool('b')], None
        else:
            a, f, k = bitword(V, 'a')
            want, args, at = f(k), V.iter(a, k), T.and_(k, bv(x.D - 1))

        def post(s, v):
            o = s.ghost.get('out', ())
            x.check(s, fn[2:] + ': exactly one character is written to the stream', z3.BoolVal(len(o) == 1 and o[0][0].reg is os.reg))
            if len(o) == 1:
                for s2, c in V.cases(s, o[0][1]):
                    x.E.oblige_data(s2, 'post', fn[2:] + ": it is '1' for a set bit and '0' otherwise", T.zext(c, 64) == z3.If(want, CH('1'), CH('0')), at)
        V.run(fn, [os] + args, post)


EOFBIT, FAILBIT, BADBIT = 2, 4, 1


@ttask('text_get', ('operator>>(istream, bit_value)', 'operator>>(istream, bit_reference)'))
def t_get(x):
    for fn in ('H_get_value', 'H_get_ref'):
        for throws in (False, True):
            V = Text(x)
            st = V.stream('is')
            s0 = x.W.st
            s0.ghost['throws'] = throws
            c = z3.BitVec('next', 8)
            ok, end, pb = z3.Bool('sentry_ok'), z3.Bool('at_end'), z3.Bool('putback_ok')
            if fn == 'H_get_value':
                r = Region('x', 'cells', size=1)
                old = z3.Bool('old')
                s0.cells[r] = {0: (1, z3.If(old, bv(1, 8), bv(0, 8)))}
                args, at = [Ptr(r, 0)], None
            else:
                a, f, k = bitword(V, 'a')
                args, at = V.iter(a, k), T.and_(k, bv(x.D - 1))

            def post(s, v):
                if throws and not s.ghost.get('threw'):
                    return
                zero, one = c == bv(48, 8), c == bv(49, 8)
                got = z3.And(ok, z3.Not(end), z3.Or(zero, one))
                if throws:
                    got = z3.BoolVal(False)
                what = fn[2:] + (' (the stream throws): ' if throws else ': ')
                if fn == 'H_get_value':
                    w = x.E.load(s, Ptr(r, 0), 'i8')
                    new = z3.If(got, one, old)
                    x.check(s, what + 'the value is set exactly for 0 and 1', w == z3.If(new, bv(1, 8), bv(0, 8)))
                else:
                    i = nat('i!bit')
                    q = s.clone()
                    q.pc = q.pc + [i < T.mulc(V.words(s, a), x.D)]
                    q.model = None
                    x.E.oblige_data(q, 'post', what + 'the bit is set exactly for 0 and 1, other bits stay', V.bitsof(s, a)(i) == z3.If(z3.And(i == k, got), one, f(i)), at)
                state = s.ghost.get('state', bv(0, 32))
                x.check(s, what + 'failbit exactly when no bit was read', ((state & bv(FAILBIT, 32)) != bv(0, 32)) == z3.Not(got))
                if throws:
                    x.check(s, what + 'badbit is set', (state & bv(BADBIT, 32)) != bv(0, 32))
                    return
                x.check(s, what + 'eofbit exactly at the end of the input', ((state & bv(EOFBIT, 32)) != bv(0, 32)) == z3.And(ok, end))
                taken = bool(s.ghost.get('taken'))
                x.check(s, what + 'exactly the characters 0 and 1 are consumed', z3.Implies(z3.Or(got, pb, z3.Not(ok), end), z3.BoolVal(taken) == got))
            V.run(fn, [st] + args, post)
