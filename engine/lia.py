"""Translation of index/position formulas (machine integers) to linear integer arithmetic with
uninterpreted bit predicates.  Machine wrap-around is kept: a sum is translated without a
modulus only when interval analysis shows that it cannot wrap; otherwise an explicit modulus is
emitted.  Terms outside the fragment (data words) become opaque symbols, which only forgets
facts: 'unsat' answers carry over to the machine formula, other answers decide nothing."""
import subprocess
import z3
import terms as T

K = {n: getattr(z3, 'Z3_OP_' + n) for n in (
    'TRUE', 'FALSE', 'AND', 'OR', 'NOT', 'IMPLIES', 'XOR', 'ITE', 'EQ', 'DISTINCT', 'ULT', 'ULEQ', 'UGT', 'UGEQ', 'SLT', 'SLEQ',
    'SGT', 'SGEQ', 'ZERO_EXT', 'SIGN_EXT', 'EXTRACT', 'CONCAT', 'BADD', 'BSUB', 'BMUL', 'BNEG', 'BSHL', 'BLSHR', 'BASHR', 'BAND',
    'BNOT', 'UNINTERPRETED', 'IFF')}
E0 = frozenset()
_fn = {}


class Lia:
    def __init__(self):
        self.mb = {}
        self.mu = {}
        self.mi = {}
        self.keep = []
        self.side = {}
        self.opq = {}
        self.by = {}

    # each translation returns (expr, frozenset of variable names, opaque?)
    def B(self, t):
        r = self.mb.get(t.get_id())
        if r is None:
            r = self._b(t)
            self.keep.append(t)
            self.mb[t.get_id()] = r
        return r

    def U(self, t):
        r = self.mu.get(t.get_id())
        if r is None:
            r = self._u(t)
            self.keep.append(t)
            self.mu[t.get_id()] = r
        return r

    def I(self, t):
        r = self.mi.get(t.get_id())
        if r is None:
            r = self._i(t)
            self.keep.append(t)
            self.mi[t.get_id()] = r
        return r

    def opaque_b(self, t):
        v = z3.Bool('opqb_%d' % t.get_id())
        return v, E0, True

    def _b(self, t):
        k = t.decl().kind()
        if k == K['TRUE'] or k == K['FALSE']:
            return t, E0, False
        if k in (K['AND'], K['OR'], K['NOT'], K['XOR'], K['IMPLIES']):
            xs = [self.B(x) for x in t.children()]
            vs = E0.union(*[x[1] for x in xs])
            o = any(x[2] for x in xs)
            e = [x[0] for x in xs]
            if k == K['AND']:
                return z3.And(e), vs, o
            if k == K['OR']:
                return z3.Or(e), vs, o
            if k == K['NOT']:
                return z3.Not(e[0]), vs, o
            if k == K['IMPLIES']:
                return z3.Implies(e[0], e[1]), vs, o
            return z3.Xor(e[0], e[1]), vs, o
        if k == K['ITE']:
            a, b, c = [self.B(x) for x in t.children()]
            return z3.If(a[0], b[0], c[0]), a[1] | b[1] | c[1], a[2] or b[2] or c[2]
        if k in (K['EQ'], K['IFF'], K['DISTINCT']) and t.num_args() == 2:
            a, b = t.children()
            if z3.is_bool(a):
                x, y = self.B(a), self.B(b)
            else:
                if not self.index_like(a) or not self.index_like(b):
                    return self.opaque_b(t)
                ra, rb = T.srange(a), T.srange(b)
                x, y = self.I(a), self.I(b)
            e = (x[0] == y[0])
            if k == K['DISTINCT']:
                e = z3.Not(e)
            return e, x[1] | y[1], x[2] or y[2]
        cmpk = {K['ULT']: ('u', 0), K['ULEQ']: ('u', 1), K['UGT']: ('u', 2), K['UGEQ']: ('u', 3),
                K['SLT']: ('s', 0), K['SLEQ']: ('s', 1), K['SGT']: ('s', 2), K['SGEQ']: ('s', 3)}
        if k in cmpk:
            sg, op = cmpk[k]
            a, b = t.children()
            if not self.index_like(a) or not self.index_like(b):
                return self.opaque_b(t)
            f = self.U if sg == 'u' else self.I
            x, y = f(a), f(b)
            e = [x[0] < y[0], x[0] <= y[0], x[0] > y[0], x[0] >= y[0]][op]
            return e, x[1] | y[1], x[2] or y[2]
        if k == K['UNINTERPRETED']:
            if t.num_args() == 0:
                return t, E0, False
            name = t.decl().name()
            f = _fn.get(name)
            if f is None:
                f = _fn[name] = z3.Function('I_' + name, *([z3.IntSort()] * t.num_args()), z3.BoolSort())
            xs = [self.I(x) for x in t.children()]
            return f(*[x[0] for x in xs]), E0.union(*[x[1] for x in xs]), any(x[2] for x in xs)
        return self.opaque_b(t)

    def index_like(self, t):
        """is the term built from index arithmetic (no memory words)?"""
        r = self.opq.get(t.get_id())
        if r is None:
            r = self._idx(t)
            self.opq[t.get_id()] = r
            self.keep.append(t)
        return r

    def _idx(self, t):
        if z3.is_bv_value(t):
            return True
        k = t.decl().kind()
        if k == K['UNINTERPRETED']:
            return t.num_args() == 0 or t.decl().name().startswith('G_')
        if k == K['ITE']:
            return self.index_like(t.arg(1)) and self.index_like(t.arg(2))
        if k in (K['ZERO_EXT'], K['SIGN_EXT'], K['EXTRACT'], K['BADD'], K['BSUB'], K['BNEG'], K['CONCAT'], K['BNOT']):
            return all(self.index_like(x) for x in t.children())
        if k in (K['BMUL'], K['BSHL'], K['BLSHR'], K['BASHR'], K['BAND']):
            l = T.lin(t)
            if not (len(l.d) == 1 and list(l.d)[0] == t.get_id()) and k in (K['BMUL'], K['BSHL']):
                return all(self.index_like(T._keep[x]) for x in l.d)
            if k in (K['BLSHR'], K['BASHR']):
                return z3.is_bv_value(t.arg(1)) and self.index_like(t.arg(0))
            if k == K['BAND'] and t.num_args() == 2:
                a, b = t.children()
                if z3.is_bv_value(a):
                    a, b = b, a
                return z3.is_bv_value(b) and (b.as_long() & (b.as_long() + 1)) == 0 and self.index_like(a)
        return False

    def var(self, t):
        """integer variable of a bit-vector constant: unsigned value, or signed for 64-bit ones"""
        n = t.decl().name()
        v = z3.Int('i_' + n)
        if n not in self.side:
            w = t.size()
            if w == 64:
                lo, hi = T.srange(t)
            else:
                lo, hi = 0, (1 << w) - 1
            self.side[n] = (v >= lo, v <= hi)
        return v, n

    def _u(self, t):
        w = t.size()
        if z3.is_bv_value(t):
            return z3.IntVal(t.as_long()), E0, False
        k = t.decl().kind()
        if k == K['ZERO_EXT']:
            return self.U(t.arg(0))
        if k == K['UNINTERPRETED'] and t.num_args() == 0 and w != 64:
            v, n = self.var(t)
            return v, frozenset((n,)), False
        r = T.srange(t)
        if r[0] >= 0:
            return self.I(t)
        if k == K['EXTRACT']:
            hi, lo = t.params()
            x = self.U(t.arg(0)) if lo else self.I(t.arg(0))
            e = x[0] / (1 << lo) if lo else x[0]
            return e % (1 << (hi - lo + 1)), x[1], x[2]
        if k == K['ITE']:
            a, b, c = self.B(t.arg(0)), self.U(t.arg(1)), self.U(t.arg(2))
            return z3.If(a[0], b[0], c[0]), a[1] | b[1] | c[1], a[2] or b[2] or c[2]
        x = self.I(t)
        return z3.If(x[0] < 0, x[0] + (1 << w), x[0]), x[1], x[2]

    def wrap(self, e, w):
        h = 1 << (w - 1)
        return (e + h) % (1 << w) - h

    def _i(self, t):
        w = t.size()
        if z3.is_bv_value(t):
            return z3.IntVal(t.as_signed_long()), E0, False
        k = t.decl().kind()
        if k == K['UNINTERPRETED'] and t.num_args() == 0:
            v, n = self.var(t)
            if w == 64:
                return v, frozenset((n,)), False
            return z3.If(v >= 1 << (w - 1), v - (1 << w), v), frozenset((n,)), False
        if k == K['ZERO_EXT']:
            return self.U(t.arg(0))
        if k == K['SIGN_EXT']:
            return self.I(t.arg(0))
        if k == K['ITE']:
            a, b, c = self.B(t.arg(0)), self.I(t.arg(1)), self.I(t.arg(2))
            return z3.If(a[0], b[0], c[0]), a[1] | b[1] | c[1], a[2] or b[2] or c[2]
        l = T.lin(t)
        if not (len(l.d) == 1 and list(l.d)[0] == t.get_id()):
            h = 1 << (w - 1)
            e = z3.IntVal(l.c - (1 << w) if l.c & h else l.c)
            vs, o = E0, False
            for x, v in l.d.items():
                if v & h:
                    v -= 1 << w
                y = self.I(T._keep[x])
                e = e + (y[0] if v == 1 else y[0] * v)
                vs |= y[1]
                o = o or y[2]
            lo, hi = T.lin_range(l)
            if lo < -h or hi >= h:
                e = self.wrap(e, w)
            return e, vs, o
        if k == K['BLSHR'] and z3.is_bv_value(t.arg(1)):
            x = self.U(t.arg(0))
            n = t.arg(1).as_long()
            if n >= w:
                return z3.IntVal(0), E0, False
            return x[0] / (1 << n), x[1], x[2]
        if k == K['BASHR'] and z3.is_bv_value(t.arg(1)):
            x = self.I(t.arg(0))
            return x[0] / (1 << min(t.arg(1).as_long(), w - 1)), x[1], x[2]
        if k == K['BAND'] and t.num_args() == 2:
            a, b = t.children()
            if z3.is_bv_value(a):
                a, b = b, a
            if z3.is_bv_value(b):
                q = b.as_long()
                if q & (q + 1) == 0 and q < 1 << (w - 1):
                    x = self.I(a)
                    return x[0] % (q + 1), x[1], x[2]
        if k == K['EXTRACT']:
            hi, lo = t.params()
            m = hi - lo + 1
            if lo == 0:
                x = self.I(t.arg(0))
                r = T.srange(t.arg(0))
                if r[0] >= -(1 << (m - 1)) and r[1] < 1 << (m - 1):
                    return x
                return self.wrap(x[0], m), x[1], x[2]
            x = self.U(t.arg(0))
            return self.wrap(x[0] / (1 << lo), m), x[1], x[2]
        if k == K['CONCAT']:
            e, vs, o = z3.IntVal(0), E0, False
            off = 0
            for i, x in enumerate(list(t.children())[::-1]):
                y = self.U(x)
                e = e + y[0] * (1 << off)
                off += x.size()
                vs |= y[1]
                o = o or y[2]
            if not T.nonneg(t):
                e = self.wrap(e, w)
            return e, vs, o
        if k == K['UNINTERPRETED'] and t.decl().name().startswith('G_') and all(self.index_like(x) for x in t.children()):
            # ghost prefix counts: integer-valued
            name = t.decl().name()
            f = _fn.get(name)
            if f is None:
                f = _fn[name] = z3.Function('I_' + name, *([z3.IntSort()] * (t.num_args() + 1)))
            xs = [self.I(x) for x in t.children()]
            v = f(*[x[0] for x in xs])
            lo, hi = T.srange(t)
            e = v if (lo, hi) == T._full(w) else v
            return e, E0.union(*[x[1] for x in xs]), any(x[2] for x in xs)
        h = 1 << (w - 1)
        n = 'opqi_%d' % t.get_id()
        v = z3.Int(n)
        self.side[n] = (v >= -h, v < h)
        return v, frozenset((n,)), True

    def check(self, conds, timeout):
        """('unsat'|'sat'|'unknown', opaque): z3, then cvc5, then z3 with its older arithmetic core"""
        vs = E0
        o = False
        es = []
        for c in conds:
            e, v, q = self.B(c)
            vs |= v
            o = o or q
            es.append(e)
        for n in sorted(vs):
            es.extend(self.side[n])
        s = z3.Solver()
        s.set('timeout', min(500, timeout))
        s.add(*es)
        r = str(s.check())
        self.by['z3'] = self.by.get('z3', 0) + (r == 'unsat')
        if r == 'unknown' and timeout > 1500:
            txt = '(set-logic QF_UFLIA)\n' + s.to_smt2()
            for q in (min(timeout, 3000), timeout):
                for name, cmd in (('z3-5', ['z3-new', '-in']), ('cvc5', ['cvc5', '--lang', 'smt2', '-']),
                                  ('cvc5-just', ['cvc5', '--lang', 'smt2', '--decision=justification', '-'])):
                    r = self.ext(cmd, txt, q)
                    self.by[name] = self.by.get(name, 0) + (r == 'unsat')
                    if r != 'unknown':
                        return r, o
                if q == timeout:
                    break
            s = z3.SimpleSolver()
            s.set('timeout', timeout)
            s.set('arith.solver', 2)
            s.add(*es)
            r = str(s.check())
            self.by['z3-arith2'] = self.by.get('z3-arith2', 0) + (r == 'unsat')
        return r, o

    def ext(self, cmd, txt, timeout):
        cmd = cmd[:-1] + (['-t:%d' % timeout] if cmd[0] == 'z3-new' else ['--tlimit=%d' % timeout]) + cmd[-1:]
        try:
            p = subprocess.run(cmd, input=txt, capture_output=True, text=True, timeout=timeout / 1000 + 5)
        except (OSError, subprocess.TimeoutExpired):
            return 'unknown'
        for l in p.stdout.split('\n'):
            if l.strip() in ('sat', 'unsat'):
                return l.strip()
        return 'unknown'
