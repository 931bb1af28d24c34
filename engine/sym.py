"""Deductive verifier core: symbolic execution of extracted LLVM IR with region
memory, function contracts at calls, inferred-and-checked loop contracts, and
proof obligations discharged by z3 (bit-precise, all inputs, all iterations)."""
import time
import z3
import terms as T
import lia
from terms import bv


class Unsupported(Exception):
    """The verifier cannot bring this construct within reach (never a violation)."""


class Fork(Exception):
    """split the path on a condition and redo the instruction"""

    def __init__(self, cond):
        self.cond = cond


class Budget(Exception):
    pass


class Reject(Exception):
    """a loop contract that was tried does not fit the loop"""


class Enough(Exception):
    """enough obligations of the property have failed: the rest of the task is not looked at"""


class Ptr:
    __slots__ = ('reg', 'off')

    def __init__(self, reg, off):
        self.reg = reg      # Region
        self.off = off      # element index (words) or python int byte offset (cells)

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.reg.name, self.off)


class PtrInt:
    """ptrtoint of a pointer plus a byte delta; keeps provenance for differences."""
    __slots__ = ('p', 'neg')

    def __init__(self, p):
        self.p = p


class Undef:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Agg:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e


class Vec:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e


class Region:
    """kind 'words': array of es-byte words indexed by a 64-bit term.
       kind 'cells': small object with constant byte offsets."""
    _n = 0

    def __init__(self, name, kind, es=0, size=0, readable=None, writable=None, addr=None, escaped=True):
        Region._n += 1
        self.uid = Region._n
        self.name = name
        self.kind = kind
        self.es = es
        self.size = size
        self.readable = readable    # fn(idx)->Bool : frame/bounds predicate
        self.writable = writable
        self.addr = addr            # z3 term of base address (words regions), created on demand
        self.escaped = escaped
        self.live = True

    def base_addr(self):
        if self.addr is None:
            self.addr = z3.BitVec('addr_%s_%d' % (self.name, self.uid), 64)
        return self.addr

    def __repr__(self):
        return self.name


# ------------------------------------------------------------------ memory ---
class MInit:
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class MFlat(MInit):
    """memory given by its bits: bit b of word w is g(w * D + b)"""
    __slots__ = ('g',)
    _n = 0

    def __init__(self, g, D):
        import bits
        MFlat._n += 1
        f = z3.Function('M_flat%d' % MFlat._n, z3.BitVecSort(64), z3.BitVecSort(D))
        self.g, self.fn = g, lambda w: f(w)
        bits.FLAT[f.name()] = lambda w, b: g(T.add(T.mulc(w, D), b))


class MStore:
    __slots__ = ('par', 'idx', 'val')

    def __init__(self, par, idx, val):
        self.par, self.idx, self.val = par, idx, val


class MCopy:
    """memmove of n words: dst idx d, source memory snapshot smem at s"""
    __slots__ = ('par', 'd', 'n', 'smem', 's')

    def __init__(self, par, d, n, smem, s):
        self.par, self.d, self.n, self.smem, self.s = par, d, n, smem, s


class MFill:
    __slots__ = ('par', 'd', 'n', 'val')

    def __init__(self, par, d, n, val):
        self.par, self.d, self.n, self.val = par, d, n, val


class MFun:
    """memory described by a contract: value at w is fn(w, parent_value_reader)"""
    __slots__ = ('par', 'fn')

    def __init__(self, par, fn):
        self.par, self.fn = par, fn


class MLoop:
    """effect of `cnt` completed iterations of a loop: list of LStore"""
    __slots__ = ('par', 'k', 'cnt', 'stores')

    def __init__(self, par, k, cnt, stores):
        self.par, self.k, self.cnt, self.stores = par, k, cnt, stores


class LStore:
    __slots__ = ('cond', 'a0', 'stride', 'val', 'order')

    def __init__(self, cond, a0, stride, val, order):
        self.cond, self.a0, self.stride, self.val, self.order = cond, a0, stride, val, order


class Fact:
    """forall k < cnt. cond[k]   with hints where memory was read (region, Lin idx in k)"""
    __slots__ = ('k', 'cnt', 'cond', 'reads')

    def __init__(self, k, cnt, cond, reads):
        self.k, self.cnt, self.cond, self.reads = k, cnt, cond, reads


class State:
    __slots__ = ('env', 'mem', 'cells', 'pc', 'facts', 'model', 'blk', 'prev', 'trace', 'cmps', 'stores', 'reads',
                 'ghost', 'fn')

    def __init__(self):
        self.env = {}
        self.mem = {}       # Region -> memory node
        self.cells = {}     # Region -> {off: (size, value)}
        self.pc = []
        self.facts = []
        self.model = None
        self.blk = None
        self.prev = None
        self.trace = []
        self.cmps = {}
        self.stores = []
        self.reads = []
        self.ghost = {}
        self.fn = None

    def clone(self):
        s = State()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.cells = {r: dict(c) for r, c in self.cells.items()}
        s.pc = list(self.pc)
        s.facts = list(self.facts)
        s.model = self.model
        s.blk, s.prev = self.blk, self.prev
        s.trace = list(self.trace)
        s.cmps = dict(self.cmps)
        s.stores = list(self.stores)
        s.reads = list(self.reads)
        s.ghost = dict(self.ghost)
        s.fn = self.fn
        return s


# ------------------------------------------------------------------ solver ---
class Solver:
    def __init__(self, timeout_ms=20000):
        self.timeout = timeout_ms
        self.n = 0
        self.time = 0.0
        self.slow = []
        self.dump = None
        self.lia = lia.Lia()
        self.lia_timeout = 4000
        self.lia_n = self.lia_unsat = 0
        self.lia_time = 0.0
        self.dumpn = 0

    def lia_check(self, conds):
        t0 = time.time()
        r, o = self.lia.check(conds, self.lia_timeout)
        self.lia_n += 1
        self.lia_time += time.time() - t0
        self.lia_unsat += r == 'unsat'
        return r, o

    def check(self, conds, timeout=None, exact=True, lia=True):
        """sat / unsat / unknown, model.  The integer translation is tried first; its 'unsat' is
        final, its 'sat' is final (without a machine model) for feasibility questions (exact=False)
        when nothing was abstracted."""
        t0 = time.time()
        r, o = self.lia_check(conds) if lia else ('unknown', True)
        dt = time.time() - t0
        if r == 'unsat':
            return 'unsat', None
        if r == 'sat' and not exact and not o:
            return 'sat', None
        if dt > 2:
            self.slow.append(('lia', round(dt, 1), r))
            if self.dump:
                self.dumpn += 1
                s = z3.Solver()
                for c in conds:
                    s.add(self.lia.B(c)[0])
                    for n in self.lia.B(c)[1]:
                        s.add(*self.lia.side[n])
                open('%s/l%d_%s.smt2' % (self.dump, self.dumpn, r), 'w').write(s.to_smt2())
        t0 = time.time()
        s = z3.SolverFor('QF_UFBV')
        s.set('timeout', timeout or self.timeout)
        for c in conds:
            s.add(c)
        r = s.check()
        dt = time.time() - t0
        if self.dump and dt > 5:
            self.dumpn += 1
            open('%s/q%d_%s.smt2' % (self.dump, self.dumpn, r), 'w').write(s.to_smt2())
        self.n += 1
        self.time += dt
        if dt > 2:
            self.slow.append((round(dt, 1), str(r)))
        if r == z3.sat:
            return 'sat', s.model()
        if r == z3.unsat:
            return 'unsat', None
        return 'unknown', None


def mtrue(model, c):
    """truth of c in the model (True/False/None)"""
    v = model.eval(c, model_completion=True)
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


class Obligation:
    __slots__ = ('kind', 'name', 'status', 'model', 'state', 'time', 'goal', 'loc')

    def __init__(self, kind, name, status, model=None, state=None, t=0, goal=None):
        self.kind, self.name, self.status, self.model, self.state, self.time, self.goal = \
            kind, name, status, model, state, t, goal


def parse_int_type(t):
    if t[0] == 'i' and t[1:].isdigit():
        return int(t[1:])
    return None


def split_struct(t):
    t = t.strip()
    assert t[0] in '{[<'
    return t


class Engine:
    def __init__(self, prog, solver=None, contracts=None, log=None):
        self.prog = prog            # {name: function json}
        self.fns = {f['name']: f for f in prog['functions']}
        self.globals = prog['globals']
        self.sol = solver or Solver()
        self.contracts = contracts or []     # list of (predicate(dem), handler)
        self.obls = []
        self.stop_kinds = ()        # kinds of obligations whose failure ends the task early
        self.scanned = self.nbad = self.nref = 0
        self.trial = False          # trying one of several loop contracts: the first failed obligation rejects it
        self.spec = 0               # > 0: inside a speculative execution whose obligations may be dropped
        self.mode = 'verify'         # 'guess' suppresses obligations
        self.log = log
        self.deadline = None
        self.fresh = 0
        self.loopinfo = {}
        self.gl_regions = {}
        self.stats = {'paths': 0, 'loops': 0, 'unrolled': 0}
        self.loop_notes = []
        self.max_paths = 4000
        self.unroll_limit = 140
        self.check_shift = True
        self.cur_fn = None
        self.contract_hits = {}
        self.proved_cache = {}
        self.mem_inv = None      # memory invariants supplied by the task for memory-carried loops
        self.arith_hook = None
        self.user_loop = None    # LoopContract supplied by the task
        self.loop_hook = None    # fallback contracts for memory-carried loops
        self.unroll_fallback = False
        self.fork_ok = True
        self.pop_hook = None
        self.loop_mark = 0

    # ------------------------------------------------------------- util
    def sym(self, name, w=64):
        self.fresh += 1
        return z3.BitVec('%s!%d' % (name, self.fresh), w)

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget exhausted')
        if self.stop_kinds and not self.spec and self.mode != 'guess':
            for o in self.obls[self.scanned:]:
                if o.status != 'discharged' and o.kind in self.stop_kinds:
                    self.nbad += 1
                    self.nref += o.status == 'refuted'
            self.scanned = len(self.obls)
            if self.nbad >= 25 or self.nref >= 6:
                raise Enough('stopped after %d failed obligations' % self.nbad)

    def feasible(self, st, cond):
        """is pc & cond satisfiable?  returns (bool, model) ; unknown counts as feasible"""
        if z3.is_true(cond):
            return True, st.model
        if z3.is_false(cond):
            return False, None
        if st.model is not None:
            v = mtrue(st.model, cond)
            if v is True:
                return True, st.model
        self.tick()
        r, m = self.sol.check(st.pc + [cond], 4000, exact=False)
        if r == 'unsat':
            return False, None
        return True, m

    def prove(self, st, goal, timeout=None, extra=()):
        """prove goal under pc. returns status, model"""
        if z3.is_true(goal):
            return 'unsat', None
        ng = z3.Not(goal)
        if st.model is not None and not extra:
            if mtrue(st.model, ng) is True and not st.facts:
                return 'sat', st.model
        self.tick()
        return self.sol.check(st.pc + list(extra) + [ng], timeout)

    def valid(self, st, goal, timeout=None):
        return self.prove(st, goal, timeout)[0] == 'unsat'

    def oblige(self, st, kind, name, goal, timeout=None):
        """record an obligation; afterwards the goal is assumed on this path"""
        if self.mode == 'guess':
            st.pc.append(goal)
            return True
        goal = light(goal) if not isinstance(goal, bool) else z3.BoolVal(goal)
        t0 = time.time()
        r, m = self.prove(st, goal, timeout)
        if r != 'unsat' and st.facts:
            r, m = self.prove_with_facts(st, goal, timeout)
        status = {'unsat': 'discharged', 'sat': 'refuted', 'unknown': 'unknown'}[r]
        self.obls.append(Obligation(kind, name, status, m, st if status != 'discharged' else None,
                                    time.time() - t0, goal))
        if status != 'discharged' and self.trial:
            raise Reject('%s: %s' % (name, z3.simplify(goal)))
        if self.log and status != 'discharged':
            self.log('  OBL %s %s: %s' % (kind, name, status))
        if status != 'discharged':
            st.pc.append(goal)
            f, mm = self.feasible(st, z3.BoolVal(True)) if st.model is None else (True, st.model)
            if st.model is not None and mtrue(st.model, goal) is not True:
                st.model = None
            r2, m2 = self.sol.check(st.pc)
            if r2 == 'unsat':
                return False
            st.model = m2
        return status == 'discharged'

    def oblige_word(self, st, kind, name, lhs, rhs, cond=None, timeout=None, points=None):
        """obligation: cond => the two words are equal. First bit by bit (skolem bit index), then word level"""
        import bits
        t0 = time.time()
        if lhs.eq(rhs):
            self.obls.append(Obligation(kind, name, 'discharged', None, None, 0, None))
            return True
        b = z3.BitVec('b!bit', 64)
        T.register_range(b, 0, lhs.size() - 1)
        B = bits.Bits(self.sol.lia)
        goal = z3.Implies(z3.ULT(b, bv(lhs.size())), B.of(lhs, b) == B.of(rhs, b))
        if cond is not None:
            goal = z3.Implies(cond, goal)
        self.tick()
        hyp = st.pc + (self.instantiate(st, points or {}) if st.facts else [])
        r, o = self.sol.lia_check(B.weak_pc(hyp, b) + [z3.Not(goal)])
        if r != 'unsat':
            r, m = self.sol.check(st.pc + [z3.Not(goal)], timeout or 10000, lia=False)
        if r == 'unsat':
            self.obls.append(Obligation(kind, name, 'discharged', None, None, time.time() - t0, None))
            return True
        g = lhs == rhs
        if cond is not None:
            g = z3.Implies(cond, g)
        r, m = self.prove(st, g, timeout)
        if r != 'unsat' and st.facts:
            r, m = self.prove_with_facts(st, g, timeout, points)
        status = {'unsat': 'discharged', 'sat': 'refuted', 'unknown': 'unknown'}[r]
        self.obls.append(Obligation(kind, name, status, m, st if status != 'discharged' else None, time.time() - t0, g))
        if status != 'discharged' and self.trial:
            raise Reject('%s: %s' % (name, z3.simplify(goal)))
        if self.log and status != 'discharged':
            self.log('  OBL %s %s: %s' % (kind, name, status))
        return status == 'discharged'

    def oblige_bits(self, st, kind, name, lhs, exp, cond=None, points=None):
        """obligation: cond => every bit b of lhs equals exp(B, b), with a skolem bit b"""
        import bits
        t0 = time.time()
        b = z3.BitVec('b!bit', 64)
        T.register_range(b, 0, lhs.size() - 1)
        B = bits.Bits(self.sol.lia)
        goal = z3.Implies(z3.ULT(b, bv(lhs.size())), B.of(lhs, b) == exp(B, b))
        if cond is not None:
            goal = z3.Implies(cond, goal)
        self.tick()
        hyp = st.pc + (self.instantiate(st, points or {}) if st.facts else [])
        r, o = self.sol.lia_check(B.weak_pc(hyp, b) + [z3.Not(goal)])
        status = 'discharged' if r == 'unsat' else ('refuted' if r == 'sat' and not o else 'unknown')
        self.obls.append(Obligation(kind, name, status, None, st if status != 'discharged' else None, time.time() - t0, goal))
        if status != 'discharged' and self.trial:
            raise Reject('%s: %s' % (name, z3.simplify(goal)))
        if self.log and status != 'discharged':
            self.log('  OBL %s %s: %s' % (kind, name, status))
        return status == 'discharged'

    def oblige_data(self, st, kind, name, goal, b):
        """obligation over index terms and bits whose path condition tests bit b of data words"""
        if b is None:
            return self.oblige(st, kind, name, goal)
        import bits
        t0 = time.time()
        goal = light(goal)
        self.tick()
        B = bits.Bits(self.sol.lia)
        r, o = self.sol.lia_check(B.weak_pc(st.pc, b) + [z3.Not(goal)])
        if r != 'unsat':
            return self.oblige(st, kind, name, goal)
        self.obls.append(Obligation(kind, name, 'discharged', None, None, time.time() - t0, goal))
        return True

    # ---- quantified history facts -----------------------------------
    def instantiate(self, st, points):
        """instances of st.facts for word-index terms `points` {Region:[idx,..]}"""
        out = []
        for f in st.facts:
            seen = set()
            ks = []
            for (reg, a0, stride) in f.reads:
                for p in points.get(reg, ()):
                    d = T.sub(p, a0)
                    if stride < 0:
                        d = T.sub(bv(0), d)
                    s = abs(stride)
                    if s == 1:
                        kk = d
                    elif s & (s - 1) == 0:
                        kk = T.lshr(d, bv(T.log2(s)))
                    else:
                        continue
                    if kk.get_id() not in seen:
                        seen.add(kk.get_id())
                        ks.append(kk)
            ks.append(T.sub(f.cnt, bv(1)))
            ks.append(bv(0))
            for kk in ks:
                out.append(z3.Implies(z3.ULT(kk, f.cnt), z3.substitute(f.cond, (f.k, kk))))
        return out

    def prove_with_facts(self, st, goal, timeout=None, points=None):
        pts = dict(points or {})
        extra = self.instantiate(st, pts)
        return self.prove(st, goal, timeout, extra)

    # ------------------------------------------------------------- memory
    def cond_possible(self, st, c):
        """could c be true here? (used to prune aliases) """
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if st is None:
            return True
        if st.model is not None and mtrue(st.model, c) is True:
            return True
        self.tick()
        r, m = self.sol.check(st.pc + [c], 4000, exact=False)
        return r != 'unsat'

    def loop_hit(self, ls, w, cnt):
        """(k index term, condition that word w is written by store ls in an iteration < cnt)"""
        d = T.sub(w, ls.a0)
        s = ls.stride
        if s == 0:
            return T.sub(cnt, bv(1)), z3.And(d == bv(0), cnt != bv(0))
        if s < 0:
            d = T.sub(bv(0), d)
            s = -s
        if s == 1:
            return d, z3.ULT(d, cnt)
        if s & (s - 1):
            raise Unsupported('loop stride %d' % s)
        kk = T.lshr(d, bv(T.log2(s)))
        return kk, z3.And(T.and_(d, bv(s - 1)) == bv(0), z3.ULT(kk, cnt))

    def read(self, node, w, st=None):
        """value of word w in memory `node` (st: prune with its path condition)"""
        conds = []
        while True:
            if isinstance(node, MInit):
                res = node.fn(w)
                break
            if isinstance(node, MStore):
                d = T.diffc(w, node.idx)
                if d is None:
                    c = (w == node.idx)
                    if st is not None and not self.cond_possible(st, c):
                        node = node.par
                        continue
                    if st is not None and self.valid(st, c, 2000):
                        res = node.val
                        break
                    conds.append((c, node.val))
                elif d == 0:
                    res = node.val
                    break
                node = node.par
                continue
            if isinstance(node, MFill):
                c = z3.ULT(T.sub(w, node.d), node.n)
                c = z3.simplify(c)
                if z3.is_true(c):
                    res = node.val
                    break
                if not z3.is_false(c) and (st is None or self.cond_possible(st, c)):
                    conds.append((c, node.val))
                node = node.par
                continue
            if isinstance(node, MCopy):
                c = z3.simplify(z3.ULT(T.sub(w, node.d), node.n))
                if not z3.is_false(c) and (st is None or self.cond_possible(st, c)):
                    v = self.read(node.smem, T.add(node.s, T.sub(w, node.d)), None)
                    if z3.is_true(c):
                        res = v
                        break
                    conds.append((c, v))
                node = node.par
                continue
            if isinstance(node, MFun):
                par = node.par
                res = node.fn(w, lambda x: self.read(par, x, None))
                break
            if isinstance(node, MLoop):
                hits = []
                for ls in node.stores:
                    kk, c = self.loop_hit(ls, w, node.cnt)
                    c = z3.simplify(z3.And(c, z3.substitute(ls.cond, (node.k, kk))))
                    if z3.is_false(c):
                        continue
                    if st is not None and not self.cond_possible(st, c):
                        continue
                    hits.append((kk, c, ls))
                if hits:
                    v = None
                    # later iteration (or later store of the same iteration) wins
                    if len(hits) == 1:
                        kk, c, ls = hits[0]
                        conds.append((c, z3.substitute(ls.val, (node.k, kk))))
                    else:
                        hits.sort(key=lambda h: h[2].order)
                        for i, (kk, c, ls) in enumerate(hits):
                            cc = [c]
                            for j, (k2, c2, l2) in enumerate(hits):
                                if j == i:
                                    continue
                                # hit j overrides i when later
                                if j > i:
                                    cc.append(z3.Not(z3.And(c2, z3.UGE(k2, kk))))
                                else:
                                    cc.append(z3.Not(z3.And(c2, z3.UGT(k2, kk))))
                            conds.append((z3.And(cc), z3.substitute(ls.val, (node.k, kk))))
                node = node.par
                continue
            raise Unsupported('memory node')
        for c, v in reversed(conds):
            res = T.ite(c, v, res)
        return res

    # ------------------------------------------------------------- values
    def const(self, o):
        k = o['k']
        t = o['t']
        if k == 'int':
            w = parse_int_type(t)
            if w == 1:
                return z3.BoolVal(int(o['v']) != 0)
            return bv(int(o['v']), w)
        if k == 'null':
            return None
        if k in ('undef', 'poison'):
            return self.undef(t)
        if k == 'zero':
            return self.zero(t)
        if k == 'fn':
            return FnPtr(o['v'])
        if k == 'global':
            return self.global_ptr(o['v'])
        if k == 'expr' and o['op'] == 'getelementptr' and 'off' in o:
            p = self.const(o['e'][0])
            return self.gep_bytes(p, o['off'])
        if k == 'agg':
            e = [self.const(x) for x in o['e']]
            return Vec(e) if t[0] == '<' else Agg(e)
        if k == 'fp':
            raise Unsupported('floating point')
        raise Unsupported('constant %s' % k)

    def undef(self, t):
        w = parse_int_type(t)
        if w == 1:
            self.fresh += 1
            return z3.Bool('undef!%d' % self.fresh)
        if w:
            return self.sym('undef', w)
        if t == 'ptr':
            return Undef(t)
        if t[0] in '{[':
            return Agg([self.undef(x) for x in self.elems(t)])
        if t[0] == '<':
            return Vec([self.undef(x) for x in self.elems(t)])
        return Undef(t)

    def zero(self, t):
        w = parse_int_type(t)
        if w == 1:
            return z3.BoolVal(False)
        if w:
            return bv(0, w)
        if t == 'ptr':
            return None
        if t[0] in '{[':
            return Agg([self.zero(x) for x in self.elems(t)])
        if t[0] == '<':
            return Vec([self.zero(x) for x in self.elems(t)])
        raise Unsupported('zero of ' + t)

    @staticmethod
    def elems(t):
        t = t.strip()
        if t[0] == '{':
            inner = t[1:-1].strip()
            out = []
            depth = 0
            cur = ''
            for ch in inner:
                if ch in '{[<(':
                    depth += 1
                if ch in '}]>)':
                    depth -= 1
                if ch == ',' and depth == 0:
                    out.append(cur.strip())
                    cur = ''
                else:
                    cur += ch
            if cur.strip():
                out.append(cur.strip())
            return out
        if t[0] in '[<':
            n, rest = t[1:-1].split(' x ', 1)
            return [rest.strip()] * int(n)
        raise Unsupported('aggregate type ' + t)

    def sizeof(self, t):
        w = parse_int_type(t)
        if w:
            return max(1, w // 8)
        if t == 'ptr':
            return 8
        if t[0] in '[<':
            e = self.elems(t)
            return len(e) * self.sizeof(e[0])
        raise Unsupported('sizeof ' + t)

    def global_ptr(self, name):
        r = self.gl_regions.get(name)
        if r is None:
            g = self.globals.get(name)
            if g is None:
                raise Unsupported('global ' + name)
            r = Region('@' + name, 'cells', size=g['size'], escaped=True)
            r.gl = g if False else None
            self.gl_regions[name] = r
        return Ptr(r, 0)

    def val(self, st, o):
        if o['k'] == 'v':
            return st.env[o['id']]
        return self.const(o)

    # ------------------------------------------------------------- pointers
    def gep_bytes(self, p, off):
        if off == 0:
            return p
        if p is None:
            raise Unsupported('gep on null')
        if isinstance(p, Undef):
            return p
        if p.reg.kind == 'words':
            if off % p.reg.es:
                raise Unsupported('misaligned constant gep')
            return Ptr(p.reg, T.add(p.off, bv((off // p.reg.es) & T.M64)))
        return Ptr(p.reg, p.off + off)

    def small_range(self, st, x, bits=60):
        """|x| < 2^bits provable (so that x*2^s >> s == x)"""
        r = T.srange(x)
        if r[0] >= -(1 << bits) and r[1] < (1 << bits):
            return True
        lo = bv((-(1 << bits)) & T.M64)
        hi = bv(1 << bits)
        return self.valid(st, z3.And(x >= lo, x < hi), 5000)

    def gep(self, st, ins):
        p = self.val(st, ins['ptr'])
        if ins.get('bad'):
            raise Unsupported('gep form')
        if p is None or isinstance(p, (Undef, FnPtr)):
            if not ins['voff'] and ins['coff'] == 0:
                return p
            if p is None:
                # null + n : tolerated only when n is 0
                tot = bv(ins['coff'] & T.M64)
                for o, s in ins['voff']:
                    tot = T.add(tot, T.mulc(T.sext(self.val(st, o), 64), s))
                if self.valid(st, tot == bv(0)):
                    return None
            raise Unsupported('gep on null/undef pointer')
        if p.reg.kind == 'cells':
            off = p.off + ins['coff']
            for o, s in ins['voff']:
                v = self.val(st, o)
                if isinstance(v, (Ptr, PtrInt)):
                    raise Unsupported('gep offset pointer')
                if not T.is_const(v):
                    raise Unsupported('variable index into a cell object')
                off += T.sval(v) * s
            return Ptr(p.reg, off)
        es = p.reg.es
        if ins['coff'] % es:
            raise Unsupported('misaligned gep')
        idx = T.add(p.off, bv((ins['coff'] // es) & T.M64))
        for o, s in ins['voff']:
            v = self.val(st, o)
            v = T.sext(v, 64)
            if s % es == 0:
                idx = T.add(idx, T.mulc(v, s // es))
            else:
                # byte offset: must be a multiple of the word size
                l = T.lin(v)
                f = es // s
                if all(c % f == 0 for c in l.d.values()) and l.c % f == 0:
                    m = T.M64

                    def sg(c):
                        return c - (1 << 64) if c >> 63 else c
                    q = T.unlin(T.Lin(64, {a: (sg(c) // f) & m for a, c in l.d.items()}, (sg(l.c) // f) & m))
                    if not (T.is_const(q) or self.small_range(st, q, 62 - T.log2(f))):
                        raise Unsupported('byte offset range')
                    idx = T.add(idx, q)
                elif T.is_const(v) and T.sval(v) * s % es == 0:
                    idx = T.add(idx, bv((T.sval(v) * s // es) & T.M64))
                else:
                    if self.valid(st, T.and_(v, bv(f - 1)) == bv(0)):
                        idx = T.add(idx, T.ashr(v, bv(T.log2(f))))
                    else:
                        raise Unsupported('byte offset not a multiple of the word size')
        return Ptr(p.reg, self.resolve(st, idx))

    def as_int(self, st, v):
        """integer (64 bit term) of a PtrInt"""
        if isinstance(v, PtrInt):
            p = v.p
            if p is None:
                return bv(0)
            if isinstance(p, Undef):
                return self.sym('undef', 64)
            if p.reg.kind == 'words':
                return T.add(p.reg.base_addr(), T.mulc(p.off, p.reg.es))
            return T.add(p.reg.base_addr(), bv(p.off & T.M64))
        return v

    # ------------------------------------------------------------- load/store
    def load(self, st, p, t, ins=None):
        if p is None or isinstance(p, (Undef, FnPtr)):
            self.oblige(st, 'memory', 'load through null/undefined pointer', z3.BoolVal(False))
            raise DeadPath()
        reg = p.reg
        if not reg.live:
            self.oblige(st, 'memory', 'load from freed storage %s' % reg.name, z3.BoolVal(False))
        if reg.kind == 'cells':
            return self.load_cell(st, p, t)
        if t[0] == '<':
            e = self.elems(t)
            n = len(e)
            ew = parse_int_type(e[0])
            words = n * ew // 8 // reg.es
            raw = [self.load_word(st, reg, T.add(p.off, bv(i))) for i in range(words)]
            return self.revec(raw, n, ew)
        if t == 'ptr':
            raise Unsupported('pointer stored in word array')
        w = parse_int_type(t)
        if w is None:
            raise Unsupported('load type ' + t)
        nb = w // 8
        if nb == reg.es:
            return self.load_word(st, reg, p.off)
        if nb % reg.es == 0 and nb > reg.es:
            raw = [self.load_word(st, reg, T.add(p.off, bv(i))) for i in range(nb // reg.es)]
            return z3.Concat(*reversed(raw))
        raise Unsupported('load of %s from %d-byte words' % (t, reg.es))

    @staticmethod
    def revec(raw, n, ew):
        """list of little endian words -> Vec of n ew-bit lanes"""
        rw = raw[0].size()
        if rw == ew:
            return Vec(raw)
        if rw > ew:
            f = rw // ew
            return Vec([T.trunc(T.lshr(raw[i // f], bv((i % f) * ew, rw)), ew) for i in range(n)])
        f = ew // rw
        return Vec([z3.Concat(*reversed(raw[i * f:(i + 1) * f])) for i in range(n)])

    def readable(self, st, reg):
        n = st.ghost.get(('words', reg))        # number of accessible words when it changes during the run
        return reg.readable if n is None else (lambda i: z3.ULT(i, n))

    def writable(self, st, reg):
        n = st.ghost.get(('words', reg))
        return reg.writable if n is None else (lambda i: z3.ULT(i, n))

    def load_word(self, st, reg, idx):
        pred = self.readable(st, reg)
        if pred is not None:
            self.oblige(st, 'memory', 'read inside the accessible words of %s' % reg.name, pred(idx))
        st.reads.append((reg, idx))
        return self.read(st.mem[reg], idx, st)

    def store_word(self, st, reg, idx, v):
        pred = self.writable(st, reg)
        if pred is not None:
            self.oblige(st, 'memory', 'write inside the writable words of %s' % reg.name, pred(idx))
        st.stores.append((reg, idx, v, len(st.pc)))
        st.mem[reg] = MStore(st.mem[reg], idx, v)

    def store(self, st, p, v, t):
        if p is None or isinstance(p, (Undef, FnPtr)):
            self.oblige(st, 'memory', 'store through null/undefined pointer', z3.BoolVal(False))
            raise DeadPath()
        reg = p.reg
        if not reg.live:
            self.oblige(st, 'memory', 'store to freed storage %s' % reg.name, z3.BoolVal(False))
        if reg.kind == 'cells':
            self.store_cell(st, p, v, t)
            return
        if t[0] == '<':
            vec = v
            ew = parse_int_type(self.elems(t)[0])
            if ew == 8 * reg.es:
                raw = vec.e
            elif ew > 8 * reg.es:
                f = ew // (8 * reg.es)
                raw = []
                for x in vec.e:
                    for j in range(f):
                        raw.append(T.trunc(T.lshr(x, bv(j * 8 * reg.es, ew)), 8 * reg.es))
            else:
                f = 8 * reg.es // ew
                raw = [z3.Concat(*reversed(vec.e[i * f:(i + 1) * f])) for i in range(len(vec.e) // f)]
            for i, x in enumerate(raw):
                self.store_word(st, reg, T.add(p.off, bv(i)), x)
            return
        if isinstance(v, (Ptr, type(None), PtrInt)):
            raise Unsupported('pointer stored in word array')
        w = v.size() if not isinstance(v, z3.BoolRef) else 8
        if w == 8 * reg.es:
            self.store_word(st, reg, p.off, v)
        elif w > 8 * reg.es and w % (8 * reg.es) == 0:
            for j in range(w // (8 * reg.es)):
                self.store_word(st, reg, T.add(p.off, bv(j)), T.trunc(T.lshr(v, bv(j * 8 * reg.es, w)), 8 * reg.es))
        else:
            raise Unsupported('store of i%d into %d-byte words' % (w, reg.es))

    def cells_of(self, st, reg):
        c = st.cells.get(reg)
        if c is None:
            c = {}
            if reg.name.startswith('@'):
                g = self.globals[reg.name[1:]]
                if g.get('init') is not None and g['const']:
                    self.flatten(c, 0, g['init'])
            st.cells[reg] = c
        return c

    def flatten(self, c, off, o):
        t = o['t']
        if o['k'] == 'int':
            w = parse_int_type(t)
            n = max(1, w // 8)
            c[off] = (n, bv(int(o['v']), 8 * n))
            return n
        if o['k'] == 'zero':
            # bytes of zero
            try:
                n = self.sizeof(t)
            except Unsupported:
                n = 1
            for i in range(n):
                c[off + i] = (1, bv(0, 8))
            return n
        if o['k'] == 'agg':
            q = off
            for e in o['e']:
                q += self.flatten(c, q, e)
            return q - off
        raise Unsupported('global initializer')

    def load_cell(self, st, p, t):
        c = self.cells_of(st, p.reg)
        if t[0] in '{[<':
            e = self.elems(t)
            out = []
            off = p.off
            for x in e:
                out.append(self.load_cell(st, Ptr(p.reg, off), x))
                off += self.sizeof(x)
            return Vec(out) if t[0] == '<' else Agg(out)
        w = parse_int_type(t)
        n = 8 if t == 'ptr' else max(1, w // 8)
        if p.off < 0 or (p.reg.size and p.off + n > p.reg.size):
            self.oblige(st, 'memory', 'load inside object %s' % p.reg.name, z3.BoolVal(False))
            raise DeadPath()
        x = c.get(p.off)
        if x is not None and x[0] == n:
            v = x[1]
            if t == 'ptr':
                if isinstance(v, PtrInt):
                    return v.p
                if z3.is_bv(v) if isinstance(v, z3.AstRef) else False:
                    if T.is_const(v) and T.cval(v) == 0:
                        return None
                    raise Unsupported('integer reloaded as pointer')
                return v
            if isinstance(v, (Ptr, type(None), Undef, FnPtr)):
                if isinstance(v, Undef):
                    return self.undef(t)
                return PtrInt(v)
            if w == 1:
                return T.trunc(v, 1) == bv(1, 1)
            return T.trunc(v, w) if v.size() != w else v
        if x is not None and x[0] > n and isinstance(x[1], z3.BitVecRef):
            return T.trunc(x[1], 8 * n) if w != 1 else T.trunc(x[1], 1) == bv(1, 1)
        # assemble from bytes
        if t == 'ptr':
            if any(o < p.off + n and o + s > p.off for o, (s, _) in c.items()):
                # all zero bytes -> null
                bs = [c.get(p.off + i) for i in range(8)]
                if all(b is not None and b[0] == 1 and T.is_const(b[1]) and T.cval(b[1]) == 0 for b in bs):
                    return None
                raise Unsupported('partial pointer load')
            return self.cell_unknown(st, p, t, c)
        parts = []
        off = p.off
        while off < p.off + n:
            x = c.get(off)
            if x is not None and isinstance(x[1], z3.BitVecRef) and off + x[0] <= p.off + n:
                parts.append(x[1])
                off += x[0]
                continue
            # inside a bigger cell?
            hit = None
            for o, (s, v) in c.items():
                if o <= off < o + s:
                    hit = (o, s, v)
            if hit is None:
                if not parts and off == p.off and not any(o < p.off + n and o + s > p.off for o, (s, _) in c.items()):
                    return self.cell_unknown(st, p, t, c)
                parts.append(self.sym('uninit', 8))
                off += 1
                continue
            o, s, v = hit
            if not isinstance(v, z3.BitVecRef):
                raise Unsupported('partial load of pointer cell')
            take = min(o + s, p.off + n) - off
            parts.append(T.trunc(T.lshr(v, bv((off - o) * 8, v.size())), 8 * take))
            off += take
        v = parts[0] if len(parts) == 1 else z3.simplify(z3.Concat(*reversed(parts)))
        if w == 1:
            return T.trunc(v, 1) == bv(1, 1)
        return T.trunc(v, w)

    def cell_unknown(self, st, p, t, c):
        if t == 'ptr':
            v = Undef('ptr')
            c[p.off] = (8, v)
            return v
        w = parse_int_type(t)
        v = self.sym('uninit', max(8, w))
        c[p.off] = (max(1, w // 8), v)
        return T.trunc(v, 1) == bv(1, 1) if w == 1 else v

    def store_cell(self, st, p, v, t):
        c = self.cells_of(st, p.reg)
        if t[0] in '{[<':
            e = self.elems(t)
            off = p.off
            vs = v.e
            for x, y in zip(e, vs):
                self.store_cell(st, Ptr(p.reg, off), y, x)
                off += self.sizeof(x)
            return
        w = parse_int_type(t)
        n = 8 if t == 'ptr' else max(1, w // 8)
        if p.off < 0 or (p.reg.size and p.off + n > p.reg.size):
            self.oblige(st, 'memory', 'store inside object %s' % p.reg.name, z3.BoolVal(False))
            raise DeadPath()
        if isinstance(v, z3.BoolRef):
            v = T.ite(v, bv(1, 8), bv(0, 8))
        elif isinstance(v, z3.BitVecRef) and v.size() < 8 * n:
            v = T.zext(v, 8 * n)
        # kill / split overlapping cells
        for o in [o for o, (s, _) in c.items() if o < p.off + n and o + s > p.off and not (o == p.off and s == n)]:
            s, ov = c.pop(o)
            if isinstance(ov, z3.BitVecRef):
                for i in range(s):
                    if not (p.off <= o + i < p.off + n):
                        c[o + i] = (1, T.trunc(T.lshr(ov, bv(8 * i, 8 * s)), 8))
            elif not (p.off <= o and o + s <= p.off + n):
                raise Unsupported('partial overwrite of pointer cell')
        c[p.off] = (n, v)

    # ------------------------------------------------------------- execution
    def loops_of(self, f):
        if f['name'] not in self.loopinfo:
            d = {}
            for l in f['loops']:
                d[l['header']] = set(l['blocks'])
            self.loopinfo[f['name']] = d
        return self.loopinfo[f['name']]

    def run(self, name, args, st):
        """execute function `name`; returns list of (state, return value)"""
        f = self.fns[name]
        saved = (st.env, st.blk, st.prev, st.fn)
        st = st.clone()
        st.env = {}
        for a, v in zip(f['args'], args):
            st.env[a['id']] = v
        st.fn = name
        outs = self.region(f, st, 0, None, None)
        res = []
        for kind, s, v in outs:
            if kind == 'ret':
                s.env, s.blk, s.prev, s.fn = saved
                s.env = dict(s.env)
                res.append((s, v))
            elif kind == 'unwind':
                s.env, s.blk, s.prev, s.fn = saved
                s.env = dict(s.env)
                s.ghost['unwind'] = True
                res.append((s, 'UNWIND'))
        return res

    def region(self, f, st, start, loop, header):
        """run from block `start`. loop: set of blocks of the enclosing loop being
        executed for one iteration (header = its header). Returns list of
        ('ret',st,v) | ('latch',st,None) | ('exit',st,None) with st.blk/prev set"""
        outs = []
        st.blk = start
        work = [st]
        loops = self.loops_of(f)
        first = True
        npaths = 0
        while work:
            s = work.pop()
            self.tick()
            b = s.blk
            if not first:
                if loop is not None:
                    if b == header:
                        outs.append(('latch', s, None))
                        continue
                    if b not in loop:
                        outs.append(('exit', s, None))
                        continue
                if b in loops and (s.prev is None or s.prev not in loops[b]):
                    for s2 in self.do_loop(f, s, b, loops[b]):
                        if isinstance(s2, tuple):
                            outs.append(s2)
                        else:
                            work.append(s2)
                    continue
            elif b in loops and loop is None:
                first = False
                for s2 in self.do_loop(f, s, b, loops[b]):
                    if isinstance(s2, tuple):
                        outs.append(s2)
                    else:
                        work.append(s2)
                continue
            skip_phi = first and loop is not None
            first = False
            try:
                r = self.block(f, s, b, skip_phi)
            except DeadPath:
                continue
            for x in r:
                if isinstance(x, tuple):
                    outs.append(x)
                    npaths += 1
                    if npaths > self.max_paths:
                        raise Budget('too many paths')
                else:
                    work.append(x)
        return outs

    def assign_phis(self, f, s, b):
        new = {}
        for ins in f['blocks'][b]:
            if ins['op'] != 'phi':
                break
            for pb, o in ins['inc']:
                if pb == s.prev:
                    new[ins['id']] = self.val(s, o)
                    break
            else:
                raise Unsupported('phi')
        s.env.update(new)

    def block(self, f, s, b, skip_phi=False):
        if not skip_phi:
            self.assign_phis(f, s, b)
        return self.insns(f, s, b, [i for i in range(len(f['blocks'][b])) if f['blocks'][b][i]['op'] != 'phi'][0])

    def goto(self, s, frm, to):
        s.prev = frm
        s.blk = to
        return s

    def branch(self, s, cond, b, t, e):
        """fork on cond. returns list of states"""
        cond = light(cond)
        if z3.is_true(cond):
            return [self.goto(s, b, t)]
        if z3.is_false(cond):
            return [self.goto(s, b, e)]
        if t == e:
            return [self.goto(s, b, t)]
        ft, mt = self.feasible(s, cond)
        nc = light(z3.Not(cond))
        if ft:
            fe, me = self.feasible(s, nc)
        else:
            fe, me = True, s.model
        out = []
        if ft and fe:
            s2 = s.clone()
            s2.pc.append(nc)
            s2.model = me
            s.pc.append(cond)
            s.model = mt
            self.stats['paths'] += 1
            return [self.goto(s, b, t), self.goto(s2, b, e)]
        if ft:
            return [self.goto(s, b, t)]
        return [self.goto(s, b, e)]

    def insns(self, f, s, b, start):
        blk = f['blocks'][b]
        for ii in range(start, len(blk)):
            ins = blk[ii]
            op = ins['op']
            if op == 'br':
                if 'cond' not in ins:
                    return [self.goto(s, b, ins['succ'][0])]
                c = self.tobool(self.val(s, ins['cond']))
                return self.branch(s, c, b, ins['succ'][0], ins['succ'][1])
            if op == 'switch':
                v = self.val(s, ins['cond'])
                outs = []
                cur = s
                rest = []
                for cv, tgt in ins['cases']:
                    k = self.const(cv)
                    c = z3.simplify(v == k) if not isinstance(v, z3.BoolRef) else z3.simplify(v == k)
                    fz, m = self.feasible(cur, c)
                    if fz:
                        s2 = cur.clone()
                        if not z3.is_true(c):
                            s2.pc.append(c)
                            s2.model = m
                        outs.append(self.goto(s2, b, tgt))
                        if z3.is_true(c):
                            return outs
                    nc = z3.simplify(z3.Not(c))
                    fz, m = self.feasible(cur, nc)
                    if not fz:
                        return outs
                    cur.pc.append(nc)
                    cur.model = m
                outs.append(self.goto(cur, b, ins['def']))
                return outs
            if op == 'ret':
                v = self.val(s, ins['ops'][0]) if ins['ops'] else None
                return [('ret', s, v)]
            if op == 'unreachable':
                self.oblige(s, 'assert', 'unreachable code is not reached', z3.BoolVal(False))
                return []
            if op == 'resume':
                return [('unwind', s, None)]
            if op == 'call':
                r = self.call(f, s, ins, b)
                if r is None:
                    return []
                nxt = []
                for (s2, v) in r:
                    if v is not None or ins['t'] == 'ptr':
                        if isinstance(v, str):
                            if 'unwind' in ins:
                                s2.ghost.pop('unwind', None)
                                nxt.append(self.goto(s2, b, ins['unwind']))
                            else:
                                nxt.append(('unwind', s2, None))
                            continue
                        s2.env[ins['id']] = v
                    if 'normal' in ins:
                        nxt.append(self.goto(s2, b, ins['normal']))
                    else:
                        nxt.append(s2)
                if 'normal' in ins:
                    return nxt
                if len(nxt) == 1 and not isinstance(nxt[0], tuple):
                    s = nxt[0]
                    continue
                out = []
                for s2 in nxt:
                    if isinstance(s2, tuple):
                        out.append(s2)
                        continue
                    try:
                        out.extend(self.insns(f, s2, b, ii + 1))
                    except DeadPath:
                        pass
                return out
            if op == 'select':
                c, x, y = [self.val(s, o) for o in ins['ops']]
                if isinstance(c, Vec):
                    s.env[ins['id']] = Vec([self.select(s, self.tobool(cc), p, q) for cc, p, q in zip(c.e, x.e, y.e)])
                    continue
                c = z3.simplify(self.tobool(c))
                try:
                    s.env[ins['id']] = self.select(s, c, x, y)
                except Unsupported:
                    # different provenance: fork
                    out = []
                    for (cc, v) in ((c, x), (z3.simplify(z3.Not(c)), y)):
                        fz, m = self.feasible(s, cc)
                        if fz:
                            s2 = s.clone()
                            s2.pc.append(cc)
                            s2.model = m
                            s2.env[ins['id']] = v
                            try:
                                out.extend(self.insns(f, s2, b, ii + 1))
                            except DeadPath:
                                pass
                    return out
                continue
            try:
                s.env[ins['id']] = self.simple(s, ins, op)
            except Fork as e:
                out = []
                for cc in (e.cond, light(z3.Not(e.cond))):
                    fz, m = self.feasible(s, cc)
                    if fz:
                        s2 = s.clone()
                        s2.pc.append(cc)
                        s2.model = m
                        self.stats['paths'] += 1
                        try:
                            out.extend(self.insns(f, s2, b, ii))
                        except DeadPath:
                            pass
                return out
        raise Unsupported('block without terminator')

    def tobool(self, v):
        if isinstance(v, z3.BoolRef):
            return v
        if isinstance(v, z3.BitVecRef) and v.size() == 1:
            return T.bv2b(v)
        raise Unsupported('boolean value')

    def select(self, s, c, x, y):
        if z3.is_true(c):
            return x
        if z3.is_false(c):
            return y
        if isinstance(x, z3.BoolRef):
            return z3.simplify(z3.If(c, x, y))
        if isinstance(x, z3.BitVecRef) and isinstance(y, z3.BitVecRef):
            return T.ite(c, x, y)
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.reg is y.reg:
            if x.reg.kind == 'words':
                return Ptr(x.reg, T.ite(c, x.off, y.off))
            if x.off == y.off:
                return x
        if x is None and y is None:
            return None
        raise Unsupported('select')

    # ---- single-result instructions
    def simple(self, s, ins, op):
        if op == 'load':
            v = self.load(s, self.val(s, ins['ops'][0]), ins['t'], ins)
            return v
        if op == 'store':
            self.store(s, self.val(s, ins['ops'][1]), self.val(s, ins['ops'][0]), ins['ops'][0]['t'])
            return None
        if op == 'getelementptr':
            return self.gep(s, ins)
        if op == 'alloca':
            t = ins['aty']
            n = ins['size']
            # arrays of words become word regions so that variable indices work
            r = None
            if t[0] == '[' and parse_int_type(self.elems(t)[0]) in (8, 16, 32, 64):
                es = parse_int_type(self.elems(t)[0]) // 8
                cnt = n // es
                r = Region('stack_array', 'words', es=es)
                r.readable = r.writable = (lambda idx, cnt=cnt: z3.ULT(idx, bv(cnt)))
                fn = z3.Function('stk!%d' % r.uid, z3.BitVecSort(64), z3.BitVecSort(8 * es))
                s.mem[r] = MInit(lambda w, fn=fn: fn(w))
                return Ptr(r, bv(0))
            r = Region('stack%d' % ins['id'], 'cells', size=n)
            return Ptr(r, 0)
        ops = [self.val(s, o) for o in ins['ops']] if 'ops' in ins else []
        if op == 'icmp':
            r = self.icmp(s, ins['pred'], ops[0], ops[1], ins)
            return r
        if op in ('zext', 'sext', 'trunc'):
            return self.cast(op, ops[0], ins['t'])
        if op == 'ptrtoint':
            w = parse_int_type(ins['t'])
            if w != 64:
                return T.trunc(self.as_int(s, PtrInt(ops[0])), w)
            return PtrInt(ops[0])
        if op == 'inttoptr':
            if isinstance(ops[0], PtrInt):
                return ops[0].p
            if T.is_const(ops[0]) and T.cval(ops[0]) == 0:
                return None
            raise Unsupported('inttoptr')
        if op == 'bitcast':
            return self.bitcast(ops[0], ins['ops'][0]['t'], ins['t'])
        if op == 'freeze':
            return ops[0]
        if op == 'extractvalue':
            v = ops[0]
            for i in ins['idx']:
                if isinstance(v, Undef):
                    return self.undef(ins['t'])
                v = v.e[i]
            return v
        if op == 'insertvalue':
            if len(ins['idx']) != 1:
                raise Unsupported('nested insertvalue')
            a = ops[0]
            e = list(a.e)
            e[ins['idx'][0]] = ops[1]
            return Agg(e)
        if op == 'extractelement':
            if not T.is_const(ops[1]):
                raise Unsupported('variable extractelement')
            return ops[0].e[T.cval(ops[1])]
        if op == 'insertelement':
            if not T.is_const(ops[2]):
                raise Unsupported('variable insertelement')
            e = list(ops[0].e)
            e[T.cval(ops[2])] = ops[1]
            return Vec(e)
        if op == 'shufflevector':
            a = ops[0].e
            n = len(a)
            b = ops[1].e if isinstance(ops[1], Vec) else [None] * n
            ew = self.elems(ins['t'])[0]
            return Vec([self.undef(ew) if i < 0 else (a[i] if i < n else b[i - n]) for i in ins['mask']])
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, b = ops
            if isinstance(a, Vec):
                return Vec([self.binop(s, op, x, y, ins) for x, y in zip(a.e, b.e)])
            r = self.binop(s, op, a, b, ins)
            if op in ('udiv', 'sdiv', 'urem', 'srem', 'lshr', 'ashr', 'and'):
                r = self.resolve(s, r)
            return r
        if op == 'landingpad':
            return Agg([Undef('ptr'), self.sym('lp', 32)])
        raise Unsupported('instruction ' + op)

    def cast(self, op, v, t):
        if t[0] == '<':
            et = self.elems(t)[0]
            return Vec([self.cast(op, x, et) for x in v.e])
        w = parse_int_type(t)
        if isinstance(v, PtrInt):
            v = self.as_int(None, v)
        if isinstance(v, z3.BoolRef):
            if op == 'zext':
                return T.ite(v, bv(1, w), bv(0, w))
            if op == 'sext':
                return T.ite(v, bv((1 << w) - 1, w), bv(0, w))
            raise Unsupported('trunc i1')
        if op == 'zext':
            return T.zext(v, w)
        if op == 'sext':
            return T.sext(v, w)
        if w == 1:
            return T.trunc(v, 1) == bv(1, 1)
        return T.trunc(v, w)

    def bitcast(self, v, tf, tt):
        if tf == tt:
            return v

        def tobits(v):
            if isinstance(v, Vec):
                e = []
                for x in v.e:
                    e.append(z3.If(x, bv(1, 1), bv(0, 1)) if isinstance(x, z3.BoolRef) else x)
                return e
            return [v]
        e = tobits(v)
        if tt[0] == '<':
            es = self.elems(tt)
            ew = parse_int_type(es[0])
            if ew == 1:
                whole = e[0] if len(e) == 1 else z3.Concat(*reversed(e))
                return Vec([z3.Extract(i, i, whole) == bv(1, 1) for i in range(len(es))])
            return self.revec(e, len(es), ew)
        w = parse_int_type(tt)
        if w is None:
            raise Unsupported('bitcast to ' + tt)
        whole = e[0] if len(e) == 1 else z3.Concat(*reversed(e))
        return z3.simplify(whole)

    def icmp(self, s, pred, a, b, ins):
        if isinstance(a, Vec):
            return Vec([self.icmp(s, pred, x, y, ins) for x, y in zip(a.e, b.e)])
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if isinstance(a, PtrInt) and isinstance(b, PtrInt):
                a, b = a.p, b.p
            else:
                a, b = self.as_int(s, a), self.as_int(s, b)
        pa, pb = isinstance(a, Ptr), isinstance(b, Ptr)
        if pa or pb or a is None or b is None or isinstance(a, Undef) or isinstance(b, Undef):
            if pa and pb and a.reg is b.reg:
                if a.reg.kind == 'words':
                    x, y = a.off, b.off
                    s.cmps.setdefault(ins['id'], []).append((pred, x, y))
                    return self.cmp(pred, x, y, signed=True)
                x, y = a.off, b.off
                r = {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred]
                return z3.BoolVal(r)
            if a is None and b is None:
                return z3.BoolVal(pred in ('eq', 'ule', 'uge'))
            if (pa and b is None) or (pb and a is None):
                p = a if pa else b
                if getattr(p.reg, 'maybe_null', None) is not None:
                    n = p.reg.maybe_null
                    return n if pred == 'eq' else z3.Not(n)
                if pred == 'eq':
                    return z3.BoolVal(False)
                if pred == 'ne':
                    return z3.BoolVal(True)
                if (pred in ('ugt', 'uge')) == pa:
                    return z3.BoolVal(True)
                return z3.BoolVal(False)
            if pa and pb:
                if pred == 'eq':
                    return z3.BoolVal(False)
                if pred == 'ne':
                    return z3.BoolVal(True)
                # unrelated order: nondeterministic but consistent through base addresses
                return self.cmp(pred, self.as_int(s, PtrInt(a)), self.as_int(s, PtrInt(b)))
            raise Unsupported('pointer comparison')
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            raise Unsupported('function pointer comparison')
        if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
            a, b = self.tobool(a), self.tobool(b)
            if pred == 'eq':
                return z3.simplify(a == b)
            if pred == 'ne':
                return z3.simplify(z3.Xor(a, b))
            if pred == 'ult':
                return z3.simplify(z3.And(z3.Not(a), b))
            if pred == 'ugt':
                return z3.simplify(z3.And(a, z3.Not(b)))
            raise Unsupported('i1 compare')
        s.cmps.setdefault(ins['id'], []).append((pred, a, b))
        return self.cmp(pred, a, b)

    @staticmethod
    def cmp(pred, a, b, signed=False):
        d = T.diffc(a, b)
        if d == 0:
            return z3.BoolVal(pred in ('eq', 'ule', 'uge', 'sle', 'sge'))
        if d is not None and pred in ('eq', 'ne'):
            return z3.BoolVal(pred == 'ne')
        if signed and pred[0] == 'u':
            pred = 's' + pred[1:]
        ra, rb = T.srange(a), T.srange(b)
        if pred[0] == 'u' and ra[0] >= 0 and rb[0] >= 0:
            spred = 's' + pred[1:]
        else:
            spred = pred
        if spred[0] == 's' or pred in ('eq', 'ne'):
            # decide by intervals of the difference when it cannot wrap
            dt = T.sub(a, b)
            lo, hi = T.lin_range(T.lin(dt))
            dec = None
            if spred in ('slt', 'sge'):
                dec = True if hi < 0 else (False if lo >= 0 else None)
                if dec is not None and spred == 'sge':
                    dec = not dec
            elif spred in ('sle', 'sgt'):
                dec = True if hi <= 0 else (False if lo > 0 else None)
                if dec is not None and spred == 'sgt':
                    dec = not dec
            elif (lo > 0 or hi < 0) and hi < 1 << (a.size() - 1) and lo >= -(1 << (a.size() - 1)):
                dec = pred == 'ne'
            if dec is not None:
                return z3.BoolVal(dec)
            # strip the common part of both sides
            f = T._full(a.size())
            if lo >= f[0] and hi <= f[1] and spred[0] == 's':
                la, lb = T.lin(a), T.lin(b)
                if set(la.d) & set(lb.d):
                    pos, neg = {}, {}
                    h = 1 << (la.w - 1)
                    l = T.lin(dt)
                    for x, v in l.d.items():
                        if v & h:
                            neg[x] = (-v) & T._mask(l.w)
                        else:
                            pos[x] = v
                    c = l.c - (1 << l.w) if l.c & h else l.c
                    p = T.Lin(l.w, pos, c if c > 0 else 0)
                    q = T.Lin(l.w, neg, -c if c < 0 else 0)
                    rp, rq = T.lin_range(p), T.lin_range(q)
                    if rp[0] >= f[0] and rp[1] <= f[1] and rq[0] >= f[0] and rq[1] <= f[1]:
                        a, b, pred = T.unlin(p), T.unlin(q), spred
        # canonicalise equalities through the linear form
        if pred in ('eq', 'ne'):
            la, lb = T.lin(a), T.lin(b)
            r = (T.unlin(la) == T.unlin(lb))
            r = r if pred == 'eq' else z3.Not(r)
        else:
            f = {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE,
                 'slt': lambda x, y: x < y, 'sle': lambda x, y: x <= y,
                 'sgt': lambda x, y: x > y, 'sge': lambda x, y: x >= y}[pred]
            r = f(a, b)
        if T.is_const(a) and T.is_const(b):
            return z3.simplify(r)
        return r

    def binop(self, s, op, a, b, ins):
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt):
                pa, pb = a.p, b.p
                if pa is None and pb is None:
                    return bv(0)
                if isinstance(pa, Ptr) and isinstance(pb, Ptr) and pa.reg is pb.reg:
                    if pa.reg.kind == 'words':
                        return T.mulc(T.sub(pa.off, pb.off), pa.reg.es)
                    return bv((pa.off - pb.off) & T.M64)
                raise Unsupported('difference of unrelated pointers')
            a, b = self.as_int(s, a), self.as_int(s, b)
        if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
            a, b = self.tobool(a), self.tobool(b)
            if op == 'and':
                return z3.simplify(z3.And(a, b))
            if op == 'or':
                return z3.simplify(z3.Or(a, b))
            if op in ('xor', 'add', 'sub'):
                return z3.simplify(z3.Xor(a, b))
            if op == 'mul':
                return z3.simplify(z3.And(a, b))
            raise Unsupported('i1 ' + op)
        if self.arith_hook is not None:
            r = self.arith_hook(self, s, op, a, b)
            if r is not None:
                return r
        w = a.size()
        if op == 'add':
            return T.add(a, b)
        if op == 'sub':
            return T.sub(a, b)
        if op == 'mul':
            for y in (a, b):
                if w == 64 and T.is_ite01(y) and not T.is_const(y) and not self.sol.lia.B(y.arg(0))[2]:
                    d = self.decide(s, y.arg(0))
                    if d is not None:
                        z = b if y is a else a
                        return z if d else bv(0, w)
            return T.mul(a, b)
        if op == 'and':
            return T.and_(a, b)
        if op == 'or':
            return T.or_(a, b)
        if op == 'xor':
            return T.xor_(a, b)
        if op in ('shl', 'lshr', 'ashr'):
            if T.is_const(b):
                if T.cval(b) >= w:
                    self.oblige(s, 'shift', 'shift amount below the operand width', z3.BoolVal(False))
                    return self.sym('poison', w)
            elif self.check_shift:
                self.oblige(s, 'shift', 'shift amount below the operand width', z3.ULT(b, bv(w, w)))
            if op == 'shl':
                return T.shl(a, b)
            if op == 'lshr':
                return T.lshr(a, b)
            if op == 'ashr' and T.is_const(b):
                r = self.exact_div(s, a, 1 << T.cval(b), ins)
                if r is not None:
                    return r
            return T.ashr(a, b)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if T.is_const(b) and T.cval(b) != 0:
                d = T.sval(b) if op[0] == 's' else T.cval(b)
                if T.is_const(a):
                    return z3.simplify({'udiv': z3.UDiv(a, b), 'sdiv': a / b, 'urem': z3.URem(a, b),
                                        'srem': z3.SRem(a, b)}[op])
                if d > 0 and d & (d - 1) == 0:
                    n = T.log2(d)
                    if op == 'udiv':
                        return T.lshr(a, bv(n, w))
                    if op == 'urem':
                        return T.and_(a, bv(d - 1, w))
                    if n == 0:
                        return a if op == 'sdiv' else bv(0, w)
                    if op == 'sdiv':
                        r = self.exact_div(s, a, d, ins)
                        if r is not None:
                            return r
                    neg = a < bv(0, w)
                    dec = False if T.nonneg(a) else self.decide(s, neg)
                    if dec is False:
                        if T.nonneg(a):
                            q = T.lshr(a, bv(n, w))
                            return q if op == 'sdiv' else T.and_(a, bv(d - 1, w))
                        q = T.ashr(a, bv(n, w))
                        return q if op == 'sdiv' else T.and_(a, bv(d - 1, w))
                    if dec is True and T.srange(a)[0] > -(1 << (w - 1)):
                        q = T.sub(bv(0, w), T.ashr(T.sub(bv(0, w), a), bv(n, w)))
                        return q if op == 'sdiv' else T.sub(a, T.mulc(q, d))
                    bias = T.lshr(T.ashr(a, bv(w - 1, w)), bv(w - n, w))
                    q = T.ashr(T.add(a, bias), bv(n, w))
                    if op == 'sdiv':
                        return q
                    return T.sub(a, T.mulc(q, d))
            else:
                self.oblige(s, 'arith', 'division by zero', b != bv(0, w))
            return {'udiv': z3.UDiv(a, b), 'sdiv': a / b, 'urem': z3.URem(a, b), 'srem': z3.SRem(a, b)}[op]
        raise Unsupported('binop ' + op)

    def clean(self, c):
        """free of loop counters and other introduced symbols"""
        import loops
        return not any('!' in n for n in loops.free_vars(c))

    def decide(self, s, c):
        """truth of c on this path; forks when both are possible (outside loop iterations)"""
        c = light(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        ft, mt = self.feasible(s, c)
        if not ft:
            return False
        fe, me = self.feasible(s, light(z3.Not(c)))
        if not fe:
            return True
        if self.fork_ok and self.clean(c):
            raise Fork(c)
        return None

    def resolve(self, s, t):
        """decide the constant-valued choices in the linear form of an index term"""
        for _ in range(4):
            y = T.choice(t)
            if y is None:
                return t
            d = self.decide(s, y.arg(0))
            if d is None:
                return t
            l = T.lin(t)
            v = l.d[y.get_id()]
            rest = T.unlin(T.Lin(l.w, {x: q for x, q in l.d.items() if x != y.get_id()}, l.c))
            r0 = T._reg.get(t.get_id())
            t = T.add(rest, T.mulc(y.arg(1) if d else y.arg(2), v))
        return t

    def exact_div(self, s, a, d, ins):
        """a / d for a linear form whose coefficients are all multiples of d, if no wrap is provable"""
        l = T.lin(a)
        if d == 1:
            return a
        if not l.d:
            return None

        def sg(c):
            return c - (1 << l.w) if c >> (l.w - 1) else c
        if any(sg(c) % d for c in l.d.values()) or sg(l.c) % d:
            return None
        m = (1 << l.w) - 1
        q = T.unlin(T.Lin(l.w, {x: (sg(c) // d) & m for x, c in l.d.items()}, (sg(l.c) // d) & m))
        if l.w != 64:
            return None
        if self.small_range(s, q, 62 - T.log2(d)):
            return q
        return None

    # ------------------------------------------------------------- calls
    def call(self, f, s, ins, b):
        callee = ins['callee']
        dem = ins.get('dem', '')
        if callee['k'] == 'asm':
            r = self.asm(s, ins)
            return r
        if callee['k'] == 'fn':
            name = callee['v']
        else:
            v = self.val(s, callee)
            if isinstance(v, FnPtr):
                name = v.name
            else:
                raise Unsupported('indirect call')
        for pred, handler in self.contracts:
            if pred(name, dem):
                args = [self.val(s, o) if o['k'] != 'meta' else None for o in ins['args']]
                self.contract_hits[dem or name] = self.contract_hits.get(dem or name, 0) + 1
                return handler(self, s, ins, args)
        if name == '__assert_fail':
            msg = 'assertion'
            try:
                msg = 'assert(%s)' % self.cstr(ins['args'][0])
            except Exception:
                pass
            self.oblige(s, 'assert', msg, z3.BoolVal(False))
            return None
        if name.startswith('llvm.'):
            return self.intrinsic(s, ins, name)
        if name in self.fns:
            args = [self.val(s, o) for o in ins['args']]
            return self.run(name, args, s)
        if name in ('memmove', 'memcpy'):
            a = [self.val(s, o) for o in ins['args']]
            self.memmove(s, a[0], a[1], a[2], name == 'memcpy')
            return [(s, a[0])]
        if name == 'memset':
            a = [self.val(s, o) for o in ins['args']]
            self.memset(s, a[0], T.trunc(a[1], 8), a[2])
            return [(s, a[0])]
        if name in ('bcmp', 'memcmp'):
            a = [self.val(s, o) for o in ins['args']]
            return self.memcmp(s, a[0], a[1], a[2], ins)
        if ins.get('noret') or name in ('_ZSt9terminatev', 'abort', '__clang_call_terminate'):
            if 'throw' in name or name.startswith('_ZSt') and 'throw' in name:
                s.ghost['thrown'] = name
                return [(s, 'UNWIND')]
            self.oblige(s, 'assert', 'call to noreturn %s' % name, z3.BoolVal(False))
            return None
        raise Unsupported('call to ' + (dem or name))

    def cstr(self, o):
        g = self.globals[o['v']]
        return ''.join(chr(int(x['v'])) for x in g['init']['e'] if int(x['v']))

    def bytes_to_words(self, s, n, es):
        if es == 1:
            return n
        if T.is_const(n):
            if T.cval(n) % es:
                raise Unsupported('partial word memmove')
            return bv(T.cval(n) // es)
        l = T.lin(n)

        def sg(c):
            return c - (1 << 64) if c >> 63 else c
        if all(sg(c) % es == 0 for c in l.d.values()) and sg(l.c) % es == 0:
            q = T.unlin(T.Lin(64, {x: (sg(c) // es) & T.M64 for x, c in l.d.items()}, (sg(l.c) // es) & T.M64))
            # n = q*es mod 2^64; equal as unsigned count iff q < 2^64/es
            if self.valid(s, z3.ULT(q, bv(1 << (63 - T.log2(es)))), 5000):
                return q
        if self.valid(s, T.and_(n, bv(es - 1)) == bv(0), 5000):
            return T.lshr(n, bv(T.log2(es)))
        raise Unsupported('partial word memory operation')

    def range_ok(self, s, reg, off, n, what, pred, kind='memory'):
        if pred is None:
            return
        j = self.sym('j')
        # every word of [off, off+n) accessible; quantified by fresh j
        s2 = s
        goal = z3.Implies(z3.ULT(T.sub(j, off), n), pred(j))
        if self.mode == 'guess':
            return
        t0 = time.time()
        r, m = self.prove(s2, goal)
        status = {'unsat': 'discharged', 'sat': 'refuted', 'unknown': 'unknown'}[r]
        self.obls.append(Obligation(kind, what, status, m, s if r != 'unsat' else None, time.time() - t0, goal))
        if r != 'unsat' and self.log:
            self.log('  OBL memory %s: %s' % (what, status))

    def memmove(self, s, d, src, n, nooverlap=False):
        if T.is_const(n) and T.cval(n) == 0:
            return
        if (d is None or src is None or isinstance(d, Undef) or isinstance(src, Undef)):
            if self.valid(s, n == bv(0)):
                return
            raise Unsupported('memmove on null')
        if d.reg.kind == 'cells' or src.reg.kind == 'cells':
            if d.reg.kind == 'cells' and src.reg.kind == 'cells' and T.is_const(n):
                self.copy_cells(s, d, src, T.cval(n))
                return
            if T.is_const(n) and T.cval(n) <= 64:
                # small copy between cells and words through bytes/words
                es = (d.reg.es or src.reg.es)
                k = T.cval(n)
                if k % es == 0:
                    t = 'i%d' % (8 * es)
                    vals = [self.load(s, self.gep_bytes(src, i), t) for i in range(0, k, es)]
                    for i, v in enumerate(vals):
                        self.store(s, self.gep_bytes(d, i * es), v, t)
                    return
            raise Unsupported('memmove on cell object')
        if d.reg.es != src.reg.es:
            raise Unsupported('memmove between word sizes')
        q = self.bytes_to_words(s, n, d.reg.es)
        self.range_ok(s, src.reg, src.off, q, 'memmove source inside accessible words of %s' % src.reg.name, self.readable(s, src.reg))
        self.range_ok(s, d.reg, d.off, q, 'memmove destination inside writable words of %s' % d.reg.name, self.writable(s, d.reg))
        if nooverlap and d.reg is src.reg:
            self.oblige(s, 'memory', 'memcpy ranges do not overlap',
                        z3.Or(q == bv(0), z3.UGE(T.sub(d.off, src.off), q), z3.UGE(T.sub(src.off, d.off), q)))
        s.stores.append((d.reg, 'bulk', d.off, q))
        s.mem[d.reg] = MCopy(s.mem[d.reg], d.off, q, s.mem[src.reg], src.off)

    def copy_cells(self, s, d, src, n):
        c = self.cells_of(s, src.reg)
        moved = [(o, sz, v) for o, (sz, v) in c.items() if src.off <= o and o + sz <= src.off + n]
        part = [o for o, (sz, v) in c.items() if o < src.off + n and o + sz > src.off and not (src.off <= o and o + sz <= src.off + n)]
        if part:
            raise Unsupported('partial cell copy')
        dc = self.cells_of(s, d.reg)
        for o in [o for o, (sz, _) in dc.items() if o < d.off + n and o + sz > d.off]:
            sz, v = dc[o]
            if not (d.off <= o and o + sz <= d.off + n):
                raise Unsupported('partial cell copy')
            dc.pop(o)
        for o, sz, v in moved:
            dc[d.off + (o - src.off)] = (sz, v)

    def memset(self, s, d, byte, n):
        if T.is_const(n) and T.cval(n) == 0:
            return
        if d is None or isinstance(d, Undef):
            if self.valid(s, n == bv(0)):
                return
            raise Unsupported('memset on null')
        if d.reg.kind == 'cells':
            if not T.is_const(n):
                raise Unsupported('memset cells')
            k = T.cval(n)
            off = 0
            while off < k:
                step = 8 if k - off >= 8 else 1
                v = z3.simplify(z3.Concat(*[byte] * 8)) if step == 8 else byte
                self.store_cell(s, Ptr(d.reg, d.off + off), v, 'i%d' % (8 * step))
                off += step
            return
        q = self.bytes_to_words(s, n, d.reg.es)
        self.range_ok(s, d.reg, d.off, q, 'memset destination inside writable words of %s' % d.reg.name, self.writable(s, d.reg))
        v = byte if d.reg.es == 1 else z3.simplify(z3.Concat(*[byte] * d.reg.es))
        s.stores.append((d.reg, 'bulk', d.off, q))
        s.mem[d.reg] = MFill(s.mem[d.reg], d.off, q, v)

    def memcmp(self, s, a, b, n, ins):
        """bcmp/memcmp used only as an equality test: 0 iff all words equal."""
        w = 32
        if a is None or b is None or isinstance(a, Undef) or isinstance(b, Undef):
            if self.valid(s, n == bv(0)):
                return [(s, bv(0, w))]
            raise Unsupported('memcmp on null')
        if a.reg.kind != 'words' or b.reg.kind != 'words' or a.reg.es != b.reg.es:
            raise Unsupported('memcmp operands')
        q = self.bytes_to_words(s, n, a.reg.es)
        self.range_ok(s, a.reg, a.off, q, 'memcmp reads inside accessible words of %s' % a.reg.name, self.readable(s, a.reg))
        self.range_ok(s, b.reg, b.off, q, 'memcmp reads inside accessible words of %s' % b.reg.name, self.readable(s, b.reg))
        ma, mb = s.mem[a.reg], s.mem[b.reg]
        # equal outcome
        out = []
        k = self.sym('kcmp')
        s1 = s.clone()
        cond = self.read(ma, T.add(a.off, k)) == self.read(mb, T.add(b.off, k))
        s1.facts.append(Fact(k, q, cond, [(a.reg, a.off, 1), (b.reg, b.off, 1)]))
        out.append((s1, bv(0, w)))
        # unequal outcome: witness word
        s2 = s.clone()
        j = self.sym('jcmp')
        c = z3.And(z3.ULT(j, q), self.read(ma, T.add(a.off, j)) != self.read(mb, T.add(b.off, j)))
        fz, m = self.feasible(s2, c)
        if fz:
            s2.pc.append(c)
            s2.model = m
            r = self.sym('cmp', w)
            s2.pc.append(r != bv(0, w))
            s2.model = None
            s2.ghost['witness'] = s2.ghost.get('witness', ()) + ((a.reg, T.add(a.off, j)), (b.reg, T.add(b.off, j)))
            s2.reads.append((a.reg, T.add(a.off, j)))
            out.append((s2, r))
        return out

    def asm(self, s, ins):
        raise Unsupported('inline asm')

    def intrinsic(self, s, ins, name):
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.invariant',
                            'llvm.donothing', 'llvm.prefetch')):
            return [(s, None)]
        a = [self.val(s, o) if o['k'] != 'meta' else None for o in ins['args']]
        if name.startswith('llvm.is.constant'):
            return [(s, z3.BoolVal(False))]
        if name.startswith('llvm.expect'):
            return [(s, a[0])]
        if name.startswith(('llvm.memmove', 'llvm.memcpy')):
            self.memmove(s, a[0], a[1], a[2], 'memcpy' in name)
            return [(s, None)]
        if name.startswith('llvm.memset'):
            self.memset(s, a[0], a[1], a[2])
            return [(s, None)]
        base = name.split('.')[1]
        if base in ('umin', 'umax', 'smin', 'smax', 'abs'):
            x, y = a[0], a[1]
            if base == 'abs':
                return [(s, T.ite(x < bv(0, x.size()), T.sub(bv(0, x.size()), x), x))]
            f = {'umin': z3.ULT, 'umax': z3.UGT, 'smin': lambda p, q: p < q, 'smax': lambda p, q: p > q}[base]

            def mm(p, q):
                return T.ite(f(p, q), p, q)
            if isinstance(x, Vec):
                return [(s, Vec([mm(p, q) for p, q in zip(x.e, y.e)]))]
            return [(s, mm(x, y))]
        if base == 'cttz':
            return [(s, self.vmap(self.cttz, a[0]))]
        if base == 'ctlz':
            return [(s, self.vmap(self.ctlz, a[0]))]
        if base == 'ctpop' and self.pop_hook is not None and not isinstance(a[0], Vec) and not T.is_const(a[0]):
            return [(s, self.pop_hook(self, s, a[0]))]
        if base == 'ctpop':
            return [(s, self.vmap(popcount, a[0]))]
        if base == 'bswap':
            x = a[0]
            n = x.size() // 8
            return [(s, z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(n)]))]
        if base == 'bitreverse':
            x = a[0]
            return [(s, z3.Concat(*[z3.Extract(i, i, x) for i in range(x.size())]))]
        if base in ('fshl', 'fshr'):
            x, y, c = a
            w = x.size()
            c = T.and_(c, bv(w - 1, w))
            cc = z3.Concat(x, y)
            if base == 'fshl':
                return [(s, z3.Extract(2 * w - 1, w, cc << z3.ZeroExt(w, c)))]
            return [(s, z3.Extract(w - 1, 0, z3.LShR(cc, z3.ZeroExt(w, c))))]
        if name.startswith('llvm.uadd.with.overflow') or name.startswith('llvm.usub.with.overflow'):
            x, y = a
            if 'uadd' in name:
                r = T.add(x, y)
                o = z3.ULT(r, x)
            else:
                r = T.sub(x, y)
                o = z3.ULT(x, y)
            return [(s, Agg([r, o]))]
        if name.startswith('llvm.umul.with.overflow'):
            x, y = a
            w = x.size()
            p = z3.ZeroExt(w, x) * z3.ZeroExt(w, y)
            return [(s, Agg([T.mul(x, y), z3.Extract(2 * w - 1, w, p) != bv(0, w)]))]
        if name in ('llvm.x86.addcarry.64', 'llvm.x86.addcarry.32'):
            c, x, y = a
            w = x.size()
            t = T.zext(x, w + 1) + T.zext(y, w + 1) + T.ite(c != bv(0, 8), bv(1, w + 1), bv(0, w + 1))
            return [(s, Agg([z3.ZeroExt(7, z3.Extract(w, w, t)), z3.Extract(w - 1, 0, t)]))]
        if name in ('llvm.x86.subborrow.64', 'llvm.x86.subborrow.32'):
            c, x, y = a
            w = x.size()
            t = T.zext(x, w + 1) - T.zext(y, w + 1) - T.ite(c != bv(0, 8), bv(1, w + 1), bv(0, w + 1))
            return [(s, Agg([z3.ZeroExt(7, z3.Extract(w, w, t)), z3.Extract(w - 1, 0, t)]))]
        if name in ('llvm.trap', 'llvm.ubsantrap', 'llvm.debugtrap'):
            self.oblige(s, 'assert', 'trap is not reached', z3.BoolVal(False))
            return None
        if name.startswith('llvm.x86.sse2.pmovmskb') or name.startswith('llvm.x86.sse2.movmsk') or \
                name.startswith('llvm.x86.sse.movmsk'):
            x = a[0]
            bits = [z3.Extract(e.size() - 1, e.size() - 1, e) for e in x.e]
            r = z3.Concat(*reversed(bits)) if len(bits) > 1 else bits[0]
            return [(s, T.zext(r, 32))]
        if name.startswith('llvm.eh.typeid'):
            return [(s, self.sym('typeid', 32))]
        if name in ('llvm.x86.sse2.psrl.q', 'llvm.x86.sse2.psrl.d', 'llvm.x86.sse2.psrl.w',
                    'llvm.x86.sse2.psll.q', 'llvm.x86.sse2.psll.d', 'llvm.x86.sse2.psll.w'):
            x, cnt = a
            w = x.e[0].size()
            # count = low 64 bits of the second operand
            f = 64 // cnt.e[0].size()
            c64 = cnt.e[0] if f == 1 else z3.Concat(*reversed(cnt.e[:f]))
            c64 = z3.simplify(c64)
            big = z3.UGE(c64, bv(w, 64))
            cw = T.trunc(c64, w)
            if 'psrl' in name:
                return [(s, Vec([T.ite(big, bv(0, w), z3.LShR(e, cw)) for e in x.e]))]
            return [(s, Vec([T.ite(big, bv(0, w), e << cw) for e in x.e]))]
        raise Unsupported('intrinsic ' + name)

    @staticmethod
    def vmap(f, v):
        if isinstance(v, Vec):
            return Vec([f(x) for x in v.e])
        return f(v)

    @staticmethod
    def cttz(x):
        w = x.size()
        r = bv(w, w)
        # log-step
        return tz(x)

    @staticmethod
    def ctlz(x):
        return lz(x)

    # ------------------------------------------------------------- loops
    def do_loop(self, f, s, hdr, blocks):
        import loops
        return loops.do_loop(self, f, s, hdr, blocks)


def light(c):
    """constant folding only: keeps the term structure when it is not constant"""
    r = z3.simplify(c)
    if z3.is_true(r) or z3.is_false(r):
        return r
    return c


class DeadPath(Exception):
    pass


def popcount(x):
    w = x.size()
    r = bv(0, w)
    if T.is_const(x):
        return bv(bin(T.cval(x)).count('1'), w)
    # pairwise tree
    parts = [z3.ZeroExt(w - 1, z3.Extract(i, i, x)) for i in range(w)]
    while len(parts) > 1:
        parts = [parts[i] + parts[i + 1] if i + 1 < len(parts) else parts[i] for i in range(0, len(parts), 2)]
    return parts[0]


def tz(x):
    """trailing zeros, w when zero"""
    w = x.size()
    r = bv(w, w)
    for i in range(w - 1, -1, -1):
        r = z3.If(z3.Extract(i, i, x) == bv(1, 1), bv(i, w), r)
    return r


def lz(x):
    w = x.size()
    r = bv(w, w)
    for i in range(w):
        r = z3.If(z3.Extract(i, i, x) == bv(1, 1), bv(w - 1 - i, w), r)
    return r
