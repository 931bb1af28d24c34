"""Loop contracts: inferred from the loop's own code, then checked as proof
obligations (initiation by construction at k=0, consecution for a symbolic
iteration number k, no bound on the number of iterations).

For a loop with header variables x (SSA header values and stack cells) the
contract is, for iteration number k:
   x == form(k)              (invariant / affine / ghost prefix sum / havoc)
   k <= K_j                  (bounds taken from the comparisons of the loop)
   memory == memory at entry overwritten by the closed form of k iterations
   forall i<k. the branch conditions that let iteration i continue held
The variant K - k proves termination."""
import z3
import terms as T
from terms import bv
import sym as SY
from sym import (Unsupported, Reject, Ptr, PtrInt, Undef, FnPtr, Agg, Vec, MLoop, LStore, Fact, Obligation)


def convert(outs):
    r = []
    for k, s, v in outs:
        if k == 'exit':
            r.append(s)
        elif k in ('ret', 'unwind'):
            r.append((k, s, v))
    return r


def free_vars(t, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    acc.add(x.decl().name())
            else:
                stack.extend(x.children())
    return acc


def fresh_in(t, mark, allow=()):
    """names of symbols created after `mark` occurring in t"""
    out = set()
    for n in free_vars(t):
        if '!' in n:
            try:
                q = int(n.rsplit('!', 1)[1])
            except ValueError:
                continue
            if q > mark and n not in allow:
                out.add(n)
    return out


class Var:
    """a loop-carried variable: header phi (key ('phi',id)) or stack cell (('cell',reg,off,size))"""

    def __init__(self, key, x0):
        self.key = key
        self.x0 = x0
        self.form = None     # 'inv','aff','sum','havoc','const'
        self.c = 0
        self.hv = None
        self.sum = None

    def at(self, E, k):
        if self.form == 'inv':
            return self.x0
        if self.form == 'aff':
            if isinstance(self.x0, Ptr):
                if self.x0.reg.kind == 'words':
                    return Ptr(self.x0.reg, T.add(self.x0.off, T.mulc(k, self.c)))
                raise Unsupported('affine pointer into a stack object')
            w = self.x0.size()
            kk = k if w == 64 else (T.trunc(k, w) if w < 64 else T.zext(k, w))
            return T.add(self.x0, T.mulc(kk, self.c))
        if self.form == 'sum':
            return T.add(self.x0, self.sum(k))
        if self.form == 'havoc':
            return self.hv
        raise Unsupported('form')


def delta(a, b):
    """b - a when comparable"""
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.reg is not b.reg:
            return None
        if a.reg.kind != 'words':
            return bv((b.off - a.off) & T.M64)
        return T.sub(b.off, a.off)
    if isinstance(a, z3.BitVecRef) and isinstance(b, z3.BitVecRef):
        return T.sub(b, a)
    return None


def same(E, s, a, b):
    """is a == b valid in state s"""
    if a is b:
        return True
    if isinstance(a, (Undef,)):
        return True
    if isinstance(a, PtrInt) and isinstance(b, PtrInt):
        return same(E, s, a.p, b.p)
    if isinstance(a, (Agg, Vec)) and isinstance(b, (Agg, Vec)):
        return all(same(E, s, x, y) for x, y in zip(a.e, b.e))
    if isinstance(a, FnPtr) and isinstance(b, FnPtr):
        return a.name == b.name
    if isinstance(a, z3.BoolRef) and isinstance(b, z3.BoolRef):
        return E.valid(s, z3.simplify(a == b))
    d = delta(a, b)
    if d is None:
        return False
    if T.is_const(d):
        return T.cval(d) == 0
    return E.valid(s, d == bv(0, d.size()))


def const_delta(E, s, a, b):
    """signed constant c with b - a == c valid in s, or None"""
    d = delta(a, b)
    if d is None:
        return None
    if T.is_const(d):
        return T.sval(d)
    w = d.size()
    m = s.model
    if m is None:
        r, m = E.sol.check(s.pc)
        if r != 'sat':
            return None
    c = m.eval(d, model_completion=True)
    if E.valid(s, d == c):
        return c.as_signed_long()
    return None


def havoc(E, x0):
    if isinstance(x0, Ptr):
        if x0.reg.kind != 'words':
            raise Unsupported('loop pointer into a stack object')
        return Ptr(x0.reg, E.sym('hv'))
    if isinstance(x0, z3.BoolRef):
        E.fresh += 1
        return z3.Bool('hvb!%d' % E.fresh)
    if isinstance(x0, z3.BitVecRef):
        return E.sym('hv', x0.size())
    if isinstance(x0, Vec):
        return Vec([havoc(E, x) for x in x0.e])
    if isinstance(x0, Agg):
        return Agg([havoc(E, x) for x in x0.e])
    if isinstance(x0, Undef):
        return x0
    raise Unsupported('loop variable of unknown kind')


def header_phis(f, hdr):
    return [i for i in f['blocks'][hdr] if i['op'] == 'phi']


def latch_vals(E, f, hdr, vars_, s):
    """values of the loop variables after an iteration that ended in state s (positioned at the header)"""
    out = {}
    for ins in header_phis(f, hdr):
        for pb, o in ins['inc']:
            if pb == s.prev:
                out[('phi', ins['id'])] = E.val(s, o)
                break
    for v in vars_:
        if v.key[0] == 'cell':
            _, reg, off, size = v.key
            c = s.cells.get(reg, {}).get(off)
            out[v.key] = c[1] if c is not None and c[0] == size else None
    return out


def set_vars(E, s, vars_, k):
    for v in vars_:
        x = v.at(E, k)
        if v.key[0] == 'phi':
            s.env[v.key[1]] = x
        else:
            _, reg, off, size = v.key
            s.cells.setdefault(reg, {})[off] = (size, x)


def merge(E, base, states, ids):
    """if-conversion: merge states that differ only in register values `ids`"""
    if len(states) == 1:
        return states[0]
    p = len(base.pc)
    for s in states:
        if s.pc[:p] != base.pc[:p] and any(not a.eq(b) for a, b in zip(s.pc[:p], base.pc[:p])):
            return None
        for r, m in s.mem.items():
            if states[0].mem.get(r) is not m:
                return None
        if len(s.facts) != len(base.facts):
            return None
        for r, c in s.cells.items():
            c0 = states[0].cells.get(r)
            if c0 is None or set(c) != set(c0) or any(c[o] is not c0[o] for o in c):
                return None
    conds = [z3.And(s.pc[p:]) if len(s.pc) > p else z3.BoolVal(True) for s in states]
    res = states[-1].clone()
    for i in ids:
        vals = [s[1][i] for s in zip(states, [q for q in ids_vals(states, ids)])]
        v = vals[-1]
        for c, x in zip(conds[:-1][::-1], vals[:-1][::-1]):
            if isinstance(v, Undef) or v is x:
                v = x
                continue
            try:
                v = E.select(None, z3.simplify(c), x, v)
            except Unsupported:
                return None
        res.env[i] = v
    d = z3.simplify(z3.Or(conds))
    res.pc = list(base.pc[:p]) + ([] if z3.is_true(d) else [d])
    res.model = states[0].model
    return res


def ids_vals(states, ids):
    for s in states:
        yield s.env


def advance(E, f, hdr, s):
    """assign the header phis for the next iteration"""
    E.assign_phis(f, s, hdr)


def pcgrew(base, s):
    return len(s.pc) > len(base.pc)


def unroll(E, f, st, hdr, blocks, limit, const_only):
    """execute iterations one after another. Complete when it ends. const_only: stop (None)
    when some iteration's continuation depends on data."""
    n0 = len(E.obls)
    res = []
    ids = [i['id'] for i in header_phis(f, hdr)]
    cur = [st]
    for it in range(limit):
        nxt = []
        ex = 0
        for s in cur:
            outs = E.region(f, s.clone(), hdr, blocks, hdr)
            lat = [q for k, q, _ in outs if k == 'latch']
            oth = convert([o for o in outs if o[0] != 'latch'])
            if const_only and lat and oth:
                del E.obls[n0:]
                return None
            res.extend(oth)
            for q in lat:
                advance(E, f, hdr, q)
            if len(lat) > 1:
                m = merge(E, s, lat, ids)
                if m is not None:
                    lat = [m]
            nxt.extend(lat)
        if not nxt:
            E.stats['unrolled'] += 1
            return res
        if len(nxt) > 64:
            break
        if const_only and it >= 1 and len(nxt) == 1 and not loop_is_concrete(E, f, hdr, nxt[0]):
            pass
        cur = nxt
    del E.obls[n0:]
    if const_only:
        return None
    raise Unsupported('loop does not end within %d iterations' % limit)


def loop_is_concrete(E, f, hdr, s):
    return True


def do_loop(E, f, st, hdr, blocks):
    E.tick()
    st = st.clone()
    E.assign_phis(f, st, hdr)
    mark = E.fresh
    n0 = len(E.obls)
    base_len = len(st.pc)
    if E.user_loop is not None:
        L = E.user_loop(E, f, hdr, st, [(i['id'], st.env[i['id']]) for i in header_phis(f, hdr)])
        if isinstance(L, list):
            for c in L[:-1]:
                E.spec += 1
                tr, mode = E.trial, E.mode
                E.trial = True
                try:
                    r = contract_loop(E, f, st.clone(), hdr, blocks, c)
                    ok = all(o.status == 'discharged' for o in E.obls[n0:])
                except (Unsupported, Reject) as e:
                    ok = False
                    if E.log:
                        E.log('  loop contract rejected: %s' % e)
                finally:
                    E.spec -= 1
                    E.trial, E.mode = tr, mode
                if ok:
                    return r
                del E.obls[n0:]
            L = L[-1] if L else None
        if L is not None:
            return contract_loop(E, f, st, hdr, blocks, L)
    E.spec += 1
    try:
        return plain_loop(E, f, st, hdr, blocks, mark, n0)
    finally:
        E.spec -= 1


def plain_loop(E, f, st, hdr, blocks, mark, n0):
    # ---- iteration 0
    outs = E.region(f, st.clone(), hdr, blocks, hdr)
    lat0 = [s for k, s, _ in outs if k == 'latch']
    if not lat0:
        return convert(outs)
    # ---- continuation decided without data: constant trip count
    if all(k == 'latch' for k, _, _ in outs) and not any(cond_symbolic(E, f, hdr, blocks, s, st) for s in lat0):
        del E.obls[n0:]
        r = unroll(E, f, st, hdr, blocks, E.unroll_limit, True)
        if r is not None:
            return r
    else:
        del E.obls[n0:]
    saved_mode = E.mode
    try:
        return symbolic(E, f, st, hdr, blocks, lat0, mark)
    except Unsupported as e:
        E.mode = saved_mode
        del E.obls[n0:]
        E.loop_notes.append('%s loop@%d: %s; tried unrolling' % (f['name'], hdr, e))
        hook = E.loop_hook
        if hook is not None:
            r = hook(E, f, st, hdr, blocks, lat0, mark)
            if r is not None:
                return r
        if E.unroll_fallback:
            try:
                return unroll(E, f, st, hdr, blocks, E.unroll_limit, False)
            except Unsupported:
                raise e
        raise


class LoopContract:
    """invariant, ghost variables and variant supplied by a task for one loop.  vals = values of the loop-header
    variables in order, g = ghost values.  All of it is checked: entry, preservation, variant."""
    ghosts = ()

    def vals(self, g):
        """closed form of the header variables in terms of the ghosts (None: havoc)"""
        return None

    def inv(self, v, g):
        return []

    def lemmas(self, v, g):
        """instances of the defining equations of the specification functions"""
        return []

    def step(self, v, g, nv):
        return g

    def mem(self, v, g):
        return {}

    def bits(self, g):
        """content of the bit memory (flat index -> bit) kept by tasks that model memory by flat bits"""
        return None

    def enter(self, s, g):
        pass

    def heap(self, s, g):
        """invariant of objects in memory: [(name, goal, extra facts[, bit position of the data read])]"""
        return []

    def owned(self, s):
        """regions described by heap(); everything else must be left as it is"""
        return ()

    def fresh(self, E):
        return [E.sym('gh', x.size()) for x in self.ghosts]


def contract_loop(E, f, st, hdr, blocks, L):
    E.stats['loops'] += 1
    ids = [i['id'] for i in header_phis(f, hdr)]
    x0 = [st.env[i] for i in ids]
    g0 = list(L.ghosts)

    def check(s, v, g, what):
        s = s.clone()
        s.pc = s.pc + [c for c in L.lemmas(v, g)]
        s.model = None
        for n, c in enumerate(L.inv(v, g)):
            E.oblige(s, 'loop', 'loop invariant %d of %s %s' % (n, f['name'], what), c)
        want = L.vals(g)
        if want is not None:
            for n, (a, b) in enumerate(zip(want, v)):
                if a is not None:
                    goal = z3.BoolVal(False)
                    d = delta(a, b)
                    if d is not None:
                        goal = d == bv(0, d.size())
                    E.oblige(s, 'loop', 'loop variable %d of %s %s' % (n, f['name'], what), goal)
        for name, goal, extra, *at in L.heap(s, g):
            q = s.clone()
            q.pc = q.pc + list(extra)
            q.model = None
            E.oblige_data(q, 'loop', 'loop invariant of %s: %s %s' % (f['name'], name, what), goal, at[0] if at else None)
        fm = L.bits(g)
        if fm is not None:
            i = z3.ZeroExt(2, z3.BitVec('i!inv', 62))
            E.oblige(s, 'loop', 'content of the range in %s %s' % (f['name'], what), s.ghost['fm'](i) == fm(i))
        if E.mode != 'guess':
            for reg, node in L.mem(v, g).items():
                w = E.sym('w')
                E.oblige_word(s.clone(), 'loop', 'memory invariant of %s %s (%s)' % (f['name'], what, reg.name), E.read(s.mem[reg], w, s), E.read(node, w, None))
    check(st, x0, g0, 'on entry')
    s = st.clone()
    s.model = None
    g = L.fresh(E)
    v = L.vals(g)
    hv = [havoc(E, x) for x in x0]
    v = hv if v is None else [b if a is None else a for a, b in zip(v, hv)]
    for i, x in zip(ids, v):
        s.env[i] = x
    s.pc = s.pc + L.lemmas(v, g) + L.inv(v, g)
    for reg, node in L.mem(v, g).items():
        s.mem[reg] = node
    L.enter(s, g)
    nb = s.clone()
    outs = E.region(f, s, hdr, blocks, hdr)
    vr = L.variant(v, g)
    own0 = set(L.owned(nb))
    for kd, q, _ in outs:
        if kd != 'latch':
            for reg in L.mem(v, g):
                q.stores.append((reg, 'bulk', None, None))
            continue
        own = own0 | set(L.owned(q))
        for key, n in nb.ghost.items():
            if isinstance(key, tuple) and key[0] == 'words' and key[1] not in own and q.ghost.get(key) is not n:
                raise Unsupported('storage without invariant resized in the loop')
        for reg, m in q.mem.items():
            if reg in nb.mem and nb.mem[reg] is not m and reg not in L.mem(v, g) and reg not in own:
                raise Unsupported('memory without invariant written in the loop')
        for reg, c in nb.cells.items():
            if reg in own:
                continue
            if reg not in q.cells or any(q.cells[reg].get(o, (0, 0))[1] is not y for o, (z, y) in c.items()):
                raise Unsupported('stack object without invariant written in the loop')
        E.assign_phis(f, q, hdr)
        nv = [q.env[i] for i in ids]
        ng = L.step(v, g, nv)
        check(q, nv, ng, 'is preserved')
        E.oblige(q, 'variant', 'variant of the loop in %s decreases' % f['name'], z3.ULT(L.variant(nv, ng), vr))
    return convert(outs)


def cond_symbolic(E, f, hdr, blocks, lat, st):
    """did any comparison deciding the loop exit involve symbolic data?"""
    for b in blocks:
        t = f['blocks'][b][-1]
        if t['op'] == 'br' and 'cond' in t and any(x not in blocks for x in t['succ']):
            o = t['cond']
            if o['k'] == 'v':
                v = lat.env.get(o['id'])
                if v is None:
                    continue
                v = z3.simplify(E.tobool(v))
                if not (z3.is_true(v) or z3.is_false(v)):
                    return True
    return False


def lin_k(t, k):
    """(coefficient of k signed, rest term) if t is linear in k with the rest free of k"""
    l = T.lin(t)
    kid = k.get_id()
    c = l.d.get(kid, 0)
    rest = T.unlin(T.Lin(l.w, {x: v for x, v in l.d.items() if x != kid}, l.c))
    if k.decl().name() in free_vars(rest):
        return None
    if c >> (l.w - 1):
        c -= 1 << l.w
    return c, rest


def bound_candidates(E, lats, k, st):
    out = []
    seen = set()
    for s in lats:
        for cid, lst in s.cmps.items():
            for (pred, a, b) in lst:
                if not isinstance(a, z3.BitVecRef) or a.size() != 64:
                    continue
                r = lin_k(T.sub(a, b), k)
                if r is None or r[0] == 0:
                    continue
                c, d0 = r
                ac = abs(c)
                if ac & (ac - 1):
                    continue
                if c > 0:
                    d0 = T.sub(bv(0), d0)
                for extra in (0, ac, ac - 1):
                    num = T.add(d0, bv(extra))
                    K = T.lshr(num, bv(T.log2(ac))) if ac > 1 else num
                    if fresh_in(K, E.loop_mark):
                        continue
                    key = K.get_id()
                    if key in seen:
                        continue
                    seen.add(key)
                    T._hold(K)
                    out.append(K)
    return out


def new_stores(base, s):
    return s.stores[len(base.stores):]


def symbolic(E, f, st, hdr, blocks, lat0, mark):
    E.stats['loops'] += 1
    real_mode = E.mode
    # ---- loop variables
    vars_ = [Var(('phi', i['id']), st.env[i['id']]) for i in header_phis(f, hdr)]
    cells = {}
    for s in lat0:
        for reg, c in s.cells.items():
            if reg not in st.cells:
                continue
            c0 = st.cells[reg]
            for off, (size, v) in c.items():
                old = c0.get(off)
                if old is None or old[0] != size:
                    if old is None and not any(o < off + size and o + z > off for o, (z, _) in c0.items()):
                        cells[(reg, off, size)] = None
                        continue
                    raise Unsupported('stack object layout changes in the loop')
                if old[1] is not v and not (isinstance(v, z3.AstRef) and isinstance(old[1], z3.AstRef) and v.eq(old[1])):
                    cells[(reg, off, size)] = old[1]
    for (reg, off, size), v in cells.items():
        if v is None:
            v = Undef('?')
        vars_.append(Var(('cell', reg, off, size), v))
    # ---- guess forms from iteration 0
    for v in vars_:
        guess_form(E, v, [(s, latch_vals(E, f, hdr, vars_, s)[v.key]) for s in lat0])
    k = E.sym('k')
    kp = E.sym('kp')
    kmark = E.fresh
    E.loop_mark = mark

    memf = {}

    def run(invs, stores, mode):
        E.mode = mode
        s = st.clone()
        s.model = None
        set_vars(E, s, vars_, k)
        s.pc = list(st.pc) + list(invs)
        for reg, ls in stores.items():
            s.mem[reg] = MLoop(st.mem[reg], kp, k, ls)
        for reg, fn in memf.items():
            s.mem[reg] = fn(k)
        s.cmps = {}
        nb = s.clone()
        r, m = E.sol.check(s.pc)
        s.model = m
        try:
            return nb, E.region(f, s, hdr, blocks, hdr)
        finally:
            E.mode = real_mode

    invs = []
    stores = {}
    # ---- pass 1: bounds
    for attempt in range(6):
        nb, outs = run([], {}, 'guess')
        lats = [s for kd, s, _ in outs if kd == 'latch']
        bad = check_forms(E, f, hdr, vars_, lats, k, kp, mark, soft=True)
        cands = bound_candidates(E, lats, k, st)
        good = []
        for K in cands:
            ok = all(E.sol.check(s.pc + [z3.ULE(k, K), z3.Not(z3.ULE(k + 1, K))], 5000)[0] == 'unsat' for s in lats)
            if ok:
                good.append(K)
        invs = [z3.ULE(k, K) for K in good]
        break
    if not invs:
        raise Unsupported('no variant found for the loop')
    # k as a small number: its range is proved from the bounds
    probe = st.clone()
    probe.model = None
    probe.pc = list(st.pc) + invs
    k2 = E.sym('k')
    for bits in (62, 60, 56):
        if E.valid(probe, z3.ULE(k, bv(1 << bits)), 5000):
            T.register_range(k2, 0, 1 << bits)
        else:
            break
    invs = [z3.substitute(c, (k, k2)) for c in invs]
    k = k2
    # ---- memory described by a contract of the task (checked below: initiation, consecution)
    if E.mem_inv is not None:
        memf = E.mem_inv(E, f, hdr, st, vars_) or {}
    # ---- pass 2: forms and store closed forms, to a fixpoint
    prev_sig = None
    for attempt in range(8):
        nb, outs = run(invs, stores, 'guess')
        lats = [s for kd, s, _ in outs if kd == 'latch']
        if check_forms(E, f, hdr, vars_, lats, k, kp, mark):
            stores = {}
            prev_sig = None
            # forms changed: bounds must be re-validated
            invs = [c for c in invs if True]
            nb, outs = run([], {}, 'guess')
            l2 = [s for kd, s, _ in outs if kd == 'latch']
            invs = [c for c in invs
                    if all(E.sol.check(s.pc + [c, z3.Not(z3.substitute(c, (k, T.add(k, bv(1)))))], 5000)[0] == 'unsat' for s in l2)]
            if not invs:
                raise Unsupported('no variant found for the loop')
            continue
        if memf:
            break
        ns, sig = collect_stores(E, nb, lats, k, kp, mark, kmark)
        if sig == prev_sig or (prev_sig is not None and stores_equal(E, nb, stores, ns, k, kp)):
            break
        if prev_sig is not None and attempt > 2:
            raise Unsupported('memory carried from one iteration to the next')
        stores, prev_sig = ns, sig
        if not ns:
            break
    else:
        raise Unsupported('no closed form for the loop stores')
    # ---- final verified run at symbolic k
    nb, outs = run(invs, stores, real_mode)
    lats = [s for kd, s, _ in outs if kd == 'latch']
    n_ob = 0
    for s in lats:
        vals = latch_vals(E, f, hdr, vars_, s)
        for v in vars_:
            if v.form == 'havoc':
                continue
            n_ob += 1
            if not holds_next(E, s, v, vals[v.key], k):
                raise Unsupported('loop contract is not inductive')
        for c in invs:
            n_ob += 1
            if not E.valid(s, z3.substitute(c, (k, T.add(k, bv(1))))):
                raise Unsupported('loop bound is not inductive')
    if memf:
        w = E.sym('w')
        for reg, fn in memf.items():
            E.oblige_word(st.clone(), 'loop', 'memory invariant of %s holds on entry (%s)' % (f['name'], reg.name), E.read(st.mem[reg], w, st),
                          E.read(fn(bv(0)), w, None))
            for s in lats:
                E.oblige_word(s.clone(), 'loop', 'memory invariant of %s is preserved (%s)' % (f['name'], reg.name), E.read(s.mem[reg], w, s),
                              E.read(fn(T.add(k, bv(1))), w, None))
        for s in lats:
            for reg in s.mem:
                if reg not in memf and reg in nb.mem and s.mem[reg] is not nb.mem[reg]:
                    raise Unsupported('memory without invariant written in the loop')
        ns, sig = {}, ()
    else:
        ns, sig = collect_stores(E, nb, lats, k, kp, mark, kmark)
    if not memf and not (sig == prev_sig or stores_equal(E, nb, stores, ns, k, kp)):
        raise Unsupported('loop store contract is not inductive')
    n_ob += sum(len(x) for x in stores.values())
    if E.mode == 'verify':
        for i in range(n_ob):
            E.obls.append(Obligation('loop', 'loop contract of %s (consecution)' % f['name'], 'discharged'))
        E.obls.append(Obligation('variant', 'loop terminates (variant decreases)', 'discharged'))
    # ---- history facts
    facts = []
    conds = []
    reads = []
    ok = True
    for s in lats:
        c = z3.And(s.pc[len(nb.pc):]) if len(s.pc) > len(nb.pc) else z3.BoolVal(True)
        conds.append(c)
        for reg, idx in s.reads[len(nb.reads):]:
            r = lin_k(idx, k)
            if r is not None and r[0] != 0:
                reads.append((reg, r[1], r[0]))
            elif r is None:
                pass
    C = z3.Or(conds) if len(conds) != 1 else conds[0]
    C = z3.simplify(z3.substitute(C, (k, kp)))
    if not fresh_in(C, mark, (kp.decl().name(),)) and not z3.is_true(C):
        facts.append(Fact(kp, k, C, dedup(reads)))
    res = []
    for kd, s, v in outs:
        if kd == 'latch':
            continue
        s.facts = st.facts + facts + s.facts[len(st.facts):]
        for reg in list(stores) + list(memf):
            s.stores.append((reg, 'bulk', None, None))
        for v2 in vars_:
            if v2.form == 'sum':
                s.ghost['sums'] = s.ghost.get('sums', ()) + ((v2.sum, v2.g, kp, k),)
        res.append(s if kd == 'exit' else (kd, s, v))
    return res


def dedup(reads):
    out = []
    seen = set()
    for r in reads:
        key = (r[0].uid, r[1].get_id(), r[2])
        if key not in seen:
            seen.add(key)
            out.append(r)
    return out


def guess_form(E, v, latvals):
    if any(x is None and v.x0 is not None for _, x in latvals) or isinstance(v.x0, Undef):
        set_havoc(E, v, latvals)
        return
    if v.x0 is None:
        if all(x is None for _, x in latvals):
            v.form = 'inv'
            return
        raise Unsupported('null loop pointer')
    if all(same(E, s, v.x0, x) for s, x in latvals):
        v.form = 'inv'
        return
    cs = [const_delta(E, s, v.x0, x) for s, x in latvals]
    if all(c is not None and c == cs[0] for c in cs):
        v.form, v.c = 'aff', cs[0]
        return
    set_havoc(E, v, latvals)


def set_havoc(E, v, latvals=None):
    v.form = 'havoc'
    x0 = v.x0
    if isinstance(x0, Undef):
        for _, x in latvals or ():
            if x is not None and not isinstance(x, Undef):
                v.hv = x0
                return
        v.hv = x0
        return
    v.hv = havoc(E, x0)


def holds_next(E, s, v, x, k):
    want = v.at(E, T.add(k, bv(1)))
    if v.form == 'sum':
        # definition of the ghost prefix sum: sum(k+1) = sum(k) + g(k)
        return same(E, s, T.add(v.at(E, k), z3.substitute(v.g, (v.kp, k))), x)
    if want is None or x is None:
        return want is None and x is None
    return same(E, s, want, x)


def check_forms(E, f, hdr, vars_, lats, k, kp, mark, soft=False):
    """weaken the forms that are not inductive; True if something changed"""
    changed = False
    for s in lats:
        vals = latch_vals(E, f, hdr, vars_, s)
        for v in vars_:
            if v.form == 'havoc':
                continue
            if holds_next(E, s, v, vals[v.key], k):
                continue
            if soft:
                continue
            # ghost sum?
            if v.form != 'sum' and isinstance(v.x0, z3.BitVecRef) and len(lats) == 1:
                d = T.sub(vals[v.key], v.at(E, k))
                if not fresh_in(d, mark, (k.decl().name(),)):
                    E.fresh += 1
                    w = v.x0.size()
                    v.sum = z3.Function('sum!%d' % E.fresh, z3.BitVecSort(64), z3.BitVecSort(w))
                    v.form = 'sum'
                    v.kp = kp
                    v.g = z3.substitute(d, (k, kp))
                    changed = True
                    continue
            set_havoc(E, v, [(s, vals[v.key])])
            changed = True
    return changed


def collect_stores(E, nb, lats, k, kp, mark, kmark):
    """closed forms of the stores of one iteration: {reg: [LStore]}, signature"""
    out = {}
    sig = []
    multi = len(lats) > 1
    for s in lats:
        cond = z3.BoolVal(True)
        if multi:
            cond = z3.simplify(z3.substitute(z3.And(s.pc[len(nb.pc):]), (k, kp)))
        for order, e in enumerate(new_stores(nb, s)):
            reg, idx = e[0], e[1]
            if isinstance(idx, str):
                raise Unsupported('bulk memory operation inside a loop')
            if reg not in nb.mem:
                raise Unsupported('storage created inside a loop')
            r = lin_k(idx, k)
            if r is None or fresh_in(r[1], mark):
                raise Unsupported('store address without closed form')
            val = z3.substitute(e[2], (k, kp))
            allow = (kp.decl().name(),)
            if fresh_in(val, mark, allow) or fresh_in(cond, mark, allow):
                raise Unsupported('stored value without closed form')
            ls = LStore(cond, r[1], r[0], val, order)
            out.setdefault(reg, []).append(ls)
            sig.append((reg.uid, r[0], r[1].get_id(), val.get_id(), cond.get_id()))
            T._hold(val)
            T._hold(cond)
    return out, tuple(sig)


def stores_equal(E, nb, a, b, k, kp):
    if set(a) != set(b):
        return False
    s = nb.clone()
    s.model = None
    for reg in a:
        if len(a[reg]) != len(b[reg]):
            return False
        for x, y in zip(a[reg], b[reg]):
            if x.stride != y.stride or not x.a0.eq(y.a0):
                return False
            xv, yv = z3.substitute(x.val, (kp, k)), z3.substitute(y.val, (kp, k))
            xc, yc = z3.substitute(x.cond, (kp, k)), z3.substitute(y.cond, (kp, k))
            if not E.valid(s, z3.And(xc == yc, z3.Implies(xc, xv == yv))):
                return False
    return True
