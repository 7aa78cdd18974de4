"""Discharge of obligations with z3 (terms -> z3 AST; IEEE operations are uninterpreted)."""
import z3, time
from terms import *
from split import Split, Sweep, Known, atoms

class Z:
    def __init__(self):
        self.cache = {}
        self.ufs = {}
        self.t = 0.0
        self.queries = 0
        self.fcache = {}
        self.noanswer = 0

    def uf(self, name, dom, rng):
        k = (name, tuple(dom), rng)
        f = self.ufs.get(k)
        if f is None:
            f = z3.Function('%s_%s_%d' % (name, '_'.join(map(str, dom)), rng), *[z3.BitVecSort(d) for d in dom], z3.BitVecSort(rng))
            self.ufs[k] = f
        return f

    def tr(self, root):
        cache = self.cache
        r = cache.get(root.id)
        if r is not None:
            return r
        st = [root]
        while st:
            t = st[-1]
            if t.id in cache:
                st.pop()
                continue
            todo = [x for x in t.a if x.id not in cache]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            cache[t.id] = self.one(t, [cache[x.id] for x in t.a])
        return cache[root.id]

    def b(self, c):
        """z3 Bool -> BV1"""
        return z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))

    def nan(self, x):
        w = x.size()
        _, _, m, _ = FM[w]
        inf = ((1 << (w - m - 1)) - 1) << m
        return z3.UGT(z3.Concat(z3.BitVecVal(0, 1), z3.Extract(w - 2, 0, x)), z3.BitVecVal(inf, w))

    def one(self, t, a):
        o = t.op
        if o == 'c':
            return z3.BitVecVal(t.v, t.w)
        if o == 'var':
            return z3.BitVec(t.v, t.w)
        if o == 'add':
            return a[0] + a[1]
        if o == 'neg':
            return -a[0]
        if o == 'mul':
            return a[0] * a[1]
        if o == 'udiv':
            return z3.UDiv(a[0], a[1])
        if o == 'urem':
            return z3.URem(a[0], a[1])
        if o == 'sdiv':
            return a[0] / a[1]
        if o == 'srem':
            return z3.SRem(a[0], a[1])
        if o == 'shl':
            return a[0] << a[1]
        if o == 'lshr':
            return z3.LShR(a[0], a[1])
        if o == 'ashr':
            return a[0] >> a[1]
        if o == 'and':
            return a[0] & a[1]
        if o == 'or':
            return a[0] | a[1]
        if o == 'xor':
            return a[0] ^ a[1]
        if o == 'concat':
            return z3.Concat(a[0], a[1])
        if o == 'ext':
            return z3.Extract(t.v + t.w - 1, t.v, a[0])
        if o == 'sext':
            return z3.SignExt(t.w - t.a[0].w, a[0])
        if o == 'ite':
            return z3.If(a[0] == 1, a[1], a[2])
        if o == 'eq':
            return self.b(a[0] == a[1])
        if o == 'ult':
            return self.b(z3.ULT(a[0], a[1]))
        if o == 'slt':
            return self.b(a[0] < a[1])
        if o == 'fneg':
            return a[0] ^ z3.BitVecVal(1 << (t.w - 1), t.w)
        if o in ('fmul', 'fadd'):
            f = self.uf(o, [t.w, t.w], t.w)
            if z3.is_bv_value(a[0]) or z3.is_bv_value(a[1]):
                # a constant operand always comes first: commutativity needs no case split
                pass
            return f(a[0], a[1])
        if o == 'fdiv':
            return self.uf(o, [t.w, t.w], t.w)(a[0], a[1])
        if o == 'itof':
            w = a[0].size()
            x = z3.SignExt(129 - w, a[0]) if w < 129 else a[0]
            return self.uf('itof', [129], t.w)(x)
        if o == 'flt' or o == 'fle' or o == 'feq':
            x, y = a
            w = x.size()
            zx = z3.Extract(w - 2, 0, x) == 0
            zy = z3.Extract(w - 2, 0, y) == 0
            nn = z3.And(z3.Not(self.nan(x)), z3.Not(self.nan(y)))
            if o == 'feq':
                return self.b(z3.And(nn, z3.Or(x == y, z3.And(zx, zy))))
            sx = z3.Extract(w - 1, w - 1, x) == 1
            sy = z3.Extract(w - 1, w - 1, y) == 1
            lt = z3.If(sx, z3.If(sy, z3.UGT(x, y), z3.Not(z3.And(zx, zy))), z3.If(sy, z3.BoolVal(False), z3.ULT(x, y)))
            if o == 'flt':
                return self.b(z3.And(nn, lt))
            return self.b(z3.And(nn, z3.Or(lt, x == y, z3.And(zx, zy))))
        if o == 'uf':
            return self.uf(t.v, [x.size() for x in a], t.w)(*a)
        raise Exception('translate ' + o)

    def laws(self, ts):
        """instances, for the float terms of a query, of the bit-exact IEEE-754 laws: + and * commute, the
        sign of * and / is the product of the signs, x + -0 = x, 1 * x = x, x / 1 = x.  (The simplifier applies
        them already; the instances matter where an argument is an if-then-else.)"""
        seen, out, st = set(), [], list(ts)
        ab = lambda x: z3.Concat(z3.BitVecVal(0, 1), z3.Extract(x.size() - 2, 0, x))
        sg = lambda x: z3.Extract(x.size() - 1, x.size() - 1, x)
        while st:
            t = st.pop()
            if t.id in seen:
                continue
            seen.add(t.id)
            st.extend(t.a)
            if t.op not in ('fadd', 'fmul', 'fdiv'):
                continue
            w = t.w
            x, y = self.tr(t.a[0]), self.tr(t.a[1])
            f = self.uf(t.op, [w, w], w)
            one = z3.BitVecVal((FM[w][3]) << FM[w][2], w)
            if t.op == 'fadd':
                nz = z3.BitVecVal(1 << (w - 1), w)
                out += [f(x, y) == f(y, x), z3.Implies(x == nz, f(x, y) == y), z3.Implies(y == nz, f(x, y) == x)]
            else:
                m = f(ab(x), ab(y))
                out.append(f(x, y) == m ^ z3.Concat(sg(x) ^ sg(y), z3.BitVecVal(0, w - 1)))
                out.append(z3.Implies(ab(y) == one, m == ab(x)))
                if t.op == 'fmul':
                    out += [m == f(ab(y), ab(x)), z3.Implies(ab(x) == one, m == ab(y))]
        return out

    def solver(self, timeout):
        s = z3.SolverFor('QF_UFBV') if False else z3.Solver()
        s.set('timeout', int(timeout * 1000))
        return s

    def check(self, conj, timeout=60, laws=False):
        t0 = time.time()
        s = self.solver(timeout)
        for c in conj:
            s.add(self.tr(c) == 1)
        if laws:
            for c in self.laws(conj):
                s.add(c)
        r = s.check()
        self.t += time.time() - t0
        self.queries += 1
        return str(r), (s.model() if r == z3.sat else None)

    def check_any(self, lists, timeout=60):
        """sat iff one of the conjunctions is satisfiable"""
        t0 = time.time()
        s = self.solver(timeout)
        s.add(z3.Or([z3.And([self.tr(c) == 1 for c in l]) for l in lists]))
        r = s.check()
        self.t += time.time() - t0
        self.queries += 1
        return str(r), (s.model() if r == z3.sat else None)

    def feasible(self, pc, cond):
        # infeasible if the cone of influence alone is; otherwise kept (sound: more paths)
        fs = []
        n = pc
        while n is not None:
            fs.append(n[1])
            n = n[0]
        # facts about nothing but the condition's own variables first
        m = ~varmask(cond)
        near = [f for f in fs if not varmask(f) & m]
        r = self._feasible(cond, near)
        if r == 'unsat':
            return False
        fs = cone(cond, fs)
        if len(fs) == len(near) or len(fs) > WIDE:
            return True
        return self._feasible(cond, fs) != 'unsat'
    def _feasible(self, cond, fs):
        key = (cond.id, tuple(sorted(f.id for f in fs)))
        r = self.fcache.get(key)
        if r is None:
            # no answer counts as feasible; a query that gets none is not worth much more time
            lim = 3 >> min(self.noanswer, 2)
            if lim == 0:
                return 'unknown'
            r, _ = self.check([cond] + fs, lim)
            if r == 'unknown':
                self.noanswer += 2
            self.fcache[key] = r
        return r

# a branch with more facts than this in its cone of influence is explored without asking
WIDE = 40

def hasfloat(t):
    seen, st = set(), [t]
    while st:
        t = st.pop()
        if t.op in ('fadd', 'fmul', 'fdiv', 'uf'):
            return True
        if t.id not in seen:
            seen.add(t.id)
            st.extend(t.a)
    return False

def pcl(pc, kinds):
    out = []
    n = pc
    while n is not None:
        if n[2] in kinds:
            out.append(n[1])
        n = n[0]
    return out

def conjuncts(ts):
    out, st, seen = [], list(ts), set()
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'and':
            st.extend(t.a)
        elif t.op == 'xor' and t.a[0] is TRUE and t.a[1].op == 'or':
            st.extend(not_(x) for x in t.a[1].a)
        else:
            out.append(t)
    return out

def disjuncts(t, limit=2000):
    out, st, seen = [], [t], set()
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if len(st) + len(out) > limit:
            return [t] + st + out
        if t.op == 'or':
            st.extend(t.a)
        elif t.op == 'xor' and t.a[0] is TRUE and t.a[1].op == 'and':
            st.extend(not_(x) for x in t.a[1].a)
        elif t.op == 'ite':
            st += [and_(t.a[0], t.a[1]), and_(not_(t.a[0]), t.a[2])]
        elif t is not FALSE:
            out.append(t)
    return out

class Rewritten:
    __slots__ = ('kind', 'name', 'bad', 'pc', 'where', 'base', 'com')
    def __init__(self, o, bad, base, com):
        self.base, self.com = base, com
        self.kind, self.name, self.bad, self.pc, self.where = o.kind, o.name, bad, o.pc, o.where

def assumed(os_, cache):
    """the obligations rewritten under what their path facts decide, without those that vanish"""
    if not os_:
        return os_
    pcs = [pcl(o.pc, 'ba') for o in os_]
    com = set(t.id for t in pcs[0])
    for p in pcs[1:]:
        com &= set(t.id for t in p)
    key = frozenset(com)
    base = cache.get(key)
    if base is None:
        if len(cache) > 3:
            cache.clear()
        base = cache[key] = Known([t for t in pcs[0] if t.id in com])
    out = []
    for o, p in zip(os_, pcs):
        b = base.rewrite(o.bad)
        if b is not FALSE:
            own = [base.rewrite(t) for t in p if t.id not in com]
            if own:
                k = Known(own)
                if k.known:
                    b = k.rewrite(b)
            if b is not FALSE and b.op in ('and', 'or', 'xor') and atoms(b) is None:
                if Known(own + [b], base).absurd:
                    continue
        if b is not FALSE:
            out.append(Rewritten(o, b, base, com))
    return out

def discharge(z, obls, timeout=60, chunk=64, stop=None):
    """-> list of dict(name, kind, count, trivial, status, model, where)"""
    groups = {}
    for o in obls:
        groups.setdefault((o.kind, o.name), []).append(o)
    res = []
    sp = Split()
    sw = Sweep(z)
    kn = {}
    for (kind, name), os_ in groups.items():
        g = dict(kind=kind, name=name, count=len(os_), trivial=0, status='proved', model=None, where=os_[0].where, time=0.0, instances_failed=0)
        t0 = time.time()
        todo = assumed([o for o in os_ if o.bad is not FALSE], kn)
        g['trivial'] = len(os_) - len(todo)
        # conjunctions whose satisfiability would refute the obligation: (obligation, [terms])
        conj = []
        # one part of a disjunction at a time
        for o in [Rewritten(o, b, o.base, o.com) if b is not o.bad else o for o in todo for b in disjuncts(o.bad)]:
            ls = sp.leaves(o.bad) if hasfloat(o.bad) else None
            if ls is None:
                conj.append((o, [o.bad]))
            else:
                g['split'] = g.get('split', 0) + 1
                for lits, t in ls:
                    t = sw.reduce(t)
                    if t is not FALSE:
                        conj.append((o, [t] + list(lits)))
        def facts(o, ts, kinds):
            if kinds == 'none':
                return ts
            f = pcl(o.pc, 'ba' if kinds == 'near' else kinds)
            if kinds == 'near':
                # facts of this obligation only, under the facts all obligations share
                f = [o.base.rewrite(t) for t in f if t.id not in o.com] + o.base.learned
            if kinds != 'bao':
                seed = ts[0]
                for x in ts[1:]:
                    seed = and_(seed, x)
                if kinds == 'near':
                    f = conjuncts(f)
                    # only the facts about nothing but the variables of the obligation
                    m = ~varmask(seed)
                    f = [x for x in f if not varmask(x) & m]
                else:
                    f = cone(seed, f)
            return ts + f
        i = 0
        bare = True
        while i < len(conj):
            if stop and time.time() > stop:
                g['status'] = 'unknown'
                break
            part = conj[i:i + chunk]
            i += chunk
            if bare:
                # needs no facts at all?
                if z.check_any([ts for o, ts in part], 3)[0] == 'unsat':
                    continue
                bare = False
            r, m = z.check_any([facts(o, ts, 'near') for o, ts in part], min(timeout, 20))
            if r == 'unsat':
                continue
            # individually, with more and more facts
            for o, ts in part:
                r, m = z.check(facts(o, ts, 'near'), min(timeout, 20))
                if r != 'unsat':
                    r, m = z.check(facts(o, ts, 'ba'), timeout)
                if r != 'unsat':
                    r, m = z.check(facts(o, ts, 'bao'), timeout)
                if r == 'sat' and hasfloat(ts[0]):
                    r2, m2 = z.check(facts(o, ts, 'bao'), timeout, laws=True)
                    if r2 != 'unknown':
                        r, m = r2, m2
                if r == 'unsat':
                    continue
                g['instances_failed'] += 1
                if r == 'sat':
                    if g['status'] != 'failed':
                        g['status'] = 'failed'
                        g['model'] = m
                        g['where'] = o.where
                    break
                elif g['status'] == 'proved':
                    g['status'] = 'unknown'
                    break
            if g['status'] != 'proved':
                break
        g['time'] = round(time.time() - t0, 3)
        res.append(g)
    return res
