"""Case split of a float obligation over the conditions of the if-then-else terms in it.

Under a truth assignment of those conditions the terms are rebuilt through the simplifying
constructors, which normalise the uninterpreted IEEE operations.  What remains after the split (the
leaves that are not literally false) goes to the solver."""
import terms as T
from terms import TRUE, FALSE, C

BIN = dict(add=T.add, mul=T.mul, udiv=T.udiv, urem=T.urem, sdiv=T.sdiv, srem=T.srem, shl=T.shl, lshr=T.lshr, ashr=T.ashr,
           xor=T.xor, concat=T.concat, eq=T.eq, ult=T.ult, slt=T.slt, fmul=T.fmul, fadd=T.fadd, fdiv=T.fdiv)
BIN['and'] = T.and_
BIN['or'] = T.or_

def build(t, a):
    o = t.op
    f = BIN.get(o)
    if f is not None:
        return f(a[0], a[1])
    if o == 'ite':
        return T.ite(a[0], a[1], a[2])
    if o == 'neg':
        return T.neg(a[0])
    if o == 'ext':
        return T.extract(a[0], t.v, t.w)
    if o == 'sext':
        return T.sext(a[0], t.w)
    if o == 'fneg':
        return T.fneg(a[0])
    if o == 'itof':
        return T.itof(a[0], t.w, True)
    if o in ('feq', 'flt', 'fle'):
        return T.fcmp('o' + o[1:], a[0], a[1])
    if o == 'uf':
        return T.uf(t.v, t.w, a)
    raise Exception('build ' + o)

def rebuild(root, known, memo):
    st = [root]
    while st:
        t = st[-1]
        if t.id in memo:
            st.pop()
            continue
        k = known.get(t.id)
        if k is not None:
            memo[t.id] = k
            st.pop()
            continue
        if not t.a:
            memo[t.id] = t
            st.pop()
            continue
        if t.op == 'ite':
            c = t.a[0]
            if c.id not in memo:
                st.append(c)
                continue
            c = memo[c.id]
            if c.op == 'c':
                x = t.a[1] if c.v else t.a[2]
                if x.id not in memo:
                    st.append(x)
                    continue
                memo[t.id] = memo[x.id]
                st.pop()
                continue
        todo = [x for x in t.a if x.id not in memo]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        a = [memo[x.id] for x in t.a]
        memo[t.id] = t if all(x is y for x, y in zip(a, t.a)) else build(t, a)
    return memo[root.id]

def first_cond(root):
    """a condition of some if-then-else below a float operation, outermost first"""
    seen, todo = set(), [root]
    i = 0
    while i < len(todo):
        t = todo[i]
        i += 1
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'ite':
            c = t.a[0]
            while c.op in ('and', 'or', 'xor') and c.w == 1:
                c = c.a[1] if c.a[0].op == 'c' else c.a[0]
            return c
        todo.extend(t.a)
    return None

class Split:
    def __init__(self, limit=64):
        self.memos = {}
        self.limit = limit

    def leaves(self, bad):
        """-> list of (condition literals, remaining obligation), or None if there are too many cases"""
        out = []
        st = [(bad, ())]
        n = 0
        while st:
            t, key = st.pop()
            n += 1
            if n > self.limit:
                return None
            if t is FALSE:
                continue
            c = first_cond(t)
            if c is None:
                out.append((key, t))
                continue
            for v in (1, 0):
                # a rebuild depends only on the literal: the memo is shared by all obligations
                memo = self.memos.setdefault((c.id, v), {})
                lit = {c.id: C(v, 1)}
                if v and c.op == 'eq':
                    x, y = c.a
                    if x.op == 'c' and y.op != 'c':
                        lit[y.id] = x
                    elif y.op == 'c' and x.op != 'c':
                        lit[x.id] = y
                r = rebuild(t, lit, memo)
                st.append((r, key + (c if v else T.not_(c),)))
        return out

FLOATOPS = ('fadd', 'fmul', 'fdiv', 'fneg', 'itof', 'uf', 'feq', 'flt', 'fle')

class Sweep:
    """Replace bit-vector arguments of float operations by one representative per proved-equal class.

    Candidates are terms with the same value under the fixed pseudo-random assignment of terms.sem; the
    solver proves each merge, so a wrong guess costs a query and nothing else."""
    def __init__(self, z):
        self.z = z
        self.rep = {}        # sem value -> list of representatives
        self.known = {}      # term id -> replacement (proved equal)
        self.seen = set()
        self.pure = {}

    def ispure(self, root):
        m = self.pure
        st = [root]
        while st:
            t = st[-1]
            if t.id in m:
                st.pop()
                continue
            if t.op in FLOATOPS:
                m[t.id] = False
                st.pop()
                continue
            todo = [x for x in t.a if x.id not in m]
            if todo:
                st.extend(todo)
                continue
            m[t.id] = all(m[x.id] for x in t.a)
            st.pop()
        return m[root.id]

    def reduce(self, t):
        """-> an equal term"""
        st, vis, new = [t], set(), False
        while st:
            x = st.pop()
            if x.id in vis:
                continue
            vis.add(x.id)
            for y in x.a:
                if x.op in FLOATOPS and y.a and self.ispure(y):
                    new |= self.merge(y)
                else:
                    st.append(y)
        return rebuild(t, self.known, {}) if self.known else t

    def merge(self, y):
        if y.id in self.seen:
            return y.id in self.known
        self.seen.add(y.id)
        key = (y.w, T.sem(y))
        reps = self.rep.setdefault(key, [])
        mask = T.varmask(y)
        reps_ = [r for r in reps if all(T.sem(r, k) == T.sem(y, k) for k in (1, 2, 3, 4, 5, 6))]
        same = [r for r in reps_ if T.varmask(r) == mask]
        for r in (same + [r for r in reps_ if T.varmask(r) != mask])[:4]:
            q, _ = self.z.check([T.not_(T.eq(r, y))], 5)
            if q == 'unsat':
                self.known[y.id] = r
                return True
        reps.append(y)
        return False

LIMIT = 10
_atoms = {}
def connective(t):
    return t.w == 1 and (t.op in ('and', 'or', 'ite') or t.op == 'xor' and t.a[0] is TRUE)

def atoms(root):
    """the atoms of a propositional formula, None if there are more than LIMIT"""
    st = [root]
    while st:
        t = st[-1]
        if t.id in _atoms:
            st.pop()
            continue
        if not connective(t):
            _atoms[t.id] = frozenset() if t.op == 'c' else frozenset((t.id,))
            st.pop()
            continue
        todo = [x for x in t.a if x.id not in _atoms]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        r = frozenset()
        for x in t.a:
            y = _atoms[x.id]
            if y is None:
                r = None
                break
            r |= y
        _atoms[t.id] = r if r is not None and len(r) <= LIMIT else None
    return _atoms[root.id]

def table(root, col, memo):
    """truth table of a formula as a bit mask; `col` gives those of its atoms, `memo[0]` is all ones"""
    st = [root]
    while st:
        t = st[-1]
        if t.id in memo:
            st.pop()
            continue
        if not connective(t):
            memo[t.id] = (memo[0] if t.v else 0) if t.op == 'c' else col[t.id]
            st.pop()
            continue
        todo = [x for x in t.a if x.id not in memo]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        x, y = memo[t.a[0].id], memo[t.a[1].id]
        if t.op == 'ite':
            memo[t.id] = x & y | (memo[0] ^ x) & memo[t.a[2].id]
            continue
        memo[t.id] = x & y if t.op == 'and' else x | y if t.op == 'or' else x ^ y
    return memo[root.id]

class Known:
    """What a set of facts decides: terms rewritten under it are equal where the facts hold."""
    def __init__(self, facts, base=None, rounds=4):
        self.known = dict(base.known) if base else {}
        self.clauses = []
        self.absurd = False      # the facts contradict each other
        self.bits = {}
        self.memo = {}
        todo = [(f, True) for f in facts]
        self.learned = []
        for _ in range(rounds):
            n = len(self.known)
            for t, v in todo:
                self.learn(t, v)
            self.propositional()
            todo = []
            self.settle()
            if len(self.known) == n:
                break
            # unit propagation
            self.memo = {}
            rest = []
            for t, v in self.clauses:
                a = [rebuild(x, self.known, self.memo) for x in t.a]
                r = t if all(x is y for x, y in zip(a, t.a)) else build(t, a)
                if r.op == 'c':
                    if r.v != v:
                        self.absurd = True
                    continue
                if r is t:
                    rest.append((t, v))
                else:
                    todo.append((r, v))
            self.clauses = rest
        self.memo = {}
        self.learned += [t if v else T.not_(t) for t, v in self.clauses]
    def propositional(self):
        """a clause one side of which the small clauses decide tells about the other side"""
        small, big = {}, []
        def put(t, v):
            a = atoms(t)
            if a is None:
                big.append((t, v))
            else:
                for x in a:
                    small.setdefault(x, []).append((t, v))
        def rows(a):
            """the assignments to atoms `a` the small clauses leave, and the tables they came from"""
            cl = {}
            for i in a:
                for c in small.get(i, ()):
                    if atoms(c[0]) <= a:
                        cl[c[0].id, c[1]] = c
            n = len(a)
            memo = {0: (1 << (1 << n)) - 1}
            col = {}
            for k, i in enumerate(sorted(a)):
                blk = ((1 << (1 << k)) - 1) << (1 << k)
                m = 0
                for j in range(0, 1 << n, 2 << k):
                    m |= blk << j
                col[i] = m
                w = self.known.get(i)
                if w is not None and w.op == 'c':
                    memo[i] = memo[0] if w.v else 0
            m = memo[0]
            for c, cv in cl.values():
                q = table(c, col, memo)
                m &= q if cv else memo[0] ^ q
            return m, col, memo
        for t, v in self.clauses:
            put(t, v)
        done, stuck = 0, []
        while big and done < 20000:
            t, v = big.pop()
            done += 1
            stuck.append((t, v))
            for x, y in (t.a, t.a[::-1]):
                a = atoms(x)
                if a is None:
                    continue
                m, col, memo = rows(a)
                q = table(x, col, memo)
                # and(x, y) is false and x holds: y is false; or(x, y) is true and x fails: y is true
                if t.op == 'and' and not v and not m & ~q or t.op == 'or' and v and not m & q:
                    k = len(self.clauses)
                    self.learn(y, v)
                    for c in self.clauses[k:]:
                        put(*c)
                    # try the others again, this one is used up
                    stuck.pop()
                    big += stuck
                    stuck = []
                    break
        for a in {atoms(t) for l in small.values() for t, _ in l}:
            if not rows(a)[0]:
                self.absurd = True
                return
    def learn(self, t, v):
        st = [(t, v)]
        while st:
            t, v = st.pop()
            while t.op == 'xor' and t.a[0].op == 'c':
                t = t.a[1]
                v = not v
            if t.op == 'c' or t.id in self.known:
                k = t if t.op == 'c' else self.known[t.id]
                if k.op == 'c' and k.v != v:
                    self.absurd = True
                continue
            if t.op not in ('and', 'or', 'ite'):
                self.learned.append(t if v else T.not_(t))
            self.known[t.id] = TRUE if v else FALSE
            if v and t.op == 'and' or not v and t.op == 'or':
                st.append((t.a[0], v))
                st.append((t.a[1], v))
            elif t.op in ('and', 'or', 'ite'):
                self.clauses.append((t, v))
            elif v and t.op == 'eq':
                x, y = t.a
                if y.op == 'c':
                    x, y = y, x
                if x.op == 'c' and y.op == 'ext' and y.a[0].id not in self.known:
                    self.bits.setdefault(y.a[0].id, (y.a[0], {}))[1].update((y.v + i, x.v >> i & 1) for i in range(y.w))
                if x.op == 'c' and y.op != 'c':
                    self.known[y.id] = x
    def settle(self):
        """terms some of whose bits are known, taken apart"""
        for x, bs in self.bits.values():
            r, i = None, 0
            while i < x.w:
                j = i
                while j < x.w and (j in bs) == (i in bs):
                    j += 1
                v = C(sum(bs[k] << (k - i) for k in range(i, j)), j - i) if i in bs else T.extract(x, i, j - i)
                r = v if r is None else T.concat(v, r)
                i = j
            if r is not x:
                self.known[x.id] = r
    def rewrite(self, t):
        return rebuild(t, self.known, self.memo)
