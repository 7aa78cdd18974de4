"""Verification-condition generator over the LLVM IR rustc produces for the real code.

Executes an entry function symbolically.  Control flow on constant conditions is
followed (loops run to their real trip count, nothing is cut); a branch on a
symbolic condition continues on both sides; states that reach the same block are joined
with if-then-else terms before the block is executed, so one run covers every input.  Branch sides that can
only end in a panic / `unreachable` become obligations "this side is infeasible".
Nothing is bounded: if a loop with a symbolic trip count does not terminate under
the path condition the run ends in an error, never in a truncated success.
"""
import sys, os, re, time
from fractions import Fraction
from heapq import heappush, heappop
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from terms import *
from llir import *
import llir

class Unsupported(Exception):
    pass

REG = re.compile(r'%"[^"]*"|%[-a-zA-Z$._0-9]+')

class Obj:
    __slots__ = ('size', 'cells', 'owner', 'name', 'const')
    def __init__(self, size, name, const=False):
        self.size = size
        self.cells = {}
        self.owner = None
        self.name = name
        self.const = const

# A path condition is a list of facts, newest first: [rest, fact, kind, length, weight, weight of the ended paths
# below, what was known before, stands for joined paths].  Kinds: 'b' a choice made by a branch, 'a' an assumption, 'o' an obligation's negation.  The
# weight is the share of the choices that lead there: it tells which sets of paths are exhaustive.
def pcnode(up, t, kind, w, lits=None, joined=False):
    return [up, t, kind, up[3] + 1, w, 0, lits, joined]

class State:
    __slots__ = ('mem', 'pc', 'lits', 'weight')
    def __init__(self):
        self.mem = {}
        self.pc = [None, TRUE, 'r', 0, Fraction(1), 0, None, False]
        self.weight = Fraction(1)
        self.lits = {}       # term id -> truth value known on this path
    def fork(self, t, n):
        """one of n alternatives"""
        s = State()
        s.mem = dict(self.mem)
        s.weight = self.weight / n
        s.lits = dict(self.lits)
        s.pc = pcnode(self.pc, t, 'b', s.weight, self.lits)
        s.learn(t, True)
        return s
    def fact(self, t, kind):
        self.pc = pcnode(self.pc, t, kind, self.weight)
        self.learn(t, True)
    def end(self):
        """no path of this state continues"""
        n = self.pc
        while n is not None:
            n[5] += self.weight
            n = n[0]
    def learn(self, t, v):
        st = [(t, v)]
        lits = self.lits
        while st:
            t, v = st.pop()
            while t.op == 'xor' and t.a[0].op == 'c':
                t = t.a[1]
                v = not v
            if t.op == 'c' or lits.get(t.id) is v:
                continue
            lits[t.id] = v
            if v and t.op == 'and' or not v and t.op == 'or':
                st.append((t.a[0], v))
                st.append((t.a[1], v))
    def simp(self, t):
        """pick ite alternatives whose condition is known on this path"""
        if not self.lits:
            return t
        if t.w == 1:
            return self.simpb(t, {})
        n = 0
        while t.op == 'ite' and n < 4000:
            v = self.lits.get(t.a[0].id)
            if v is None:
                c = t.a[0]
                if c.op in ('and', 'or', 'xor', 'ite'):
                    c = self.simpb(c, {})
                    if c.op == 'c':
                        v = bool(c.v)
                if v is None:
                    return t
            t = t.a[1] if v else t.a[2]
            n += 1
        return t
    def simpb(self, t, memo):
        if t.op == 'c':
            return t
        v = self.lits.get(t.id)
        if v is not None:
            return TRUE if v else FALSE
        if t.op not in ('and', 'or', 'xor', 'ite') or len(memo) > 20000:
            return t
        r = memo.get(t.id)
        if r is None:
            a = [self.simpb(x, memo) for x in t.a]
            if all(x is y for x, y in zip(a, t.a)):
                r = t
            else:
                r = {'and': and_, 'or': or_, 'xor': xor, 'ite': ite}[t.op](*a)
            memo[t.id] = r
        return r

def bytes_of(t):
    """byte terms low..high"""
    return [extract(t, 8 * i, 8) for i in range(t.w // 8)]

class Obl:
    __slots__ = ('kind', 'name', 'bad', 'pc', 'where')
    def __init__(self, kind, name, bad, pc, where):
        self.kind = kind; self.name = name; self.bad = bad; self.pc = pc; self.where = where

class Machine:
    def __init__(self, paths):
        self.mods = [Module(p, i) for i, p in enumerate(paths)]
        self.fns = {}
        for m in self.mods:
            for n, f in m.funcs.items():
                if not f.internal and n not in self.fns:
                    self.fns[n] = f
        for m in self.mods:
            for n, g in list(m.globals.items()):
                # identical functions merged by LLVM
                x = re.match(r'((?:\S+ )*?)alias .*, ptr (@\S+)$', g)
                if x:
                    f = m.funcs.get(x.group(2)) or self.fns.get(x.group(2))
                    if f is not None:
                        m.funcs[n] = f
                        if 'internal' not in x.group(1):
                            self.fns.setdefault(n, f)
        self.next = 1
        self.gaddr = {}      # (modidx or None, name) -> address
        self.faddr = {}      # address -> Function or extern name
        self.obls = []
        self.covers = {}     # name -> list of pc conds
        self.inputs = []     # (name, [vars])
        self.gmem = {}
        self.steps = 0
        self.fnset = {}
        self.fnvals = {}
        self.contracts = {}  # symbol regex -> handler
        self.solver = None
        self.notes = set()
        self.deadline = None

    # ------------------------------------------------------------ memory
    def alloc(self, st, size_, name, const=False):
        i = self.next
        self.next += 1
        o = Obj(size_, name, const)
        o.owner = st
        (st.mem if st is not None else self.gmem)[i] = o
        return C(i << 32, 64)

    def obj(self, st, i):
        o = st.mem.get(i)
        if o is None:
            o = self.gmem.get(i)
        if o is None:
            raise Unsupported('access to object %s' % i)
        return o

    def wobj(self, st, i):
        o = st.mem.get(i)
        if o is None:
            o = self.gmem.get(i)
            if o is None or o.const:
                raise Unsupported('write to object %s' % i)
        if o.owner is not st:
            n = Obj(o.size, o.name, False)
            n.cells = dict(o.cells)
            n.owner = st
            st.mem[i] = n
            o = n
        return o

    def resolve(self, p):
        """-> list of (cond, objid, const offset, sym offset term or None)"""
        if p.op == 'c':
            return [(TRUE, p.v >> 32, p.v & 0xffffffff, None)]
        if p.op == 'ite':
            out = []
            for c, side in ((p.a[0], p.a[1]), (not_(p.a[0]), p.a[2])):
                for (d, o, k, s) in self.resolve(side):
                    e = and_(c, d)
                    if e is not FALSE:
                        out.append((e, o, k, s))
            return out
        if p.op == 'add':
            a, b = p.a
            if a.op == 'c':
                if a.v >> 32 and a.v >> 63 == 0:
                    return [(TRUE, a.v >> 32, a.v & 0xffffffff, b)]
                return [(c, o, k + sgn(a.v, 64), s) for c, o, k, s in self.resolve(b)]
            for x, y in ((a, b), (b, a)):
                if x.op == 'ite' or (x.op == 'add' and self._hasptr(x)):
                    return [(c, o, k, y if s is None else add(s, y)) for c, o, k, s in self.resolve(x)]
        raise Unsupported('pointer ' + show(p))

    def simpp(self, st, p):
        if p.op == 'ite':
            return st.simp(p)
        if p.op == 'add':
            return add(self.simpp(st, p.a[0]), self.simpp(st, p.a[1]))
        return p

    def _hasptr(self, x):
        return any(y.op == 'c' and y.v >> 32 or y.op == 'ite' or (y.op == 'add' and self._hasptr(y)) for y in x.a)

    def _cover_byte(self, o, off):
        """(start, cell) covering byte off, or None"""
        c = o.cells.get(off)
        if c is not None:
            return off, c
        for k in range(1, 8):
            c = o.cells.get(off - k)
            if c is not None:
                return (off - k, c) if c.w > 8 * k else None
        return None

    def rd(self, o, off, n):
        c = o.cells.get(off)
        if c is not None and c.w == 8 * n:
            return c
        parts = []
        i = 0
        while i < n:
            r = self._cover_byte(o, off + i)
            if r is None:
                t = fresh('uninit', 8)
                o.cells[off + i] = t
                parts.append(t)
                i += 1
            else:
                s, c = r
                lo = off + i - s
                k = min(c.w // 8 - lo, n - i)
                parts.append(extract(c, 8 * lo, 8 * k))
                i += k
        r = parts[0]
        for p in parts[1:]:
            r = concat(p, r)
        return r

    def wr(self, st, oid, off, t):
        n = t.w // 8
        if n > 8:
            for i in range(0, n, 8):
                k = min(8, n - i)
                self.wr(st, oid, off + i, extract(t, 8 * i, 8 * k))
            return
        o = self.wobj(st, oid)
        cells = o.cells
        c = cells.get(off)
        if c is None or c.w != 8 * n:
            self.clear(o, off, n)
        cells[off] = t

    def clear(self, o, off, n):
        """remove cells overlapping [off, off+n), keeping the outside remainders"""
        cells = o.cells
        if n <= 64 or n < len(cells):
            starts = range(off - 7, off + n)
        else:
            starts = [k for k in cells if off - 7 <= k < off + n]
        for s in starts:
            c = cells.get(s)
            if c is None:
                continue
            m = c.w // 8
            if s + m <= off:
                continue
            del cells[s]
            if s < off:
                cells[s] = extract(c, 0, 8 * (off - s))
            if s + m > off + n:
                cells[off + n] = extract(c, 8 * (off + n - s), 8 * (s + m - off - n))

    def candidates(self, o, k, s, n):
        g = gcd_of(s)
        hi = umax(s)
        out = []
        r = k % g if g else k
        for off in range(r if g else k, o.size - n + 1, g if g else 1 << 60):
            if off < k - 0 and False:
                continue
            d = off - k
            if d < 0:
                # only reachable with a negative symbolic part
                if hi < 1 << 63:
                    continue
            elif hi < 1 << 63 and d > hi:
                break
            out.append(off)
        return out

    def load_bits(self, st, p, n, where):
        if p.op != 'c':
            p = self.simpp(st, p)
        alts = self.resolve(p)
        res = None
        for cond, oid, k, s in alts[::-1]:
            if oid == 0 or (oid not in st.mem and oid not in self.gmem):
                # null / dangling alternative: must be infeasible
                self.oblige(st, 'memory', 'invalid pointer dereferenced', cond, where)
                continue
            o = self.obj(st, oid)
            if s is None:
                if k < 0 or k + n > o.size:
                    self.oblige(st, 'memory', 'out-of-bounds read', cond, where)
                    v = fresh('oob', 8 * n)
                else:
                    v = self.rd(o, k, n)
            else:
                cs = self.candidates(o, k, s, n)
                if len(cs) > 4096:
                    raise Unsupported('symbolic index over %d' % len(cs))
                v = None
                okc = FALSE
                for off in cs[::-1]:
                    t = self.rd(o, off, n)
                    e = eq(s, C(off - k, 64))
                    okc = or_(okc, e)
                    v = t if v is None else ite(e, t, v)
                bad = and_(cond, not_(okc))
                if bad is not FALSE:
                    self.oblige(st, 'memory', 'out-of-bounds read', bad, where)
                if v is None:
                    v = fresh('oob', 8 * n)
            if v.op == 'ite':
                v = st.simp(v)
            res = v if res is None else ite(cond, v, res)
        if res is None:
            res = fresh('oob', 8 * n)
        return res

    def store_bits(self, st, p, t, where):
        n = t.w // 8
        if p.op != 'c':
            p = self.simpp(st, p)
        alts = self.resolve(p)
        one = len(alts) == 1
        for cond, oid, k, s in alts:
            if oid == 0 or (oid not in st.mem and oid not in self.gmem):
                self.oblige(st, 'memory', 'invalid pointer written', cond, where)
                continue
            o = self.obj(st, oid)
            if s is None:
                if k < 0 or k + n > o.size:
                    self.oblige(st, 'memory', 'out-of-bounds write', cond, where)
                elif cond is TRUE:
                    self.wr(st, oid, k, t)
                else:
                    self.wr(st, oid, k, ite(cond, t, self.rd(o, k, n)))
            else:
                okc = FALSE
                for off in self.candidates(o, k, s, n):
                    e = eq(s, C(off - k, 64))
                    okc = or_(okc, e)
                    o = self.obj(st, oid)
                    self.wr(st, oid, off, ite(and_(cond, e), t, self.rd(o, off, n)))
                bad = and_(cond, not_(okc))
                if bad is not FALSE:
                    self.oblige(st, 'memory', 'out-of-bounds write', bad, where)

    def load(self, st, t, p, where):
        k = t[0]
        if k == 'i':
            n = size(t)
            v = self.load_bits(st, p, n, where)
            return extract(v, 0, t[1]) if t[1] != 8 * n else v
        if k == 'f':
            return self.load_bits(st, p, t[1] // 8, where)
        if k == 'p':
            return self.load_bits(st, p, 8, where)
        if k == 's':
            return [self.load(st, x, add(p, C(o, 64)), where) for x, o in zip(t[2], field_offsets(t))]
        if k in 'av':
            sz = size(t[2])
            return [self.load(st, t[2], add(p, C(i * sz, 64)), where) for i in range(t[1])]
        raise Unsupported('load %s' % (t,))

    def store(self, st, t, v, p, where):
        k = t[0]
        if k in 'ifp':
            n = size(t)
            if v.w != 8 * n:
                v = zext(v, 8 * n)
            self.store_bits(st, p, v, where)
        elif k == 's':
            for x, o, e in zip(t[2], field_offsets(t), v):
                self.store(st, x, e, add(p, C(o, 64)), where)
        elif k in 'av':
            sz = size(t[2])
            for i in range(t[1]):
                self.store(st, t[2], v[i], add(p, C(i * sz, 64)), where)
        else:
            raise Unsupported('store %s' % (t,))

    def conc(self, p, what):
        if p.op != 'c':
            raise Unsupported('symbolic ' + what + ' ' + show(p))
        return p.v

    def memcpy(self, st, d, s, n, where):
        d, s, n = [x if x.op == 'c' else self.simpp(st, x) for x in (d, s, n)]
        if n.op != 'c':
            if n.op == 'ite':
                return self.memcpy_ite(st, d, s, n, where)
            raise Unsupported('symbolic memcpy length ' + show(n))
        n = n.v
        if n == 0:
            return
        if d.op != 'c' or s.op != 'c':
            w = 8
            i = 0
            tmp = []
            while i < n:
                k = min(w, n - i)
                tmp.append((i, self.load_bits(st, add(s, C(i, 64)), k, where)))
                i += k
            for i, v in tmp:
                self.store_bits(st, add(d, C(i, 64)), v, where)
            return
        d, s = d.v, s.v
        so, do = s >> 32, d >> 32
        sk, dk = s & 0xffffffff, d & 0xffffffff
        o = self.obj(st, so)
        t = self.obj(st, do)
        if sk + n > o.size or dk + n > t.size:
            self.oblige(st, 'memory', 'out-of-bounds copy', TRUE, where)
            return
        # collect whole cells
        items = []
        i = 0
        if n > 2 * len(o.cells):
            ks = sorted(k for k in o.cells if sk - 7 <= k < sk + n)
        else:
            ks = [k for k in range(sk - 7, sk + n) if k in o.cells]
        for k in ks:
            c = o.cells[k]
            m = c.w // 8
            if k + m <= sk:
                continue
            lo = max(k, sk)
            hi = min(k + m, sk + n)
            items.append((lo - sk, extract(c, 8 * (lo - k), 8 * (hi - lo))))
        w = self.wobj(st, do)
        self.clear(w, dk, n)
        for i, c in items:
            w.cells[dk + i] = c

    def memcpy_ite(self, st, d, s, n, where):
        # length is a choice of two lengths: copy bytewise under the condition
        raise Unsupported('symbolic memcpy length')

    def memset(self, st, d, v, n, where):
        n = self.conc(n, 'memset length')
        if n == 0:
            return
        d = self.conc(d, 'memset dest')
        do, dk = d >> 32, d & 0xffffffff
        t = self.obj(st, do)
        if dk + n > t.size:
            self.oblige(st, 'memory', 'out-of-bounds memset', TRUE, where)
            return
        w = self.wobj(st, do)
        self.clear(w, dk, n)
        v4 = concat(concat(v, v), concat(v, v))
        i = 0
        while i < n:
            k = 4 if n - i >= 4 and (dk + i) % 4 == 0 else 1
            w.cells[dk + i] = v4 if k == 4 else v
            i += k

    # ------------------------------------------------------------ globals
    def global_addr(self, mod, name):
        key = (mod.idx, name)
        a = self.gaddr.get(key)
        if a is not None:
            return a
        f = mod.funcs.get(name) or self.fns.get(name)
        if f is not None or name in mod.decls:
            k2 = ('f', f.mod.idx if f is not None and f.internal else None, name)
            a = self.gaddr.get(k2)
            if a is None:
                i = self.next
                self.next += 1
                a = C(i << 32, 64)
                self.faddr[i << 32] = f if f is not None else name
                self.gaddr[k2] = a
            self.gaddr[key] = a
            return a
        g = mod.globals.get(name)
        if g is None or re.match(r'(?:\S+ )*?external ', g):
            for m2 in self.mods:
                g2 = m2.globals.get(name)
                if g2 and ' external ' not in ' ' + g2:
                    a = self.global_addr(m2, name)
                    self.gaddr[key] = a
                    return a
            # opaque external data
            a = self.alloc(None, 1 << 16, name, True)
            self.gaddr[key] = a
            return a
        if 'alias' in g.split(' ')[:6]:
            raise Unsupported('alias ' + name)
        tk = Toks(g)
        const = False
        while True:
            x = tk.peek()
            if x in ('constant', 'global'):
                const = tk.next() == 'constant'
                break
            tk.next()
            if x == 'addrspace' or x == 'thread_local':
                if tk.peek() == '(':
                    while tk.next() != ')':
                        pass
        t = mod.ptype(tk)
        a = self.alloc(None, size(t), name, const)
        self.gaddr[key] = a
        dummy = Function(mod, '@dummy', '', True)
        v = dummy.val(tk, t)
        o = self.gmem[a.v >> 32]
        self.init(o, 0, t, v, mod)
        return a

    def init(self, o, off, t, v, mod):
        k = t[0]
        if k in 'ifp':
            v = self.cv(v, mod, t)
            if v is None:
                return
            if v.w % 8:
                v = zext(v, size(t) * 8)
            o.cells[off] = v
            return
        if isinstance(v, tuple) and v[0] == 'undef':
            return
        if isinstance(v, tuple) and v[0] == 'zero':
            for i in range(size(t)):
                o.cells[off + i] = C(0, 8)
            return
        if k == 's':
            for x, f, e in zip(t[2], field_offsets(t), v[1]):
                self.init(o, off + f, x, e, mod)
        else:
            sz = size(t[2])
            for i, e in enumerate(v[1]):
                self.init(o, off + i * sz, t[2], e, mod)

    def cv(self, v, mod, t, regs=None):
        """operand to runtime value"""
        if isinstance(v, T):
            return v
        k = v[0]
        if k == 'r':
            return regs[v[1]]
        if k == 'g':
            return self.global_addr(mod, v[1])
        if k == 'undef':
            return self.undef(v[1])
        if k == 'zero':
            return self.zero(v[1])
        if k == 'agg':
            if t[0] == 's':
                return [self.cv(e, mod, x, regs) for e, x in zip(v[1], t[2])]
            return [self.cv(e, mod, t[2], regs) for e in v[1]]
        if k == 'gep':
            return self.gep(v[1], [(ot, self.cv(ov, mod, ot, regs)) for ot, ov in v[2]])
        if k == 'cast':
            x = self.cv(v[3], mod, v[2], regs)
            if v[4][0] == 'i' and x.w != v[4][1]:
                x = trunc(x, v[4][1]) if v[4][1] < x.w else zext(x, v[4][1])
            return x
        if k == 'bin':
            a = self.cv(v[2], mod, None, regs)
            b = self.cv(v[3], mod, None, regs)
            return {'add': add, 'sub': sub, 'xor': xor}[v[1]](a, b)
        raise Unsupported('operand %s' % (v,))

    def undef(self, t):
        k = t[0]
        if k in 'if':
            return fresh('undef', t[1])
        if k == 'p':
            return C(0, 64)
        if k == 's':
            return [self.undef(x) for x in t[2]]
        return [self.undef(t[2])] * t[1]

    def zero(self, t):
        k = t[0]
        if k in 'if':
            return C(0, t[1])
        if k == 'p':
            return C(0, 64)
        if k == 's':
            return [self.zero(x) for x in t[2]]
        return [self.zero(t[2])] * t[1]

    def gep(self, t, ops):
        p = ops[0][1]
        first = True
        cur = t
        for ot, ix in ops[1:]:
            if first:
                stride = size(t)
                first = False
            else:
                if cur[0] == 's':
                    off = field_offsets(cur)[ix.v]
                    cur = cur[2][ix.v]
                    p = add(p, C(off, 64))
                    continue
                cur = cur[2]
                stride = size(cur)
            if isinstance(ix, list):
                raise Unsupported('vector gep')
            if ix.w < 64:
                ix = sext(ix, 64)
            p = add(p, mul(ix, C(stride, 64)))
        return p

    # ------------------------------------------------------------ obligations
    def oblige(self, st, kind, name, bad, where):
        if bad is FALSE:
            return
        self.obls.append(Obl(kind, name, bad, st.pc, where))
        st.fact(not_(bad), 'o')

    def feasible(self, pc, cond):
        return self.solver.feasible(pc, cond)

    # ------------------------------------------------------------ execution
    def call(self, fn, args, st):
        fn.parse()
        regs = {}
        for (n, t), a in zip(fn.params, args):
            regs[n] = a
        self.fnset[fn.name] = self.fnset.get(fn.name, 0) + 1
        if fn.entry not in fn.live:
            self.oblige(st, 'panic', 'call of diverging function %s' % demangle(fn.name), TRUE, fn.name)
            st.end()
            return None
        allocs = []
        regs['#allocs'] = allocs
        out = self.run(fn, regs, st)
        if out is None:
            return None
        val, st2 = out
        for a in allocs:
            st2.mem.pop(a, None)
        return val, st2

    def phis(self, fn, regs, block, prev):
        code = fn.block(block)
        new = []
        for i in code:
            if i.op != 'phi':
                break
            v = i.a[1].get(prev)
            if v is None:
                raise Unsupported('phi edge')
            new.append((i.d, self.cv(v, fn.mod, i.a[0], regs)))
        for d, v in new:
            regs[d] = v

    def run(self, fn, regs, st):
        """one activation of a function.  Blocks are executed in weak topological order; every state that
        has reached a block is joined before it is executed.  -> (value, state), or None if no path returns"""
        wait = {}       # (time, block) -> states there
        heap = []
        visits = {}     # branch that can leave a loop -> how often it was undecided since the loop was entered
        heads = {}
        block, prev = fn.entry, None
        rets = []
        self.phis(fn, regs, block, None)
        while True:
            if block in fn.body and fn.edge(prev, block)[1] == 0:
                for b in fn.body[block]:
                    visits.pop(b, None)
                    heads.pop(b, None)
            nxt = self.block(fn, regs, st, block, visits, heads)
            if nxt and nxt[0] == 'ret':
                regs, st = nxt[2], nxt[3]
                self.drop(fn, regs, st, 'ret')
                rets.append((nxt[1], st))
            elif len(nxt) == 1 and len(nxt[0]) == 3:
                # a single way on
                to, regs, st = nxt[0]
                t = fn.edge(block, to)
                if not heap or (t, to) < heap[0]:
                    self.phis(fn, regs, to, block)
                    prev, block = block, to
                    continue
                self.arrive(fn, regs, st, block, to, t, wait, heap)
            else:
                for to, regs, st in nxt:
                    self.arrive(fn, regs, st, block, to, fn.edge(block, to), wait, heap)
            if not heap:
                break
            t, block = heappop(heap)
            parts = wait.pop((t, block))
            prev = parts[0][2]
            if len(parts) == 1:
                regs, st = parts[0][:2]
            else:
                regs, st = self.join(fn, block, [p[0] for p in parts], [p[1] for p in parts])
        if not rets:
            return None
        if len(rets) == 1:
            return rets[0]
        return self.join(fn, 'ret', [v for v, _ in rets], [s for _, s in rets])

    def arrive(self, fn, regs, st, block, to, t, wait, heap):
        self.phis(fn, regs, to, block)
        self.drop(fn, regs, st, to)
        keep = fn.livein[to]
        r = {x: v for x, v in regs.items() if x in keep}
        for i in self.leading_phis(fn, to):
            r[i.d] = regs[i.d]
        r['#allocs'] = regs['#allocs']
        k = (t, to)
        if k in wait:
            wait[k].append((r, st, block))
        else:
            wait[k] = [(r, st, block)]
            heappush(heap, k)

    def drop(self, fn, regs, st, to):
        """memory nothing can read any more"""
        if to == 'ret':
            gone = regs['#allocs']
        else:
            gone = [regs[a].v >> 32 for a in self.dead(fn, to) if a in regs]
        for i in gone:
            st.mem.pop(i, None)

    def block(self, fn, regs, st, block, visits, heads):
        """execute one block -> list of (successor, registers, state), empty if no path
        continues, or ('ret', value, registers, state)"""
        mod = fn.mod
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('generation timeout')
        for ins in fn.block(block):
            op = ins.op
            self.steps += 1
            if op == 'phi':
                continue
            h = HANDLERS.get(op)
            if h is not None:
                regs[ins.d] = h(self, fn, mod, regs, st, ins)
                continue
            if op == 'load':
                regs[ins.d] = self.load(st, ins.a[0], self.cv(ins.a[1], mod, PTR, regs), (fn.name, block))
            elif op == 'store':
                t, v, p = ins.a
                self.store(st, t, self.cv(v, mod, t, regs), self.cv(p, mod, PTR, regs), (fn.name, block))
            elif op == 'call':
                r = self.docall(fn, mod, regs, st, ins, block)
                if r is None:
                    return []
                v, st = r
                if ins.d is not None:
                    regs[ins.d] = v
            elif op == 'alloca':
                a = self.alloc(st, size(ins.a[0]) * ins.a[1], fn.name + ins.d)
                regs['#allocs'].append(a.v >> 32)
                regs[ins.d] = a
            elif op == 'br':
                c, x, y = ins.a
                if c is None:
                    return [(x, regs, st)]
                c = self.cv(c, mod, None, regs)
                return self.branch(fn, regs, st, block, [(c, x), (not_(c), y)], visits, heads)
            elif op == 'switch':
                t, v, dflt, cs = ins.a
                v = self.cv(v, mod, t, regs)
                alts = {}
                rest = TRUE
                for cv_, lab in cs:
                    e = eq(v, cv_)
                    alts[lab] = or_(alts.get(lab, FALSE), e)
                    rest = and_(rest, not_(e))
                alts[dflt] = or_(alts.get(dflt, FALSE), rest)
                return self.branch(fn, regs, st, block, [(c, l) for l, c in alts.items()], visits, heads)
            elif op == 'ret':
                t, v = ins.a
                return ('ret', None if t is None else self.cv(v, mod, t, regs), regs, st)
            elif op == 'unreachable':
                self.oblige(st, 'panic', 'unreachable code', TRUE, (fn.name, block))
                st.end()
                return []
            else:
                raise Unsupported('%s: %s' % (ins.a[0] if ins.a else '', ins.text[:200]))
        raise Unsupported('fell off block')

    def panic_name(self, fn, block):
        """describe the diverging block"""
        seen = set()
        b = block
        while b not in seen:
            seen.add(b)
            for l in fn.blocks[b]:
                m = re.search(r'call .*?(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', l)
                if m and not m.group(1).startswith('@llvm.'):
                    loc = re.findall(r'@alloc_[0-9a-f]+', l)
                    return demangle(m.group(1)) + self.location(fn.mod, loc)
            s = fn.succ[b]
            if not s:
                break
            b = s[0]
        return 'unreachable'

    def location(self, mod, locs):
        for l in locs[::-1]:
            try:
                a = self.global_addr(mod, l)
                o = self.gmem[a.v >> 32]
                if o.size == 24:
                    p = self.rd(o, 0, 8).v
                    n = self.rd(o, 8, 8).v
                    line = self.rd(o, 16, 4).v
                    col = self.rd(o, 20, 4).v
                    s = self.gmem[p >> 32]
                    f = bytes(self.rd(s, (p & 0xffffffff) + i, 1).v for i in range(n)).decode().rstrip('\0')
                    return ' at %s:%d:%d' % (f, line, col)
            except Exception:
                pass
        return ''

    def branch(self, fn, regs, st, block, alts, visits, heads):
        live = {}
        for c, l in alts:
            c = st.simp(c)
            if c is FALSE:
                continue
            if l not in fn.live:
                self.oblige(st, 'panic', self.panic_name(fn, l), c, (fn.name, l))
            else:
                live[l] = or_(live[l], c) if l in live else c
        live = [(c, l) for l, c in live.items()]
        if not live:
            st.end()
            return []
        if len(live) == 1:
            return [(live[0][1], regs, st)]
        for c, l in live:
            if c is TRUE:
                return [(l, regs, st)]
        if any(fn.leaves(block, l) for c, l in live):
            d = visits.get(block, 0)
            if d >= 4 and d & (d - 1) == 0:
                live = [(c, l) for c, l in live if self.feasible(st.pc, c)]
                if not live:
                    st.end()
                    return []
                if len(live) == 1:
                    return [(live[0][1], regs, st)]
                if d > 3000:
                    raise Unsupported('loop with unbounded symbolic trip count in ' + demangle(fn.name))
            if d and self.closed(heads, d, fn, regs, st, block):
                st.end()
                return []
            visits[block] = d + 1
        out = []
        for c, l in live:
            out.append((l, dict(regs), st.fork(c, len(live))))
        return out

    def dead(self, fn, join):
        """allocas of `fn` that nothing can read from `join` on: neither they nor a pointer derived from
        them is used in a block reachable from there, and no such pointer was captured"""
        if not hasattr(fn, 'deadat'):
            fn.deadat = {}
            fn.local = {}    # alloca -> registers derived from it (None: captured)
            uses = []
            for b, ls in fn.blocks.items():
                for l in ls:
                    rs = set(REG.findall(l))
                    if rs:
                        uses.append((l.strip(), rs))
            for l, _ in uses:
                m = re.match(r'(%[-a-zA-Z$._0-9]+|%"[^"]*") = alloca ', l)
                if m:
                    fn.local[m.group(1)] = self.derived(m.group(1), uses)
        r = fn.deadat.get(join)
        if r is None:
            reach, st = set(), [join]
            while st:
                b = st.pop()
                if b not in reach and b in fn.blocks:
                    reach.add(b)
                    st.extend(fn.succ[b])
            used = set()
            for b in reach:
                for l in fn.blocks[b]:
                    used.update(REG.findall(l))
            r = fn.deadat[join] = [a for a, ds in fn.local.items() if ds is not None and not (ds & used)]
        return r

    def derived(self, a, uses):
        ds = {a}
        n = 0
        while n != len(ds):
            n = len(ds)
            for l, rs in uses:
                if not (rs & ds):
                    continue
                m = re.match(r'(?:(%[-a-zA-Z$._0-9]+|%"[^"]*") = )?(?:(?:tail|musttail|notail) )?([a-z]+)', l)
                d, op = m.group(1), m.group(2)
                if op in ('alloca', 'load', 'icmp'):
                    continue
                if op in ('getelementptr', 'phi', 'select'):
                    ds.add(d)
                    continue
                if op == 'store':
                    v = REG.findall(l.split(', ptr ')[0])
                    if not (set(v) & ds):
                        continue
                if op == 'call' and re.search(r'@llvm\.(memcpy|memset|memmove|lifetime)', l):
                    continue
                if op == 'call':
                    args = re.split(r',(?![^(]*\))', l)
                    if all('captures(none)' in x or 'nocapture' in x for x in args if set(REG.findall(x)) & ds):
                        continue
                return None
        return ds

    def cover(self, up, leaves):
        """the path conditions of `leaves` (below the node `up`), relative to it, in the tree they form: (what tells
        each leaf from the others, the disjunction of the path conditions, the facts of each under its guard)"""
        below = {}      # node -> nodes below it in the tree
        for n in leaves:
            while n is not up:
                p = n[0]
                l = below.get(id(p))
                if l is None:
                    below[id(p)] = [n]
                    n = p
                    continue
                if not any(x is n for x in l):
                    l.append(n)
                break
        order = [up]
        i = 0
        while i < len(order):
            order += below.get(id(order[i]), ())
            i += 1
        g = {id(up): TRUE}
        facts = []
        mixed = set()   # below a node that some of the paths joined earlier have left
        for n in order[1:]:
            p = n[0]
            h = g[id(p)]
            l = below[id(p)]
            if id(p) in mixed or len(l) > 1 and any(x[7] for x in l):
                mixed.add(id(n))
            if n[2] == 'b':
                # given that one of the leaves is reached, a choice without alternative needs no test
                if len(l) > 1 or id(n) in mixed:
                    h = and_(h, n[1])
            else:
                f = or_(not_(h), n[1])
                if f is not TRUE:
                    facts.append((f, n[2]))
            g[id(n)] = h
        # disjunction, from the leaves up: an exhaustive set of choices needs no mention
        d, share = {}, {}
        for n in order[::-1]:
            l = below.get(id(n))
            if l is None:
                d[id(n)], share[id(n)] = TRUE, n[4]
                continue
            share[id(n)] = sum(share[id(x)] for x in l)
            if share[id(n)] == n[4]:
                d[id(n)] = TRUE
                continue
            if len(l) == 1 and l[0][2] != 'b':
                d[id(n)] = d[id(l[0])]
                continue
            part = [x for x in l if d[id(x)] is not TRUE]
            if len(part) == 1 and sum(x[4] for x in l) == n[4] and not any(x[7] for x in l):
                d[id(n)] = or_(not_(part[0][1]), d[id(part[0])])
            else:
                r = FALSE
                for x in l:
                    r = or_(r, and_(x[1], d[id(x)]) if x[2] == 'b' else d[id(x)])
                d[id(n)] = r
        return [g[id(n)] for n in leaves], d[id(up)], facts

    def join(self, fn, block, vals, sts):
        """one state for all states in which control reaches a block"""
        up = sts[0].pc
        low = None      # the node below `up` on the way to some state
        for s in sts[1:]:
            n = s.pc
            while n[3] > up[3]:
                low, n = n, n[0]
            while up[3] > n[3]:
                low, up = up, up[0]
            while n is not up:
                low, n, up = n, n[0], up[0]
        conds, all_, facts = self.cover(up, [s.pc for s in sts])
        n = sts[0].pc
        while n is not up:
            low, n = n, n[0]
        lits = low[6]
        r = State()
        r.weight = sum(s.weight for s in sts)
        r.pc = up
        r.lits = dict(lits)
        if r.weight != up[4]:
            r.pc = pcnode(up, all_, 'a' if r.weight + up[5] == up[4] else 'b', r.weight, lits, True)
            r.learn(all_, True)
        for f, k in facts:
            r.fact(f, k)
        # paths that touched little (early exits) first, so that each is joined to a small state
        order = list(range(len(sts)))
        if len(sts) > 2:
            w = [self.distance(sts[0], s) for s in sts]
            lim = sorted(w)[len(w) // 2] * 4 + 64
            order = [i for i in order if w[i] > lim] + [i for i in order if w[i] <= lim]
        i = order[-1]
        val = vals[i]
        r.mem = dict(sts[i].mem)
        for i in order[-2::-1]:
            if block == 'ret':
                val = merge_val(conds[i], vals[i], val)
            else:
                new = {}
                for x, v in vals[i].items():
                    y = val.get(x)
                    if x == '#allocs':
                        new[x] = v
                    elif y is not None:
                        new[x] = merge_val(conds[i], v, y)
                val = new
            self.merge_mem(conds[i], sts[i], r)
        return val, r

    def distance(self, a, b):
        n = 0
        for i, o in b.mem.items():
            q = a.mem.get(i)
            if q is None:
                n += 1
            elif q is not o:
                c = q.cells
                for k, x in o.cells.items():
                    if c.get(k) is not x:
                        n += 1
        return n

    def closed(self, heads, d, fn, regs, st, block):
        """Induction for loops whose trip count depends on inputs read in the loop (polling).

        The set of states at this visit of the branch is compared with that of the previous visit,
        after renaming the inputs that visit had read to those read since.  If registers, memory and
        ghost state agree and every path fact of the previous visit holds now, the states here are
        among those the previous visit already covers: whatever can happen from here has been
        considered, for any number of iterations, and the path is closed.  The previous visit's
        state set is the (inferred) loop invariant, checked inductive here."""
        n = len(self.inputs)
        prev = heads.get(block)
        # choices already decided on this path
        if d < 64:
            for i in list(st.mem):
                o = st.mem[i]
                if prev is not None and prev[0] == d - 1 and prev[3].get(i) is o:
                    continue
                for k, c in list(o.cells.items()):
                    if c.op == 'ite':
                        x = st.simp(c)
                        if x is not c:
                            self.wr(st, i, k, x)
                            o = st.mem[i]
            for r, v in regs.items():
                if isinstance(v, T) and v.op == 'ite':
                    regs[r] = st.simp(v)
        ok = False
        if prev is not None and prev[0] == d - 1 and n > prev[1]:
            k = n - prev[1]
            old, new = self.inputs[max(0, prev[1] - k):prev[1]], self.inputs[prev[1]:n]
            base = lambda x: x.split('#')[0]
            if [(base(a), len(v)) for a, v in old] == [(base(a), len(v)) for a, v in new]:
                known = {}
                for (_, v), (_, w) in zip(old, new):
                    for x, y in zip(v, w):
                        known[x.id] = y
                try:
                    ok = self.renamed(known, prev, regs, st)
                except Exception as e:
                    if not str(e).startswith('build '):
                        raise
        if ok:
            self.notes.add('loop in %s closed by induction (invariant: the state set of its previous iteration, inputs renamed)' % demangle(fn.name))
            return True
        if d < 64:
            for o in st.mem.values():
                if o.owner is st:
                    o.owner = None
            heads[block] = (d, n, dict(regs), dict(st.mem), st.pc)
        return False

    def renamed(self, known, prev, regs, st):
        from split import rebuild
        memo = {}
        def same(a, b):
            if isinstance(a, list):
                return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
            if not isinstance(a, T):
                return a == b
            return isinstance(b, T) and rebuild(a, known, memo) is b
        _, _, pregs, pmem, ppc = prev
        if pregs['#allocs'] is not regs['#allocs']:
            return False    # another activation of the function
        for r, v in pregs.items():
            if r != '#allocs' and not same(v, regs.get(r)):
                return False
        for i, o in st.mem.items():
            q = pmem.get(i)
            if q is None:
                return False
            if q is o:
                for c in o.cells.values():
                    if not same(c, c):
                        return False
                continue
            if set(q.cells) != set(o.cells):
                return False
            for k, c in q.cells.items():
                if not same(c, o.cells[k]):
                    return False
        have = set()
        n = st.pc
        while n is not None:
            have.add(n[1].id)
            n = n[0]
        n = ppc
        while n is not None:
            if rebuild(n[1], known, memo).id not in have:
                return False
            n = n[0]
        return True

    def leading_phis(self, fn, b):
        out = []
        for i in fn.block(b):
            if i.op != 'phi':
                break
            out.append(i)
        return out

    def merge_mem(self, c, a, r):
        """r := c ? a : r"""
        for i, oa in a.mem.items():
            n = r.mem.get(i)
            if n is None:
                r.mem[i] = oa
                continue
            if n is oa:
                continue
            ca, cn = oa.cells, n.cells
            offs = [k for k, x in ca.items() if cn.get(k) is not x]
            offs += [k for k in cn if k not in ca]
            if not offs:
                continue
            if n.owner is not r:
                n = Obj(n.size, n.name)
                n.owner = r
                cn = n.cells = dict(cn)
                r.mem[i] = n
            for off in sorted(offs):
                x = ca.get(off)
                y = cn.get(off)
                if x is y:
                    continue
                if x is not None and y is not None and x.w == y.w:
                    cn[off] = merge_val(c, x, y)
                    continue
                # different granularity: whole cells where the other side has nothing or all of it
                if x is not None and (y is None or x.w > y.w):
                    m = x.w // 8
                    q = [self._cover_byte(n, off + k) for k in range(m)]
                    if not any(q):
                        cn[off] = x
                        continue
                    if all(q):
                        y = self.rd(n, off, m)
                        self.clear(n, off, m)
                        cn[off] = merge_val(c, x, y)
                        continue
                elif y is not None:
                    m = y.w // 8
                    q = [self._cover_byte(oa, off + k) for k in range(m)]
                    if not any(q):
                        continue
                    if all(q):
                        cn[off] = merge_val(c, self.rd(oa, off, m), y)
                        continue
                # byte-wise over the union range
                w = max(x.w if x is not None else 0, y.w if y is not None else 0) // 8
                for k in range(off, off + w):
                    p = self._cover_byte(oa, k)
                    q = self._cover_byte(n, k)
                    if p is None:
                        continue
                    t = extract(p[1], 8 * (k - p[0]), 8)
                    if q is not None:
                        t = merge_val(c, t, extract(q[1], 8 * (k - q[0]), 8))
                    z = cn.get(k)
                    if z is None or z.w != 8:
                        self.clear(n, k, 1)
                    cn[k] = t

    # ------------------------------------------------------------ calls
    def docall(self, fn, mod, regs, st, ins, block):
        rt, cv, args = ins.a
        if cv == 'asm':
            return (None, st)      # black_box style empty asm
        av = [None if v is None else self.cv(v, mod, t, regs) for t, v in args]
        if cv[0] == 'g':
            name = cv[1]
            if name.startswith('@llvm.'):
                return self.intrinsic(name, rt, args, av, st, (fn.name, block)), st
            f = mod.funcs.get(name) or self.fns.get(name)
        else:
            p = self.cv(cv, mod, PTR, regs)
            if p.op != 'c':
                raise Unsupported('symbolic function pointer')
            f = self.faddr.get(p.v)
            if isinstance(f, str):
                name = f
                f = None
            elif f is None:
                raise Unsupported('call of non-function')
            else:
                name = f.name
        for rx, hnd in self.contracts.items():
            if re.search(rx, name):
                return hnd(self, st, av, rt)
        if f is not None:
            return self.call(f, av, st)
        return self.extern(name, rt, args, av, st, (fn.name, block))

    def cstr(self, st, p, n):
        p = p.v
        o = self.obj(st, p >> 32)
        return bytes(self.rd(o, (p & 0xffffffff) + i, 1).v for i in range(n.v)).decode()

    def extern(self, name, rt, args, av, st, where):
        n = name[1:]
        if n == 'vf_any':
            nm = self.cstr(st, av[2], av[3]).split('@')[0]
            k = sum(1 for x in self.inputs if x[0] == nm or x[0].startswith(nm + '#'))
            if k:
                nm = '%s#%d' % (nm, k)
            cnt = self.conc(av[1], 'vf_any length')
            vs = []
            for i in range(cnt):
                v = var('in!%s!%d' % (nm, i), 8)
                vs.append(v)
            p = self.conc(av[0], 'vf_any pointer')
            i = 0
            step = 1
            for i in range(cnt):
                self.wr(st, p >> 32, (p & 0xffffffff) + i, vs[i])
            self.inputs.append((nm, vs))
            return None, st
        if n == 'vf_check':
            nm = self.cstr(st, av[1], av[2])
            c = av[0]
            c = extract(c, 0, 1) if c.w > 1 else c
            self.obls.append(Obl('check', nm, not_(c), st.pc, where))
            return None, st
        if n == 'vf_feq':
            nm = self.cstr(st, av[2], av[3])
            self.obls.append(Obl('check', nm, not_(eq(av[0], av[1])), st.pc, where))
            return None, st
        if n == 'vf_fn':
            # the value at this argument; equal arguments are recognised by their normal form
            k = (self.cstr(st, av[1], av[2]), av[0].id)
            r = self.fnvals.get(k)
            if r is None:
                r = self.fnvals[k] = (av[0], var('fn!%s!%d' % (k[0], len(self.fnvals)), 16))
            return r[1], st
        if n == 'vf_assume':
            c = av[0]
            c = extract(c, 0, 1) if c.w > 1 else c
            if c is FALSE:
                st.end()
                return None
            if c is not TRUE:
                st.fact(c, 'a')
            return None, st
        if n == 'vf_cover':
            nm = self.cstr(st, av[1], av[2])
            c = av[0]
            c = extract(c, 0, 1) if c.w > 1 else c
            self.covers.setdefault(nm, []).append((c, st.pc))
            return None, st
        if n in ('memcpy', 'memmove'):
            self.memcpy(st, av[0], av[1], av[2], where)
            return av[0], st
        if n == 'memset':
            self.memset(st, av[0], extract(av[1], 0, 8), av[2], where)
            return av[0], st
        if n in ('memcmp', 'bcmp'):
            k = self.conc(av[2], 'memcmp length')
            r = C(0, 32)
            for i in range(k - 1, -1, -1):
                a = self.load_bits(st, add(av[0], C(i, 64)), 1, where)
                b = self.load_bits(st, add(av[1], C(i, 64)), 1, where)
                r = ite(eq(a, b), r, ite(ult(a, b), C(-1, 32), C(1, 32)))
            return r, st
        if n in ('powf', 'pow', 'exp2f', 'sqrtf', 'expf', 'logf', 'fmodf', 'ldexpf', 'roundf', 'cbrtf', 'fmaf', 'sqrt', 'exp2', 'exp', 'log', 'log2f', 'floorf', 'ceilf', 'truncf', 'ldexp', 'round'):
            if n == 'ldexpf':
                return ldexp(av[0], av[1]), st
            return uf(n.rstrip('f') if n not in ('expf', 'powf', 'sqrtf') else n[:-1], rt[1], av), st
        raise Unsupported('external function ' + demangle(name))

    def intrinsic(self, name, rt, args, av, st, where):
        n = name[6:]
        b = n.split('.')[0]
        if n.startswith('memcpy') or n.startswith('memmove'):
            self.memcpy(st, av[0], av[1], av[2], where)
            return None
        if n.startswith('memset'):
            self.memset(st, av[0], av[1], av[2], where)
            return None
        if b == 'assume':
            if av[0] is FALSE:
                self.oblige(st, 'memory', 'llvm.assume', TRUE, where)
            return None       # compiler-generated facts are not used
        if b == 'expect':
            return av[0]
        if b in ('bswap',):
            return bswap(av[0])
        if '.with.overflow' in n:
            sg, o = n[0] == 's', n[1:4]
            a, c = av[0], av[1]
            w = a.w
            ext = sext if sg else zext
            f = {'add': add, 'sub': sub, 'mul': mul}[o]
            r = f(a, c)
            if sg:
                x, y = srange(a), srange(c)
                p = [x[0] + y[0], x[1] + y[1]] if o == 'add' else [x[0] - y[1], x[1] - y[0]] if o == 'sub' else [i * j for i in x for j in y]
                if -(1 << (w - 1)) <= min(p) and max(p) < 1 << (w - 1):
                    return [r, FALSE]
            W = 2 * w if o == 'mul' else w + 1
            wide = f(ext(a, W), ext(c, W))
            if a.op == 'c' and c.op == 'c' or not (o == 'add' and not sg):
                if not sg and o == 'sub':
                    ov = ult(a, c)
                else:
                    ov = not_(eq(wide, ext(r, W)))
            else:
                ov = extract(wide, w, 1)
                if umax(a) + umax(c) < 1 << w:
                    ov = FALSE
            if not sg and o == 'mul' and umax(a) * umax(c) < 1 << w:
                ov = FALSE
            return [r, ov]
        if b in ('umin', 'umax', 'smin', 'smax'):
            a, c = av
            if isinstance(a, list):
                raise Unsupported('vector ' + n)
            lt = ult(a, c) if b[0] == 'u' else slt(a, c)
            return ite(lt, a, c) if b[1:] == 'min' else ite(lt, c, a)
        if b in ('scmp', 'ucmp'):
            a, c = av
            w = rt[1]
            lt = (ult if b == 'ucmp' else slt)(a, c)
            return ite(lt, C(-1, w), ite(eq(a, c), C(0, w), C(1, w)))
        if b == 'abs':
            a = av[0]
            return ite(slt(a, C(0, a.w)), neg(a), a)
        if b == 'ctpop':
            a = av[0]
            return popcount_sum([extract(a, i, 1) for i in range(a.w)], a.w)
        if b in ('cttz', 'ctlz'):
            a = av[0]
            r = C(a.w, a.w)
            rng = range(a.w - 1, -1, -1) if b == 'cttz' else range(a.w)
            for i in rng:
                r = ite(extract(a, i, 1), C(i if b == 'cttz' else a.w - 1 - i, a.w), r)
            return r
        if b in ('fshl', 'fshr'):
            a, c, s = av
            w = a.w
            if s.op != 'c':
                if a is c:
                    raise Unsupported('symbolic rotate')
                raise Unsupported('symbolic fshl')
            k = s.v % w
            cc = concat(a, c)
            return extract(cc, w - k, w) if b == 'fshl' else extract(cc, k, w)
        if n.startswith(('usub.sat', 'uadd.sat', 'ssub.sat', 'sadd.sat')):
            a, c = av
            w = a.w
            if n.startswith('usub'):
                return ite(ult(a, c), C(0, w), sub(a, c))
            if n.startswith('uadd'):
                r = add(a, c)
                return ite(ult(r, a), C(-1, w), r)
            f = add if n.startswith('sadd') else sub
            r = f(sext(a, w + 1), sext(c, w + 1))
            lo, hi = C(-(1 << (w - 1)), w + 1), C((1 << (w - 1)) - 1, w + 1)
            return trunc(ite(slt(r, lo), lo, ite(slt(hi, r), hi, r)), w)
        if b == 'fabs':
            a = av[0]
            return concat(C(0, 1), extract(a, 0, a.w - 1))
        if b == 'copysign':
            return concat(extract(av[1], av[1].w - 1, 1), extract(av[0], 0, av[0].w - 1))
        if b == 'ldexp':
            return ldexp(av[0], av[1])
        if b == 'exp2' and av[0].op == 'itof' and av[0].a[0].w <= 32:
            return ldexp(py2f(1.0, av[0].w), sext(av[0].a[0], 32))
        if b == 'powi' and av[1].op == 'c' and 0 < av[1].v < 64:
            # the multiplication sequence of compiler-rt's __powisf2 / __powidf2
            a, e, r = av[0], av[1].v, None
            while True:
                if e & 1:
                    r = a if r is None else fmul(r, a)
                e >>= 1
                if not e:
                    return r
                a = fmul(a, a)
        if b in ('powi', 'pow', 'exp2', 'sqrt', 'exp', 'log', 'log2', 'log10', 'floor', 'ceil', 'trunc', 'round', 'roundeven', 'rint', 'fma', 'fmuladd', 'minnum', 'maxnum', 'cbrt', 'sin', 'cos', 'minimumnum', 'maximumnum'):
            return uf(b, rt[1], av)
        if b in ('fptosi', 'fptoui'):
            return uf(b + '_sat', rt[1], av)
        if n.startswith('is.fpclass'):
            raise Unsupported(n)
        if n in ('x86.sse2.pause', 'aarch64.isb', 'aarch64.hint'):
            return None
        if b == 'trap':
            self.oblige(st, 'panic', 'trap', TRUE, where)
            return None
        raise Unsupported('intrinsic ' + name)

def merge_val(c, a, b):
    if a is b or a is None:
        return b
    if isinstance(a, list):
        return [merge_val(c, x, y) for x, y in zip(a, b)]
    # an undefined value may be any value
    if a.op == 'var' and a.v.startswith(('uninit', 'undef')):
        return b
    if b is not None and b.op == 'var' and b.v.startswith(('uninit', 'undef')):
        return a
    return ite(c, a, b)

def gcd_of(s):
    import math as _m
    if s.op == 'c':
        return s.v
    if s.op == 'concat':
        l = s.a[1]
        if l.op == 'c' and l.v == 0:
            return 1 << l.w
        if s.a[0].op == 'c' and s.a[0].v == 0:
            return gcd_of(l)
        return gcd_of(l) & -gcd_of(l) if gcd_of(l) else 1
    if s.op == 'mul':
        g = 1
        for x in s.a:
            g *= gcd_of(x) or 1
        return g
    if s.op == 'add':
        return _m.gcd(gcd_of(s.a[0]), gcd_of(s.a[1])) or 1
    if s.op == 'neg':
        return gcd_of(s.a[0])
    if s.op == 'ite':
        return _m.gcd(gcd_of(s.a[1]), gcd_of(s.a[2])) or 1
    return 1

# ---------------------------------------------------------------- instruction handlers
HANDLERS = {}
def _vec(f, a, b):
    if isinstance(a, list):
        return [f(x, y) for x, y in zip(a, b)]
    return f(a, b)

def _binop(f):
    def h(self, fn, mod, regs, st, ins):
        t, a, b = ins.a
        return _vec(f, self.cv(a, mod, t, regs), self.cv(b, mod, t, regs))
    return h
def _fsimp(st, t):
    # float operations are uninterpreted: keep their arguments free of alternatives already decided
    if t.op == 'ite':
        return st.simp(t)
    if t.op == 'fneg' and t.a[0].op == 'ite':
        return fneg(st.simp(t.a[0]))
    return t
def _fbinop(f):
    def h(self, fn, mod, regs, st, ins):
        t, a, b = ins.a
        return _vec(lambda x, y: f(_fsimp(st, x), _fsimp(st, y)), self.cv(a, mod, t, regs), self.cv(b, mod, t, regs))
    return h
for _n, _f in (('add', add), ('sub', sub), ('mul', mul), ('udiv', udiv), ('urem', urem), ('sdiv', sdiv), ('srem', srem),
               ('shl', shl), ('lshr', lshr), ('ashr', ashr), ('and', and_), ('or', or_), ('xor', xor),
               ('fadd', fadd), ('fsub', fsub), ('fmul', fmul), ('fdiv', fdiv), ('frem', frem)):
    HANDLERS[_n] = _binop(_f) if _n[0] != 'f' else _fbinop(_f)

def _h(name):
    def d(f):
        HANDLERS[name] = f
        return f
    return d

@_h('fneg')
def _(self, fn, mod, regs, st, ins):
    return fneg(self.cv(ins.a[1], mod, ins.a[0], regs))

def icmp(p, a, b):
    if p == 'eq':
        return eq(a, b)
    if p == 'ne':
        return not_(eq(a, b))
    if p == 'ult':
        return ult(a, b)
    if p == 'ugt':
        return ult(b, a)
    if p == 'ule':
        return not_(ult(b, a))
    if p == 'uge':
        return not_(ult(a, b))
    if p == 'slt':
        return slt(a, b)
    if p == 'sgt':
        return slt(b, a)
    if p == 'sle':
        return not_(slt(b, a))
    return not_(slt(a, b))

@_h('icmp')
def _(self, fn, mod, regs, st, ins):
    p, t, a, b = ins.a
    return _vec(lambda x, y: icmp(p, x, y), self.cv(a, mod, t, regs), self.cv(b, mod, t, regs))

@_h('fcmp')
def _(self, fn, mod, regs, st, ins):
    p, t, a, b = ins.a
    return fcmp(p, self.cv(a, mod, t, regs), self.cv(b, mod, t, regs))

@_h('select')
def _(self, fn, mod, regs, st, ins):
    ct, c, t, a, b = ins.a
    c = self.cv(c, mod, ct, regs)
    a = self.cv(a, mod, t, regs)
    b = self.cv(b, mod, t, regs)
    if isinstance(c, list):
        return [ite(x, y, z) for x, y, z in zip(c, a, b)]
    return merge_val(c, a, b) if c.op != 'c' else (a if c.v else b)

def _cast(name):
    def d(f):
        def h(self, fn, mod, regs, st, ins):
            t, a, t2 = ins.a
            v = self.cv(a, mod, t, regs)
            if isinstance(v, list) and name != 'bitcast':
                return [f(x, t[2], t2[2]) for x in v]
            return f(v, t, t2)
        HANDLERS[name] = h
        return f
    return d
_cast('zext')(lambda v, t, t2: zext(v, t2[1]))
_cast('sext')(lambda v, t, t2: sext(v, t2[1]))
_cast('trunc')(lambda v, t, t2: trunc(v, t2[1]))
def _itof(signed):
    def h(self, fn, mod, regs, st, ins):
        t, a, t2 = ins.a
        v = self.cv(a, mod, t, regs)
        if isinstance(v, list):
            return [itof(_fsimp(st, x), t2[2][1], signed) for x in v]
        return itof(_fsimp(st, v), t2[1], signed)
    return h
HANDLERS['sitofp'] = _itof(True)
HANDLERS['uitofp'] = _itof(False)
_cast('fptosi')(lambda v, t, t2: uf('fptosi', t2[1], [v]))
_cast('fptoui')(lambda v, t, t2: uf('fptoui', t2[1], [v]))
_cast('fpext')(lambda v, t, t2: py2f(f2py(v), t2[1]) if v.op == 'c' else uf('fpext', t2[1], [v]))
_cast('fptrunc')(lambda v, t, t2: py2f(f2py(v), t2[1]) if v.op == 'c' else uf('fptrunc', t2[1], [v]))
def _p2i(v, t, t2):
    w = t2[1] if t2[0] == 'i' else 64
    return v if v.w == w else (trunc(v, w) if w < v.w else zext(v, w))
_cast('ptrtoint')(_p2i)
_cast('ptrtoaddr')(_p2i)
_cast('inttoptr')(_p2i)

def flat(v, t):
    if t[0] == 'v' or t[0] == 'a':
        r = None
        for e in v:
            x = flat(e, t[2])
            r = x if r is None else concat(x, r)
        return r
    return v
def unflat(v, t):
    if t[0] == 'v':
        w = v.w // t[1]
        return [extract(v, i * w, w) for i in range(t[1])]
    return v
_cast('bitcast')(lambda v, t, t2: unflat(flat(v, t), t2))

@_h('getelementptr')
def _(self, fn, mod, regs, st, ins):
    t, ops = ins.a
    return self.gep(t, [(ot, self.cv(v, mod, ot, regs)) for ot, v in ops])

@_h('extractvalue')
def _(self, fn, mod, regs, st, ins):
    t, v, ix = ins.a
    x = self.cv(v, mod, t, regs)
    for i in ix:
        x = x[i]
    return x

@_h('insertvalue')
def _(self, fn, mod, regs, st, ins):
    t, v, t2, e, ix = ins.a
    x = self.cv(v, mod, t, regs)
    e = self.cv(e, mod, t2, regs)
    def setp(x, ix):
        if not ix:
            return e
        x = list(x)
        x[ix[0]] = setp(x[ix[0]], ix[1:])
        return x
    return setp(x, ix)

@_h('extractelement')
def _(self, fn, mod, regs, st, ins):
    t, v, e = ins.a
    x = self.cv(v, mod, t, regs)
    i = self.cv(e, mod, None, regs)
    return x[self.conc(i, 'vector index')]

@_h('insertelement')
def _(self, fn, mod, regs, st, ins):
    t, v, e, i = ins.a
    x = list(self.cv(v, mod, t, regs))
    x[self.conc(self.cv(i, mod, None, regs), 'vector index')] = self.cv(e, mod, t[2], regs)
    return x

@_h('shufflevector')
def _(self, fn, mod, regs, st, ins):
    t, v, v2, mk = ins.a
    x = self.cv(v, mod, t, regs) + self.cv(v2, mod, t, regs)
    if mk[0] == 'zero':
        return [x[0]] * mk[1][1]
    return [x[e.v] if isinstance(e, T) else self.undef(t[2]) for e in mk[1]]

@_h('freeze')
def _(self, fn, mod, regs, st, ins):
    return self.cv(ins.a[1], mod, ins.a[0], regs)

def demangle(n):
    n = n.lstrip('@').strip('"')
    # light v0 demangling: keep the identifier path
    if n.startswith('_R'):
        out = []
        i = 2
        s = n
        while i < len(s):
            if s[i].isdigit():
                j = i
                while j < len(s) and s[j].isdigit():
                    j += 1
                k = int(s[i:j])
                if j < len(s) and s[j] == '_':
                    j += 1
                if 0 < k <= len(s) - j and k < 60:
                    out.append(s[j:j + k])
                    i = j + k
                    continue
                i = j
            elif s[i] == 's' and i + 1 < len(s) and False:
                i += 1
            else:
                # skip crate disambiguator  s<base62>_
                m = re.match(r's[0-9A-Za-z]*_', s[i:])
                if m and i >= 3 and s[i - 1] == 'C':
                    i += m.end()
                else:
                    i += 1
        return '::'.join(out) or n
    return n
