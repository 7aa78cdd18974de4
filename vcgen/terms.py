"""Hash-consed bit-vector / uninterpreted-float terms with a small simplifier.

Every value is a bit-vector (booleans have width 1).  IEEE operations on f32 and
f64 are *uninterpreted* functions of the operand bit patterns, normalised only by
laws that hold bit for bit in IEEE-754 (up to NaN payloads): commutativity of + and
*, a-b = a+(-b), sign symmetry of * and /, x/2^k = x*2^-k, and constant folding.
Comparisons and int->float conversions of narrow integers are interpreted exactly.
"""
import struct, math, zlib

class T:
    __slots__ = ('op', 'w', 'a', 'id', 'v')
    def __repr__(self):
        return show(self)

_tab = {}
_n = [0]

def _mk(op, w, a, v=None):
    k = (op, w, tuple([x.id if isinstance(x, T) else x for x in a]), v)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op; t.w = w; t.a = a; t.v = v
        _n[0] += 1
        t.id = _n[0]
        _tab[k] = t
    return t

def show(t, d=6):
    if t.op == 'c':
        return '%#x:%d' % (t.v, t.w)
    if t.op == 'var':
        return str(t.v)
    if d == 0:
        return '..'
    return '(%s:%d%s %s)' % (t.op, t.w, '' if t.v is None else ' ' + str(t.v), ' '.join(show(x, d - 1) for x in t.a))

_cc = {}
def C(v, w):
    v &= (1 << w) - 1
    k = (v, w)
    t = _cc.get(k)
    if t is None:
        t = _mk('c', w, (), v)
        _cc[k] = t
    return t

def var(name, w):
    return _mk('var', w, (), name)

_fresh = [0]
def fresh(prefix, w):
    _fresh[0] += 1
    return var('%s!%d' % (prefix, _fresh[0]), w)

TRUE = C(1, 1)
FALSE = C(0, 1)

def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v

def order(a, b):
    # constants first, then by id
    if a.op == 'c':
        return a, b
    if b.op == 'c':
        return b, a
    return (a, b) if a.id <= b.id else (b, a)

_sem = {}
def _var(t, seed):
    if seed == 'zeros':
        return 0
    if seed == 'ones':
        return (1 << t.w) - 1
    k = str(t.v) if seed == 0 else '%s@%s' % (t.v, seed)
    return _h('var', k) if t.w <= 64 else _h('var', k) << 64 | _h('var2', k)

def _h(*k):
    x = 0x9E3779B97F4A7C15
    for y in k:
        if isinstance(y, str):
            y = zlib.crc32(y.encode())
        y &= (1 << 192) - 1
        while True:
            x = ((x ^ (y & 0xffffffffffffffff)) * 0xBF58476D1CE4E5B9) & 0xffffffffffffffff
            x ^= x >> 31
            y >>= 64
            if not y:
                break
    x = (x * 0x94D049BB133111EB) & 0xffffffffffffffff
    return x ^ x >> 29

def sem(root, seed=0):
    """value of a term under one fixed pseudo-random assignment (float operations hashed); equal terms
    have equal values whatever their syntax, so it gives commutative operands a canonical order"""
    m = _sem.get(seed)
    if m is None:
        m = _sem[seed] = {}
    if root.id in m:
        return m[root.id]
    st = [root]
    while st:
        t = st[-1]
        if t.id in m:
            st.pop()
            continue
        todo = [x for x in t.a if x.id not in m]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        a = [m[x.id] for x in t.a]
        o, w = t.op, t.w
        M = (1 << w) - 1
        if o == 'c':
            r = t.v
        elif o == 'var':
            r = _var(t, seed)
        elif o == 'add':
            r = a[0] + a[1]
        elif o == 'neg':
            r = -a[0]
        elif o == 'mul':
            r = a[0] * a[1]
        elif o == 'and':
            r = a[0] & a[1]
        elif o == 'or':
            r = a[0] | a[1]
        elif o == 'xor':
            r = a[0] ^ a[1]
        elif o == 'concat':
            r = a[0] << t.a[1].w | a[1]
        elif o == 'ext':
            r = a[0] >> t.v
        elif o == 'sext':
            r = sgn(a[0], t.a[0].w)
        elif o == 'ite':
            r = a[1] if a[0] else a[2]
        elif o == 'eq':
            r = a[0] == a[1]
        elif o == 'ult':
            r = a[0] < a[1]
        elif o == 'slt':
            r = sgn(a[0], t.a[0].w) < sgn(a[1], t.a[1].w)
        elif o == 'shl':
            r = a[0] << a[1] if a[1] < w else 0
        elif o == 'lshr':
            r = a[0] >> a[1] if a[1] < w else 0
        elif o == 'ashr':
            r = sgn(a[0], w) >> min(a[1], w)
        elif o == 'udiv':
            r = a[0] // a[1] if a[1] else M
        elif o == 'urem':
            r = a[0] % a[1] if a[1] else a[0]
        elif o == 'fneg':
            r = a[0] ^ 1 << (w - 1)
        elif o in ('fadd', 'fmul', 'feq'):
            r = _h(o, *sorted(a))
        elif o == 'itof':
            r = _h(o, w, sgn(a[0], t.a[0].w))
        else:
            r = _h(o, str(t.v), *a)
        m[t.id] = int(r) & M
    return m[root.id]

def forder(a, b):
    if a.op == 'c':
        return a, b
    if b.op == 'c':
        return b, a
    x, y = (sem(a), a.id), (sem(b), b.id)
    return (a, b) if x <= y else (b, a)

def add(a, b):
    w = a.w
    a, b = order(a, b)
    if a.op == 'c':
        if b.op == 'c':
            return C(a.v + b.v, w)
        if a.v == 0:
            return b
        if b.op == 'add' and b.a[0].op == 'c':
            return add(C(a.v + b.a[0].v, w), b.a[1])
    elif a.op == 'add' and a.a[0].op == 'c':
        return add(a.a[0], add(a.a[1], b))
    elif b.op == 'add' and b.a[0].op == 'c':
        return add(b.a[0], add(a, b.a[1]))
    if w == 1:
        return xor(a, b)
    # x + (-x)
    if a.op == 'neg' and a.a[0] is b or b.op == 'neg' and b.a[0] is a:
        return C(0, w)
    # (u + -v) + v
    for x, y in ((a, b), (b, a)):
        if x.op == 'add':
            p, q = x.a
            for r, s in ((p, q), (q, p)):
                if (r.op == 'neg' and r.a[0] is y) or (y.op == 'neg' and y.a[0] is r):
                    return s
    if a.op == 'c':
        return _mk('add', w, (a, b))
    # short sums in a canonical order
    ls = _summands(a, 8)
    if ls is not None:
        l2 = _summands(b, 8 - len(ls))
        if l2 is not None and len(ls) + len(l2) > 2:
            ls = sorted(ls + l2, key=lambda x: (sem(x), x.id))
            r = ls[-1]
            for x in ls[-2::-1]:
                r = _mk('add', w, (x, r))
            return r
    if (sem(a), a.id) > (sem(b), b.id):
        a, b = b, a
    return _mk('add', w, (a, b))

def _summands(t, n):
    """the summands of a sum of at most n, else None"""
    if n <= 0:
        return None
    if t.op != 'add':
        return [t]
    x = _summands(t.a[0], n - 1)
    if x is None:
        return None
    y = _summands(t.a[1], n - len(x))
    return None if y is None else x + y

def neg(a):
    if a.op == 'c':
        return C(-a.v, a.w)
    if a.op == 'neg':
        return a.a[0]
    if a.op == 'add':
        return add(neg(a.a[0]), neg(a.a[1]))
    return _mk('neg', a.w, (a,))

def sub(a, b):
    if a is b:
        return C(0, a.w)
    return add(a, neg(b))

def mul(a, b):
    w = a.w
    a, b = order(a, b)
    if a.op == 'c':
        if b.op == 'c':
            return C(a.v * b.v, w)
        if a.v == 0:
            return a
        if a.v == 1:
            return b
        if a.v & (a.v - 1) == 0:
            return shl(b, C(a.v.bit_length() - 1, w))
    return _mk('mul', w, (a, b))

def udiv(a, b):
    if b.op == 'c' and b.v:
        if a.op == 'c':
            return C(a.v // b.v, a.w)
        if b.v & (b.v - 1) == 0:
            return lshr(a, C(b.v.bit_length() - 1, a.w))
    return _mk('udiv', a.w, (a, b))

def urem(a, b):
    if b.op == 'c' and b.v:
        if a.op == 'c':
            return C(a.v % b.v, a.w)
        if b.v & (b.v - 1) == 0:
            return and_(a, C(b.v - 1, a.w))
    return _mk('urem', a.w, (a, b))

def sdiv(a, b):
    if a.op == 'c' and b.op == 'c' and b.v:
        x, y = sgn(a.v, a.w), sgn(b.v, a.w)
        q = abs(x) // abs(y)
        return C(q if (x < 0) == (y < 0) else -q, a.w)
    return _mk('sdiv', a.w, (a, b))

def srem(a, b):
    if a.op == 'c' and b.op == 'c' and b.v:
        x, y = sgn(a.v, a.w), sgn(b.v, a.w)
        r = abs(x) % abs(y)
        return C(r if x >= 0 else -r, a.w)
    return _mk('srem', a.w, (a, b))

def concat(hi, lo):
    w = hi.w + lo.w
    if hi.op == 'c' and lo.op == 'c':
        return C(hi.v << lo.w | lo.v, w)
    if hi.op == 'ext' and lo.op == 'ext' and hi.a[0] is lo.a[0] and hi.v == lo.v + lo.w:
        return extract(hi.a[0], lo.v, w)
    # the sign bit repeated in front
    if hi.op == 'ite' and hi.a[1].op == 'c' and hi.a[2].op == 'c' and hi.a[1].v == (1 << hi.w) - 1 and hi.a[2].v == 0 \
            and hi.a[0] is extract(lo, lo.w - 1, 1):
        return sext(lo, w)
    # right-associate: concat(concat(a,b),c) -> concat(a,concat(b,c))
    if hi.op == 'concat':
        return concat(hi.a[0], concat(hi.a[1], lo))
    if lo.op == 'concat' and hi.op in ('ext', 'c'):
        m = lo.a[0]
        if m.op == hi.op:
            if hi.op == 'c':
                return concat(C(hi.v << m.w | m.v, hi.w + m.w), lo.a[1])
            if hi.a[0] is m.a[0] and hi.v == m.v + m.w:
                return concat(extract(hi.a[0], m.v, hi.w + m.w), lo.a[1])
    return _mk('concat', w, (hi, lo))

_exm = {}
def extract(a, lo, w):
    if lo == 0 and w == a.w:
        return a
    if a.op == 'c':
        return C(a.v >> lo, w)
    k = (a.id, lo, w)
    r = _exm.get(k)
    if r is None:
        r = _exm[k] = _extract(a, lo, w)
    return r

def _extract(a, lo, w):
    o = a.op
    if o == 'ext':
        return extract(a.a[0], a.v + lo, w)
    if o == 'concat':
        h, l = a.a
        if lo >= l.w:
            return extract(h, lo - l.w, w)
        if lo + w <= l.w:
            return extract(l, lo, w)
        return concat(extract(h, 0, lo + w - l.w), extract(l, lo, l.w - lo))
    if o == 'sext':
        x = a.a[0]
        if lo + w <= x.w:
            return extract(x, lo, w)
        if lo == 0:
            return sext(x, w)
        if lo >= x.w:
            return sext(extract(x, x.w - 1, 1), w)
    if o in ('and', 'or', 'xor') and (a.a[0].op == 'c' or w <= 8 or lo == 0):
        return {'and': and_, 'or': or_, 'xor': xor}[o](extract(a.a[0], lo, w), extract(a.a[1], lo, w))
    if o in ('add', 'mul') and lo == 0:
        return (add if o == 'add' else mul)(extract(a.a[0], 0, w), extract(a.a[1], 0, w))
    if o == 'neg' and lo == 0:
        return neg(extract(a.a[0], 0, w))
    if o == 'ite':
        c, x, y = a.a
        if x.op in ('c', 'concat', 'ext') or y.op in ('c', 'concat', 'ext'):
            return ite(c, extract(x, lo, w), extract(y, lo, w))
    return _mk('ext', w, (a,), lo)

def zext(a, w):
    if w == a.w:
        return a
    return concat(C(0, w - a.w), a)

def sext(a, w):
    if w == a.w:
        return a
    if a.op == 'c':
        return C(sgn(a.v, a.w), w)
    if a.op == 'sext':
        return sext(a.a[0], w)
    if a.op == 'concat' and a.a[0].op == 'c' and a.a[0].v >> (a.a[0].w - 1) == 0:
        return zext(a, w)
    if a.op == 'ite' and a.a[1].op == 'c' and a.a[2].op == 'c':
        return ite(a.a[0], sext(a.a[1], w), sext(a.a[2], w))
    return _mk('sext', w, (a,))

def trunc(a, w):
    return extract(a, 0, w)

def shl(a, b):
    w = a.w
    if b.op == 'c':
        k = b.v
        if k >= w:
            return C(0, w)
        if k == 0:
            return a
        return concat(extract(a, 0, w - k), C(0, k))
    if a.op == 'c' and a.v == 0:
        return a
    return _mk('shl', w, (a, b))

def lshr(a, b):
    w = a.w
    if b.op == 'c':
        k = b.v
        if k >= w:
            return C(0, w)
        if k == 0:
            return a
        return zext(extract(a, k, w - k), w)
    if a.op == 'c' and a.v == 0:
        return a
    return _mk('lshr', w, (a, b))

def ashr(a, b):
    w = a.w
    if b.op == 'c':
        k = min(b.v, w - 1)
        if k == 0:
            return a
        return sext(extract(a, k, w - k), w)
    return _mk('ashr', w, (a, b))

def _runs(m, w):
    """split mask into runs [(bit, lo, len)] from low to high"""
    out = []
    i = 0
    while i < w:
        b = m >> i & 1
        j = i
        while j < w and m >> j & 1 == b:
            j += 1
        out.append((b, i, j - i))
        i = j
    return out

def _cut_const(a):
    """positions of constant pieces when a is a concat with constants"""
    return a.op == 'concat'

def _pieces(a):
    """list of (term) from low to high"""
    out = []
    st = [a]
    while st:
        x = st.pop()
        if x.op == 'concat':
            st.append(x.a[0])
            st.append(x.a[1])
        else:
            out.append(x)
    return out

def _join(ps):
    r = ps[0]
    for p in ps[1:]:
        r = concat(p, r)
    return r

def _align(a, b):
    """split both at union of cut points; yields pairs low->high"""
    pa, pb = _pieces(a), _pieces(b)
    cuts = set()
    for ps in (pa, pb):
        o = 0
        for p in ps:
            o += p.w
            cuts.add(o)
    cuts = sorted(cuts)
    out = []
    o = 0
    for c in cuts:
        out.append((extract(a, o, c - o), extract(b, o, c - o)))
        o = c
    return out

_lit = {}
def _literals(c):
    """What a condition says on its own: its conjuncts by id (at most 64 of them), true or false."""
    r = _lit.get(c.id)
    if r is None:
        r, st = {}, [(c, True)]
        while st and len(r) < 64:
            t, v = st.pop()
            while t.op == 'xor' and t.a[0] is TRUE:
                t, v = t.a[1], not v
            r[t.id] = v
            if t.op == ('and' if v else 'or'):
                st.extend((x, v) for x in t.a)
        _lit[c.id] = r
    return r

def _given(lits, t, n):
    """t where the literals are known"""
    v = lits.get(t.id)
    if v is not None:
        return TRUE if v else FALSE
    if n and t.w == 1:
        if t.op == 'xor' and t.a[0] is TRUE:
            return not_(_given(lits, t.a[1], n))
        if t.op in ('and', 'or'):
            x, y = _given(lits, t.a[0], n - 1), _given(lits, t.a[1], n - 1)
            if x is not t.a[0] or y is not t.a[1]:
                return and_(x, y) if t.op == 'and' else or_(x, y)
    return t

def and_(a, b):
    w = a.w
    if a is b:
        return a
    a, b = order(a, b)
    m = (1 << w) - 1
    if a.op == 'c':
        if b.op == 'c':
            return C(a.v & b.v, w)
        if a.v == 0:
            return a
        if a.v == m:
            return b
        rs = _runs(a.v, w)
        if len(rs) <= 6:
            return _join([extract(b, lo, n) if bit else C(0, n) for bit, lo, n in rs])
    elif w > 1 and (a.op == 'concat' or b.op == 'concat') and _hasconst(a, b):
        return _join([and_(x, y) for x, y in _align(a, b)])
    if w == 1:
        if not_(a) is b:
            return FALSE
        r = _zeroconj(a, b)
        if r is not None:
            return r
        for x, y in ((a, b), (b, a)):
            r = _given(_literals(x), y, 4)
            if r is not y:
                return and_(x, r)
    return _mk('and', w, (a, b))

def _zerotests(t, out, n):
    """the bits a conjunction of zero tests is about: {base: mask}; False if it is anything else"""
    if t.op == 'and':
        return n > 0 and _zerotests(t.a[0], out, n - 1) and _zerotests(t.a[1], out, n - 1)
    if t.op == 'xor':
        x = t.a[1]
    elif t.op == 'eq' and t.a[0].op == 'c' and t.a[0].v == 0:
        x = t.a[1]
    else:
        return False
    b, m = (x.a[0], ((1 << x.w) - 1) << x.v) if x.op == 'ext' else (x, (1 << x.w) - 1)
    if b.op in ('and', 'or', 'xor', 'eq', 'ult', 'slt', 'ite') and b.w == 1:
        return False
    k = out.setdefault(b.id, [b, 0, 0])
    k[1] |= m
    k[2] += 1
    return True

def _zeroconj(a, b):
    """x[8..11] = 0 and x[0..8] = 0 is x[0..11] = 0"""
    if a.op not in ('and', 'xor', 'eq') or b.op not in ('and', 'xor', 'eq'):
        return None
    z = {}
    if not _zerotests(a, z, 8) or not _zerotests(b, z, 8):
        return None
    # single bits stay on their own
    if all(n == 1 or bin(m).count('1') == n for _, m, n in z.values()):
        return None
    ts = []
    for t, m, _ in z.values():
        for bit, lo, n in _runs(m, t.w):
            if bit:
                ts.append(eq(C(0, n), extract(t, lo, n)))
    ts.sort(key=lambda t: (sem(t), t.id))
    r = ts[-1]
    for t in ts[-2::-1]:
        r = _mk('and', 1, (t, r))
    return r

def _hasconst(a, b):
    for t in (a, b):
        if t.op == 'concat':
            for p in _pieces(t):
                if p.op == 'c':
                    return True
    return False

def or_(a, b):
    w = a.w
    if a is b:
        return a
    a, b = order(a, b)
    m = (1 << w) - 1
    if a.op == 'c':
        if b.op == 'c':
            return C(a.v | b.v, w)
        if a.v == 0:
            return b
        if a.v == m:
            return a
        rs = _runs(a.v, w)
        if len(rs) <= 6:
            return _join([C(-1, n) if bit else extract(b, lo, n) for bit, lo, n in rs])
    elif w > 1 and (a.op == 'concat' or b.op == 'concat') and _hasconst(a, b):
        return _join([or_(x, y) for x, y in _align(a, b)])
    if w == 1:
        if not_(a) is b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            r = _given(_literals(not_(x)), y, 4)
            if r is not y:
                return or_(x, r)
    return _mk('or', w, (a, b))

def xor(a, b):
    w = a.w
    if a is b:
        return C(0, w)
    a, b = order(a, b)
    if a.op == 'c':
        if b.op == 'c':
            return C(a.v ^ b.v, w)
        if a.v == 0:
            return b
        if b.op == 'xor' and b.a[0].op == 'c':
            return xor(C(a.v ^ b.a[0].v, w), b.a[1])
        if w == 1 and b.op == 'ite':
            return ite(b.a[0], xor(a, b.a[1]), xor(a, b.a[2]))
        if b.op == 'concat' and w > 1:
            return _join([xor(x, y) for x, y in _align(a, b)])
    elif w > 1 and (a.op == 'concat' or b.op == 'concat') and _hasconst(a, b):
        return _join([xor(x, y) for x, y in _align(a, b)])
    elif a.op == 'xor' and a.a[0].op == 'c':
        return xor(a.a[0], xor(a.a[1], b))
    elif b.op == 'xor' and b.a[0].op == 'c':
        return xor(b.a[0], xor(a, b.a[1]))
    return _mk('xor', w, (a, b))

def not_(a):
    return xor(C(-1, a.w), a)

def _zeros(a):
    """leading zero bits on sight"""
    if a.op == 'c':
        return a.w - a.v.bit_length()
    if a.op == 'concat' and a.a[0].op == 'c':
        return _zeros(a.a[0]) if a.a[0].v else a.a[0].w
    return 0

def ite(c, a, b):
    if c.op == 'c':
        return a if c.v else b
    if a is b:
        return a
    if c.op == 'xor' and c.a[0].op == 'c':   # negated condition
        c, a, b = c.a[1], b, a
        if c.op == 'c':
            return a if c.v else b
    if a.w == 1:
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        if a is TRUE:
            return or_(c, b)
        if b is FALSE:
            return and_(c, a)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        # the common part in front
        for x, y, d in ((a, b, c), (b, a, not_(c))):
            if y.op in ('and', 'or') and x in y.a:
                z = y.a[1] if y.a[0] is x else y.a[0]
                return and_(x, or_(d, z)) if y.op == 'and' else or_(x, and_(not_(d), z))
    while a.op == 'ite' and (v := _literals(c).get(a.a[0].id)) is not None:
        a = a.a[1] if v else a.a[2]
    while b.op == 'ite' and (v := _literals(not_(c)).get(b.a[0].id)) is not None:
        b = b.a[1] if v else b.a[2]
    if a is b:
        return a
    # sign extension written as a choice of the upper bits
    if a.op == 'concat' and b.op == 'concat' and a.a[1] is b.a[1] and a.a[0].op == 'c' and b.a[0].op == 'c':
        h, l = a.a
        for v, x, y in ((1, a.a[0].v, b.a[0].v), (0, b.a[0].v, a.a[0].v)):
            if y == 0 and x == (1 << h.w) - 1 and (c if v else not_(c)) is extract(l, l.w - 1, 1):
                return sext(l, a.w)
    # and as a choice of subtracting 2^k
    for v, x, y in ((1, a, b), (0, b, a)):
        if x.op == 'add' and x.a[0].op == 'c' and x.a[1] is y and y.op == 'concat' and _zeros(y):
            l = extract(y, 0, a.w - _zeros(y))
            if x.a[0].v == (1 << a.w) - (1 << l.w) and (c if v else not_(c)) is extract(l, l.w - 1, 1):
                return sext(l, a.w)
    # leading zeros in front
    k = min(_zeros(a), _zeros(b)) if a.op == 'concat' or b.op == 'concat' else 0
    if k:
        return concat(C(0, k), ite(c, extract(a, 0, a.w - k), extract(b, 0, a.w - k)))
    return _mk('ite', a.w, (c, a, b))

_eqm = {}
def eq(a, b):
    if a is b:
        return TRUE
    a, b = order(a, b)
    if a.op == 'c':
        if b.op == 'c':
            return TRUE if a.v == b.v else FALSE
        if a.w == 1:
            return b if a.v else not_(b)
        if b.op == 'ite':
            c, x, y = b.a
            k = (a.id, b.id)
            r = _eqm.get(k)
            if r is None:
                ex, ey = eq(a, x), eq(a, y)
                r = ite(c, ex, ey) if ex.op == 'c' or ey.op == 'c' else _mk('eq', 1, (a, b))
                _eqm[k] = r
            return r
        if b.op == 'concat':
            ps = [eq(x, y) for x, y in _align(a, b)]
            r = TRUE
            for p in ps:
                if p is FALSE:
                    return FALSE
                r = and_(p, r)
            return r
        if b.op == 'add' and b.a[0].op == 'c':
            return eq(C(a.v - b.a[0].v, a.w), b.a[1])
        if b.op == 'add' and a.v == 0 and umax(b.a[0]) + umax(b.a[1]) < 1 << a.w:
            return and_(eq(a, b.a[0]), eq(a, b.a[1]))
        if b.op == 'or' and a.v == 0:
            return and_(eq(a, b.a[0]), eq(a, b.a[1]))
        if b.op == 'neg':
            return eq(C(-a.v, a.w), b.a[0])
        if b.op == 'xor' and b.a[0].op == 'c':
            return eq(C(a.v ^ b.a[0].v, a.w), b.a[1])
        if b.op == 'sext':
            x = b.a[0]
            if C(sgn(a.v & ((1 << x.w) - 1), x.w), a.w) is not a:
                return FALSE
            return eq(extract(a, 0, x.w), x)
    if a.w == 1:
        return not_(xor(a, b))
    if a.op == 'concat' and b.op == 'concat' and a.a[1].w == b.a[1].w:
        x = eq(a.a[0], b.a[0])
        if x is FALSE:
            return x
        return and_(x, eq(a.a[1], b.a[1]))
    return _mk('eq', 1, (a, b))

def ult(a, b):
    if a is b:
        return FALSE
    if umax(a) < umin(b):
        return TRUE
    if umin(a) >= umax(b):
        return FALSE
    if a.op == 'c' and b.op == 'c':
        return TRUE if a.v < b.v else FALSE
    if b.op == 'c':
        if b.v == 0:
            return FALSE
        if umax(a) < b.v:
            return TRUE
        if b.v == 1:
            return eq(C(0, a.w), a)
        if a.op == 'concat' and a.a[0].op == 'c' and a.a[0].v == 0:
            return ult(a.a[1], C(b.v, a.a[1].w))
        if b.v & (b.v - 1) == 0:
            k = b.v.bit_length() - 1
            return eq(C(0, a.w - k), extract(a, k, a.w - k))
    if a.op == 'c':
        if a.v == (1 << a.w) - 1:
            return FALSE
        if umax(b) <= a.v:
            return FALSE
        if b.op == 'concat' and b.a[0].op == 'c' and b.a[0].v == 0:
            return ult(C(a.v, b.a[1].w), b.a[1])
        if a.v & (a.v + 1) == 0:
            k = a.v.bit_length()
            return not_(eq(C(0, a.w - k), extract(b, k, a.w - k)))
    if a.op == 'add' and umax(a.a[0]) + umax(a.a[1]) < 1 << a.w:
        # x + y < x without overflow
        if b is a.a[0] or b is a.a[1]:
            return FALSE
        p, q = _summands(a, 8), _summands(b, 8)
        if p and q and sum(umax(x) for x in p) < 1 << a.w:
            p = list(p)
            for x in q:
                if x not in p:
                    break
                p.remove(x)
            else:
                return FALSE
    return _mk('ult', 1, (a, b))

_um = {}
def umax(a):
    """upper bound (unsigned)"""
    r = _um.get(a.id)
    if r is None:
        r = _um[a.id] = _umax(a)
    return r

def _umax(a):
    o = a.op
    if o == 'c':
        return a.v
    if o == 'concat':
        return umax(a.a[0]) << a.a[1].w | umax(a.a[1])
    if o == 'ite':
        return max(umax(a.a[1]), umax(a.a[2]))
    if o == 'add':
        r = _within(a, a.w)
        if r:
            return r[1]
    if o == 'and':
        return min(umax(a.a[0]), umax(a.a[1]))
    if o == 'ext':
        if a.a[0].op == 'add':
            r = _within(a.a[0], a.v + a.w)
            if r:
                return r[1] >> a.v
        return min(umax(a.a[0]) >> a.v, (1 << a.w) - 1)
    return (1 << a.w) - 1

_ul = {}
def umin(a):
    """lower bound (unsigned)"""
    r = _ul.get(a.id)
    if r is None:
        r = _ul[a.id] = _umin(a)
    return r

def _umin(a):
    o = a.op
    if o == 'c':
        return a.v
    if o == 'concat':
        return umin(a.a[0]) << a.a[1].w | umin(a.a[1])
    if o == 'ite':
        return min(umin(a.a[1]), umin(a.a[2]))
    if o == 'or':
        return max(umin(a.a[0]), umin(a.a[1]))
    if o == 'add':
        r = _within(a, a.w)
        if r:
            return r[0]
    if o == 'ext' and a.a[0].op == 'add':
        r = _within(a.a[0], a.v + a.w)
        if r:
            return r[0] >> a.v
    if o == 'ext' and umax(a.a[0]) < 1 << (a.v + a.w):
        return umin(a.a[0]) >> a.v
    return 0

def _within(a, n):
    """bounds of the low n bits of a sum, where all its values wrap equally often"""
    x, y = a.a
    lo, hi = umin(x) + umin(y), umax(x) + umax(y)
    if lo >> n == hi >> n:
        return lo & (1 << n) - 1, hi & (1 << n) - 1

_sr = {}
def srange(a):
    """bounds of the signed value"""
    r = _sr.get(a.id)
    if r is None:
        r = _sr[a.id] = _srange(a)
    return r

def _srange(a):
    o = a.op
    h = 1 << (a.w - 1)
    if o == 'c':
        x = sgn(a.v, a.w)
        return x, x
    if o == 'sext':
        return srange(a.a[0])
    if o == 'ite':
        x, y = srange(a.a[1]), srange(a.a[2])
        return min(x[0], y[0]), max(x[1], y[1])
    r = None
    if o == 'add':
        x, y = srange(a.a[0]), srange(a.a[1])
        r = x[0] + y[0], x[1] + y[1]
    elif o == 'neg':
        x = srange(a.a[0])
        r = -x[1], -x[0]
    elif o == 'mul':
        x, y = srange(a.a[0]), srange(a.a[1])
        p = [i * j for i in x for j in y]
        r = min(p), max(p)
    elif o == 'shl' and umax(a.a[1]) < a.w:
        x = srange(a.a[0])
        k = umax(a.a[1])
        r = min(x[0], x[0] << k), max(x[1], x[1] << k)
    elif o == 'concat' and umax(a) >= h:
        x = srange(a.a[0])
        k = a.a[1].w
        r = x[0] << k, (x[1] << k) + umax(a.a[1])
    elif o == 'ashr' and a.a[1].op == 'c' and a.a[1].v < a.w:
        x = srange(a.a[0])
        r = x[0] >> a.a[1].v, x[1] >> a.a[1].v
    else:
        u = umax(a)
        if u < h:
            return 0, u
    if r is not None and -h <= r[0] and r[1] < h:
        return r
    return -h, h - 1

def slt(a, b):
    if a is b:
        return FALSE
    if a.op == 'c' and b.op == 'c':
        return TRUE if sgn(a.v, a.w) < sgn(b.v, b.w) else FALSE
    if b.op == 'c' and b.v == 0:
        return extract(a, a.w - 1, 1)
    if a.op == 'c' and a.v == (1 << a.w) - 1:
        return not_(extract(b, b.w - 1, 1))
    x, y = srange(a), srange(b)
    if x[1] < y[0]:
        return TRUE
    if x[0] >= y[1]:
        return FALSE
    # both provably non-negative
    h = 1 << (a.w - 1)
    if umax(a) < h and umax(b) < h:
        return ult(a, b)
    return _mk('slt', 1, (a, b))

def bswap(a):
    n = a.w // 8
    r = extract(a, 0, 8)
    for i in range(1, n):
        r = concat(r, extract(a, 8 * i, 8))
    return r

# ---------------------------------------------------------------- floats
FM = {32: ('<f', '<I', 23, 127), 64: ('<d', '<Q', 52, 1023)}

def f2py(t):
    f, i, _, _ = FM[t.w]
    return struct.unpack(f, struct.pack(i, t.v))[0]

def py2f(x, w):
    f, i, m, b = FM[w]
    if x != x:
        return C(((1 << (w - m - 1)) - 1) << m | 1 << (m - 1), w)
    try:
        return C(struct.unpack(i, struct.pack(f, x))[0], w)
    except OverflowError:
        return C((((1 << (w - m - 1)) - 1) << m) | ((1 << (w - 1)) if x < 0 else 0), w)

def sbit(w):
    return C(1 << (w - 1), w)

def fneg(a):
    if a.op == 'fneg':
        return a.a[0]
    if a.op == 'c':
        return C(a.v ^ 1 << (a.w - 1), a.w)
    if a.op in ('fmul', 'fdiv', 'fadd', 'itof', 'fext', 'ftrunc', 'uf', 'var', 'concat', 'ite', 'ext'):
        return _mk('fneg', a.w, (a,))
    return _mk('fneg', a.w, (a,))

def _ispow2(c):
    _, _, m, b = FM[c.w]
    e = c.v >> m & ((1 << (c.w - m - 1)) - 1)
    return c.v & ((1 << m) - 1) == 0 and 0 < e < 2 * b

def _negc(t):
    return t.op == 'c' and t.v >> (t.w - 1) and (t.v & ((1 << (t.w - 1)) - 1)) <= ((1 << (t.w - 1 - FM[t.w][2])) - 1) << FM[t.w][2]

def fmul(a, b):
    w = a.w
    n = False
    if a.op == 'fneg':
        a = a.a[0]; n = not n
    if b.op == 'fneg':
        b = b.a[0]; n = not n
    if a.op == 'c' and b.op == 'c':
        r = _fold('mul', a, b)
        return fneg(r) if n else r
    if _negc(a):
        a = fneg(a); n = not n
    if _negc(b):
        b = fneg(b); n = not n
    a, b = forder(a, b)
    if a.op == 'c' and f2py(a) == 1.0:
        r = b
    else:
        r = _mk('fmul', w, (a, b))
    return fneg(r) if n else r

def _fold(o, a, b):
    x, y = f2py(a), f2py(b)
    try:
        if o == 'mul':
            r = x * y
        elif o == 'add':
            r = x + y
        else:
            r = x / y
    except ZeroDivisionError:
        if x == 0 or x != x:
            r = float('nan')
        else:
            r = math.copysign(float('inf'), x) * math.copysign(1, y)
    # double rounding is innocuous for +,*,/ of f32 computed in f64
    return py2f(r, a.w)

def fdiv(a, b):
    w = a.w
    n = False
    if a.op == 'fneg':
        a = a.a[0]; n = not n
    if b.op == 'fneg':
        b = b.a[0]; n = not n
    if a.op == 'c' and b.op == 'c':
        r = _fold('div', a, b)
        return fneg(r) if n else r
    if _negc(a):
        a = fneg(a); n = not n
    if _negc(b):
        b = fneg(b); n = not n
    if b.op == 'c' and _ispow2(b) and _ispow2(py2f(1.0 / f2py(b), w)):
        r = fmul(a, py2f(1.0 / f2py(b), w))
    else:
        r = _mk('fdiv', w, (a, b))
    return fneg(r) if n else r

def fadd(a, b):
    if a.op == 'c' and b.op == 'c':
        return _fold('add', a, b)
    a, b = forder(a, b)
    if a.op == 'c' and a.v == 1 << (a.w - 1):
        return b            # x + (-0.0) = x
    if b.op == 'c' and b.v == 1 << (b.w - 1):
        return a
    return _mk('fadd', a.w, (a, b))

def fsub(a, b):
    return fadd(a, fneg(b))

def frem(a, b):
    return _mk('uf', a.w, (a, b), 'frem')

def itof(a, w, signed):
    """exact source is normalised to the narrowest signed form"""
    if a.op == 'c':
        x = sgn(a.v, a.w) if signed else a.v
        return _int2f(x, w)
    if not signed:
        a = zext(a, a.w + 1)
    # narrow
    while True:
        if a.op == 'sext':
            a = a.a[0]
        elif a.op == 'concat' and a.a[0].op == 'c' and a.a[0].v == 0 and a.a[0].w > 1:
            a = concat(C(0, 1), a.a[1])
            break
        else:
            break
    # its range may need fewer bits still
    if a.op == 'concat' and a.a[0].op == 'c' and a.a[0].v == 0:
        k = umax(a).bit_length()
        if k + 1 < a.w:
            a = concat(C(0, 1), extract(a, 0, k))
    elif a.op in ('add', 'mul', 'neg', 'ite'):
        lo, hi = srange(a)
        k = max(hi, ~lo).bit_length() + 1
        if lo >= 0:
            a = concat(C(0, 1), extract(a, 0, k - 1))
        elif k < a.w:
            a = extract(a, 0, k)
    if a.op == 'ite' and a.a[1].op == 'c' and a.a[2].op == 'c':
        return ite(a.a[0], _int2f(sgn(a.a[1].v, a.w), w), _int2f(sgn(a.a[2].v, a.w), w))
    if a.w == 2 and a.op == 'concat':      # 0/1
        return ite(a.a[1], _int2f(1, w), _int2f(0, w))
    return _mk('itof', w, (sext(a, 128) if False else a,))

def _int2f(x, w):
    if w == 64:
        return py2f(float(x), 64)
    # correctly rounded int -> f32 (avoid double rounding)
    s = x < 0
    m = abs(x)
    n = m.bit_length()
    if n > 24:
        sh = n - 24
        q, r = m >> sh, m & ((1 << sh) - 1)
        half = 1 << (sh - 1)
        if r > half or (r == half and q & 1):
            q += 1
        m = q << sh
    return py2f(float(-m if s else m), 32)

def isnan(a):
    _, _, m, b = FM[a.w]
    return ult(C(((1 << (a.w - m - 1)) - 1) << m, a.w), concat(C(0, 1), extract(a, 0, a.w - 1)))

def fcmp(p, a, b):
    if p == 'false':
        return FALSE
    if p == 'true':
        return TRUE
    if a.op == 'c' and b.op == 'c':
        x, y = f2py(a), f2py(b)
        un = x != x or y != y
        if p == 'ord':
            return C(not un, 1)
        if p == 'uno':
            return C(un, 1)
        r = {'eq': x == y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y, 'ne': x != y}[p[1:]]
        if un:
            r = p[0] == 'u'
        return C(int(r), 1)
    if p == 'ord':
        return and_(not_(isnan(a)), not_(isnan(b)))
    if p == 'uno':
        return or_(isnan(a), isnan(b))
    q = p[1:]
    if p[0] == 'u':
        # unordered version = not(ordered version of the complement)
        comp = {'eq': 'one', 'ne': 'oeq', 'lt': 'oge', 'le': 'ogt', 'gt': 'ole', 'ge': 'olt'}[q]
        return not_(fcmp(comp, a, b))
    if q == 'gt':
        return _mk('flt', 1, (b, a))
    if q == 'ge':
        return _mk('fle', 1, (b, a))
    if q == 'lt':
        return _mk('flt', 1, (a, b))
    if q == 'le':
        return _mk('fle', 1, (a, b))
    if q == 'eq':
        a, b = forder(a, b)
        return _mk('feq', 1, (a, b))
    # one: ordered and not equal
    return or_(_mk('flt', 1, (a, b)), _mk('flt', 1, (b, a)))

def ldexp(x, n):
    """ldexp(1.0, n) is interpreted exactly; other mantissas stay uninterpreted"""
    if x.op == 'c' and x.w == 32 and f2py(x) == 1.0:
        if n.op == 'c':
            k = sgn(n.v, n.w)
            return py2f(math.ldexp(1.0, k) if k < 1000 else float('inf'), 32)
        w = n.w
        n = sext(n, 32) if w < 32 else n
        w = n.w
        z = add(n, C(127, w))
        norm = concat(C(0, 1), concat(extract(z, 0, 8), C(0, 23)))
        sub_ = shl(C(1, 32), extract(add(n, C(149, w)), 0, 32))
        inr = and_(slt(C(-127, w), n), slt(n, C(128, w)))
        low = and_(slt(C(-150, w), n), slt(n, C(-126, w)))
        return ite(inr, norm, ite(slt(C(127, w), n), C(0x7f800000, 32), ite(low, sub_, C(0, 32))))
    return _mk('uf', x.w, (x, n), 'ldexp')

def uf(name, w, args):
    return _mk('uf', w, tuple(args), name)

_vidx = {}
_vmask = {}
def varmask(root):
    """set of variables of a term, as a bit mask"""
    r = _vmask.get(root.id)
    if r is not None:
        return r
    st = [root]
    while st:
        t = st[-1]
        if t.id in _vmask:
            st.pop()
            continue
        if t.op == 'var':
            _vmask[t.id] = 1 << _vidx.setdefault(t.id, len(_vidx))
            st.pop()
            continue
        todo = [x for x in t.a if x.id not in _vmask]
        if todo:
            st.extend(todo)
            continue
        m = 0
        for x in t.a:
            m |= _vmask[x.id]
        _vmask[t.id] = m
        st.pop()
    return _vmask[root.id]

def cone(seed, facts):
    """facts that (transitively) share a variable with seed"""
    m = varmask(seed)
    todo = [(varmask(f), f) for f in facts]
    out = []
    while True:
        rest = []
        n = len(out)
        for v, f in todo:
            if v & m or v == 0:
                out.append(f)
                m |= v
            else:
                rest.append((v, f))
        todo = rest
        if len(out) == n:
            return out

def popcount_sum(bits, w):
    r = C(0, w)
    for b in bits:
        r = add(r, zext(b, w))
    return r

# ---------------------------------------------------------------- evaluation
def evalt(t, env, cache=None):
    """concrete evaluation of a non-float term (used in self tests)"""
    raise NotImplementedError
