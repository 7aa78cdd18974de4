"""Parser for the textual LLVM IR that rustc emits (the subset needed here)."""
import re, struct
from terms import *

TOK = re.compile(r'''\s*(?:
   (?P<str>c"(?:[^"\\]|\\.)*")
 | (?P<loc>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:[-a-zA-Z$._0-9]+)?(?:\([^()]*\))?)
 | (?P<attr>\#\d+)
 | (?P<hex>f?0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+(?:\.\d*(?:[eE][-+]?\d+)?)?)
 | (?P<qs>"(?:[^"\\]|\\.)*")
 | (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[(){}\[\]<>,=*:|])
 )''', re.X)

class Toks:
    def __init__(self, s):
        self.t = []
        i = 0
        n = len(s)
        while i < n:
            m = TOK.match(s, i)
            if not m:
                if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                    break
                raise SyntaxError('token: ' + s[i:i + 60] + ' in ' + s[:200])
            i = m.end()
            k = m.lastgroup
            self.t.append((k, m.group(k)))
        self.i = 0
    def peek(self, d=0):
        j = self.i + d
        return self.t[j][1] if j < len(self.t) else None
    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None
    def next(self):
        x = self.t[self.i][1]
        self.i += 1
        return x
    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False
    def need(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError('expected %s got %s in %s' % (x, y, self.t))

# types: ('i',n) ('f',32|64) ('p',) ('a',n,t) ('s',packed,(ts)) ('v',n,t) ('void',) ('label',) ('meta',)
_ti = {}
def ty(*a):
    return _ti.setdefault(a, a)
PTR = ty('p')
def size_align(t):
    k = t[0]
    if k == 'i':
        n = (t[1] + 7) // 8
        a = 1
        while a < n and a < 16:
            a *= 2
        return ((n + a - 1) // a * a, a)
    if k == 'f':
        return (t[1] // 8, t[1] // 8)
    if k == 'p':
        return (8, 8)
    if k == 'a':
        s, a = size_align(t[2])
        return (s * t[1], a)
    if k == 's':
        o = 0
        al = 1
        for x in t[2]:
            s, a = size_align(x)
            if t[1]:
                a = 1
            o = (o + a - 1) // a * a + s
            al = max(al, a)
        return ((o + al - 1) // al * al, al)
    if k == 'v':
        s, a = size_align(t[2])
        return (s * t[1], s * t[1])
    raise TypeError(t)
_sa = {}
def size(t):
    r = _sa.get(t)
    if r is None:
        r = _sa[t] = size_align(t)
    return r[0]
def field_offsets(t):
    o = 0
    out = []
    for x in t[2]:
        s, a = size_align(x)
        if t[1]:
            a = 1
        o = (o + a - 1) // a * a
        out.append(o)
        o += s
    return out

class Module:
    def __init__(self, path, idx):
        self.path = path
        self.idx = idx
        self.types = {}
        self.funcs = {}     # name -> Function (lazy)
        self.globals = {}   # name -> (const, type, init tokens, line)
        self.decls = set()
        cur = None
        for line in open(path):
            if cur is not None:
                if line.startswith('}'):
                    cur = None
                else:
                    cur.lines.append(line)
                continue
            if line.startswith('define'):
                m = re.match(r'define.*?(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', line)
                name = m.group(1)
                internal = bool(re.match(r'define (?:internal|private)', line))
                f = Function(self, name, line, internal)
                self.funcs[name] = f
                cur = f
            elif line.startswith('declare'):
                m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', line)
                self.decls.add(m.group(1))
            elif line.startswith('@'):
                m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)', line)
                self.globals[m.group(1)] = m.group(2)
            elif line.startswith('%'):
                m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)', line)
                if m:
                    self.types[m.group(1)] = Toks(m.group(2))

    def ptype(self, tk):
        x = tk.next()
        if x[0] == 'i' and x[1:].isdigit():
            return ty('i', int(x[1:]))
        if x == 'ptr':
            if tk.peek() == 'addrspace':
                raise SyntaxError('addrspace')
            return PTR
        if x == 'float':
            return ty('f', 32)
        if x == 'double':
            return ty('f', 64)
        if x == 'void':
            return ty('void')
        if x == 'label':
            return ty('label')
        if x == 'metadata':
            return ty('meta')
        if x == '[':
            n = int(tk.next())
            tk.need('x')
            t = self.ptype(tk)
            tk.need(']')
            return ty('a', n, t)
        if x == '<':
            if tk.eat('{'):
                ts = self.plist(tk)
                tk.need('>')
                return ty('s', True, ts)
            n = int(tk.next())
            tk.need('x')
            t = self.ptype(tk)
            tk.need('>')
            return ty('v', n, t)
        if x == '{':
            return ty('s', False, self.plist(tk))
        if x[0] == '%':
            tt = self.types[x]
            tt.i = 0
            return self.ptype(tt)
        raise SyntaxError('type ' + x)

    def plist(self, tk):
        ts = []
        if tk.eat('}'):
            return ()
        while True:
            ts.append(self.ptype(tk))
            if tk.eat('}'):
                return tuple(ts)
            tk.need(',')

ATTRS1 = {'noundef', 'nonnull', 'noalias', 'readonly', 'writeonly', 'readnone', 'nocapture', 'zeroext', 'signext',
          'inreg', 'returned', 'immarg', 'nofree', 'swiftself', 'dead_on_unwind', 'writable', 'noreturn', 'nounwind',
          'noinline', 'cold', 'allocptr', 'nest', 'dead_on_return', 'inrange'}
ATTRSP = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'align', 'captures', 'range', 'initializes', 'nofpclass',
          'elementtype', 'memory', 'allocsize'}

def skip_attrs(tk):
    while True:
        x = tk.peek()
        if x in ATTRS1:
            tk.next()
        elif x in ATTRSP:
            tk.next()
            if tk.peek() == '(':
                d = 0
                while True:
                    y = tk.next()
                    if y == '(':
                        d += 1
                    elif y == ')':
                        d -= 1
                        if d == 0:
                            break
            elif x == 'align':
                tk.next()
        else:
            return

class Inst:
    __slots__ = ('op', 'd', 'a', 'text')

REGS = re.compile(r'%"[^"]*"|%[-a-zA-Z$._0-9]+')
DEF = re.compile(r'\s*(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = ')

class Function:
    def __init__(self, mod, name, header, internal):
        self.mod = mod
        self.name = name
        self.header = header
        self.internal = internal
        self.lines = []
        self.parsed = False

    def parse(self):
        if self.parsed:
            return
        self.parsed = True
        m = self.mod
        h = self.header
        i = h.index(self.name + '(') + len(self.name)
        tk = Toks(h[i:])
        tk.need('(')
        self.params = []
        if not tk.eat(')'):
            while True:
                if tk.peek() == '...':
                    tk.next()
                    tk.need(')')
                    break
                t = m.ptype(tk)
                skip_attrs(tk)
                self.params.append((tk.next(), t))
                if tk.eat(')'):
                    break
                tk.need(',')
        # blocks
        self.blocks = {}
        cur = None
        pend = None
        for line in self.lines:
            s = line.rstrip('\n')
            if not s.strip():
                continue
            if pend is not None:
                pend += ' ' + s
                if s.strip().startswith(']'):
                    self._ins(cur, pend)
                    pend = None
                continue
            if not s.startswith(' '):
                mm = re.match(r'("(?:[^"])*"|[-a-zA-Z$._0-9]+):', s)
                if mm:
                    cur = '%' + mm.group(1)
                    self.blocks[cur] = []
                    if len(self.blocks) == 1:
                        self.entry = cur
                    continue
            if cur is None:
                cur = '%0'
                self.blocks[cur] = []
                self.entry = cur
            if s.lstrip().startswith(('#dbg', ';')):
                continue
            if s.lstrip().startswith('switch') and s.rstrip().endswith('['):
                pend = s
                continue
            self._ins(cur, s)
        self._cfg()

    def _ins(self, blk, s):
        self.blocks[blk].append(s)

    def _cfg(self):
        """successors, diverging blocks, immediate post-dominators"""
        self.code = {}
        self.succ = {}
        for b, lines in self.blocks.items():
            t = lines[-1].strip()
            if t.startswith('br '):
                self.succ[b] = re.findall(r'label (%(?:"[^"]*"|[-a-zA-Z$._0-9]+))', t)
            elif t.startswith('switch '):
                self.succ[b] = re.findall(r'label (%(?:"[^"]*"|[-a-zA-Z$._0-9]+))', t)
            elif t.startswith('ret'):
                self.succ[b] = ['ret']
            elif t.startswith('unreachable'):
                self.succ[b] = []
            else:
                raise SyntaxError('terminator: ' + t[:100])
        pred = {}
        for b, ss in self.succ.items():
            for s in ss:
                pred.setdefault(s, set()).add(b)
        live = {'ret'}
        st = ['ret']
        while st:
            x = st.pop()
            for p in pred.get(x, ()):
                if p not in live:
                    live.add(p)
                    st.append(p)
        self.live = live
        self._wto()
        self._liveness()

    def _wto(self):
        """weak topological order of the live blocks (Bourdoncle 1993): `pos` is the place of a block, `comps` the
        loops around it, outermost first, as (head, place of the head, place of the last block)"""
        succ = {b: [s for s in dict.fromkeys(ss) if s in self.live and s != 'ret'] for b, ss in self.succ.items() if b in self.live}
        inf = 1 << 60
        dfn, num, stack = {}, [0], []
        def visit(v, part):
            stack.append(v)
            num[0] += 1
            head = dfn[v] = num[0]
            loop = False
            for w in succ[v]:
                d = dfn.get(w, 0)
                if d == 0:
                    d = visit(w, part)
                if d <= head:
                    head = d
                    loop = True
            if head == dfn[v]:
                dfn[v] = inf
                e = stack.pop()
                if loop:
                    while e != v:
                        dfn[e] = 0
                        e = stack.pop()
                    sub = []
                    for w in succ[v]:
                        if dfn.get(w, 0) == 0:
                            visit(w, sub)
                    part.append((v, sub[::-1]))
                else:
                    part.append(v)
            return head
        top = []
        if self.entry in self.live:
            visit(self.entry, top)
        self.pos, self.comps = {}, {}
        def flat(part, around):
            for e in part:
                if isinstance(e, tuple):
                    h = [e[0], len(self.pos), None]
                    self.pos[e[0]] = h[1]
                    self.comps[e[0]] = around + [h]
                    flat(e[1], around + [h])
                    h[2] = len(self.pos) - 1
                else:
                    self.pos[e] = len(self.pos)
                    self.comps[e] = around
        flat(top[::-1], [])
        self.body = {}
        for b, cs in self.comps.items():
            for h in cs:
                self.body.setdefault(h[0], []).append(b)

    def edge(self, b, s):
        """when control that goes from b to s is to be continued: forward edges in weak topological order, an edge
        back to the head of a loop after everything else in the loop"""
        if s == 'ret':
            return (1 << 60, 0, 0)
        p = self.pos[s]
        if b is None or p > self.pos[b]:
            return (p, 0, 0)
        return (self.comps[s][-1][2], 1, -p)

    def leaves(self, b, s):
        """does the edge from b to s leave a loop?"""
        cs = self.comps[b]
        return bool(cs) and (s == 'ret' or not any(h is cs[-1] for h in self.comps[s]))

    def _liveness(self):
        use, dfs, phi = {}, {}, {}
        for b, ls in self.blocks.items():
            u, d = set(), set()
            for l in ls:
                m = DEF.match(l)
                rs = REGS.findall(l[m.end():] if m else l)
                if m and l[m.end():].lstrip().startswith('phi '):
                    # used at the end of the predecessor
                    for v, p in re.findall(r'\[ (.*?), (%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) \]', l):
                        phi.setdefault(p, set()).update(REGS.findall(v))
                else:
                    u.update(r for r in rs if r not in d)
                if m:
                    d.add(m.group(1))
            use[b], dfs[b] = u, d
        # registers needed when the first phis of the block have been set
        live = {b: set(u) for b, u in use.items()}
        out = {}
        ch = True
        names = list(self.blocks)[::-1]
        while ch:
            ch = False
            for b in names:
                o = set(phi.get(b, ()))
                for s in self.succ[b]:
                    if s != 'ret':
                        o |= live[s]
                n = use[b] | (o - dfs[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.livein = live

    def block(self, b):
        c = self.code.get(b)
        if c is None:
            c = []
            for l in self.blocks[b]:
                i = self._parse_inst(l)
                if i is not None:
                    c.append(i)
            self.code[b] = c
        return c

    # ---- operands: T constants, ('r',name), ('g',name) resolved at run time, ('agg',[..]), ('undef',type), ('zero',type), ('ce',...)
    def val(self, tk, t):
        m = self.mod
        k = tk.kind()
        x = tk.next()
        if k == 'loc':
            if x[0] == '%':
                return ('r', x)
            return ('g', x)
        if x == 'true':
            return TRUE
        if x == 'false':
            return FALSE
        if x == 'null':
            return C(0, 64)
        if x in ('undef', 'poison'):
            return ('undef', t)
        if x == 'zeroinitializer':
            return ('zero', t)
        if k == 'num':
            if t[0] == 'f':
                return py2f(float(x), t[1])
            return C(int(x), t[1])
        if k == 'hex':
            assert t[0] == 'f', (x, t)
            if x[0] == 'f':
                return C(int(x[1:], 16), t[1])
            v = struct.unpack('<d', struct.pack('<Q', int(x, 16)))[0]
            if t[1] == 64:
                return C(int(x, 16), 64)
            if v != v:
                return C(0x7f800000 | (int(x, 16) >> 29 & 0x7fffff) | (int(x, 16) >> 63 << 31), 32)
            return py2f(v, 32)
        if k == 'str':
            b = bytearray()
            s = x[2:-1]
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i + 1] == '\\':
                        b.append(92)
                        i += 2
                    else:
                        b.append(int(s[i + 1:i + 3], 16))
                        i += 3
                else:
                    b += s[i].encode()
                    i += 1
            return ('agg', [C(c, 8) for c in b])
        if x == '[' or x == '{' or x == '<':
            close = {'[': ']', '{': '}', '<': '>'}[x]
            if x == '<' and tk.eat('{'):
                close = '}'
            out = []
            if not tk.eat(close):
                while True:
                    tt = m.ptype(tk)
                    out.append(self.val(tk, tt))
                    if tk.eat(close):
                        break
                    tk.need(',')
            if x == '<' and close == '}':
                tk.need('>')
            return ('agg', out)
        if x == 'splat':
            tk.need('(')
            tt = m.ptype(tk)
            v = self.val(tk, tt)
            tk.need(')')
            return ('agg', [v] * t[1])
        if x == 'getelementptr':
            while tk.peek() in ('inbounds', 'nuw', 'nusw', 'nneg') or tk.peek() == 'inrange':
                if tk.next() == 'inrange':
                    while tk.next() != ')':
                        pass
            tk.need('(')
            tt = m.ptype(tk)
            tk.need(',')
            ops = []
            while True:
                ot = m.ptype(tk)
                ops.append((ot, self.val(tk, ot)))
                if tk.eat(')'):
                    break
                tk.need(',')
            return ('gep', tt, ops)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc'):
            tk.need('(')
            ot = m.ptype(tk)
            v = self.val(tk, ot)
            tk.need('to')
            nt = m.ptype(tk)
            tk.need(')')
            return ('cast', x, ot, v, nt)
        if x in ('sub', 'add', 'xor'):
            while tk.peek() != '(':
                tk.next()
            tk.need('(')
            ot = m.ptype(tk)
            a = self.val(tk, ot)
            tk.need(',')
            ot = m.ptype(tk)
            b = self.val(tk, ot)
            tk.need(')')
            return ('bin', x, a, b)
        raise SyntaxError('value %s (%s) %s' % (x, t, tk.t))

    def tval(self, tk):
        t = self.mod.ptype(tk)
        skip_attrs(tk)
        return t, self.val(tk, t)

    def _parse_inst(self, s):
        try:
            return self._parse_inst0(s)
        except (SyntaxError, KeyError, ValueError, AssertionError) as e:
            i = Inst()
            i.op = 'unsupported'
            i.d = None
            i.a = (repr(e),)
            i.text = s
            return i

    def _parse_inst0(self, s):
        i = Inst()
        i.text = s
        tk = Toks(s)
        d = None
        if tk.peek(1) == '=':
            d = tk.next()
            tk.next()
        i.d = d
        op = tk.next()
        m = self.mod
        if op in ('tail', 'musttail', 'notail'):
            op = tk.next()
        i.op = op
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = []
            while tk.peek() in ('nuw', 'nsw', 'exact', 'disjoint', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'):
                fl.append(tk.next())
            # nnan/ninf/nsz are facts LLVM infers; rustc emits no fast-math flags itself
            if op[0] == 'f' and set(fl) - {'nnan', 'ninf', 'nsz'}:
                raise SyntaxError('fast-math flags')
            t = m.ptype(tk)
            a = self.val(tk, t)
            tk.need(',')
            b = self.val(tk, t)
            i.a = (t, a, b)
        elif op == 'fneg':
            while tk.peek() in ('nnan', 'ninf', 'nsz'):
                tk.next()
            t, a = self.tval(tk)
            i.a = (t, a)
        elif op in ('icmp', 'fcmp'):
            while tk.peek() in ('samesign', 'nnan', 'ninf', 'nsz'):
                tk.next()
            p = tk.next()
            t = m.ptype(tk)
            a = self.val(tk, t)
            tk.need(',')
            b = self.val(tk, t)
            i.a = (p, t, a, b)
        elif op == 'select':
            while tk.peek() in ('nnan', 'ninf', 'nsz'):
                tk.next()
            ct, c = self.tval(tk)
            tk.need(',')
            t, a = self.tval(tk)
            tk.need(',')
            t2, b = self.tval(tk)
            i.a = (ct, c, t, a, b)
        elif op in ('zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'bitcast', 'ptrtoint', 'inttoptr', 'fpext', 'fptrunc', 'ptrtoaddr'):
            while tk.peek() in ('nneg', 'nuw', 'nsw', 'nnan', 'ninf', 'nsz'):
                tk.next()
            t, a = self.tval(tk)
            tk.need('to')
            t2 = m.ptype(tk)
            i.a = (t, a, t2)
        elif op == 'load':
            while tk.peek() in ('volatile', 'atomic'):
                tk.next()
            t = m.ptype(tk)
            tk.need(',')
            pt, p = self.tval(tk)
            i.a = (t, p)
        elif op == 'store':
            while tk.peek() in ('volatile', 'atomic'):
                tk.next()
            t, v = self.tval(tk)
            tk.need(',')
            pt, p = self.tval(tk)
            i.a = (t, v, p)
        elif op == 'getelementptr':
            while tk.peek() in ('inbounds', 'nuw', 'nusw'):
                tk.next()
            t = m.ptype(tk)
            ops = []
            while tk.eat(','):
                if tk.kind() == 'meta':
                    break
                ops.append(self.tval(tk))
            i.a = (t, ops)
        elif op == 'alloca':
            t = m.ptype(tk)
            n = 1
            if tk.eat(',') and tk.peek() != 'align' and tk.kind() != 'meta':
                _, nv = self.tval(tk)
                n = nv.v
            i.a = (t, n)
        elif op == 'phi':
            while tk.peek() in ('nnan', 'ninf', 'nsz'):
                tk.next()
            t = m.ptype(tk)
            inc = {}
            while True:
                if not tk.eat('['):
                    break
                v = self.val(tk, t)
                tk.need(',')
                b = tk.next()
                tk.need(']')
                inc[b] = v
                if not tk.eat(','):
                    break
                if tk.kind() == 'meta':
                    break
            i.a = (t, inc)
        elif op == 'br':
            if tk.peek() == 'label':
                tk.next()
                i.a = (None, tk.next(), None)
            else:
                _, c = self.tval(tk)
                tk.need(',')
                tk.need('label')
                x = tk.next()
                tk.need(',')
                tk.need('label')
                y = tk.next()
                i.a = (c, x, y)
        elif op == 'switch':
            t, v = self.tval(tk)
            tk.need(',')
            tk.need('label')
            dflt = tk.next()
            tk.need('[')
            cs = []
            while not tk.eat(']'):
                ct = m.ptype(tk)
                cv = self.val(tk, ct)
                tk.need(',')
                tk.need('label')
                cs.append((cv, tk.next()))
            i.a = (t, v, dflt, cs)
        elif op == 'ret':
            if tk.peek() == 'void':
                i.a = (None, None)
            else:
                i.a = self.tval(tk)
        elif op == 'unreachable':
            i.a = ()
        elif op == 'extractvalue':
            t, v = self.tval(tk)
            ix = []
            while tk.eat(','):
                if tk.kind() == 'meta':
                    break
                ix.append(int(tk.next()))
            i.a = (t, v, ix)
        elif op == 'insertvalue':
            t, v = self.tval(tk)
            tk.need(',')
            t2, e = self.tval(tk)
            ix = []
            while tk.eat(','):
                if tk.kind() == 'meta':
                    break
                ix.append(int(tk.next()))
            i.a = (t, v, t2, e, ix)
        elif op == 'extractelement':
            t, v = self.tval(tk)
            tk.need(',')
            t2, e = self.tval(tk)
            i.a = (t, v, e)
        elif op == 'insertelement':
            t, v = self.tval(tk)
            tk.need(',')
            t2, e = self.tval(tk)
            tk.need(',')
            t3, x = self.tval(tk)
            i.a = (t, v, e, x)
        elif op == 'shufflevector':
            t, v = self.tval(tk)
            tk.need(',')
            t2, v2 = self.tval(tk)
            tk.need(',')
            t3, mk = self.tval(tk)
            i.a = (t, v, v2, mk)
        elif op == 'freeze':
            i.a = self.tval(tk)
        elif op == 'call':
            while tk.peek() in ('fastcc', 'coldcc', 'ccc', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'):
                if tk.next() not in ('fastcc', 'coldcc', 'ccc', 'nnan', 'ninf', 'nsz'):
                    raise SyntaxError('fast-math call')
            skip_attrs(tk)
            rt = m.ptype(tk)
            if tk.peek() == '(':        # function type
                d_ = 0
                while True:
                    y = tk.next()
                    if y == '(':
                        d_ += 1
                    elif y == ')':
                        d_ -= 1
                        if d_ == 0:
                            break
            if tk.peek() == 'asm':
                i.a = (rt, 'asm', [])
                return i
            cv = self.val(tk, PTR)
            tk.need('(')
            args = []
            if not tk.eat(')'):
                while True:
                    t = m.ptype(tk)
                    skip_attrs(tk)
                    if t[0] == 'meta':
                        d_ = 0
                        while True:
                            y = tk.peek()
                            if d_ == 0 and y in (',', ')'):
                                break
                            y = tk.next()
                            if y in '({[':
                                d_ += 1
                            elif y in ')}]':
                                d_ -= 1
                        args.append((t, None))
                    else:
                        args.append((t, self.val(tk, t)))
                    if tk.eat(')'):
                        break
                    tk.need(',')
            i.a = (rt, cv, args)
            if cv[0] == 'g':
                n = cv[1]
                if n.startswith('@llvm.dbg') or n.startswith('@llvm.lifetime') or n.startswith('@llvm.experimental.noalias'):
                    return None
        else:
            raise SyntaxError('op ' + op)
        return i
