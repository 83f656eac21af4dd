"""LLVM-IR (textual) reader.

The verified text is whatever clang emits for /repo's current source.  Functions
are parsed lazily: a module holds thousands of library functions, of which a unit
touches a handful.
"""
import re, subprocess

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
 | (?P<md>!(?:"(?:[^"\\]|\\.)*"|[-\w$.]*))
 | (?P<attr>\#\d+)
 | (?P<hex>0x[0-9A-Fa-fHKLMR]+)
 | (?P<fp>-?\d+\.\d*(?:e[-+]?\d+)?)
 | (?P<int>-?\d+)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_$][\w.$]*)
 | (?P<p>[(){}\[\]<>,=*:|])
''', re.X)


class IRError(Exception):
    pass


def unq(s):
    # %"a b" -> a b ; %x -> x
    s = s[1:]
    if s.startswith('"'):
        s = s[1:-1]
        s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s)
    return s


PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'writable', 'dead_on_unwind', 'returned',
               'nocapture', 'readonly', 'readnone', 'writeonly', 'immarg', 'inreg', 'nest', 'nofree', 'noext',
               'swiftself', 'allocptr', 'allocalign', 'inrange'}
PARAM_ATTRS_P = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype',
                 'inalloca', 'captures', 'range', 'initializes', 'nofpclass', 'alignstack', 'preallocated'}
CONSTX = {'getelementptr', 'bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'trunc', 'zext', 'sext', 'sub', 'add',
          'select', 'icmp', 'mul', 'shl', 'lshr', 'and', 'or', 'xor'}
I1 = ('i', 1)
I8 = ('i', 8)
I32 = ('i', 32)
I64 = ('i', 64)
PTR = ('ptr',)
VOID = ('void',)


class P:
    def __init__(self, s):
        self.t = [(m.lastgroup, m.group()) for m in TOK.finditer(s)]
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        t = self.t[self.i][1]
        self.i += 1
        return t

    def eat(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def need(self, s):
        if not self.eat(s):
            raise IRError('expected %r got %r in %r' % (s, self.peek(), ' '.join(x[1] for x in self.t)[:300]))

    def skip_paren(self):
        self.need('(')
        d = 1
        while d:
            t = self.next()
            if t == '(':
                d += 1
            elif t == ')':
                d -= 1

    def skip_attrs(self):
        out = {}
        while True:
            w = self.peek()
            if self.kind() == 'word' and w in PARAM_ATTRS:
                self.next()
                out[w] = True
            elif self.kind() == 'word' and w in PARAM_ATTRS_P:
                self.next()
                if self.peek() == '(':
                    if w in ('sret', 'byval'):
                        self.need('(')
                        out[w] = self.type()
                        self.need(')')
                    else:
                        self.skip_paren()
                        out[w] = True
                else:
                    self.next()
            elif self.kind() == 'str':
                self.next()
                if self.eat('='):
                    self.next()
            else:
                return out

    # ---- types
    def type(self):
        w = self.next()
        k = self.t[self.i - 1][0]
        if k == 'word' and re.fullmatch(r'i\d+', w):
            t = ('i', int(w[1:]))
        elif w == 'ptr':
            if self.peek() == 'addrspace':
                self.next()
                self.skip_paren()
            t = PTR
        elif w == 'void':
            t = VOID
        elif w in ('float',):
            t = ('f', 32)
        elif w in ('double',):
            t = ('f', 64)
        elif w in ('half', 'bfloat'):
            t = ('f', 16)
        elif w == 'x86_fp80':
            t = ('f', 80)
        elif w in ('label', 'metadata', 'token', 'x86_mmx'):
            t = (w,)
        elif w == '[':
            n = int(self.next())
            self.need('x')
            e = self.type()
            self.need(']')
            t = ('arr', n, e)
        elif w == '<' and self.peek() == '{':
            self.next()
            t = self._st(True)
            self.need('>')
        elif w == '<':
            n = int(self.next())
            self.need('x')
            e = self.type()
            self.need('>')
            t = ('vec', n, e)
        elif w == '{':
            t = self._st(False)
        elif k == 'loc':
            t = ('named', unq(w))
        elif w == 'opaque':
            t = ('opaque',)
        else:
            raise IRError('type? %r in %r' % (w, ' '.join(x[1] for x in self.t)[:200]))
        # function type  "void (i32)"
        while self.peek() == '(' and self._fnty:
            self.skip_paren()
        return t

    _fnty = False

    def _st(self, packed):
        els = []
        if not self.eat('}'):
            while True:
                els.append(self.type())
                if self.eat('}'):
                    break
                self.need(',')
        return ('st', tuple(els), packed)

    # ---- values
    def value(self, ty):
        k, w = self.t[self.i]
        self.i += 1
        if k == 'loc':
            return ('loc', unq(w))
        if k == 'glob':
            return ('glob', unq(w))
        if k == 'int':
            return ('int', int(w))
        if k in ('fp', 'hex'):
            return ('fp', w)
        if k == 'str':
            return ('cstr', w)
        if k == 'md':
            if self.peek() == '{' or self.peek() == '(':
                pass
            return ('md', w)
        if w in ('true', 'false'):
            return ('int', 1 if w == 'true' else 0)
        if w == 'null':
            return ('null',)
        if w in ('undef', 'poison'):
            return ('undef',)
        if w == 'zeroinitializer':
            return ('zero',)
        if w == 'none':
            return ('undef',)
        if w in CONSTX:
            return self._constx(w)
        if w == '{' or w == '[' or w == '<':
            if w == '<' and self.peek() == '{':
                self.next()
                vals = self._agg('}')
                self.need('>')
            else:
                vals = self._agg({'{': '}', '[': ']', '<': '>'}[w])
            return ('agg', vals)
        raise IRError('value? %r' % w)

    def _agg(self, close):
        out = []
        if self.eat(close):
            return out
        while True:
            t = self.type()
            out.append((t, self.value(t)))
            if self.eat(close):
                return out
            self.need(',')

    def _constx(self, op):
        flags = []
        while self.kind() == 'word' and self.peek() not in ('inrange',):
            flags.append(self.next())
        if self.peek() == 'inrange':
            self.next()
            self.skip_paren()
        self.need('(')
        if op == 'getelementptr':
            base = self.type()
            self.need(',')
        ops = []
        while True:
            if self.peek() == 'inrange':
                self.next()
                if self.peek() == '(':
                    self.skip_paren()
            t = self.type()
            ops.append((t, self.value(t)))
            if self.peek() == 'to':
                self.next()
                tt = self.type()
                self.need(')')
                return ('cast', op, ops[0], tt)
            if self.eat(')'):
                break
            self.need(',')
        if op == 'getelementptr':
            return ('gep', base, ops)
        return ('cop', op, ops, flags)

    def tval(self):
        t = self.type()
        self.skip_attrs()
        return (t, self.value(t))


class Ins:
    __slots__ = ('op', 'dst', 'a', 'dbg', 'txt')

    def __init__(self, op, dst, a, dbg, txt):
        self.op, self.dst, self.a, self.dbg, self.txt = op, dst, a, dbg, txt

    def __repr__(self):
        return self.txt.strip()[:160]


class Fn:
    def __init__(self, name, dem, ret, params, lines, mod):
        self.name, self.dem, self.ret, self.params = name, dem, ret, params
        self.lines = lines
        self.mod = mod
        self._b = None

    def parse(self):
        if self._b is not None:
            return
        blocks, order = {}, []
        cur = None
        i = 0
        L = self.lines
        # implicit entry label number
        lab = None
        joined = []
        while i < len(L):
            s = L[i]
            st = s.strip()
            if not st or st.startswith(';'):
                i += 1
                continue
            m = re.match(r'^(?:"((?:[^"\\]|\\.)*)"|([-\w$.]+)):', s)
            if m:
                joined.append(('lab', m.group(1) or m.group(2)))
                i += 1
                continue
            # multi-line: switch [ ... ], invoke \n to label, landingpad clauses
            if re.search(r'\bswitch\b.*\[\s*$', st):
                while ']' not in L[i].strip()[:1] and not L[i].strip().startswith(']'):
                    i += 1
                    st += ' ' + L[i].strip()
            elif re.search(r'(=\s*invoke|^invoke)\b', st):
                i += 1
                st += ' ' + L[i].strip()
            elif 'landingpad' in st and '= landingpad' in st:
                while i + 1 < len(L) and re.match(r'\s+(cleanup|catch|filter)\b', L[i + 1]):
                    i += 1
                    st += ' ' + L[i].strip()
            joined.append(('ins', st))
            i += 1
        nparam = sum(1 for p in self.params if p[1].isdigit())
        if not joined or joined[0][0] != 'lab':
            joined.insert(0, ('lab', str(nparam)))
        for k, s in joined:
            if k == 'lab':
                cur = s
                blocks[cur] = []
                order.append(cur)
            else:
                if '@llvm.dbg.' in s or '@llvm.lifetime.' in s or '@llvm.experimental.noalias' in s:
                    continue
                blocks[cur].append(parse_ins(s))
        self._b = blocks
        self.order = order
        self.entry = order[0]
        self._loops()

    @property
    def blocks(self):
        self.parse()
        return self._b

    def succ(self, b):
        t = self._b[b][-1]
        if t.op == 'br':
            return [t.a['t']] if 'c' not in t.a else [t.a['t'], t.a['f']]
        if t.op == 'switch':
            return [t.a['d']] + [x[1] for x in t.a['cases']]
        if t.op == 'invoke':
            return [t.a['to'], t.a['unw']]
        return []

    def _loops(self):
        # natural loops by back edges (dominators, iterative)
        blocks = self._b
        preds = {b: [] for b in blocks}
        for b in blocks:
            for s in self.succ(b):
                preds[s].append(b)
        # reachable, rpo
        seen, post = set(), []
        stack = [(self.order[0], iter(self.succ(self.order[0])))]
        seen.add(self.order[0])
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ(s))))
                    break
            else:
                post.append(n)
                stack.pop()
        rpo = post[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        idom = {rpo[0]: rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    x, y = n, p
                    while x != y:
                        while idx[x] > idx[y]:
                            x = idom[x]
                        while idx[y] > idx[x]:
                            y = idom[y]
                    n = x
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == rpo[0]:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in self.succ(b):
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st += [p for p in preds[x] if p in idx]
        self.loops = loops
        self.idom = idom
        self.rpo = rpo
        self.preds = preds


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd',
          'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext',
         'fptrunc', 'addrspacecast'}
FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'disjoint', 'nneg', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn',
         'reassoc', 'fast', 'volatile', 'atomic', 'nusw', 'samesign'}


def parse_ins(s):
    dbg = None
    m = re.search(r', !dbg !(\d+)', s)
    if m:
        dbg = int(m.group(1))
    s0 = s
    # strip trailing metadata attachments
    s = re.sub(r'(, ![\w.]+ !\d+)+\s*$', '', s)
    s = re.sub(r'(, ![\w.]+ !\d+)+', '', s)
    p = P(s)
    dst = None
    if p.kind() == 'loc' and p.peek(1) == '=':
        dst = unq(p.next())
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    a = {}
    fl = set()

    def flags():
        while p.kind() == 'word' and p.peek() in FLAGS:
            fl.add(p.next())
    if op in BINOPS:
        flags()
        t = p.type()
        x = p.value(t)
        p.need(',')
        y = p.value(t)
        a = dict(t=t, x=x, y=y, fl=fl)
    elif op == 'fneg':
        flags()
        t = p.type()
        a = dict(t=t, x=p.value(t))
    elif op in CASTS:
        flags()
        t = p.type()
        v = p.value(t)
        p.need('to')
        a = dict(t=t, x=v, to=p.type())
    elif op in ('icmp', 'fcmp'):
        flags()
        pr = p.next()
        t = p.type()
        x = p.value(t)
        p.need(',')
        a = dict(p=pr, t=t, x=x, y=p.value(t))
    elif op == 'br':
        if p.peek() == 'label':
            p.next()
            a = dict(t=unq(p.next()))
        else:
            p.need('i1')
            c = p.value(I1)
            p.need(',')
            p.need('label')
            t = unq(p.next())
            p.need(',')
            p.need('label')
            f = unq(p.next())
            a = dict(c=c, t=t, f=f)
    elif op == 'switch':
        t = p.type()
        v = p.value(t)
        p.need(',')
        p.need('label')
        d = unq(p.next())
        p.need('[')
        cases = []
        while not p.eat(']'):
            tt = p.type()
            cv = p.value(tt)
            p.need(',')
            p.need('label')
            cases.append((cv[1], unq(p.next())))
        a = dict(t=t, x=v, d=d, cases=cases)
    elif op == 'ret':
        t = p.type()
        a = dict(t=t, x=None if t == VOID else p.value(t))
    elif op == 'phi':
        flags()
        t = p.type()
        inc = []
        while True:
            p.need('[')
            v = p.value(t)
            p.need(',')
            b = unq(p.next())
            p.need(']')
            inc.append((v, b))
            if not p.eat(','):
                break
        a = dict(t=t, inc=inc)
    elif op == 'select':
        flags()
        c = p.tval()
        p.need(',')
        x = p.tval()
        p.need(',')
        y = p.tval()
        a = dict(c=c, x=x, y=y)
    elif op == 'alloca':
        p.eat('inalloca')
        t = p.type()
        n = None
        if p.eat(','):
            if p.peek() not in ('align', 'addrspace'):
                n = p.tval()
        a = dict(t=t, n=n)
    elif op == 'load':
        flags()
        t = p.type()
        p.need(',')
        a = dict(t=t, p=p.tval(), fl=fl)
    elif op == 'store':
        flags()
        v = p.tval()
        p.need(',')
        a = dict(v=v, p=p.tval(), fl=fl)
    elif op == 'getelementptr':
        flags()
        t = p.type()
        ops = []
        while p.eat(','):
            ops.append(p.tval())
        a = dict(t=t, ops=ops, fl=fl)
    elif op == 'extractvalue':
        v = p.tval()
        ix = []
        while p.eat(','):
            ix.append(int(p.next()))
        a = dict(v=v, ix=ix)
    elif op == 'insertvalue':
        v = p.tval()
        p.need(',')
        x = p.tval()
        ix = []
        while p.eat(','):
            ix.append(int(p.next()))
        a = dict(v=v, x=x, ix=ix)
    elif op in ('extractelement', 'insertelement', 'shufflevector'):
        ops = [p.tval()]
        while p.eat(','):
            ops.append(p.tval())
        a = dict(ops=ops)
    elif op in ('call', 'invoke'):
        while True:
            w = p.peek()
            if w in ('fastcc', 'ccc', 'spir_func', 'spir_kernel') or w in FLAGS:
                p.next()
            elif w in ('cc',):
                p.next()
                p.next()
            else:
                break
        ra = p.skip_attrs()
        t = p.type()
        if p.peek() == '(':      # function type printed
            p.skip_paren()
        callee = p.value(PTR)
        p.need('(')
        args = []
        if not p.eat(')'):
            while True:
                at = p.type()
                at_a = p.skip_attrs()
                if at == ('metadata',):
                    # skip to , or )
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        d += (x in '({') - (x in ')}') if len(x) == 1 else 0
                    args.append((at, ('undef',)))
                else:
                    args.append((at, p.value(at)))
                if at_a.get('byval'):
                    args[-1] = (at, args[-1][1], at_a['byval'])
                if p.eat(')'):
                    break
                p.need(',')
        a = dict(t=t, f=callee, args=args)
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.need('to')
            p.need('label')
            a['to'] = unq(p.next())
            p.need('unwind')
            p.need('label')
            a['unw'] = unq(p.next())
    elif op == 'landingpad':
        t = p.type()
        cl = []
        cleanup = False
        while p.peek() in ('cleanup', 'catch', 'filter'):
            w = p.next()
            if w == 'cleanup':
                cleanup = True
            else:
                cl.append((w, p.tval()))
        a = dict(t=t, cl=cl, cleanup=cleanup)
    elif op == 'resume':
        a = dict(v=p.tval())
    elif op == 'unreachable':
        pass
    elif op == 'freeze':
        a = dict(v=p.tval())
    elif op in ('fence',):
        pass
    elif op == 'atomicrmw':
        flags()
        o = p.next()
        ptr = p.tval()
        p.need(',')
        a = dict(o=o, p=ptr, v=p.tval())
    elif op == 'cmpxchg':
        while p.peek() in ('weak', 'volatile'):
            p.next()
        ptr = p.tval()
        p.need(',')
        c = p.tval()
        p.need(',')
        a = dict(p=ptr, c=c, n=p.tval())
    else:
        raise IRError('op? ' + s0[:200])
    return Ins(op, dst, a, dbg, s0)


class Module:
    def __init__(self, text):
        self.named = {}
        self.glob = {}      # name -> (ty, init or None, const)
        self.fns = {}
        self.decl = {}
        self.md = {}
        self._gl = {}
        names = []
        lines = text.split('\n')
        i = 0
        raw = []
        while i < len(lines):
            s = lines[i]
            if s.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                raw.append((s, lines[i + 1:j]))
                i = j
            elif s.startswith('declare '):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\s*\(', s)
                self.decl[unq('@' + m.group(1))] = s
            elif s.startswith('%'):
                m = re.match(r'^(%(?:"(?:[^"\\]|\\.)*"|[-\w$.]+)) = type (.*)$', s)
                if m:
                    self.named[unq(m.group(1))] = m.group(2)
            elif s.startswith('@'):
                m = re.match(r'^(@(?:"(?:[^"\\]|\\.)*"|[-\w$.]+)) = (.*)$', s)
                self._gl[unq(m.group(1))] = m.group(2)
            elif s.startswith('!'):
                m = re.match(r'^!(\d+) = (.*)$', s)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
            i += 1
        heads = []
        for s, body in raw:
            m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\s*\(', s)
            nm = unq('@' + m.group(1))
            heads.append((nm, s, m.start(), body))
        allnames = [h[0] for h in heads] + list(self.decl)
        dem = demangle(allnames)
        self.dem = dict(zip(allnames, dem))
        for nm, s, pos, body in heads:
            ret, params = self._head(s, pos)
            self.fns[nm] = Fn(nm, self.dem[nm], ret, params, body, self)
        self._tyc = {}

    def _head(self, s, pos):
        pre = s[len('define '):pos]
        pre = re.sub(r'\b(dso_local|linkonce_odr|internal|weak_odr|private|hidden|protected|available_externally|'
                     r'external|weak|comdat|fastcc|unnamed_addr|local_unnamed_addr|spir_kernel|spir_func|dso_preemptable|common|linkonce|cc \d+)\b',
                     '', pre)
        p = P(pre)
        p.skip_attrs()
        ret = p.type()
        # parameter list
        d = 0
        j = s.index('(', pos)
        k = j
        inq = False
        while True:
            c = s[k]
            if c == '"':
                inq = not inq
            if not inq:
                if c == '(':
                    d += 1
                elif c == ')':
                    d -= 1
                    if d == 0:
                        break
            k += 1
        p = P(s[j + 1:k])
        params = []
        n = 0
        while p.i < len(p.t):
            if p.peek() == '...':
                p.next()
                continue
            t = p.type()
            at = p.skip_attrs()
            if p.kind() == 'loc':
                nm = unq(p.next())
            else:
                nm = str(n)
            if nm.isdigit():
                n += 1
            params.append((t, nm, at))
            p.eat(',')
        return ret, params

    def gvar(self, name):
        if name in self.glob:
            return self.glob[name]
        s = self._gl.get(name)
        if s is None:
            return None
        const = bool(re.search(r'\bconstant\b', s))
        ext = bool(re.match(r'(external|extern_weak)\b', s)) or ' external global' in s or s.startswith('external')
        m = re.search(r'\b(global|constant)\s+(.*)$', s)
        if not m:
            self.glob[name] = None
            return None
        p = P(m.group(2))
        ty = p.type()
        init = None
        if not ext and p.i < len(p.t) and p.peek() != ',':
            init = p.value(ty)
        self.glob[name] = (ty, init, const)
        return self.glob[name]

    # ---- layout
    def resolve(self, t):
        while t[0] == 'named':
            if t[1] not in self._tyc:
                s = self.named[t[1]]
                self._tyc[t[1]] = P(s).type()
            t = self._tyc[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        if t[0] == 'i':
            return min(8 if t[1] <= 64 else 16, max(1, 1 << ((t[1] + 7) // 8 - 1).bit_length()))
        if t[0] == 'ptr':
            return 8
        if t[0] == 'f':
            return {16: 2, 32: 4, 64: 8, 80: 16}[t[1]]
        if t[0] == 'arr':
            return self.align(t[2])
        if t[0] == 'vec':
            return self.size(t)
        if t[0] == 'st':
            return 1 if t[2] or not t[1] else max(self.align(x) for x in t[1])
        raise IRError('align %r' % (t,))

    def size(self, t):
        t = self.resolve(t)
        if t[0] == 'i':
            n = (t[1] + 7) // 8
            return 1 << (n - 1).bit_length() if n > 0 else 1
        if t[0] == 'ptr':
            return 8
        if t[0] == 'f':
            return {16: 2, 32: 4, 64: 8, 80: 16}[t[1]]
        if t[0] == 'arr':
            return t[1] * self.size(t[2])
        if t[0] == 'vec':
            n = t[1] * self.size(t[2])
            return 1 << (n - 1).bit_length() if n > 0 else 0
        if t[0] == 'st':
            o = 0
            for x in t[1]:
                if not t[2]:
                    al = self.align(x)
                    o = (o + al - 1) // al * al
                o += self.size(x)
            al = self.align(t)
            return (o + al - 1) // al * al
        raise IRError('size %r' % (t,))

    def offset(self, t, i):
        t = self.resolve(t)
        o = 0
        for j, x in enumerate(t[1]):
            if not t[2]:
                al = self.align(x)
                o = (o + al - 1) // al * al
            if j == i:
                return o
            o += self.size(x)
        raise IRError('offset')

    def line(self, dbg):
        s = self.md.get(dbg)
        if not s:
            return None
        m = re.search(r'line: (\d+)', s)
        return int(m.group(1)) if m else None

    def find(self, want, exact=True):
        """functions whose demangled name equals / starts with want"""
        r = [f for f in self.fns.values() if (f.dem == want if exact else want in f.dem)]
        # constructors: C1/C2 duplicates -> prefer any
        return r


def demangle(names):
    p = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names) + '\n', capture_output=True, text=True)
    out = p.stdout.split('\n')
    return out[:len(names)]
