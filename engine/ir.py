"""Textual LLVM-18 IR reader.  Functions are parsed lazily (only when called)."""
import re

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<loc>%"(?:[^"])*"|%[-\w$.]+)
 | (?P<glo>@"(?:[^"])*"|@[-\w$.]+)
 | (?P<md>![-\w$.]*)
 | (?P<attr>\#\d+)
 | (?P<comdat>\$"[^"]*"|\$[-\w$.]+)
 | (?P<flt>-?\d+\.\d*(?:[eE][-+]?\d+)?|0x[KMLHR]?[0-9A-Fa-f]+)
 | (?P<int>-?\d+)
 | (?P<ell>\.\.\.)
 | (?P<id>[A-Za-z_][\w.]*)
 | (?P<punct>[{}\[\]()<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        c = s[pos]
        if c in ' \t\n':
            pos += 1
            continue
        if c == ';':
            nl = s.find('\n', pos)
            pos = n if nl < 0 else nl
            continue
        m = TOK.match(s, pos)
        if not m:
            raise SyntaxError('tok at %r' % s[pos:pos + 60])
        out.append((m.lastgroup, m.group()))
        pos = m.end()
    return out


# ---------------------------------------------------------------- types
# types are interned tuples:
#  ('i',N) ('ptr',) ('f',name,bytes) ('void',) ('arr',n,T) ('vec',n,T)
#  ('st',(T..),packed) ('named',name) ('fn',ret,(args),vararg) ('meta',) ('opaque',)

PTR = ('ptr',)
VOID = ('void',)
I1 = ('i', 1)
I64 = ('i', 64)
I32 = ('i', 32)
FLT = {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2, 'fp128': 16}


def unq(s):
    # %"foo" -> foo ; %foo -> foo
    s = s[1:]
    if s.startswith('"'):
        s = s[1:-1]
        if '\\' in s:
            s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s)
    return s


PARAM_ATTR_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval',
                    'byref', 'inalloca', 'preallocated', 'elementtype', 'align',
                    'captures', 'range', 'memory', 'allocsize', 'initializes', 'nofpclass'}
PARAM_ATTR = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone',
              'writeonly', 'returned', 'signext', 'zeroext', 'inreg', 'immarg',
              'nest', 'swiftself', 'swifterror', 'noext', 'writable', 'dead_on_unwind',
              'allocalign', 'allocptr'}
LINKAGE = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common',
           'appending', 'extern_weak', 'linkonce_odr', 'weak_odr', 'external',
           'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default',
           'dllimport', 'dllexport', 'unnamed_addr', 'local_unnamed_addr',
           'externally_initialized', 'thread_local'}
CC = {'ccc', 'fastcc', 'coldcc', 'tailcc', 'swiftcc', 'cc'}


class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'mod')

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        k, x = self.next()
        if x != v:
            raise SyntaxError('expected %r got %r near %r' % (v, x, self.t[max(0, self.i - 6):self.i + 6]))

    def type(self):
        k, v = self.next()
        if k == 'id':
            if v[0] == 'i' and v[1:].isdigit():
                t = ('i', int(v[1:]))
            elif v == 'ptr':
                t = PTR
                if self.accept('addrspace'):
                    self.expect('(')
                    self.next()
                    self.expect(')')
            elif v == 'void':
                t = VOID
            elif v in FLT:
                t = ('f', v, FLT[v])
            elif v == 'metadata':
                t = ('meta',)
            elif v == 'label':
                t = ('label',)
            elif v == 'token':
                t = ('token',)
            elif v == 'opaque':
                t = ('opaque',)
            else:
                raise SyntaxError('type %r' % v)
        elif k == 'loc':
            t = ('named', unq(v))
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                fs = self._fields('}')
                self.expect('>')
                t = ('st', fs, True)
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        elif v == '{':
            fs = self._fields('}')
            t = ('st', fs, False)
        else:
            raise SyntaxError('type tok %r near %r' % (v, self.t[max(0, self.i - 8):self.i + 8]))
        # function type suffix
        while self.peek()[1] == '(':
            # function type  ret (args)
            self.next()
            args = []
            va = False
            while not self.accept(')'):
                if self.peek()[0] == 'ell':
                    self.next()
                    va = True
                else:
                    args.append(self.type())
                self.accept(',')
            t = ('fn', t, tuple(args), va)
        return t

    def _fields(self, end):
        fs = []
        while not self.accept(end):
            fs.append(self.type())
            self.accept(',')
        return tuple(fs)

    def skip_attrs(self, collect=None):
        """skip parameter attributes; record byval/sret."""
        while True:
            k, v = self.peek()
            if k == 'id' and v in PARAM_ATTR:
                self.next()
                continue
            if k == 'str':
                self.next()
                if self.accept('='):
                    self.next()
                continue
            if k == 'id' and v in PARAM_ATTR_PAREN:
                self.next()
                if self.peek()[1] == '(':
                    self.next()
                    if v in ('byval', 'sret'):
                        ty = self.type()
                        if collect is not None:
                            collect[v] = ty
                        self.expect(')')
                    else:
                        d = 1
                        while d:
                            x = self.next()[1]
                            if x == '(':
                                d += 1
                            elif x == ')':
                                d -= 1
                elif v == 'align':
                    self.next()
                continue
            return

    # ---- operands: returns an operand tuple
    # ('c', int) ('l', name) ('g', name) ('agg', [ops], ty) ('zero', ty) ('undef', ty)
    # ('gepc', ty, base, idxs) ('cast', op, operand, toty) ('fp', val)
    def value(self, ty):
        k, v = self.next()
        if k == 'loc':
            return ('l', unq(v))
        if k == 'glo':
            return ('g', unq(v))
        if k == 'int':
            n = int(v)
            if ty[0] == 'i':
                return ('c', n & ((1 << ty[1]) - 1))
            return ('c', n)
        if k == 'flt':
            return ('fp', v)
        if k == 'str':
            return ('cstr', self._bytes(v))
        if k == 'id':
            if v == 'true':
                return ('c', 1)
            if v == 'false':
                return ('c', 0)
            if v == 'null':
                return ('c', 0)
            if v in ('undef', 'poison'):
                return ('undef', ty)
            if v == 'zeroinitializer':
                return ('zero', ty)
            if v == 'none':
                return ('c', 0)
            if v == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    w = self.next()[1]
                    if w == 'inrange' and self.peek()[1] == '(':
                        d = 0
                        while True:
                            x = self.next()[1]
                            if x == '(':
                                d += 1
                            if x == ')':
                                d -= 1
                                if d == 0:
                                    break
                self.expect('(')
                sty = self.type()
                self.expect(',')
                bty = self.type()
                base = self.value(bty)
                idx = []
                while self.accept(','):
                    if self.peek()[1] == 'inrange':
                        self.next()
                    t = self.type()
                    idx.append((t, self.value(t)))
                self.expect(')')
                return ('gepc', sty, base, idx)
            if v in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('(')
                t = self.type()
                o = self.value(t)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('cast', v, t, o, t2)
            if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr'):
                while self.peek()[1] in ('nuw', 'nsw'):
                    self.next()
                self.expect('(')
                t = self.type()
                a = self.value(t)
                self.expect(',')
                t2 = self.type()
                b = self.value(t2)
                self.expect(')')
                return ('bin', v, t, a, b)
            if v == 'dso_local_equivalent' or v == 'no_cfi':
                return self.value(ty)
        if v in ('{', '[', '<'):
            packed = False
            if v == '<' and self.peek()[1] == '{':
                self.next()
                packed = True
            close = {'{': '}', '[': ']', '<': '>'}[v] if not packed else '}'
            ops = []
            while not self.accept(close):
                t = self.type()
                ops.append((t, self.value(t)))
                self.accept(',')
            if packed:
                self.expect('>')
            return ('agg', ops, ty)
        raise SyntaxError('value %r %r near %r' % (k, v, self.t[max(0, self.i - 8):self.i + 8]))

    @staticmethod
    def _bytes(v):
        s = v[v.index('"') + 1:-1]
        out = bytearray()
        i = 0
        while i < len(s):
            if s[i] == '\\':
                if s[i + 1] == '\\':
                    out.append(92)
                    i += 2
                else:
                    out.append(int(s[i + 1:i + 3], 16))
                    i += 3
            else:
                out += s[i].encode('utf-8')
                i += 1
        return bytes(out)

    def tvalue(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)


class Function:
    def __init__(self, name, header, body, mod):
        self.name = name
        self.header = header
        self.body = body
        self.mod = mod
        self.parsed = False
        self.loops = None

    def parse(self):
        if self.parsed:
            return
        self.parsed = True
        p = P(tokenize(self.header), self.mod)
        # skip to return type: define [linkage..] [cc] [ret attrs] T @name(...)
        p.expect('define')
        while True:
            k, v = p.peek()
            if v in LINKAGE or v in CC:
                p.next()
                if v == 'cc':
                    p.next()
                if v == 'thread_local' and p.peek()[1] == '(':
                    p.next(); p.next(); p.next()
            else:
                i = p.i
                p.skip_attrs()
                if p.i == i:
                    break
        self.ret = p.type()
        p.next()  # name
        p.expect('(')
        self.params = []
        self.vararg = False
        n = 0
        while not p.accept(')'):
            if p.peek()[0] == 'ell':
                p.next()
                self.vararg = True
                continue
            t = p.type()
            col = {}
            p.skip_attrs(col)
            if p.peek()[0] == 'loc':
                nm = unq(p.next()[1])
            else:
                nm = str(n)
            n += 1
            self.params.append((t, nm, col))
            p.accept(',')
        self.parse_body(n)

    def parse_body(self, nparams):
        blocks = {}
        order = []
        # entry label is implicit: number = nparams unless labelled
        cur = None
        lines = self.body.split('\n')
        i = 0
        N = len(lines)
        entry = None
        while i < N:
            ln = lines[i]
            i += 1
            st = ln.strip()
            if not st or st.startswith(';'):
                continue
            if not ln.startswith(' ') and st != '}':
                # label
                m = re.match(r'("(?:[^"])*"|[-\w$.]+):', st)
                if m:
                    lab = m.group(1)
                    if lab.startswith('"'):
                        lab = lab[1:-1]
                    cur = []
                    blocks[lab] = cur
                    order.append(lab)
                    if entry is None:
                        entry = lab
                    continue
            if cur is None:
                entry = str(nparams)
                cur = []
                blocks[entry] = cur
                order.append(entry)
            # multi-line
            if re.match(r'(%\S+ = )?(musttail |tail |notail )?invoke\b', st):
                while 'unwind label' not in st:
                    st += ' ' + lines[i].strip()
                    i += 1
            elif st.startswith('switch'):
                while ']' not in st or st.count('[') > st.count(']'):
                    st += ' ' + lines[i].strip()
                    i += 1
            elif 'landingpad' in st:
                while i < N and re.match(r'\s+(cleanup|catch|filter)\b', lines[i]):
                    st += ' ' + lines[i].strip()
                    i += 1
            cur.append(st)
        self.entry = entry
        self.order = order
        self.blocks = {}
        for lab in order:
            self.blocks[lab] = [self.parse_instr(s) for s in blocks[lab]]
        self.preds = None

    def parse_instr(self, s):
        try:
            return self._parse_instr(s)
        except (SyntaxError, IndexError, KeyError, ValueError) as e:
            return ('unsupported', None, '%s: %s' % (e, s[:200]))

    def _parse_instr(self, s):
        mod = self.mod
        p = P(tokenize(s), mod)
        dst = None
        if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
            dst = unq(p.next()[1])
            p.next()
        k, op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            k, op = p.next()
        if op in ('call', 'invoke'):
            # fast-math flags / cc / ret attrs
            while True:
                v = p.peek()[1]
                if v in CC or v in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                    p.next()
                    if v == 'cc':
                        p.next()
                else:
                    i = p.i
                    p.skip_attrs()
                    if p.i == i:
                        break
            rt = p.type()
            if rt[0] == 'fn':
                rt = rt[1]
            if p.peek()[1] == 'asm':
                return ('unsupported', dst, 'inline asm')
            k, v = p.peek()
            callee = p.value(PTR)
            p.expect('(')
            args = []
            while not p.accept(')'):
                t = p.type()
                col = {}
                if t[0] == 'meta':
                    # metadata operand: skip to , or )
                    d = 0
                    while True:
                        x = p.peek()[1]
                        if d == 0 and x in (',', ')'):
                            break
                        if x == '(':
                            d += 1
                        if x == ')':
                            d -= 1
                        p.next()
                    args.append((t, ('c', 0), None))
                    p.accept(',')
                    continue
                p.skip_attrs(col)
                args.append((t, p.value(t), col.get('byval')))
                p.accept(',')
            if op == 'call':
                return ('call', dst, rt, callee, args, None, None)
            while p.peek()[1] != 'to':
                p.next()
            p.next()
            p.expect('label')
            n = unq(p.next()[1])
            p.expect('unwind')
            p.expect('label')
            u = unq(p.next()[1])
            return ('call', dst, rt, callee, args, n, u)
        if op == 'br':
            if p.accept('label'):
                return ('br', None, unq(p.next()[1]))
            t = p.type()
            c = p.value(t)
            p.expect(',')
            p.expect('label')
            a = unq(p.next()[1])
            p.expect(',')
            p.expect('label')
            b = unq(p.next()[1])
            return ('cbr', None, c, a, b)
        if op == 'switch':
            t = p.type()
            c = p.value(t)
            p.expect(',')
            p.expect('label')
            d = unq(p.next()[1])
            p.expect('[')
            cases = []
            while not p.accept(']'):
                t2 = p.type()
                v = p.value(t2)
                p.expect(',')
                p.expect('label')
                cases.append((v[1], unq(p.next()[1])))
            return ('switch', None, t, c, d, cases)
        if op == 'ret':
            t = p.type()
            if t == VOID:
                return ('ret', None, None, None)
            return ('ret', None, t, p.value(t))
        if op == 'unreachable':
            return ('unreachable', None)
        if op == 'resume':
            t = p.type()
            return ('resume', None, p.value(t))
        if op == 'landingpad':
            t = p.type()
            clauses = []
            cleanup = False
            while p.i < len(p.t):
                v = p.next()[1]
                if v == 'cleanup':
                    cleanup = True
                elif v == 'catch':
                    t2 = p.type()
                    clauses.append(('catch', p.value(t2)))
                elif v == 'filter':
                    t2 = p.type()
                    clauses.append(('filter', p.value(t2)))
                else:
                    break
            return ('landingpad', dst, cleanup, clauses)
        if op == 'alloca':
            while p.peek()[1] in ('inalloca',):
                p.next()
            t = p.type()
            n = ('c', 1)
            nt = I64
            while p.accept(','):
                if p.accept('align'):
                    p.next()
                elif p.peek()[0] == 'md':
                    break
                else:
                    nt = p.type()
                    n = p.value(nt)
            return ('alloca', dst, t, n)
        if op == 'load':
            p.accept('atomic')
            p.accept('volatile')
            t = p.type()
            p.expect(',')
            pt = p.type()
            a = p.value(pt)
            return ('load', dst, t, a)
        if op == 'store':
            p.accept('atomic')
            p.accept('volatile')
            t = p.type()
            v = p.value(t)
            p.expect(',')
            pt = p.type()
            a = p.value(pt)
            return ('store', None, t, v, a)
        if op == 'getelementptr':
            while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                p.next()
            t = p.type()
            p.expect(',')
            bt = p.type()
            b = p.value(bt)
            idx = []
            while p.accept(','):
                if p.peek()[0] == 'md':
                    break
                it = p.type()
                idx.append((it, p.value(it)))
            return ('gep', dst, t, b, idx)
        if op in ('icmp', 'fcmp'):
            while p.peek()[1] in ('fast', 'nnan', 'ninf', 'samesign'):
                p.next()
            pred = p.next()[1]
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return (op, dst, pred, t, a, b)
        if op == 'phi':
            while p.peek()[1] in ('fast', 'nnan'):
                p.next()
            t = p.type()
            inc = {}
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                lab = unq(p.next()[1])
                p.expect(']')
                inc[lab] = v
                if not p.accept(','):
                    break
                if p.peek()[1] != '[':
                    break
            return ('phi', dst, t, inc)
        if op == 'select':
            t = p.type()
            c = p.value(t)
            p.expect(',')
            t1 = p.type()
            a = p.value(t1)
            p.expect(',')
            t2 = p.type()
            b = p.value(t2)
            return ('select', dst, c, t1, a, b)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast',
                  'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc'):
            while p.peek()[1] in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = p.type()
            a = p.value(t)
            p.expect('to')
            t2 = p.type()
            return ('cast', dst, op, t, a, t2)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract',
                                  'afn', 'reassoc'):
                p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return ('bin', dst, op, t, a, b)
        if op == 'fneg':
            t = p.type()
            return ('fneg', dst, t, p.value(t))
        if op == 'extractvalue':
            t = p.type()
            a = p.value(t)
            idx = []
            while p.accept(','):
                if p.peek()[0] == 'md':
                    break
                idx.append(int(p.next()[1]))
            return ('extractvalue', dst, t, a, idx)
        if op == 'insertvalue':
            t = p.type()
            a = p.value(t)
            p.expect(',')
            t2 = p.type()
            v = p.value(t2)
            idx = []
            while p.accept(','):
                if p.peek()[0] == 'md':
                    break
                idx.append(int(p.next()[1]))
            return ('insertvalue', dst, t, a, t2, v, idx)
        if op == 'freeze':
            t = p.type()
            return ('freeze', dst, t, p.value(t))
        if op == 'fence':
            return ('fence', None)
        if op == 'atomicrmw':
            p.accept('volatile')
            o = p.next()[1]
            pt = p.type()
            a = p.value(pt)
            p.expect(',')
            t = p.type()
            v = p.value(t)
            return ('atomicrmw', dst, o, t, a, v)
        if op == 'cmpxchg':
            while p.peek()[1] in ('weak', 'volatile'):
                p.next()
            pt = p.type()
            a = p.value(pt)
            p.expect(',')
            t = p.type()
            c = p.value(t)
            p.expect(',')
            t2 = p.type()
            v = p.value(t2)
            return ('cmpxchg', dst, t, a, c, v)
        raise SyntaxError('instr ' + op)

    # ---- CFG
    def successors(self, lab):
        ins = self.blocks[lab][-1]
        o = ins[0]
        if o == 'br':
            return [ins[2]]
        if o == 'cbr':
            return [ins[3], ins[4]]
        if o == 'switch':
            return [ins[4]] + [c[1] for c in ins[5]]
        if o == 'call' and ins[5] is not None:
            return [ins[5], ins[6]]
        return []

    def compute_loops(self):
        """natural loops: header -> set(blocks).  back edge = edge to a dominator."""
        if self.loops is not None:
            return self.loops
        succ = {b: self.successors(b) for b in self.order}
        # reverse postorder
        seen = set()
        post = []
        stack = [(self.entry, iter(succ[self.entry]))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        rpo = post[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                preds[s].append(b)
        idom = {self.entry: self.entry}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                new = None
                for q in preds[b]:
                    if q in idom:
                        if new is None:
                            new = q
                        else:
                            x, y = q, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    changed = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(preds[x])
        self.loops = loops
        self.preds = preds
        return loops


DEF_RE = re.compile(r'^define [^\n]*?(@"[^"]*"|@[-\w$.]+)\(', re.M)


class Module:
    def __init__(self, text):
        self.types = {}
        self.funcs = {}
        self.decls = set()
        self.globals = {}
        self.aliases = {}
        self._layout = {}
        i = 0
        lines = text.split('\n')
        N = len(lines)
        while i < N:
            ln = lines[i]
            if ln.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = DEF_RE.match(ln)
                name = unq(m.group(1))
                self.funcs[name] = Function(name, ln, '\n'.join(lines[i + 1:j]), self)
                i = j + 1
                continue
            if ln.startswith('declare '):
                m = re.search(r'(@"[^"]*"|@[-\w$.]+)\(', ln)
                if m:
                    self.decls.add(unq(m.group(1)))
            elif ln.startswith('%') and ' = type ' in ln:
                nm, rest = ln.split(' = type ', 1)
                self.types[unq(nm)] = rest
            elif ln.startswith('@'):
                m = re.match(r'(@"[^"]*"|@[-\w$.]+) = ', ln)
                self.globals[unq(m.group(1))] = ln[m.end():]
            i += 1
        self._gparsed = {}
        for n, rest in list(self.globals.items()):
            toks = rest.split()
            if 'alias' in toks[:8]:
                p = P(tokenize(rest), self)
                while p.next()[1] != 'alias':
                    pass
                t = p.type()
                p.expect(',')
                v = p.tvalue()[1]
                self.aliases[n] = v
                del self.globals[n]

    def resolve_type(self, name):
        t = self.types[name]
        if isinstance(t, str):
            t = P(tokenize(t), self).type()
            self.types[name] = t
        return t

    def global_info(self, name):
        """-> (type, init operand or None)"""
        if name in self._gparsed:
            return self._gparsed[name]
        p = P(tokenize(self.globals[name]), self)
        external = False
        while True:
            k, v = p.next()
            if v in ('external', 'extern_weak'):
                external = True
            if v in ('global', 'constant'):
                break
        t = p.type()
        init = None
        if not external:
            init = p.value(t)
        self._gparsed[name] = (t, init)
        return t, init

    # ---- layout
    def size_align(self, t):
        k = self._layout.get(t)
        if k:
            return k
        o = t[0]
        if o == 'i':
            b = (t[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            a = min(a, 16)
            sz = (b + a - 1) // a * a
            r = (sz, a)
        elif o == 'ptr':
            r = (8, 8)
        elif o == 'f':
            r = (t[2], t[2])
        elif o == 'arr':
            s, a = self.size_align(t[2])
            r = (s * t[1], a)
        elif o == 'vec':
            s, a = self.size_align(t[2])
            r = (s * t[1], s * t[1])
        elif o == 'named':
            r = self.size_align(self.resolve_type(t[1]))
        elif o == 'st':
            off = 0
            al = 1
            for f in t[1]:
                s, a = self.size_align(f)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al)
        elif o == 'fn':
            r = (1, 1)
        elif o == 'opaque':
            r = (0, 1)
        else:
            raise TypeError(t)
        self._layout[t] = r
        return r

    def sizeof(self, t):
        return self.size_align(t)[0]

    def field_offset(self, t, i):
        if t[0] == 'named':
            t = self.resolve_type(t[1])
        off = 0
        for j, f in enumerate(t[1]):
            s, a = self.size_align(f)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, f
            off += s
        raise IndexError

    def strip(self, t):
        while t[0] == 'named':
            t = self.resolve_type(t[1])
        return t
