"""Reader for textual LLVM IR (clang/opt 18), lazily parsing function bodies.

Only what clang -O0 (+mem2reg) emits for x86-64 is supported; anything else
raises IRError, which the checks turn into an analysis error (never a verdict).
"""
import re, subprocess


class IRError(Exception):
    pass


TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<id>[%@!\#$](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<num>-?0x[KMLHR]?[0-9A-Fa-f]+|-?[0-9]+(?:\.[0-9]+(?:e[+-]?[0-9]+)?)?)
 | (?P<word>[a-zA-Z_][-a-zA-Z_0-9.]*)
 | (?P<p>\.\.\.|[(){}\[\]<>,=*:|!])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        c = s[pos]
        if c in ' \t\n\r':
            pos += 1
            continue
        if c == ';':
            nl = s.find('\n', pos)
            pos = n if nl < 0 else nl
            continue
        m = TOK.match(s, pos)
        if not m:
            raise IRError('tokenize: ' + s[pos:pos + 60])
        out.append(m.group(0))
        pos = m.end()
    return out


# ---- types -----------------------------------------------------------------
class Ty:
    __slots__ = ('k', 'a')

    def __init__(self, k, a=None):
        self.k = k
        self.a = a

    def __repr__(self):
        return '%s:%s' % (self.k, self.a)


VOID = Ty('void')
PTR = Ty('ptr')
_ints = {}


def IntTy(n):
    if n not in _ints:
        _ints[n] = Ty('int', n)
    return _ints[n]


PATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'inreg', 'noalias', 'nocapture', 'readonly',
          'readnone', 'writeonly', 'returned', 'immarg', 'nofree', 'noreturn', 'writable', 'dead_on_unwind',
          'nest', 'swiftself', 'dso_local', 'allocptr', 'allocalign'}
PATTRS_ARG = {'sret', 'byval', 'dereferenceable', 'dereferenceable_or_null', 'byref', 'elementtype', 'preallocated',
              'inalloca', 'memory', 'nofpclass'}
CCS = {'fastcc', 'ccc', 'coldcc'}


class P:
    """token cursor"""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.accept(x):
            raise IRError('expected %r got %r in %r' % (x, self.peek(), ' '.join(self.t)[:200]))

    def type(self):
        t = self.next()
        if t == 'void':
            return VOID
        if t == 'ptr':
            return PTR
        if t[0] == 'i' and t[1:].isdigit():
            return IntTy(int(t[1:]))
        if t in ('float', 'double', 'x86_fp80', 'half', 'fp128'):
            return Ty('fp', t)
        if t in ('metadata', 'label', 'token'):
            return Ty(t)
        if t[0] == '%':
            return Ty('named', t[1:].strip('"'))
        if t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            return Ty('arr', (n, e))
        if t == '{':
            l = []
            if not self.accept('}'):
                while True:
                    l.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            return Ty('struct', (tuple(l), False))
        if t == '<':
            if self.peek() == '{':
                self.next()
                l = []
                if not self.accept('}'):
                    while True:
                        l.append(self.type())
                        if self.accept('}'):
                            break
                        self.expect(',')
                self.expect('>')
                return Ty('struct', (tuple(l), True))
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect('>')
            return Ty('vec', (n, e))
        raise IRError('type? %r in %s' % (t, ' '.join(self.t)[:300]))

    def skip_attrs(self):
        al = None
        byval = None
        while True:
            t = self.peek()
            if t in PATTRS:
                self.next()
            elif t in PATTRS_ARG:
                self.next()
                if self.accept('('):
                    d = 1
                    st = self.i
                    while d:
                        x = self.next()
                        d += (x == '(') - (x == ')')
                    if t in ('byval',):
                        byval = P(self.t[st:self.i - 1]).type()
            elif t == 'align':
                self.next()
                if self.peek() == '(':
                    self.next()
                    self.next()
                    self.expect(')')
                else:
                    self.next()
            elif t == 'range':
                self.next()
                while self.next() != ')':
                    pass
            else:
                return byval

    def value(self, ty):
        """returns a value tuple: ('l',name) ('g',name) ('i',n) ('null',) ('undef',) ('zero',)
        ('f',text) ('agg',[(ty,val)...]) ('cstr',bytes) ('ce',op,...)"""
        t = self.next()
        c = t[0]
        if c == '%':
            return ('l', t[1:].strip('"'))
        if c == '@':
            return ('g', t[1:].strip('"'))
        if t == 'null':
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if t == 'true':
            return ('i', 1)
        if t == 'false':
            return ('i', 0)
        if t == 'none':
            return ('undef',)
        if c == '!' or t == 'metadata':
            return ('md', t)
        if c.isdigit() or c == '-':
            if ty.k == 'int':
                return ('i', int(t) if not t.startswith('0x') else int(t, 16))
            return ('f', t)
        if c == 'c' and t.startswith('c"'):
            return ('cstr', unescape(t[2:-1]))
        if t == '[' or t == '{' or (t == '<' and ty.k in ('vec', 'struct')):
            if t == '<' and self.peek() == '{':
                self.next()
                l = self._agg('}')
                self.expect('>')
            else:
                l = self._agg({'[': ']', '{': '}', '<': '>'}[t])
            return ('agg', l)
        if t in ('getelementptr',):
            self.accept('inbounds')
            while self.peek() in ('inrange', 'nuw', 'nusw'):
                self.next()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            args = []
            while True:
                while self.peek() == 'inrange':
                    self.next()
                ety = self.type()
                args.append((ety, self.value(ety)))
                if self.accept(')'):
                    break
                self.expect(',')
            return ('ce', 'gep', bt, args)
        if t in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            ety = self.type()
            v = self.value(ety)
            self.expect('to')
            to = self.type()
            self.expect(')')
            return ('ce', t, (ety, v), to)
        if t in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            a = self.tv()
            self.expect(',')
            b = self.tv()
            self.expect(')')
            return ('ce', t, a, b)
        if t in ('dso_local_equivalent', 'no_cfi'):
            return self.value(ty)
        raise IRError('value? %r in %s' % (t, ' '.join(self.t)[:300]))

    def _agg(self, close):
        l = []
        if self.accept(close):
            return l
        while True:
            l.append(self.tv())
            if self.accept(close):
                return l
            self.expect(',')

    def tv(self):
        ty = self.type()
        self.skip_attrs()
        return (ty, self.value(ty))


def unescape(s):
    out = bytearray()
    i = 0
    b = s.encode('latin-1', 'replace')
    while i < len(b):
        if b[i] == 0x5c:
            if b[i + 1] == 0x5c:
                out.append(0x5c)
                i += 2
            else:
                out.append(int(b[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'text', 'fn')

    def __repr__(self):
        return self.text


class Block:
    __slots__ = ('name', 'ins', 'phis')


class Func:
    def __init__(self, mod, name, header, lines):
        self.mod = mod
        self.name = name
        self.header = header
        self._lines = lines
        self._blocks = None
        p = P(tokenize(header))
        # find "@name (" position
        toks = p.t
        k = None
        for j, t in enumerate(toks):
            if t[0] == '@' and toks[j + 1] == '(':
                k = j
                break
        # return type directly precedes @name, skip linkage words
        self.params = []
        p.i = k + 2
        idx = 0
        self.vararg = False
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    self.vararg = True
                    p.expect(')')
                    break
                ty = p.type()
                st = p.i
                byval = p.skip_attrs()
                attrs = toks[st:p.i]
                if p.peek() and p.peek()[0] == '%':
                    nm = p.next()[1:].strip('"')
                else:
                    nm = str(idx)
                self.params.append((ty, nm, attrs, byval))
                idx += 1
                if p.accept(')'):
                    break
                p.expect(',')
        q = P(toks[:k])
        q.i = 0
        LINK = {'define', 'declare', 'linkonce_odr', 'weak_odr', 'internal', 'dso_local', 'private', 'hidden', 'weak',
                'linkonce', 'available_externally', 'external', 'unnamed_addr', 'local_unnamed_addr', 'extern_weak',
                'protected', 'appending', 'common', 'fastcc', 'ccc'}
        while q.peek() in LINK:
            q.next()
        q.skip_attrs()
        self.ret = q.type()
        m = re.search(r'#(\d+)', header[header.rfind(')'):])
        m2 = re.search(r'\)[^)]*#(\d+)[^)]*$', header)
        self.attrs = mod.attrgroup(m2.group(1)) if m2 else ''
        self.nounwind = bool(re.search(r'\bnounwind\b', self.attrs))
        d = re.search(r'!dbg !(\d+)', header)
        self.dbg = d.group(1) if d else None

    @property
    def defined(self):
        return self._lines is not None

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks

    def _parse(self):
        self._blocks = {}
        self.order = []
        entry = str(len([p for p in self.params if p[1].isdigit()])) if all(p[1].isdigit() for p in self.params) else '0'
        # numbered params: unnamed entry block takes the next number
        cur = None
        logical = []
        for ln in self._lines:
            s = ln.rstrip('\n')
            if not s.strip():
                continue
            if s[0] not in ' \t':
                logical.append(s)
            elif s.startswith('  ') and len(s) > 2 and s[2] not in ' ]':
                logical.append(s)
            else:
                logical[-1] += ' ' + s.strip()
        for s in logical:
            if s[0] not in ' \t':
                m = re.match(r'("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', s)
                if not m:
                    raise IRError('label? ' + s)
                nm = m.group(1).strip('"')
                cur = Block()
                cur.name = nm
                cur.ins = []
                cur.phis = []
                self._blocks[nm] = cur
                self.order.append(nm)
                continue
            if cur is None:
                cur = Block()
                cur.name = entry
                cur.ins = []
                cur.phis = []
                self._blocks[entry] = cur
                self.order.append(entry)
            ins = parse_instr(s.strip(), self)
            if ins.op == 'phi':
                cur.phis.append(ins)
            else:
                cur.ins.append(ins)

    def loops(self):
        """header -> set(blocks) of natural loops (by DFS back edges)"""
        if hasattr(self, '_loops'):
            return self._loops
        succ = {b: successors(self.blocks[b].ins[-1]) for b in self.blocks}
        pred = {b: [] for b in self.blocks}
        for b, ss in succ.items():
            for s in ss:
                pred[s].append(b)
        headers = {}
        color = {}
        stack = [(self.order[0], iter(succ[self.order[0]]))]
        color[self.order[0]] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color.get(s, 0) == 0:
                    color[s] = 1
                    stack.append((s, iter(succ[s])))
                    break
                elif color[s] == 1:
                    headers.setdefault(s, []).append(b)
            else:
                color[b] = 2
                stack.pop()
        self._loops = {}
        for h, tails in headers.items():
            body = {h}
            wl = list(tails)
            while wl:
                x = wl.pop()
                if x in body:
                    continue
                body.add(x)
                wl.extend(pred[x])
            self._loops[h] = body
        return self._loops

    def loc(self, ins):
        return self.mod.loc(ins.dbg) if ins is not None else None

    @property
    def demangled(self):
        return self.mod.demangle(self.name)


def successors(ins):
    if ins.op == 'br':
        return [ins.a[1], ins.a[2]] if ins.a[0] is not None else [ins.a[1]]
    if ins.op == 'switch':
        return [ins.a[1]] + [l for _, l in ins.a[2]]
    if ins.op == 'invoke':
        return [ins.a['normal'], ins.a['unwind']]
    return []


FLAGS = {'nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'inbounds',
         'volatile', 'disjoint', 'nneg', 'nusw', 'samesign'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub',
       'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext',
        'fptrunc', 'addrspacecast'}


def parse_instr(s, fn):
    ins = Instr()
    ins.text = s
    ins.fn = fn
    ins.res = None
    ins.dbg = None
    m = re.search(r', !dbg !(\d+)', s)
    if m:
        ins.dbg = m.group(1)
    cut = s.find(', !')
    body = s
    if cut >= 0:
        # strip trailing metadata attachments (not metadata call args)
        mm = re.search(r'(?:, ![a-zA-Z_.]+ ![0-9]+)+\s*$', s)
        if mm:
            body = s[:mm.start()]
    p = P(tokenize(body))
    if p.peek(1) == '=' and p.peek()[0] == '%':
        ins.res = p.next()[1:].strip('"')
        p.next()
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    ins.op = op
    if op in BIN:
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        ins.ty = ty
        ins.a = (a, b)
    elif op == 'fneg':
        while p.peek() in FLAGS:
            p.next()
        ins.ty = p.type()
        ins.a = (p.value(ins.ty),)
    elif op in CAST:
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        v = p.value(ty)
        p.expect('to')
        ins.ty = p.type()
        ins.a = (ty, v)
    elif op in ('icmp', 'fcmp'):
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        ins.ty = IntTy(1)
        ins.a = (pred, ty, a, b)
    elif op == 'select':
        while p.peek() in FLAGS:
            p.next()
        c = p.tv()
        p.expect(',')
        a = p.tv()
        p.expect(',')
        b = p.tv()
        ins.ty = a[0]
        ins.a = (c, a, b)
    elif op == 'phi':
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(ty)
            p.expect(',')
            l = p.next()[1:].strip('"')
            p.expect(']')
            inc.append((v, l))
            if not p.accept(','):
                break
        ins.ty = ty
        ins.a = inc
    elif op == 'alloca':
        p.accept('inalloca')
        ty = p.type()
        cnt = None
        if p.accept(','):
            if p.peek() != 'align':
                cnt = p.tv()
        ins.ty = PTR
        ins.a = (ty, cnt)
    elif op == 'load':
        at = p.accept('atomic')
        p.accept('volatile')
        ty = p.type()
        p.expect(',')
        ptr = p.tv()
        ins.ty = ty
        ins.a = (ptr[1], at)
    elif op == 'store':
        at = p.accept('atomic')
        p.accept('volatile')
        v = p.tv()
        p.expect(',')
        ptr = p.tv()
        ins.ty = VOID
        ins.a = (v, ptr[1], at)
    elif op == 'getelementptr':
        while p.peek() in FLAGS:
            p.next()
        bt = p.type()
        p.expect(',')
        base = p.tv()
        idx = []
        while p.accept(','):
            idx.append(p.tv())
        ins.ty = PTR
        ins.a = (bt, base[1], idx)
    elif op in ('extractvalue', 'insertvalue'):
        agg = p.tv()
        ins.ty = agg[0]
        v = None
        if op == 'insertvalue':
            p.expect(',')
            v = p.tv()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        ins.a = (agg, v, idx)
    elif op == 'br':
        ins.ty = VOID
        if p.accept('label'):
            ins.a = (None, p.next()[1:].strip('"'))
        else:
            c = p.tv()
            p.expect(',')
            p.expect('label')
            a = p.next()[1:].strip('"')
            p.expect(',')
            p.expect('label')
            b = p.next()[1:].strip('"')
            ins.a = (c[1], a, b)
    elif op == 'switch':
        ins.ty = VOID
        v = p.tv()
        p.expect(',')
        p.expect('label')
        d = p.next()[1:].strip('"')
        p.expect('[')
        cases = []
        while not p.accept(']'):
            cv = p.tv()
            p.expect(',')
            p.expect('label')
            cases.append((cv[1][1], p.next()[1:].strip('"')))
        ins.a = (v, d, cases)
    elif op == 'ret':
        ins.ty = VOID
        if p.accept('void'):
            ins.a = None
        else:
            ins.a = p.tv()
    elif op in ('unreachable',):
        ins.ty = VOID
        ins.a = None
    elif op == 'resume':
        ins.ty = VOID
        ins.a = p.tv()
    elif op in ('call', 'invoke'):
        while p.peek() in FLAGS or p.peek() in CCS:
            p.next()
        p.skip_attrs()
        ret = p.type()
        if p.peek() == '(':
            # function type
            d = 0
            while True:
                x = p.next()
                d += (x == '(') - (x == ')')
                if d == 0:
                    break
        isasm = False
        if p.peek() == 'asm':
            isasm = True
            while p.peek() != '(':
                p.next()
            callee = ('asm',)
        else:
            callee = p.value(PTR)
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                if p.peek() == 'metadata':
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        d += (x in '([{') - (x in ')]}')
                    args.append((Ty('metadata'), ('md', None)))
                else:
                    ty = p.type()
                    st = p.i
                    bv = p.skip_attrs()
                    args.append((ty, p.value(ty), bv, p.t[st:p.i]))
                if p.accept(')'):
                    break
                p.expect(',')
        grp = None
        while p.peek() is not None and p.peek() != 'to':
            x = p.next()
            if x[0] == '#':
                grp = x[1:]
            if x == '[':
                while p.next() != ']':
                    pass
        ins.ty = ret
        ins.a = {'callee': callee, 'args': args, 'attrs': fn.mod.attrgroup(grp) if grp else '', 'asm': isasm}
        if op == 'invoke':
            p.expect('to')
            p.expect('label')
            ins.a['normal'] = p.next()[1:].strip('"')
            p.expect('unwind')
            p.expect('label')
            ins.a['unwind'] = p.next()[1:].strip('"')
    elif op == 'landingpad':
        ty = p.type()
        cl = []
        cleanup = False
        while p.peek() is not None:
            x = p.next()
            if x == 'cleanup':
                cleanup = True
            elif x in ('catch', 'filter'):
                t = p.type()
                cl.append((x, p.value(t)))
        ins.ty = ty
        ins.a = (cleanup, cl)
    elif op == 'atomicrmw':
        p.accept('volatile')
        o = p.next()
        ptr = p.tv()
        p.expect(',')
        v = p.tv()
        ins.ty = v[0]
        ins.a = (o, ptr[1], v)
    elif op == 'cmpxchg':
        p.accept('weak')
        p.accept('volatile')
        ptr = p.tv()
        p.expect(',')
        c = p.tv()
        p.expect(',')
        n = p.tv()
        ins.ty = Ty('struct', ((c[0], IntTy(1)), False))
        ins.a = (ptr[1], c, n)
    elif op == 'fence':
        ins.ty = VOID
        ins.a = None
    elif op == 'freeze':
        v = p.tv()
        ins.ty = v[0]
        ins.a = (v[1],)
    elif op == 'va_arg':
        ins.ty = PTR
        ins.a = None
    else:
        raise IRError('instr? ' + s[:200])
    return ins


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self._md = {}
        self._attr = {}
        self._dem = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        pend = []
        while i < n:
            l = lines[i]
            if not l:
                i += 1
                continue
            c = l[0]
            if c == '%':
                m = re.match(r'(%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = type (.*)$', l)
                self.types[m.group(1)[1:].strip('"')] = m.group(2)
            elif c == '@':
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = (.*)$', l)
                self.globals[m.group(1).strip('"')] = m.group(2)
            elif c == '!':
                k = l.find(' = ')
                self._md[l[1:k]] = l[k + 3:]
            elif l.startswith('attributes #'):
                m = re.match(r'attributes #(\d+) = \{(.*)\}', l)
                self._attr[m.group(1)] = m.group(2)
            elif l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                pend.append((l, lines[i + 1:j]))
                i = j
            elif l.startswith('declare '):
                pend.append((l, None))
            i += 1
        self._hdr = {}
        for h, b in pend:
            m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', h)
            self._hdr[m.group(1).strip('"')] = (h, b)
        self._ty = {}
        self._gl = {}
        self._demangle_all()

    def _demangle_all(self):
        names = list(self._hdr) + list(self.globals)
        r = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), capture_output=True, text=True)
        out = r.stdout.split('\n')
        for a, b in zip(names, out):
            self._dem[a] = b

    def demangle(self, n):
        return self._dem.get(n, n)

    def attrgroup(self, g):
        return self._attr.get(g, '')

    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            hb = self._hdr.get(name)
            if hb is None:
                return None
            f = self.funcs[name] = Func(self, name, hb[0], hb[1])
        return f

    def find(self, pat, defined=True):
        """functions whose demangled name matches the regular expression pat (fullmatch)"""
        r = re.compile(pat)
        out = []
        for n, (h, b) in self._hdr.items():
            if defined and b is None:
                continue
            if r.fullmatch(self._dem.get(n, n)):
                out.append(self.func(n))
        return out

    def defined_names(self):
        return [n for n, (h, b) in self._hdr.items() if b is not None]

    def type(self, name):
        if name not in self._ty:
            d = self.types.get(name)
            if d is None or d == 'opaque':
                raise IRError('opaque type ' + name)
            self._ty[name] = P(tokenize(d)).type()
        return self._ty[name]

    # ---- layout
    def sizeof(self, t):
        return self._sa(t)[0]

    def _sa(self, t):
        k = t.k
        if k == 'int':
            b = (t.a + 7) // 8
            s = 1
            while s < b:
                s *= 2
            if t.a == 128:
                return (16, 16)
            return (s, s)
        if k == 'ptr':
            return (8, 8)
        if k == 'fp':
            return {'float': (4, 4), 'double': (8, 8), 'x86_fp80': (16, 16), 'half': (2, 2), 'fp128': (16, 16)}[t.a]
        if k == 'arr':
            s, a = self._sa(t.a[1])
            return (s * t.a[0], a)
        if k == 'vec':
            s, a = self._sa(t.a[1])
            return (s * t.a[0], s * t.a[0])
        if k == 'named':
            return self._sa(self.type(t.a))
        if k == 'struct':
            offs, size, al = self.layout(t)
            return (size, al)
        raise IRError('sizeof %r' % (t,))

    def resolve(self, t):
        while t.k == 'named':
            t = self.type(t.a)
        return t

    def layout(self, t):
        t = self.resolve(t)
        els, packed = t.a
        off = 0
        al = 1
        offs = []
        for e in els:
            s, a = self._sa(e)
            if packed:
                a = 1
            off = (off + a - 1) // a * a
            offs.append(off)
            off += s
            al = max(al, a)
        size = (off + al - 1) // al * al
        return offs, size, al

    def leaf_at(self, t, off):
        """scalar type located at byte offset off of type t, or None"""
        t = self.resolve(t)
        if t.k in ('int', 'ptr', 'fp'):
            return t if off == 0 else None
        if t.k == 'struct':
            offs, size, al = self.layout(t)
            for e, o in zip(t.a[0], offs):
                s = self.sizeof(e)
                if o <= off < o + s:
                    return self.leaf_at(e, off - o)
            return None
        if t.k in ('arr', 'vec'):
            es = self.sizeof(t.a[1])
            if es and off < es * t.a[0]:
                return self.leaf_at(t.a[1], off % es)
        return None

    def named_at(self, t, off, acc=None):
        """names of the struct types that start at byte offset off in t (outermost first)"""
        acc = [] if acc is None else acc
        nm = t.a if t.k == 'named' else None
        if off == 0 and nm:
            acc.append(nm)
        t = self.resolve(t)
        if t.k == 'struct':
            offs, size, al = self.layout(t)
            for e, o in zip(t.a[0], offs):
                s = self.sizeof(e)
                if o <= off < o + s or (s == 0 and o == off):
                    return self.named_at(e, off - o, acc) if s else acc
        elif t.k == 'arr':
            es = self.sizeof(t.a[1])
            if es and off < es * t.a[0]:
                return self.named_at(t.a[1], off % es, acc)
        return acc

    # ---- globals
    def glob(self, name):
        if name not in self._gl:
            d = self.globals.get(name)
            if d is None:
                self._gl[name] = None
                return None
            toks = tokenize(re.sub(r'(?:, ![a-zA-Z_.]+ ![0-9]+)+\s*$', '', d))
            p = P(toks)
            ext = False
            const = False
            while True:
                t = p.peek()
                if t in ('global', 'constant'):
                    const = t == 'constant'
                    p.next()
                    break
                if t == 'alias':
                    tgt = [x for x in toks[p.i:] if x[0] == '@'][-1]
                    self._gl[name] = ('alias', (PTR, ('g', tgt[1:].strip('"'))))
                    return self._gl[name]
                if t in ('external', 'extern_weak'):
                    ext = True
                if t in ('thread_local',):
                    p.next()
                    if p.accept('('):
                        p.next()
                        p.expect(')')
                    continue
                p.next()
            ty = p.type()
            init = None
            if not ext and p.peek() not in (None, ','):
                init = p.value(ty)
            self._gl[name] = (const, ty, init)
        return self._gl[name]

    # ---- debug info
    def md(self, i):
        return self._md.get(str(i), '')

    def loc(self, dbg):
        if dbg is None:
            return None
        s = self.md(dbg)
        m = re.search(r'DILocation\(line: (\d+)(?:, column: \d+)?, scope: !(\d+)', s)
        if not m:
            m = re.search(r'DILocation\(.*line: (\d+)', s)
            return ('?', int(m.group(1))) if m else None
        return (self.scope_file(m.group(2)), int(m.group(1)))

    def scope_file(self, sc):
        seen = 0
        while seen < 20:
            s = self.md(sc)
            m = re.search(r'\bfile: !(\d+)', s)
            if m:
                f = self.md(m.group(1))
                mm = re.search(r'filename: "([^"]*)"', f)
                return mm.group(1) if mm else '?'
            m = re.search(r'\bscope: !(\d+)', s)
            if not m:
                return '?'
            sc = m.group(1)
            seen += 1
        return '?'

    def func_loc(self, f):
        if not f.dbg:
            return None
        s = self.md(f.dbg)
        m = re.search(r'line: (\d+)', s)
        return (self.scope_file(f.dbg), int(m.group(1)) if m else 0)
