"""C++ classes from the syntax descriptions of the repository (src/mg/media/mp4/*.fl).

The media headers include classes the flavor compiler generates from these files; the compiler is not in the sandbox, so this
is the translation of the part of the language (ISO/IEC 14496-1 syntactic description language with verbatim code) the files
use: every parsable variable becomes a member, `put` writes and `get` reads them in the order and width given, blocks of
verbatim code go where they stand (%{ class, %g{ get, %p{ put)."""
import re

TOK = re.compile(r'''(?P<verb>%(?P<kind>\.?[a-z]*)\{(?P<body>.*?)%(?P=kind)\})|(?P<com>/\*.*?\*/|//[^\n]*)|(?P<pragma>%pragma[^\n]*)
|(?P<ws>\s+)|(?P<id>[A-Za-z_]\w*)|(?P<num>0[bB][01]+|0[xX][0-9a-fA-F]+|\d+)|(?P<str>"[^"]*"|'[^']*')
|(?P<op>\[\[|\]\]|\.\.|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[+\-*/%&|^]=|.)''', re.S | re.X)
BASIC = {'bit': 'unsigned int', 'int': 'int', 'char': 'char', 'float': 'float', 'double': 'double', 'uint64_t': 'uint64_t',
         'int64_t': 'int64_t', 'unsigned': 'unsigned int', 'signed': 'int', 'bool': 'bool', 'uint32_t': 'uint32_t'}


class FlavorError(Exception):
    pass


def tokens(text):
    out = []
    for m in TOK.finditer(text):
        k = m.lastgroup
        if m.group('verb') is not None:
            out.append(('verb', m.group('kind'), m.group('body')))
        elif m.group('com') or m.group('pragma') or m.group('ws'):
            continue
        else:
            for k in ('id', 'num', 'str', 'op'):
                if m.group(k) is not None:
                    out.append((k, m.group(k)))
                    break
    return out


class Cls:
    def __init__(self, name, base):
        self.name, self.base = name, base
        self.members, self.verb, self.get, self.put, self.uses = {}, [], [], [], set()
        self.objects = set()


class Parser:
    def __init__(self, toks, array=256):
        self.t, self.p, self.array = toks, 0, array
        self.classes, self.top = {}, []
        self.names = {toks[i + 1][1] for i in range(len(toks) - 1) if toks[i] == ('id', 'class')}

    def peek(self, k=0):
        return self.t[self.p + k] if self.p + k < len(self.t) else ('eof', '')

    def next(self):
        self.p += 1
        return self.t[self.p - 1]

    def at(self, s):
        return self.peek()[0] in ('op', 'id') and self.peek()[1] == s

    def need(self, s):
        if not self.at(s):
            raise FlavorError('%r expected before %r' % (s, self.t[self.p:self.p + 4]))
        return self.next()

    def until(self, *stops):
        """the text of an expression up to one of these, brackets balanced"""
        out, depth = [], 0
        while True:
            k = self.peek()
            if k[0] == 'eof':
                raise FlavorError('end of the file in an expression')
            if depth == 0 and k[1] in stops:
                return self.expr(out)
            if k[1] in ('(', '['):
                depth += 1
            if k[1] in (')', ']'):
                depth -= 1
            out.append(self.next())

    def expr(self, toks):
        s = []
        for i, k in enumerate(toks):
            v = k[1]
            if v == '.' and i and toks[i - 1][0] in ('id',) and toks[i - 1][1] in self.c.objects:
                v = '->'
            if k[0] == 'id' and v in ('nextbits', 'skipbits'):
                v = 'var_bs.' + v
            s.append(v)
        return ' '.join(s)

    def file(self):
        while self.peek()[0] != 'eof':
            k = self.peek()
            if k[0] == 'verb':
                self.next()
                if k[1] in ('', '.c'):
                    self.top.append(('verb', k[2]))
            elif k == ('id', 'const'):
                s = self.until(';') if hasattr(self, 'c') else self.plain(';')
                self.need(';')
                self.top.append(('verb', s + ';\n'))
            elif k[1] in ('class', 'abstract', 'aligned'):
                try:
                    start = self.p
                    self.klass()
                except FlavorError as e:
                    # a class outside the part of the language read here: left out
                    self.p = start
                    self.skip()
            else:
                self.next()
        return self

    def plain(self, stop):
        out = []
        while not self.at(stop):
            out.append(self.next()[1])
        return ' '.join(out)

    def skip(self):
        while not self.at('{'):
            self.next()
        d = 0
        while True:
            k = self.next()
            if k[0] == 'eof':
                return
            d += (k[1] == '{') - (k[1] == '}') if k[0] == 'op' else 0
            if not d:
                return

    def klass(self):
        while not self.at('class'):
            self.next()
        self.next()
        name = self.next()[1]
        base = None
        if self.at('('):
            raise FlavorError('parameters')
        if self.at('extends'):
            self.next()
            base = self.next()[1]
        if self.at(':'):
            raise FlavorError('identified class')
        self.c = Cls(name, base)
        self.need('{')
        while not self.at('}'):
            self.stmt()
        self.need('}')
        if self.c.base:
            self.c.uses.add(self.c.base)
        self.classes[name] = self.c
        self.top.append(('class', name))

    def emit(self, g, p=None):
        self.c.get.append(g)
        self.c.put.append(g if p is None else p)

    def stmt(self):
        k = self.peek()
        if k[0] == 'verb':
            self.next()
            if k[1] in ('', '.c'):
                self.c.verb.append(k[2])
            elif k[1] == 'g':
                self.c.get.append(k[2] + '\n')
            elif k[1] == 'p':
                self.c.put.append(k[2] + '\n')
        elif k[1] == ';':
            self.next()
        elif k[1] == '{':
            self.next()
            self.emit('{')
            while not self.at('}'):
                self.stmt()
            self.next()
            self.emit('}\n')
        elif k[1] in ('if', 'while'):
            self.next()
            self.need('(')
            e = self.until(')')
            self.need(')')
            self.emit('%s (%s) {' % (k[1], e))
            self.stmt()
            self.emit('}\n')
            if k[1] == 'if' and self.at('else'):
                self.next()
                self.emit('else {')
                self.stmt()
                self.emit('}\n')
        elif k[1] == 'for':
            self.next()
            self.need('(')
            a = self.until(';')
            self.need(';')
            b = self.until(';')
            self.need(';')
            c = self.until(')')
            self.need(')')
            self.emit('for (%s; %s; %s) {' % (a, b, c))
            self.stmt()
            self.emit('}\n')
        elif k[1] in ('do', 'switch', 'map', 'case'):
            raise FlavorError(k[1])
        elif self.isdecl():
            self.decl()
        else:
            e = self.until(';')
            self.need(';')
            self.emit(e + ';\n')

    def isdecl(self):
        i = 0
        while self.peek(i)[1] in ('const', 'aligned', 'unsigned', 'signed', 'legacy'):
            i += 1
        k = self.peek(i)
        if k[0] != 'id' or not (k[1] in BASIC or k[1] in self.names):
            return i > 0
        n = self.peek(i + 1)
        return n[0] == 'id' or n[1] == '('

    def decl(self):
        sign = 'int'
        ty = None
        while self.peek()[1] in ('const', 'aligned', 'unsigned', 'signed'):
            v = self.next()[1]
            if v == 'aligned':
                raise FlavorError('aligned')
            if v in ('unsigned', 'signed'):
                ty = v
        if self.peek()[0] == 'id' and (self.peek()[1] in BASIC or self.peek()[1] in self.names) and not (ty and self.peek(1)[1] not in ('(',) and self.peek(1)[0] != 'id'):
            t = self.next()[1]
        else:
            t = 'int'
        obj = t in self.names and t not in BASIC
        cty = t if obj else BASIC[t] if ty != 'unsigned' else {'int': 'unsigned int', 'char': 'unsigned char'}.get(t, BASIC[t])
        signed = not obj and t in ('int', 'char') and ty != 'unsigned'
        bits = None
        if self.at('('):
            self.next()
            bits = self.until(')')
            self.need(')')
        name = self.next()
        if name[0] != 'id':
            raise FlavorError('a name expected, not %r' % (name,))
        name = name[1]
        idx, dim = None, None
        if self.at('[['):
            self.next()
            idx = self.until(']]')
            self.need(']]')
            dim = self.array
        elif self.at('['):
            raise FlavorError('array')
        val = None
        if self.at('='):
            self.next()
            val = self.until(';', '..', ',')
        if not self.at(';'):
            raise FlavorError('declaration of %s' % name)
        self.need(';')
        old = self.c.members.get(name)
        new = (cty + (' *' if obj else ''), dim)
        if old is not None and old != new and bits is None and not obj:
            new = old               # a plain variable again, in another block
        if old is not None and old != new:
            raise FlavorError('%s declared twice with different types' % name)
        self.c.members[name] = new
        lv = name if idx is None else '%s[%s]' % (name, idx)
        if obj:
            self.c.objects.add(name)
            self.c.uses.add(t)
            self.emit('%s = new %s; %s->get(var_bs);\n' % (lv, t, lv), '%s->put(var_bs);\n' % lv)
        elif bits is not None:
            g = '%s = var_bs.%sgetbits(%s);\n' % (lv, 's' if signed else '', bits)
            p = 'var_bs.putbits(%s, %s);\n' % (lv, bits)
            if val is not None:
                p = '%s = %s; ' % (lv, val) + p
            self.emit(g, p)
        elif val is not None:
            self.emit('%s = %s;\n' % (lv, val))


def header(path, want, array=256):
    """the text of a header with these classes (and what they need)"""
    pr = Parser(tokens(open(path, encoding='latin-1').read()), array).file()
    need, todo = set(), list(want)
    while todo:
        n = todo.pop()
        if n in need:
            continue
        if n not in pr.classes:
            raise FlavorError('no class %s in %s' % (n, path))
        need.add(n)
        todo += pr.classes[n].uses
    out = []
    for kind, x in pr.top:
        if kind == 'verb':
            if '#include' not in x:
                out.append(x)
            else:
                out.append('\n'.join(l for l in x.split('\n') if 'media_parser.h' not in l) + '\n')
        elif x in need:
            c = pr.classes[x]
            o = ['class %s%s {\npublic:\n' % (x, ' : public ' + c.base if c.base else '')]
            for n, (t, d) in c.members.items():
                o.append('  %s %s%s;\n' % (t, n, '' if d is None else '[%d]' % d))
            o += ['public:\n' + v + '\npublic:\n' for v in c.verb]
            for what in ('get', 'put'):
                b = ''.join(getattr(c, what))
                o.append('virtual int %s(IBitstream & var_bs) {\n%s%s return 0; }\n' % (what, c.base + '::%s(var_bs);\n' % what if c.base else '', b))
            if not any('virtual ~' in v for v in c.verb):
                o.append('virtual ~%s() {}\n' % x)
            o.append('};\n')
            out.append(''.join(o))
    return ''.join(out)
