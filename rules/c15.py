"""Named commands: every argument of every command line gives its command exactly the value written.

console_command is interpreted as it is; below it are contracts: the string operations (rule C13 decides them), std::map and std::vector.
The set of commands declared is arbitrary: looking for a name finds a command of any type, or none; going through the commands meets at
most three, each with any shortcut, number of values and need. The loop over the arguments is cut: one arbitrary argument in an
arbitrary state before it. Checked on every path: the name looked for is the text between the leading one or two minus signs and the first
separator; the command is the one of that name, else the one with that shortcut, else a new one of that name; it gets one value: the text
behind the separator, or none, or what reads as true; nothing else changes; what is missing is reported, and only that."""
import re
import dom
from dom import C, S, Ptr, NULL, isc, cv, zext, trunc
from absint import State, AnalysisError, PathEnd
from cut import CutAt
import models
import quot
import strmodel

LEVEL = 'other'
FLOOR = 60
UNITS = ['mg/core/nx/util.cpp']
DRIVER = r'''#include "mgcore.h"
#include <new>
using namespace mg::core;
extern "C" {
size_t k_size() { return sizeof(Cstring); }
int k_type(int k) { return k == 0 ? console_command::type_string : k == 1 ? console_command::type_int : console_command::type_bool; }
void k_new(console_command* w) { new (w) console_command(); }
bool k_process(console_command* c, int argc, char** argv) { return c->process(argc, argv); }
void k_add(console_command* c, const char* n, int t, bool r, const char* d, char s) { c->add(n, (console_command::command_type)t, r, d, s); }
void k_get(Cstring* o, console_command* c, const char* n, uint32_t i) { new (o) Cstring(c->get_value(n, i)); }
void k_get0(Cstring* o, console_command* c, const char* n) { new (o) Cstring(c->get_value(n)); }
void k_set(console_command* c, const char* n, const char* v, uint32_t i) { c->set_value(n, v, i); }
bool k_spec(console_command* c, const char* n, uint32_t i) { return c->command_specified(n, i); }
uint32_t k_count(console_command* c, const char* n) { return c->get_command_count(n); }
int64_t k_i64(console_command* c, const char* n, uint32_t i) { return c->get_integer64_value(n, i); }
int64_t k_i640(console_command* c, const char* n) { return c->get_integer64_value(n); }
int k_int(console_command* c, const char* n) { return c->get_integer_value(n); }
void k_err(Cstring* o, console_command* c) { new (o) Cstring(c->get_error_message()); }
void k_help(Cstring* o, console_command* c) { new (o) Cstring(c->get_help()); }
}
'''
ASSUMPTIONS = ['texts below 2^30 bytes', 'the string operations do what rule C13 decides', 'std::map finds what was put under an equal key; std::vector keeps order',
               'at most three commands met on one way through the set', 'at least one value and a declared command where a value is read',
               'integers read fit their type']
W = ('src/mg/cmdline.h', 0)
OBJ, ARGV, OUT = ('a', 'commands'), ('a', 'argv'), ('a', 'result')
NAME, DESC, VALUE = ('a', 'name given'), ('a', 'description given'), ('a', 'value given')
TEXTS = (NAME, DESC, VALUE)
MAX = 1 << 30
MAXNODES = 3
EMPTY = ('lit', '')


def cat(a, b):
    p = (a[1] if a[0] == 'cat' else (a,)) + (b[1] if b[0] == 'cat' else (b,))
    out = []
    for x in p:
        if x == EMPTY:
            continue
        if out and x[0] == 'lit' and out[-1][0] == 'lit':
            out[-1] = ('lit', out[-1][1] + x[1])
        else:
            out.append(x)
    return EMPTY if not out else out[0] if len(out) == 1 else ('cat', tuple(out))


class Cmd(CutAt):
    """strings as values, the set of commands as what is known of it"""
    STR = r'mg::core::CstringT<char>'

    def __init__(self, mod, lay=None):
        CutAt.__init__(self, mod)
        models.install_std(self)
        models.install_exc(self)
        models.install_streams(self)
        self.lay = lay
        self.alloc_throws = False
        self.max_steps = 20000000
        self.cutpat = r'mg::core::console_command::.*' if lay else r'(?!)'
        self.on_load.append(Cmd.ld)
        self.on_store.append(Cmd.sto)
        T = self.STR
        h = self.hook
        h(T + r'::CstringT\(\)', lambda A, st, i, a, n: A.put(st, a[0], EMPTY))
        h(T + r'::CstringT\(char const\*\)', lambda A, st, i, a, n: A.put(st, a[0], A.cval(st, a[1], i)))
        h(T + r'::CstringT\(%s(?: const)?&&?\)' % T, lambda A, st, i, a, n: A.share(st, a[0], a[1]))
        h(T + r'::~CstringT\(\)', lambda A, st, i, a, n: ())
        h(T + r'::operator=\((?:char const\*|char\*|%s(?: const)?&&?)\)' % T, Cmd.assign)
        h(T + r'::(?:operator\+=|append)\((?:char const\*|char\*|%s(?: const)?&?)\)' % T, Cmd.append)
        h(T + r'::(?:operator char const\*\(\) const|operator char\*\(\)(?: const)?)', lambda A, st, i, a, n: A.chars(st, a[0]))
        h(T + r'::(?:size|len)\(\) const', Cmd.len_)
        h(T + r'::subString\(unsigned long, unsigned long\) const', Cmd.substr)
        h(T + r'::find\(char const\*, unsigned int\) const', Cmd.find)
        h(T + r'::clone\(\) const', lambda A, st, i, a, n: A.put(st, a[0], A.get(st, a[1])))
        h(T + r'::operator\+\((?:char const\*|%s(?: const)?&?)\) const' % T,
          lambda A, st, i, a, n: A.put(st, a[0], cat(A.get(st, a[1]), A.either(st, a[2], n, i))))
        h(T + r'::operator!\(\)(?: const)?', lambda A, st, i, a, n: A.eqcond(st, A.get(st, a[0]), EMPTY))
        h(T + r'::operator[=!]=\(char const\*\)(?: const)?', lambda A, st, i, a, n: A.equal(st, A.get(st, a[0]), A.cval(st, a[1], i), 'operator!=' in A.mod.demangle(n)))
        h(r'(?:bool )?mg::core::operator[=!]=\(char const\*, %s(?: const)?&\)' % T,
          lambda A, st, i, a, n: A.equal(st, A.cval(st, a[0], i), A.get(st, a[1]), 'operator!=' in A.mod.demangle(n)))
        h(r'(?:bool )?mg::core::Equals\(.*\)', lambda A, st, i, a, n: A.equal(st, A.get(st, a[0]), A.get(st, a[1])))
        h(T + r'::operator (?:long|int|unsigned long|unsigned int|bool|double)\(\)(?: const)?', Cmd.number)
        h('strlen', lambda A, st, i, a, n: A.length(st, A.cval(st, a[0], i)))
        h('strchr', Cmd.strchr)
        h('strcmp', lambda A, st, i, a, n: A.compare(st, A.cval(st, a[0], i), A.cval(st, a[1], i)))
        h('strncmp', Cmd.strncmp)
        h('strpbrk|strcspn', Cmd.strpbrk)
        h('__assert_fail', Cmd.failed)
        V = r'(?:std::)?vector<%s, std::allocator<%s> ?>' % (T, T)
        V = r'std::' + V[len('(?:std::)?'):]
        h(V + r'::vector\(\)', lambda A, st, i, a, n: A.vput(st, a[0], ('new', 0), C(0, 64), ()))
        h(V + r'::vector\(%s(?: const)?&&?\)' % V, lambda A, st, i, a, n: A.vput(st, a[0], *A.vec(st, a[1])))
        h(V + r'::~vector\(\)', lambda A, st, i, a, n: ())
        h(V + r'::operator=\(%s(?: const)?&&?\)' % V, lambda A, st, i, a, n: (A.vput(st, a[0], *A.vec(st, a[1])), a[0])[1])
        h(V + r'::push_back\(.*\)', Cmd.pushed)
        h(r'(?:.* )?' + V + r'::emplace_back<%s(?: const)?&?>\(.*\)' % T, Cmd.pushed)
        h(V + r'::size\(\) const', lambda A, st, i, a, n: A.count(st, a[0]))
        h(V + r'::empty\(\) const', lambda A, st, i, a, n: dom.cmp('eq', A.count(st, a[0]), C(0, 64)))
        h(V + r'::(?:operator\[\]|at)\(unsigned long\)(?: const)?', Cmd.elem)
        P = r'std::pair<%s const, mg::core::console_command::console_item>' % T
        M = r'std::map<%s, mg::core::console_command::console_item, .*>::' % T
        h(M + r'map\(\)', lambda A, st, i, a, n: ())
        h(M + r'~map\(\)', lambda A, st, i, a, n: ())
        h(M + r'c?(begin|end)\(\)(?: const)?', Cmd.first)
        h(M + r'(?:find|lower_bound)\(%s const&\)(?: const)?' % T, Cmd.lookup)
        h(M + r'count\(%s const&\) const' % T, Cmd.has)
        h(M + r'operator\[\]\(%s(?: const)?&&?\)' % T, Cmd.index)
        h(M + r'at\(%s const&\)(?: const)?' % T, Cmd.index)
        h(r'(?:.* )?' + M + r'(?:insert|emplace|try_emplace|insert_or_assign)(?:<.*>)?\(.*\)', Cmd.insert)
        I = r'std::_Rb_tree_(?:const_)?iterator<%s ?>' % P
        h(I + r'::_Rb_tree_(?:const_)?iterator\(%s const&\)' % I, lambda A, st, i, a, n: (A.poke(st, a[0], 8, A.peek(st, a[1], 8, True)), ())[1])
        h(I + r'::operator(?:->|\*)\(\) const', Cmd.star)
        h(I + r'::operator\+\+\((?:int)?\)', Cmd.inc)
        h(r'(?:bool )?std::operator[=!]=\(%s const&, %s const&\)' % (I, I), Cmd.iteq)

    # ---- texts
    def failed(A, st, ins, a, n):
        A.problem('an assertion can fail', A.loc(st, ins))
        raise PathEnd('assert')

    def obj(self, st, p):
        q = self.to_ptr(st, p)
        if q is None or not isc(q[1]):
            raise AnalysisError('which string is not known')
        return q[0], cv(q[1])

    def put(self, st, p, v):
        b = st.fresh()
        st.ghost[('so',) + self.obj(st, p)] = b
        st.ghost[('bv', b)] = v
        return ()

    def buf(self, st, p):
        k = self.obj(st, p)
        b = st.ghost.get(('so',) + k)
        if b is None:
            rid, off = k
            v = ('key', rid) if rid[0] == 'n' and self.lay and off == self.lay['key'] else ('desc', rid) if rid[0] == 'n' else \
                ('elem',) + rid[1:] if rid[0] == 'el' else ('message',) if rid == OBJ else None
            if v is None:
                raise AnalysisError('a string that was never made')
            self.put(st, p, v)
            b = st.ghost[('so',) + k]
        return b

    def get(self, st, p):
        return st.ghost[('bv', self.buf(st, p))]

    def share(self, st, dst, src):
        st.ghost[('so',) + self.obj(st, dst)] = self.buf(st, src)
        return ()

    def chars(self, st, p):
        return Ptr(('txt', self.buf(st, p)))

    def either(A, st, p, n, ins):
        return A.cval(st, p, ins) if re.search(r'\(char(?: const)?\*\)', A.mod.demangle(n)) else A.get(st, p)

    def assign(A, st, ins, a, n):
        ret = a[0] if len(a) == 3 else None
        this, src = a[-2:]
        if 'char' in A.mod.demangle(n).split('operator=')[1].split('CstringT')[0]:
            A.put(st, this, A.cval(st, src, ins))
        else:
            A.share(st, this, src)
        if ret is not None:
            A.share(st, ret, this)
            return ()
        return this

    def append(A, st, ins, a, n):
        ret = a[0] if len(a) == 3 else None
        this, src = a[-2:]
        v = A.cval(st, src, ins) if re.search(r'\(char(?: const)?\*\)', A.mod.demangle(n)) else A.get(st, src)
        b = A.buf(st, this)
        k = A.obj(st, this)
        if k[0][0] == 'n' or any(x[0] == 'so' and x[1][0] in ('n', 'el') and st.ghost[x] == b for x in st.ghost if isinstance(x, tuple)):
            A.problem('the text of a command is changed', A.loc(st, ins))
        st.ghost[('bv', b)] = cat(st.ghost[('bv', b)], v)
        if ret is not None:
            A.share(st, ret, this)
            return ()
        return () if ins.ty.k == 'void' else this

    def L(self, rid):
        return S(('len', rid), 64, 0, MAX)

    def link(self, st, rid):
        """what is known of the characters in front, as a length"""
        for k in range(4):
            c = S(('ch', rid, C(k, 64)), 8)
            d = st.facts.decide(dom.cmp('eq', c, C(0, 8)))
            if d is True:
                self.assume(st, dom.cmp('ule', self.L(rid), C(k, 64)), True)
                break
            if d is not False:
                break
            self.assume(st, dom.cmp('ult', C(k, 64), self.L(rid)), True)
        for g, x in list(st.ghost.items()):
            if isinstance(g, tuple) and g[0] == 'pos' and g[1] == rid and x is not None:
                for k in range(4):
                    if st.facts.decide(dom.cmp('eq', S(('ch', rid, C(k, 64)), 8), C(g[2], 8))) is not False:
                        break
                    self.assume(st, dom.cmp('ult', C(k, 64), x), True)

    def wide(self, st, t):
        """a number of fewer bits, made wider: the same sum of wider parts when nothing overflows"""
        if isinstance(t, dom.T) and t.op == 'lin' and t.w == 64:
            c, d = dom.lin_parts(t)
            r = C(c, 64)
            for y, k in d.items():
                r = dom.add(r, dom.scale(self.wide(st, y), k))
            return r
        if isinstance(t, dom.T) and t.op in ('sext', 'zext') and t.a[0].op == 'lin':
            x = t.a[0]
            c, d = dom.lin_parts(x)
            lo = hi = dom.sgn(c, x.w)
            r = C(lo & ((1 << t.w) - 1), t.w)
            for y, k in d.items():
                k = dom.sgn(k, x.w)
                a, b = quot.bounds(st, y)
                if a < 0 or b >= 1 << (x.w - 1):
                    return t
                lo, hi = lo + min(k * a, k * b), hi + max(k * a, k * b)
                r = dom.add(r, dom.scale(zext(y, t.w), k))
            if -(1 << (x.w - 1)) <= lo and hi < 1 << (x.w - 1) and (t.op == 'sext' or lo >= 0):
                return r
        return t

    def slice(self, st, rid, off, n):
        """what is at off, at most n characters"""
        self.link(st, rid)
        L = self.L(rid)
        f = st.facts
        if n == 'end' or f.ule(dom.sub(L, off), n) and f.ule(off, L):
            n = 'end'
        if f.ule(L, off) or n != 'end' and f.eq(n, C(0, 64)):
            return EMPTY
        if n == 'end' and isc(off) and cv(off) == 0:
            return ('text', rid)
        return ('sub', rid, off, n)

    def norm(self, st, v):
        if v[0] == 'sub':
            return self.slice(st, *v[1:])
        if v[0] == 'text':
            return self.slice(st, v[1], C(0, 64), 'end')
        if v[0] == 'cat':
            r = EMPTY
            for x in v[1]:
                r = cat(r, self.norm(st, x))
            return r
        return v

    def part(self, v):
        """(text, from, at most)"""
        if v[0] == 'text':
            return v[1], C(0, 64), 'end'
        if v[0] == 'sub':
            return v[1:]
        return None

    def same(self, st, a, b):
        a, b = self.norm(st, a), self.norm(st, b)
        if a == b:
            return True
        if a[0] == b[0] == 'sub' and a[1] == b[1] and (a[3] == 'end') == (b[3] == 'end'):
            return st.facts.eq(a[2], b[2]) and (a[3] == 'end' or st.facts.eq(a[3], b[3]))
        return False

    def cval(self, st, p, ins):
        """the text a pointer to characters stands for"""
        q = self.to_ptr(st, p)
        if q is None or self.isnull(st, q[0]):
            self.problem('no text where one is needed', self.loc(st, ins))
            raise PathEnd('null')
        rid, off = q
        if rid[0] == 'txt':
            v = st.ghost[('bv', rid[1])]
            return v if isc(off) and cv(off) == 0 else self.tail(st, v, off)
        if rid in TEXTS or rid[:2] == ('a', 'argument'):
            return self.slice(st, rid, off, 'end')
        if rid[0] == 'g':
            t = strmodel.ctext(self, st, p)
            if t is not None:
                return ('lit', t)
        if isc(off):
            out, reg = EMPTY, self.region(st, rid)
            for i in range(16):
                c = self.read(st, reg, C(cv(off) + i, 64), 1)
                if isc(c) and cv(c) == 0:
                    return out
                out = cat(out, ('lit', chr(cv(c))) if isc(c) else ('char', c))
        raise AnalysisError('a text that is not known')

    def tail(self, st, v, off):
        p = self.part(v)
        if v[0] == 'lit' and isc(off):
            return ('lit', v[1][cv(off):])
        if p is None:
            raise AnalysisError('part of a text')
        rid, o, n = p
        return self.slice(st, rid, dom.add(o, off), n if n == 'end' else dom.sub(n, off))

    def length(self, st, v):
        v = self.norm(st, v)
        if v[0] == 'lit':
            return C(len(v[1]), 64)
        p = self.part(v)
        if p is None:
            return S(('length', v), 64, 0, MAX)
        rid, o, n = p
        L = self.L(rid)
        if n == 'end':
            return dom.sub(L, o)
        if st.facts.ule(dom.add(o, n), L):
            return n
        raise AnalysisError('a length that is not known')

    def len_(A, st, ins, a, n):
        v = A.length(st, A.get(st, a[0]))
        return v if ins.ty.a == 64 else trunc(v, ins.ty.a)

    def ch(self, st, v, k):
        """character k of a text; 0 at its end"""
        v = self.norm(st, v)
        if v[0] == 'lit' and isc(k):
            return C(ord(v[1][cv(k)]) if cv(k) < len(v[1]) else 0, 8)
        p = self.part(v)
        if p is None:
            return S(('ch', v, k), 8)
        rid, o, n = p
        if n != 'end':
            if st.facts.ule(n, k):
                return C(0, 8)
            if not st.facts.ult(k, n):
                raise AnalysisError('a character that may be behind the end')
        at = dom.add(o, k)
        c = S(('ch', rid, at), 8)
        if st.facts.eq(at, self.L(rid)):
            return C(0, 8)
        if st.facts.ult(at, self.L(rid)):
            self.assume(st, dom.cmp('ne', c, C(0, 8)), True)
        return c

    def substr(A, st, ins, a, n):
        v, b, m = A.norm(st, A.get(st, a[1])), A.wide(st, a[2]), A.wide(st, a[3])
        if v[0] == 'lit' and isc(b) and isc(m):
            return A.put(st, a[0], ('lit', v[1][cv(b):cv(b) + cv(m)]))
        p = A.part(v)
        if p is None:
            raise AnalysisError('part of a text')
        rid, o, k = p
        if k != 'end':
            # inside a part
            A.link(st, rid)
            if not st.facts.ule(b, k):
                raise AnalysisError('part of a part')
            left = dom.sub(k, b)
            m = m if st.facts.ule(m, left) else left if st.facts.ule(left, m) else None
            if m is None:
                raise AnalysisError('part of a part')
        return A.put(st, a[0], A.slice(st, rid, dom.add(o, b), m))

    def first_at(A, st, rid, start, c):
        """where the first c is at or behind start: [(state, place or None)]"""
        A.link(st, rid)
        k = 0
        while k < 4 and isc(start) and k < cv(start) and st.facts.decide(dom.cmp('eq', S(('ch', rid, C(k, 64)), 8), C(c, 8))) is False:
            k += 1
        if isc(start) and k == cv(start):
            start = C(0, 64)
        g = ('pos', rid, c, start)
        if g in st.ghost:
            return [(st, st.ghost[g])]
        s2 = st.copy()
        s2.ghost[g] = None
        x = zext(S(('pos', rid, c, start), 32, 0, MAX), 64)
        out = [(s2, None)]
        if A.assume(st, dom.cmp('ult', x, A.L(rid)), True) and A.assume(st, dom.cmp('ule', start, x), True) and not st.facts.contra():
            for h, y in list(st.ghost.items()):
                if isinstance(h, tuple) and h[0] == 'pos' and h[1] == rid and h[2] != c and y is not None:
                    A.assume(st, dom.cmp('ne', y, x), True)
            st.ghost[g] = x
            A.link(st, rid)
            if not st.facts.contra():
                out.append((st, x))
        return out

    def find(A, st, ins, a, n):
        v, d = A.norm(st, A.get(st, a[0])), A.cval(st, a[1], ins)
        at = zext(a[2], 64)
        w = ins.ty.a
        if v[0] == 'lit' and d[0] == 'lit' and isc(at):
            return C(v[1].find(d[1], cv(at)) & ((1 << w) - 1), w)
        p = A.part(v)
        if p is None or d[0] != 'lit' or len(d[1]) != 1 or p[2] != 'end':
            raise AnalysisError('a search that is not followed')
        rid, o, _ = p
        out = []
        for s, x in A.first_at(st, rid, dom.add(o, at), ord(d[1])):
            r = C((1 << w) - 1, w) if x is None else dom.sub(x, o)
            out.append(('ret', s, r if r.w == w else trunc(r, w)))
        return out

    def strchr(A, st, ins, a, n):
        p = A.part(A.cval(st, a[0], ins))
        q = A.to_ptr(st, a[0])
        if p is None or p[2] != 'end' or not isc(a[1]) or cv(a[1]) == 0:
            raise AnalysisError('a search that is not followed')
        return [('ret', s, NULL if x is None else Ptr(q[0], dom.add(q[1], dom.sub(x, p[1])))) for s, x in A.first_at(st, p[0], p[1], cv(a[1]) & 255)]

    def strpbrk(A, st, ins, a, n):
        d = A.cval(st, a[1], ins)
        v = A.cval(st, a[0], ins)
        p, q = A.part(v), A.to_ptr(st, a[0])
        if p is None or p[2] != 'end' or d[0] != 'lit' or not d[1]:
            raise AnalysisError('a search that is not followed')
        states = [(st, ())]
        for c in d[1]:
            states = [(s2, xs + ((x,) if x is not None else ())) for s, xs in states for s2, x in A.first_at(s, p[0], p[1], ord(c))]
        out = []
        for s, xs in states:
            for x in xs:
                s2 = s.copy()
                if all(y is x or A.assume(s2, dom.cmp('ult', x, y), True) for y in xs) and not s2.facts.contra():
                    out.append((s2, x))
            if not xs:
                out.append((s, None))
        if n == 'strcspn':
            return [('ret', s, A.length(s, v) if x is None else dom.sub(x, p[1])) for s, x in out]
        return [('ret', s, NULL if x is None else Ptr(q[0], dom.add(q[1], dom.sub(x, p[1])))) for s, x in out]

    def eqcond(self, st, a, b):
        """the condition of two texts being equal"""
        a, b = self.norm(st, a), self.norm(st, b)
        if self.same(st, a, b):
            return C(1, 1)
        if a[0] == b[0] == 'lit':
            return C(int(a[1] == b[1]), 1)
        if a[0] == 'lit':
            a, b = b, a
        p = self.part(a)
        if b[0] == 'lit' and p is not None:
            rid, o, n = p
            t = b[1]
            r = C(1, 1)
            if n == 'end':
                for i, c in enumerate(t + '\0'):
                    r = dom.and_(r, dom.cmp('eq', S(('ch', rid, dom.add(o, C(i, 64))), 8), C(ord(c), 8)))
                return r
            if isc(n):
                # at most n characters, fewer when the text ends before
                if len(t) > cv(n):
                    return C(0, 1)
                for i, c in enumerate(t + ('\0' if len(t) < cv(n) else '')):
                    r = dom.and_(r, dom.cmp('eq', S(('ch', rid, dom.add(o, C(i, 64))), 8), C(ord(c), 8)))
                return r
            r = dom.cmp('eq', n, C(len(t), 64))
            for i, c in enumerate(t):
                r = dom.and_(r, dom.cmp('eq', S(('ch', rid, dom.add(o, C(i, 64))), 8), C(ord(c), 8)))
            return r
        return S(('equal',) + tuple(sorted((a, b), key=repr)), 1)

    def equal(self, st, a, b, neg=False):
        c = self.eqcond(st, a, b)
        d = st.facts.decide(c)
        if d is not None:
            return C(int(d != neg), 1)
        s2 = st.copy()
        out = []
        for s, v in ((st, True), (s2, False)):
            if self.assume(s, c, v) and not s.facts.contra():
                for x in (a, b):
                    p = self.part(x)
                    if p:
                        self.link(s, p[0])
                if not s.facts.contra():
                    out.append(('ret', s, C(int(v != neg), 1)))
        return out

    def compare(self, st, a, b):
        r = self.equal(st, a, b)
        r = r if isinstance(r, list) else [('ret', st, r)]
        out = []
        for k, s, v in r:
            x = C(0, 32)
            if not cv(v):
                x = S(('order', s.fresh()), 32)
                self.assume(s, dom.cmp('ne', x, C(0, 32)), True)
            out.append((k, s, x))
        return out

    def strncmp(A, st, ins, a, n):
        x, y = A.cval(st, a[0], ins), A.cval(st, a[1], ins)
        if not isc(a[2]):
            raise AnalysisError('a comparison that is not followed')
        cut = lambda v: ('lit', v[1][:cv(a[2])]) if v[0] == 'lit' else ('sub',) + A.part(v)[:2] + (a[2],)
        return A.compare(st, cut(x), cut(y))

    def number(A, st, ins, a, n):
        v = A.norm(st, A.get(st, a[0]))
        w = ins.ty.a if ins.ty.k == 'int' else 64
        st.ev('number', v)
        return S(('number', v, w), w) if ins.ty.k == 'int' else A.freshv(st, ins.ty, 'number')

    def ld(A, st, reg, off, n, v, ins, at):
        rid = reg.rid
        if rid == ARGV and n == 8:
            c, d = dom.lin_parts(off)
            if c % 8 or any(k % 8 for k in d.values()):
                A.problem('an argument is read at a place that is none', A.loc(st, ins))
                return None
            i = C(c // 8, 64)
            for x, k in d.items():
                i = dom.add(i, dom.scale(x, k // 8))
            for g in A.argrange(st, i):
                A.problem('an argument behind the last is read', A.loc(st, ins))
            rd = st.ghost.get('args', ())
            if i not in rd:
                st.ghost['args'] = rd + (i,)
            return Ptr(('a', 'argument', i))
        if rid[0] == 'txt' and n == 1:
            return A.ch(st, st.ghost[('bv', rid[1])], off)
        if (rid in TEXTS or rid[:2] == ('a', 'argument')) and n == 1:
            return A.ch(st, ('text', rid), off)
        if rid[0] == 'n' and A.lay and isc(off) and rid not in st.ghost.get('made', ()):
            f = A.lay['fields'].get((cv(off), n))
            if f and not st.ghost.get(('written', rid, cv(off))):
                return A.field(st, rid, f, n)
        return None

    def argrange(self, st, i):
        argc = st.ghost.get('argc')
        if argc is None or not st.facts.ult(i, zext(argc, 64)):
            yield i

    def field(self, st, rid, f, n):
        if f == 'required':
            return zext(S(('required', rid), 1), 8 * n)
        if f == 'type':
            return S(('type', rid), 8 * n, 0, 2)
        return S((f, rid), 8 * n)

    def sto(A, st, reg, off, n, v, ins, at):
        rid = reg.rid
        if rid[0] == 'n' and isc(off):
            st.ghost[('written', rid, cv(off))] = True
            if A.lay and rid not in st.ghost.get('made', ()):
                A.problem('a command that was declared is changed', A.loc(st, ins))
        if rid in TEXTS or rid == ARGV or rid[0] == 'txt' or rid[:2] == ('a', 'argument'):
            A.problem('a text given is written to', A.loc(st, ins))

    # ---- values of a command
    def vput(self, st, p, base, n, added):
        k = self.obj(st, p)
        st.ghost[('vec',) + k] = (base, n, added)
        if k[0][0] == 'n' and k[0] not in st.ghost.get('made', ()) and self.lay:
            self.problem('the values of a command are replaced', self.loc(st))
        return ()

    def vec(self, st, p):
        k = self.obj(st, p)
        if not self.lay and k[0][0] == 'n':
            st.ghost['values at'] = k[1]
        v = st.ghost.get(('vec',) + k)
        if v is None:
            if k[0][0] != 'n':
                raise AnalysisError('values of no command')
            v = (k[0], S(('count', k[0]), 64, 0, 1 << 30), ())
        return v

    def count(self, st, p):
        b, n, added = self.vec(st, p)
        return dom.add(n, C(len(added), 64))

    def pushed(A, st, ins, a, n):
        k = A.obj(st, a[0])
        b, m, added = A.vec(st, a[0])
        v = A.get(st, a[1])
        st.ghost[('vec',) + k] = (b, m, added + (v,))
        st.ghost['pushes'] = st.ghost.get('pushes', ()) + ((k[0], v, A.loc(st, ins), st.ghost.get('scan')),)
        st.ghost['scan'] = None
        return () if ins.ty.k == 'void' else A.freshv(st, ins.ty, 'value')

    def elem(A, st, ins, a, n):
        b, m, added = A.vec(st, a[0])
        i = a[1]
        if st.ghost.get('exists') and not A.assume(st, dom.cmp('ult', i, dom.add(m, C(len(added), 64))), True):
            raise PathEnd('value')
        if not st.facts.ult(i, dom.add(m, C(len(added), 64))):
            A.problem('a value that does not exist is used', A.loc(st, ins))
            raise PathEnd('value')
        if isc(i) and isc(m) and cv(i) >= cv(m):
            raise AnalysisError('a value just added')
        return Ptr(('el', b, i))

    # ---- the set of commands
    def node(self, st, key=None):
        k = st.ghost['nodes'] = st.ghost.get('nodes', 0) + 1
        rid = ('n', st.ghost.get('epoch', 0), k)
        return rid

    def lookv(self, st, v):
        for x, r in st.ghost.get('look', ()):
            if self.same(st, x, v):
                return (r,)
        return None

    def know(self, st, v, rid):
        st.ghost['look'] = tuple(x for x in st.ghost.get('look', ()) if not self.same(st, x[0], v)) + ((v, rid),)

    def search(self, st, v):
        """[(state, node or None)]"""
        v = self.norm(st, v)
        if v[0] == 'key':
            return [(st, v[1])]
        r = self.lookv(st, v)
        if r is not None:
            return [(st, r[0])]
        s2 = st.copy()
        self.know(s2, v, None)
        out = [(s2, None)]
        rid = self.node(st)
        self.know(st, v, rid)
        st.ghost[('keyof', rid)] = v
        out.append((st, rid))
        return out

    END = Ptr(('n', 'end'))

    def itptr(self, r):
        return self.END if r is None else Ptr(r)

    def lookup(A, st, ins, a, n):
        if 'lower_bound' in A.mod.demangle(n):
            raise AnalysisError('lower_bound')
        return [('ret', s, A.itptr(r)) for s, r in A.search(st, A.get(st, a[1]))]

    def has(A, st, ins, a, n):
        return [('ret', s, C(int(r is not None), 64)) for s, r in A.search(st, A.get(st, a[1]))]

    def index(A, st, ins, a, n):
        v = A.norm(st, A.get(st, a[1]))
        out = []
        at = '::at(' in A.mod.demangle(n)
        for s, r in A.search(st, v):
            if r is None:
                if at:
                    A.problem('a command that does not exist is used', A.loc(s, ins))
                    continue
                r = A.node(s)
                s.ghost['made'] = s.ghost.get('made', ()) + (r,)
                s.ghost['inserts'] = s.ghost.get('inserts', ()) + ((r, v, A.loc(s, ins), s.ghost.get('scan')),)
                s.ghost[('keyof', r)] = v
                A.know(s, v, r)
                g = A.region(s, r).clone()
                g.layers = g.layers + (('set', C(0, 64), C(1 << 12, 64), C(0, 8)),)
                s.mem[r] = g
                if A.lay:
                    A.put(s, Ptr(r, C(A.lay['desc'], 64)), EMPTY)
                    s.ghost[('vec', r, A.lay['values'])] = (('new', r), C(0, 64), ())
            out.append(('ret', s, Ptr(r, C(A.item(), 64))))
        return out

    def insert(A, st, ins, a, n):
        """a name and what is declared, given together or apart"""
        d = A.mod.demangle(n)
        over = 'insert_or_assign' in d
        q = A.obj(st, a[1])
        key, src = (a[1], a[2]) if len(a) == 3 else (a[1], Ptr(q[0], C(q[1] + A.ssize, 64)))
        out = []
        for s, r in A.search(st, A.get(st, key)):
            new = r is None
            if new:
                (_, s, p), = A.index(s, ins, [a[0], key], 'operator[]')
                r = A.to_ptr(s, p)[0]
            if new or over:
                rid, off = A.obj(s, src)
                size = A.region(s, rid).size
                if not isc(size):
                    raise AnalysisError('what is declared')
                A.copy(s, r, C(A.item(), 64), rid, C(off, 64), C(cv(size) - off, 64))
                for k, x in list(s.ghost.items()):
                    if isinstance(k, tuple) and k[0] in ('so', 'vec') and k[1] == rid and k[2] >= off:
                        s.ghost[(k[0], r, k[2] - off + A.item())] = x
                for k in (A.lay['fields'] if A.lay else ()):
                    s.ghost[('written', r, k[0])] = True
            out.append(('ret', s, ('agg', [Ptr(r), C(int(new), 8)])))
        return out

    def item(self):
        return self.lay['item'] if self.lay else 4096

    def first(A, st, ins, a, n):
        if 'end()' in A.mod.demangle(n):
            return A.END
        st.ghost['scan'] = ()
        return A.onward(st)

    def onward(A, st):
        """the next command, or the end"""
        s2 = st.copy()
        s2.ghost['scan'] = s2.ghost['scan'] + (None,)
        out = [('ret', s2, A.END)]
        if len(st.ghost['scan']) < MAXNODES:
            r = A.node(st)
            st.ghost['scan'] = st.ghost['scan'] + (r,)
            out.append(('ret', st, Ptr(r)))
        return out

    def star(A, st, ins, a, n):
        p = A.peek(st, a[0], 8, True)
        r = A.to_ptr(st, p)
        if r is None or r[0][0] != 'n' or r[0] == ('n', 'end'):
            A.problem('a command behind the last is used', A.loc(st, ins))
            raise PathEnd('end')
        return Ptr(r[0], C(A.lay['key'], 64))

    def inc(A, st, ins, a, n):
        p = A.peek(st, a[-1] if 'operator++()' in A.mod.demangle(n) else a[0], 8, True)
        r = A.to_ptr(st, p)
        sc = st.ghost.get('scan')
        if not sc or r[0] != sc[-1]:
            A.problem('not every command is looked at', A.loc(st, ins))
            raise PathEnd('order')
        A.passed(st, r[0])
        out = []
        for k, s, v in A.onward(st):
            A.poke(s, a[0], 8, v)
            out.append((k, s, a[0] if 'operator++()' in A.mod.demangle(n) else p))
        return out

    def passed(self, st, rid):
        """what is known when a command is left behind"""
        req = S(('required', rid), 1)
        cnt = S(('count', rid), 64, 0, 1 << 30)
        sat = st.facts.decide(req) is False or st.facts.decide(dom.cmp('eq', cnt, C(0, 64))) is False
        st.ghost[('satisfied', rid)] = sat

    def iteq(A, st, ins, a, n):
        x, y = (A.to_ptr(st, A.peek(st, p, 8, True)) for p in a[:2])
        same = x[0] == y[0]
        return C(int(same == ('operator==' in A.mod.demangle(n))), 1)

    # ---- the loop over the arguments
    def arrive(self, st, f, h):
        if st.ghost.get('scan') is not None:
            n = st.ghost['steps'] = st.ghost.get('steps', 0) + 1
            if n > 40:
                raise AnalysisError('a way through the commands that does not end')
            return True
        st.ghost['steps'] = 0
        return CutAt.arrive(self, st, f, h)

    def segment(self, st, key):
        self.argument(st, self.loc(st))
        i, argc = st.ghost['I'], zext(st.ghost['argc'], 64)
        if not (isc(argc) and cv(argc) == 0 and st.facts.eq(i, C(1, 64)) or st.facts.ule(i, argc)):
            self.problem('the arguments do not end with the last', self.loc(st))
            return None
        return 'args'

    def argument(self, st, where):
        """judge what one argument has done"""
        g = st.ghost
        rd = g.get('args', ())
        if rd:
            if len(rd) > 1 or not st.facts.eq(rd[0], g['I']):
                self.problem('the arguments are not taken one after the other', where)
            self.judge(st, ('a', 'argument', rd[0]), where)
            g['I'] = dom.add(g['I'], C(1, 64))
        elif g.get('pushes') or g.get('inserts'):
            self.problem('something is done that no argument asks for', where)
        g['args'] = g['pushes'] = g['inserts'] = ()

    def judge(self, st, rid, where):
        g = st.ghost
        pushes, inserts = g.get('pushes', ()), g.get('inserts', ())
        say = lambda w: self.problem(w, where)
        c0 = S(('ch', rid, C(0, 64)), 8)
        dash = st.facts.decide(dom.cmp('eq', c0, C(45, 8)))
        if dash is None:
            return say('an argument is treated without regard to its first character')
        if not dash:
            if pushes or inserts:
                say('an argument that is no command is taken for one')
            return
        c1 = S(('ch', rid, C(1, 64)), 8)
        dd = st.facts.decide(dom.cmp('eq', c1, C(45, 8)))
        if dd is None:
            return say('a command is treated without regard to its second character')
        ss = C(2 if dd else 1, 64)
        pos = [self.known(st, rid, c) for c in (58, 61)]
        seps = [x for x in pos if x is not None and x is not False]
        if False in pos and seps and len(seps) == 1:
            # the other separator was not looked for: it can be in front
            return say('the separator in front is not always the one used')
        if False in pos:
            return say('a separator is not looked for')
        if len(seps) == 2:
            a, b = seps
            d = self.before(st, a, b), self.before(st, b, a)
            if not any(d):
                return say('the separator in front is not always the one used')
            x = a if d[0] else b
        else:
            x = seps[0] if seps else None
        self.link(st, rid)
        name = self.slice(st, rid, ss, 'end' if x is None else dom.sub(x, ss))
        value = EMPTY if x is None else self.slice(st, rid, dom.add(x, C(1, 64)), 'end')
        if len(pushes) != 1:
            return say('a command of the line gives %s' % ('no value' if not pushes else 'more than one value'))
        node, v, at, scan = pushes[0]
        # which command
        r = self.lookv(st, name)
        if r is None:
            return say('the name written is not the one looked for')
        new = [i for i in inserts if i[0] == node]
        if len(inserts) > len(new):
            return say('a command is made that gets no value')
        first = g.get(('keyof', node))
        n1 = st.facts.decide(dom.cmp('eq', self.length(st, name), C(1, 64)))
        if first is not None and not new:
            if not self.same(st, first, name):
                return say('the value goes to a command of another name')
        else:
            scan = new[0][3] if new else scan
            if new:
                if not self.same(st, first, name):
                    say('a command that was not declared is kept under another name')
                if n1 is None:
                    say('a name of one letter is not looked for among the shortcuts')
                elif n1:
                    if not scan or scan[-1] is not None:
                        say('a name of one letter is not looked for among all shortcuts')
                    else:
                        for k in scan[:-1]:
                            if not self.differs(st, k, name):
                                say('a command with the shortcut written is passed over')
                lay = self.lay
                for f, want in (('type', lay['string']), ('required', 0), ('short', 0)):
                    o, sz = next(k for k, x in lay['fields'].items() if x == f)
                    y = self.peek(st, Ptr(node, C(o, 64)), sz)
                    if not st.facts.eq(y, C(want, 8 * sz)):
                        say({'type': 'a command that was not declared has another type than text', 'required': 'a command that was not declared is needed',
                             'short': 'a command that was not declared has a shortcut'}[f])
            else:
                if not self.missed(st, name):
                    say('a shortcut is used although there is a command of that name')
                if not n1:
                    say('a name of more than one letter is taken for a shortcut')
                elif not st.facts.eq(self.field(st, node, 'short', 1), self.ch(st, name, C(0, 64))):
                    say('the value goes to a command with another shortcut')
        # which value
        if x is None:
            t = self.field(st, node, 'type', 4) if not new else C(self.lay['string'], 32)
            isb = st.facts.decide(dom.cmp('eq', t, C(self.lay['bool'], 32)))
            if isb is None:
                if self.same(st, v, EMPTY):
                    say('a switch without a value does not read as true')
                else:
                    say('a command without a value gets one')
            elif isb:
                if v not in [('lit', z) for z in ('1', 'true', 'yes', 'TRUE', 'True')]:
                    say('a switch without a value does not read as true')
            elif not self.same(st, v, EMPTY):
                say('a command without a value gets one')
        elif not self.same(st, v, value):
            say('the value is not the text behind the separator')

    def before(self, st, a, b):
        if st.facts.ult(a, b):
            return True
        x, y = trunc(a, 32), trunc(b, 32)
        if (st.facts.ule(a, b) or st.facts.ule(x, y)) and (st.facts.decide(dom.cmp('eq', x, y)) is False or st.facts.decide(dom.cmp('eq', a, b)) is False):
            return True
        return any(st.facts.decide(dom.cmp(p, x, y)) is True for p in ('ult', 'slt')) or any(st.facts.decide(dom.cmp(p, y, x)) is False for p in ('ule', 'sle'))

    def known(self, st, rid, c):
        """place of the first c: a term, None when there is none, False when nobody asked"""
        for h, y in st.ghost.items():
            if isinstance(h, tuple) and h[0] == 'pos' and h[1] == rid and h[2] == c and isc(h[3]) and cv(h[3]) == 0:
                return y
        return False

    def missed(self, st, name):
        r = self.lookv(st, name)
        return r is not None and r[0] is None

    def differs(self, st, k, name):
        return st.facts.decide(dom.cmp('eq', self.field(st, k, 'short', 1), self.ch(st, name, C(0, 64)))) is False

    def candidates(self, st):
        i = st.ghost['I']
        return {'i': i, 'i-1': dom.sub(i, C(1, 64)), 'left': dom.sub(zext(st.ghost['argc'], 64), i), 'at': Ptr(ARGV, dom.scale(i, 8)),
                'end': Ptr(ARGV, dom.scale(zext(st.ghost['argc'], 64), 8)), 'before': Ptr(ARGV, dom.scale(dom.sub(i, C(1, 64)), 8))}

    def split_select(self, st, ins):
        return 'console_command' in self.mod.demangle(st.frames[-1].fn.name)

    def generic(self, st, key, phase):
        g = st.ghost
        argc = g['argc']
        u = str(key[2:])
        st.facts = type(st.facts)()
        g['I'] = zext(S(('I', u), 32, 1, (1 << 31) - 1), 64)
        for k in list(g):
            if isinstance(k, tuple) and k[0] in ('pos', 'vec', 'written', 'keyof', 'satisfied'):
                del g[k]
            if isinstance(k, tuple) and k[0] == 'so':
                b = st.fresh()
                g[k] = b
                g[('bv', b)] = ('left', b)
        g['epoch'] = g.get('epoch', 0) + 1
        g['look'] = g['made'] = g['args'] = g['pushes'] = g['inserts'] = ()
        g['scan'] = None
        ok = self.assume(st, dom.cmp('ule', C(1, 64), g['I']), True)
        # more than one word on the line, unless none was taken yet
        return ok and self.assume(st, dom.cmp('ule', g['I'], zext(argc, 64)), True)


def go(A, fn, args, st):
    A.start(fn, args, st)
    return st


def layout(cx, mod):
    """where a command keeps what it was declared with"""
    def num(k):
        A = Cmd(mod)
        o = A.run(lambda: go(A, 'k_type', [C(k, 32)], State()))
        cx.anchor(len(o) == 1 and isc(o[0].val), 'type %d' % k)
        return cv(o[0].val)
    lay = {'string': num(0), 'int': num(1), 'bool': num(2)}
    A = Cmd(mod)
    Cmd.ssize = cv(A.run(lambda: go(A, 'k_size', [], State()))[0].val)
    A = cx.use(Cmd(mod))
    T, R, SC = S('t', 32, 0, 2), S('r', 1), S('s', 8)
    outs = A.run(lambda: go(A, 'k_add', [Ptr(OBJ), Ptr(NAME), T, R, Ptr(DESC), SC], State()))
    done = [o for o in outs if o.kind == 'ret' and o.st.ghost.get('inserts')]
    cx.anchor(done, 'a command can be declared')
    o = done[0]
    ins = o.st.ghost['inserts']
    rid = ins[0][0]
    base = 4096
    fields = {}
    for off in range(0, 256):
        for n, t, f in ((4, T, 'type'), (1, zext(R, 8), 'required'), (1, SC, 'short')):
            if f in fields.values():
                continue
            v = A.read(o.st, A.region(o.st, rid), C(base + off, 64), n)
            if v is t or dom.same(v, t):
                fields[(off, n)] = f
    cx.anchor(len(fields) == 3, 'type, need and shortcut of a command (%s)' % fields)
    so = [k[2] - base for k in o.st.ghost if isinstance(k, tuple) and k[0] == 'so' and k[1] == rid]
    A = Cmd(mod)
    vo = {o2.st.ghost['values at'] - base for o2 in A.run(lambda: go(A, 'k_count', [Ptr(OBJ), Ptr(NAME)], State())) if 'values at' in o2.st.ghost}
    cx.anchor(len(so) == 1 and len(vo) == 1, 'description and values of a command')
    # a command is kept as a pair: the name, then what was declared
    lay['key'] = 4096
    lay['item'] = 4096 + Cmd.ssize
    lay['fields'] = {(lay['item'] + k, n): f for (k, n), f in fields.items()}
    lay['desc'] = lay['item'] + so[0]
    lay['values'] = lay['item'] + vo.pop()
    return lay


def check(cx):
    mod = cx.build(UNITS, DRIVER)
    lay = layout(cx, mod)

    def machine():
        return cx.use(Cmd(mod, lay))

    def run(A, fn, args, setup=None):
        def mk():
            st = State()
            st.ghost.update(I=C(1, 64), args=(), pushes=(), inserts=(), scan=None)
            if setup:
                setup(st)
            A.start(fn, args, st)
            return st
        return A.run(mk)

    def report(A, inst):
        for w, at in A.problems:
            cx.ob('argument', inst, False, at or W, '%s (%s)' % (w, inst), w)
        A.problems = []

    def ob(rule, inst, c, what):
        cx.ob(rule, inst, c, W, '%s (%s)' % (what, inst), rule + '|' + what)

    def text(A, st, fn='k_err', args=None):
        """a text the commands answer with"""
        s = st.copy()
        s.frames = []
        o = A.run(lambda: go(A, fn, [Ptr(OUT)] + (args or [Ptr(OBJ)]), s.copy()))
        return A.get(o[0].st, Ptr(OUT)) if len(o) == 1 and o[0].kind == 'ret' else None

    # ---- a command line
    n = 0
    for k, argc in (('no word', C(0, 32)), ('one word', C(1, 32)), ('words', S('argc', 32, 2, (1 << 31) - 1))):
        A = machine()
        outs = run(A, 'k_process', [Ptr(OBJ), argc, Ptr(ARGV)], lambda st: st.ghost.update(argc=argc))
        report(A, k)
        for o in outs:
            st = o.st
            n += 1
            ob('process', k, o.kind == 'ret', 'reading a command line fails')
            if o.kind != 'ret':
                continue
            A.argument(st, W)
            report(A, k)
            g = st.ghost
            ob('all', k, isc(argc) and cv(argc) < 2 and st.facts.eq(g['I'], C(1, 64)) or st.facts.eq(g['I'], zext(argc, 64)), 'not every argument is read')
            scan = g.get('scan')
            ob('needed', k, bool(scan), 'nobody looks whether what is needed is there')
            if not scan:
                continue
            last = scan[-1]
            ob('needed', k, all(g.get(('satisfied', r)) for r in scan[:-1]), 'a command that is needed and missing is passed over')
            v = st.facts.const(zext(o.val, 8)) if o.val.w < 8 else st.facts.const(o.val)
            ob('needed', k, v in (0, 1), 'the result is not known')
            if v:
                ob('needed', k, last is None, 'not every command is looked at')
                continue
            ob('needed', k, last is not None, 'all is there and the result says no')
            if last is None:
                continue
            req, cnt = S(('required', last), 1), S(('count', last), 64, 0, 1 << 30)
            ob('needed', k, st.facts.decide(req) is True and st.facts.eq(cnt, C(0, 64)), 'a command is reported that is not missing')
            t = text(machine(), st)
            ob('message', k, t is not None and t[0] == 'cat' and t[1][-1] == ('key', last) and all(x[0] == 'lit' for x in t[1][:-1]), 'the message does not name what is missing')
        if k == 'words':
            ob('cut', k, bool(A.ncut), 'no loop over the arguments')
            for kk, rel in A.rel.items():
                for c in rel:
                    ob('invariant', '%s %s' % (kk[1], c), True, '')
    cx.control('ways a command line can take', n > 20)

    # ---- declaring
    A = machine()
    T, R, SC = S('t', 32, 0, 2), S('r', 1), S('s', 8)
    outs = run(A, 'k_add', [Ptr(OBJ), Ptr(NAME), T, R, Ptr(DESC), SC])
    report(A, 'declare')
    kinds = set()
    for o in outs:
        st = o.st
        known = [r for v, r in st.ghost.get('look', ()) if A.same(st, v, ('text', NAME))]
        found = bool(known) and known[0] is not None and known[0] not in st.ghost.get('made', ())
        kinds.add(found)
        ob('declare', 'twice' if found else 'once', bool(known), 'the name is not looked for')
        if found:
            ob('declare', 'twice', o.kind == 'throw' and not st.ghost.get('inserts'), 'a name can be declared twice')
            continue
        ins = st.ghost.get('inserts', ())
        ob('declare', 'once', o.kind == 'ret' and len(ins) == 1, 'a new name cannot be declared')
        if o.kind != 'ret' or len(ins) != 1:
            continue
        r = ins[0][0]
        ob('declare', 'once', A.same(st, ins[0][1], ('text', NAME)), 'a command is declared under another name')
        for (off, sz), f in lay['fields'].items():
            want = {'type': T, 'required': zext(R, 8), 'short': SC}[f]
            ob('declare', f, st.facts.eq(A.peek(st, Ptr(r, C(off, 64)), sz), want), 'what is declared is not kept')
        ob('declare', 'description', A.same(st, A.get(st, Ptr(r, C(lay['desc'], 64))), ('text', DESC)), 'the description is not kept')
        ob('declare', 'values', A.count(st, Ptr(r, C(lay['values'], 64))) == C(0, 64), 'a new command has a value')
    ob('declare', 'both', kinds == {True, False}, 'declaring does not depend on what is declared')

    # ---- asking
    I = S('idx', 32, 0, MAX - 1)
    nm = ('text', NAME)

    def found(A, st):
        r = A.lookv(st, nm)
        return r[0] if r else None
    for fn, args, idx in (('k_get', [Ptr(NAME), I], I), ('k_get0', [Ptr(NAME)], C(0, 32)), ('k_i64', [Ptr(NAME), I], I), ('k_i640', [Ptr(NAME)], C(0, 32)),
                          ('k_int', [Ptr(NAME)], C(0, 32)), ('k_set', [Ptr(NAME), Ptr(VALUE), I], I)):
        A = machine()
        text_of = fn in ('k_get', 'k_get0')
        outs = run(A, fn, ([Ptr(OUT)] if text_of else []) + [Ptr(OBJ)] + args, lambda st: st.ghost.update(exists=True))
        report(A, fn[2:])
        good = 0
        for o in outs:
            st = o.st
            r = found(A, st)
            if o.kind == 'end' or r in st.ghost.get('made', ()):
                continue
            good += 1
            ob('ask', fn[2:], o.kind == 'ret' and r is not None, 'a value that exists cannot be had')
            if o.kind != 'ret' or r is None:
                continue
            i = zext(idx, 64)
            e = ('elem', r, i)
            if text_of:
                v = A.get(st, Ptr(OUT))
                ob('ask', fn[2:], v == e or v[0] == 'elem' and v[1] == r and st.facts.eq(v[2], i), 'the value is not the one asked for')
            elif fn == 'k_set':
                k = [k for k in st.ghost if isinstance(k, tuple) and k[0] == 'so' and k[1][0] in ('el', 'n')]
                v = [st.ghost[('bv', st.ghost[x])] for x in k if x[1][0] == 'el']
                ob('ask', 'set', len(v) == 1 and A.same(st, v[0], ('text', VALUE)) and all(x[1] == ('el', r, i) or x[1][0] == 'n' for x in k), 'another value than the one named is set')
            else:
                w = o.val.w
                ok = False
                for x in ([(64,)] if w == 64 else [(64,), (32,)]):
                    ok |= st.facts.eq(o.val, trunc(S(('number', e, x[0]), x[0]), w) if x[0] != w else S(('number', e, w), w))
                ob('ask', fn[2:], ok, 'the number is not that of the value asked for')
        ob('ask', fn[2:], good > 0, 'no value can be had')
    for fn, args in (('k_spec', [Ptr(NAME), I]), ('k_count', [Ptr(NAME)])):
        A = machine()
        outs = run(A, fn, [Ptr(OBJ)] + args)
        report(A, fn[2:])
        for o in outs:
            st = o.st
            ob('ask', fn[2:], o.kind == 'ret', 'asking fails')
            if o.kind != 'ret':
                continue
            r = found(A, st)
            made = r in st.ghost.get('made', ())
            cnt = C(0, 64) if r is None or made else S(('count', r), 64, 0, 1 << 30)
            if fn == 'k_spec':
                c = dom.cmp('ult', zext(I, 64), cnt)
                b = o.val if o.val.w == 1 else dom.cmp('ne', o.val, C(0, o.val.w))
                d1, d2 = st.facts.decide(b), st.facts.decide(c)
                ok = d1 is not None and d1 == d2
                if not ok:
                    # the same, whatever it is
                    ok = True
                    for t in (True, False):
                        s2 = st.copy()
                        if A.assume(s2, c, t) and not s2.facts.contra():
                            ok &= s2.facts.decide(b) is t
                ob('ask', 'specified', ok, 'whether a value is there is told wrongly')
                ob('ask', 'specified', not st.ghost.get('inserts'), 'asking makes a command')
            else:
                ob('ask', 'count', st.facts.eq(zext(o.val, 64), cnt), 'the number of values is told wrongly')
    # ---- help
    A = machine()
    outs = run(A, 'k_help', [Ptr(OUT), Ptr(OBJ)])
    report(A, 'help')
    for o in outs:
        st = o.st
        ob('help', 'text', o.kind == 'ret', 'there is no help')
        if o.kind != 'ret':
            continue
        scan = st.ghost.get('scan')
        v = A.get(st, Ptr(OUT))
        ps = v[1] if v[0] == 'cat' else (v,)
        ob('help', 'text', bool(scan) and scan[-1] is None, 'not every command is in the help')
        if not scan:
            continue
        want = [x for r in scan[:-1] for x in (('key', r), ('desc', r))]
        ob('help', 'text', [x for x in ps if x[0] in ('key', 'desc')] == want, 'the help is not that of every command, once')
        for r in scan[:-1]:
            i = ps.index(('desc', r)) if ('desc', r) in ps else None
            if i is None:
                continue
            after = ps[i + 1:]
            stop = next((j for j, x in enumerate(after) if x[0] == 'key'), len(after))
            lits = ''.join(x[1] for x in after[:stop] if x[0] == 'lit')
            req = st.facts.decide(S(('required', r), 1))
            ob('help', 'required', req is not None and ('required' in lits) == req, 'the help does not say what is needed')
            sc = S(('short', r), 8)
            z = st.facts.decide(dom.cmp('ne', sc, C(0, 8)))
            ob('help', 'shortcut', z is not None and any(x == ('char', sc) for x in after[:stop]) == z, 'the help does not say the shortcut')
