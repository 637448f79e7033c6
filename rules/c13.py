"""Strings: every operation from every string.

A string is described by an invariant over the buffer it holds (rule C12 decides the buffer itself): one live block, the
text in front, no zero in it, every byte behind it zero, at least one. Texts, lengths, capacities, positions and numbers are
symbols; texts given can be memory of the caller, another string or a part of the string itself; the block is held by one string or shared.
Each operation is interpreted through the real classes (string, handle, buffer) down to strlen, strstr, strcmp, sprintf,
vsnprintf and sscanf, which are contracts. Checked on every path: the text afterwards, byte by byte; the result; what was given
and the other strings are unchanged; no access outside of what exists; blocks given up are released once."""
import dom
from dom import C, S, Ptr, NULL, isc, cv, zext, sext
from absint import Interp, State, AnalysisError, PathEnd
import models
from c12 import same

LEVEL = 'proof'
FLOOR = 300
UNITS = ['mg/core/nx/util.cpp']
OPS = r'''
void o_new0(Cstring* w) { new (w) Cstring(); }
void o_newn(Cstring* w, uint32_t n) { new (w) Cstring(n); }
void o_newc(Cstring* w, const char* p) { new (w) Cstring(p); }
void o_copy(Cstring* w, Cstring* s) { new (w) Cstring(*s); }
void o_del(Cstring* s) { s->~Cstring(); }
CBuffer<char>* o_buf(Cstring* s) { CResource<CBuffer<char> > r = *s; return (CBuffer<char>*)r; }
char* o_get(CBuffer<char>* b) { return b->get(); }
size_t o_full(CBuffer<char>* b) { return b->getFull(); }
size_t o_cap(CBuffer<char>* b) { return b->getSize(); }
void o_sets(Cstring* s, Cstring* t) { *s = *t; }
void o_setc(Cstring* s, const char* p) { *s = p; }
void o_append(Cstring* s, const char* p) { s->append(p); }
void o_addc(Cstring* s, const char* p) { *s += p; }
void o_adds(Cstring* s, Cstring* t) { *s += *t; }
void o_addi(Cstring* s, int v) { *s += v; }
void o_addu(Cstring* s, unsigned v) { *s += v; }
void o_addl(Cstring* s, int64_t v) { *s += v; }
void o_addul(Cstring* s, uint64_t v) { *s += v; }
void o_addf(Cstring* s, float v) { *s += v; }
void o_fmt(Cstring* s, const char* f, int a, const char* b) { s->append_format(f, a, b); }
void o_hex(Cstring* s, const unsigned char* p, uint32_t n) { s->append_hex_buffer(p, n); }
void o_unhex(Cstring* s, unsigned char* p, uint32_t n, uint32_t at) { s->extract_binary_hex(p, n, at); }
int o_find(Cstring* s, const char* p, uint32_t at) { return s->find(p, at); }
int o_rfind(Cstring* s, const char* p, uint32_t at) { return s->rfind(p, at); }
void o_sub(Cstring* w, Cstring* s, size_t a, size_t n) { new (w) Cstring(s->subString(a, n)); }
void o_clone(Cstring* w, Cstring* s) { new (w) Cstring(s->clone()); }
void o_plusc(Cstring* w, Cstring* s, const char* p) { new (w) Cstring(*s + p); }
void o_pluss(Cstring* w, Cstring* s, Cstring* t) { new (w) Cstring(*s + *t); }
void o_cplus(Cstring* w, Cstring* s, const char* p) { new (w) Cstring(p + *s); }
uint32_t o_size(Cstring* s) { return s->size(); }
size_t o_len(Cstring* s) { return s->len(); }
char* o_str(Cstring* s) { return *s; }
const char* o_cstr(const Cstring* s) { return *s; }
bool o_not(Cstring* s) { return !*s; }
bool o_eqc(Cstring* s, const char* p) { return *s == p; }
bool o_nec(Cstring* s, const char* p) { return *s != p; }
bool o_ceq(Cstring* s, const char* p) { return p == *s; }
bool o_cne(Cstring* s, const char* p) { return p != *s; }
bool o_eqs(Cstring* s, Cstring* t) { return Equals(*s, *t); }
bool o_lt(Cstring* s, Cstring* t) { const Cstring& a = *s; const Cstring& b = *t; return a < b; }
bool o_bool(Cstring* s) { return s->operator bool(); }
int o_int(Cstring* s) { return s->operator int(); }
int64_t o_i64(Cstring* s) { return s->operator int64_t(); }
uint64_t o_u64(Cstring* s) { return s->operator uint64_t(); }
double o_dbl(Cstring* s) { return s->operator double(); }
char* o_room(Cstring* s, size_t n) { return s->GetBuffer(n, false); }
char* o_roomc(Cstring* s, size_t n) { return s->GetBuffer(n); }
void o_commit(Cstring* s, size_t n) { s->CommitBuffer(n); }
void o_clear(Cstring* s) { s->Clear(); }
'''
DRIVER = '#include "mgcore.h"\n#include <new>\nusing namespace mg::core;\nextern "C" {\n' + OPS + '}\n'
ASSUMPTIONS = ['texts below 2^30 bytes; a string is used by one thread', 'what is given to be added does not lie in the free part of a string',
               'sprintf, vsnprintf, sscanf, strstr and strcmp do what the C standard says; the numbers read fit their type',
               'narrow strings (the wide ones and the conversions between both are not looked at)']
W = ('src/mg/alxstring.h', 0)
OBJ, OBJ2, SHARE, USER, OUT, MEM = ('a', 'string'), ('a', 'other string'), ('a', 'sharing string'), ('a', 'given text'), ('a', 'result'), ('a', 'memory')
MAX = 1 << 30


class Str(Interp):
    def __init__(self, mod, throws=True):
        Interp.__init__(self, mod)
        models.install_std(self)
        models.install_exc(self)
        models.install_streams(self)
        self.alloc_throws = throws
        self.on_access.append(Str.inb)
        for n in ('strlen', 'strstr', 'strcmp', 'sprintf', 'snprintf', 'strcpy', 'vsnprintf', 'sscanf', '__isoc99_sscanf', '__isoc23_sscanf', '__assert_fail'):
            self.hook(n, getattr(self, 'm_' + n.replace('__isoc99_', '').replace('__isoc23_', '')))

    def symunroll(self, f, h):
        return 12

    def inb(A, st, reg, off, n, rw, ins):
        if reg.rid in (USER, OBJ2) and rw == 'w' or reg.rid == MEM and rw == 'w' and not st.ghost.get('memw'):
            st.ev('foreign', A.loc(st, ins))
        if rw == 'w' and isinstance(reg.rid, tuple) and st.ghost.get('keep') and reg.rid in st.ghost['keep']:
            st.ev('foreign', A.loc(st, ins))
        if reg.size is None:
            return
        end = dom.add(off, C(n, 64) if isinstance(n, int) else n)
        if not (st.facts.ule(end, reg.size) and st.facts.ule(off, reg.size)):
            st.ev('oob', reg.rid, A.loc(st, ins), rw)

    # ---- texts
    def nonzero(self, st, v):
        if isc(v):
            return cv(v) != 0
        if v.op == 's' and isinstance(v.a[0], tuple) and v.a[0][0] == 'v':
            n = st.ghost.get(('text', v.a[0][1]))
            o = v.a[0][3]
            o = o if isinstance(o, dom.T) else C(o, 64)
            if n is not None and st.facts.ult(o, n):
                return True
        d = st.facts.decide(dom.cmp('ne', v, C(0, v.w)))
        if d is True:
            return True
        return st.ghost.get(('nz', v)) is not None

    def iszero(self, st, v):
        if isc(v):
            return cv(v) == 0
        if v.op == 's' and isinstance(v.a[0], tuple) and v.a[0][0] == 'v':
            n = st.ghost.get(('text', v.a[0][1]))
            o = v.a[0][3]
            o = o if isinstance(o, dom.T) else C(o, 64)
            if n is not None and st.facts.eq(o, n):
                return True
        return st.facts.decide(dom.cmp('eq', v, C(0, v.w))) is True

    def ends(self, st, rid, off, e):
        """the text at off goes to e: no zero before, a zero there"""
        if not st.facts.ule(off, e):
            return False
        for s, v in self.read_cases(st, rid, e):
            if not self.iszero(s, v):
                return False
        i = S(('i', st.fresh()), 64, 0, 1 << 50)
        s = st.copy()
        if self.assume(s, dom.cmp('ule', off, i), True) and self.assume(s, dom.cmp('ult', i, e), True) and not s.facts.contra():
            for s2, v in self.read_cases(s, rid, i):
                if not self.nonzero(s2, v):
                    return False
        return True

    def textend(self, st, rid, off):
        reg = self.region(st, rid)
        if rid[0] == 'g':
            import strmodel
            t = strmodel.ctext(self, st, Ptr(rid, off))
            return None if t is None else dom.add(off, C(len(t), 64))
        cand = [off]
        n = st.ghost.get(('text', rid))
        if n is not None:
            cand.append(n)
        for L in reg.layers:
            if isinstance(L, dict):
                cand += [C(o + k, 64) for o, (k, v) in L.items()] + [C(o, 64) for o in L]
            elif L[0] in ('copy', 'set', 'w'):
                cand += [L[1], dom.add(L[1], C(L[2], 64) if isinstance(L[2], int) else L[2])]
                if L[0] == 'copy':
                    t = st.ghost.get(('text', L[3].rid))
                    if t is not None:
                        cand.append(dom.add(L[1], dom.sub(t, L[4])))
        seen = []
        for e in cand:
            if any(e is x for x in seen):
                continue
            seen.append(e)
            try:
                if self.ends(st, rid, off, e):
                    return e
            except AnalysisError:
                continue
        return None

    def m_strlen(self, A, st, ins, a, n):
        p = A.to_ptr(st, a[0])
        if p is None or A.isnull(st, p[0]):
            st.ev('nullderef', A.loc(st, ins), 'r')
            raise PathEnd('strlen(null)')
        A.deref(st, a[0], 1, ins, 'r')
        q = A.whole(st, p)
        e = A.textend(st, *q)
        if e is None:
            st.ev('notext', A.loc(st, ins), q[0])
            raise PathEnd('strlen of what is no text')
        return dom.sub(e, q[1])

    def whole(self, st, p):
        return p

    def astext(self, st, ins, p, what):
        q = self.to_ptr(st, p)
        if q is None or self.isnull(st, q[0]):
            st.ev('nullderef', self.loc(st, ins), 'r')
            raise PathEnd(what)
        self.deref(st, p, 1, ins, 'r')
        e = self.textend(st, *q)
        if e is None:
            st.ev('notext', self.loc(st, ins), q[0])
            raise PathEnd(what)
        return q[0], q[1], dom.sub(e, q[1])

    def m_strstr(self, A, st, ins, a, n):
        h, d = A.astext(st, ins, a[0], 'strstr'), A.astext(st, ins, a[1], 'strstr')
        k = S(('found', st.fresh()), 64, 0, MAX)
        s2 = st.copy()
        s2.ev('strstr', h, d, None)
        out = [('ret', s2, NULL)]
        st.ghost['finds'] = st.ghost.get('finds', 0) + 1
        if st.ghost['finds'] <= getattr(A, 'maxfinds', 3) and A.assume(st, dom.cmp('ule', dom.add(k, d[2]), h[2]), True) and not st.facts.contra():
            st.ev('strstr', h, d, k)
            out.append(('ret', st, Ptr(h[0], dom.add(h[1], k))))
        # an empty text is always found, at once
        if st.facts.eq(d[2], C(0, 64)):
            out = [x for x in out if x[1] is st and A.assume(st, dom.cmp('eq', k, C(0, 64)), True)]
        elif s2.facts.decide(dom.cmp('ne', d[2], C(0, 64))) is None:
            A.assume(s2, dom.cmp('ne', d[2], C(0, 64)), True)
        return out

    def m_strcmp(self, A, st, ins, a, n):
        x, y = A.astext(st, ins, a[0], 'strcmp'), A.astext(st, ins, a[1], 'strcmp')
        r = S(('cmp', st.fresh()), 32)
        st.ev('strcmp', x, y, r)
        return r

    def written(self, st, dst, what, lo, hi):
        """a text of lo..hi bytes made by the library, and its end"""
        k = st.fresh()
        rid = ('made', k)
        n = zext(S(('made', k, hi), 32, lo, hi), 64)
        st.ghost[('text', rid)] = n
        r = self.region(st, rid).clone()
        r.size = dom.add(n, C(1, 64))
        r.bytes = True
        st.mem[rid] = r
        st.ev('made', rid, what)
        return rid, n

    def m_sprintf(self, A, st, ins, a, n):
        import strmodel
        f = strmodel.ctext(A, st, a[1])
        lim = {'%f': 48, '%i': 11, '%li': 20, '%lli': 20, '%ld': 20, '%lu': 20, '%lld': 20, '%llu': 20, '%d': 11, '%u': 10, '%.6f': 48}.get(f)
        if lim is None:
            st.ev('format', f, A.loc(st, ins))
            raise PathEnd('format')
        if f in ('%d', '%u', '%i') and a[2].w != 32 or f not in ('%d', '%u', '%i') and a[2].w != 64:
            st.ev('format', 'another size than ' + f, A.loc(st, ins))
        s2 = st.copy()
        s2.ev('failed', 'sprintf')
        rid, ln = A.written(st, a[0], (f, a[2]), 1, lim)
        A.memcpy(st, a[0], Ptr(rid), dom.add(ln, C(1, 64)), ins)
        return [('ret', st, dom.trunc(ln, 32)), ('ret', s2, C((1 << 32) - 1, 32))]

    def m_snprintf(self, A, st, ins, a, n):
        import strmodel
        f = strmodel.ctext(A, st, a[2])
        lim = {'%f': 48, '%.6f': 48}.get(f, 20)
        if f is None or f.count('%') != 1 or len(a) != 4 or f not in ('%f', '%.6f') and f[-1] not in 'diu':
            st.ev('format', f, A.loc(st, ins))
            raise PathEnd('format')
        s2 = st.copy()
        s2.ev('failed', 'snprintf')
        rid, ln = A.written(st, a[0], (f, a[3]), 1, lim)
        out = [('ret', s2, C((1 << 32) - 1, 32))]
        s3 = st.copy()
        if A.assume(s3, dom.cmp('ult', ln, a[1]), False) and not s3.facts.contra():
            s3.ev('cut', A.loc(st, ins))
            out.append(('ret', s3, dom.trunc(ln, 32)))
        if A.assume(st, dom.cmp('ult', ln, a[1]), True) and not st.facts.contra():
            A.memcpy(st, a[0], Ptr(rid), dom.add(ln, C(1, 64)), ins)
            out.append(('ret', st, dom.trunc(ln, 32)))
        return out

    def m_strcpy(self, A, st, ins, a, n):
        t = A.astext(st, ins, a[1], 'strcpy')
        A.memcpy(st, a[0], a[1], dom.add(t[2], C(1, 64)), ins)
        return a[0]

    def m_vsnprintf(self, A, st, ins, a, n):
        dst, size, f, va = a
        vk = A.to_ptr(st, va)
        state = None
        for e in st.events():
            if e[0] == 'va' and A.to_ptr(st, e[2]) == vk:
                state = e[1]
            if e[0] == 'vsnprintf' and e[1] == vk:
                state = 'used'
        st.ev('vsnprintf', vk)
        if state != 'sta':
            st.ev('varargs', A.loc(st, ins))
        s2 = st.copy()
        s2.ev('failed', 'vsnprintf')
        key = A.to_ptr(st, f)
        g = st.ghost.get(('formatted', key))
        if g is None:
            g = A.written(st, dst, ('vsnprintf', key), 0, MAX)
            st.ghost[('formatted', key)] = g
        rid, ln = g
        out = [('ret', s2, C((1 << 32) - 1, 32))]
        # at most size bytes, the last one zero
        fits = dom.cmp('ult', ln, size)
        s3 = st.copy()
        if A.assume(s3, fits, False) and not s3.facts.contra():
            if s3.facts.decide(dom.cmp('ne', size, C(0, 64))) is True:
                A.memcpy(s3, dst, Ptr(rid), dom.sub(size, C(1, 64)), ins)
                s3.ev('cut', A.loc(st, ins))
            out.append(('ret', s3, dom.trunc(ln, 32)))
        if A.assume(st, fits, True) and not st.facts.contra():
            A.memcpy(st, dst, Ptr(rid), dom.add(ln, C(1, 64)), ins)
            out.append(('ret', st, dom.trunc(ln, 32)))
        return out

    def m_sscanf(self, A, st, ins, a, n):
        import strmodel
        f = strmodel.ctext(A, st, a[1])
        t = A.astext(st, ins, a[0], 'sscanf')
        size = {'%d': 4, '%u': 4, '%ld': 8, '%lu': 8, '%lx': 8, '%lld': 8, '%llu': 8, '%llx': 8, '%lf': 8, '%f': 4, '%x': 4}.get(f)
        if size is None:
            st.ev('format', f, A.loc(st, ins))
            raise PathEnd('format')
        reg, off = A.deref(st, a[2], size, ins, 'w')
        s2 = st.copy()
        s2.ev('failed', 'sscanf')
        v = S(('read', st.fresh()), 8 * size)
        st.ev('sscanf', f, t, v, size)
        A.poke(st, a[2], size, v)
        return [('ret', st, C(1, 32)), ('ret', s2, C(0, 32))]

    def m___assert_fail(self, A, st, ins, a, n):
        st.ev('assert', A.loc(st, ins))
        raise PathEnd('assertion')


class B:
    pass


def learn(cx, mod):
    A = cx.use(Str(mod, False))
    b = B()

    def one(fn, args, st):
        A.start(fn, args, st)
        o = [o for o in A.run(lambda: st) if o.kind == 'ret']
        cx.anchor(len(o) == 1, 'one way through ' + fn)
        o[0].st.frames = []
        return o[0]
    o = one('o_newn', [Ptr(OBJ), C(64, 32)], State())
    b.st0 = o.st
    o = one('o_buf', [Ptr(OBJ)], b.st0.copy())
    b.buf = A.to_ptr(o.st, o.val)
    cx.anchor(b.buf[0] in o.st.mem and A.region(o.st, b.buf[0]).alive, 'the buffer of a string')
    for role in ('get', 'full', 'cap'):
        D = cx.use(Str(mod, False))
        seen = set()
        D.on_load.append(lambda A, s, reg, off, n, v, ins, at: seen.add((cv(off), n)) if reg.rid == b.buf[0] and isc(off) else None)
        s = b.st0.copy()
        D.start('o_' + role, [o.val], s)
        D.run(lambda: s)
        cx.anchor(len(seen) == 1, 'what %s of the buffer reads' % role)
        setattr(b, role, seen.pop())
    b.st0.trace = None
    return b


def at(b, st, obj):
    """the buffer object a string holds"""
    return st.ghost.get(('buf', obj))


def generic(A, b, mod, obj, tag, st=None, shared=None):
    """a string in any state; shared: a second string that holds the same block"""
    def run(fn, args, s):
        D = Str(mod, False)
        D.start(fn, args, s)
        o = [o for o in D.run(lambda: s) if o.kind == 'ret']
        o[0].st.frames = []
        return o[0]
    st = st or State()
    st = run('o_newn', [Ptr(obj), C(64, 32)], st).st
    o = run('o_buf', [Ptr(obj)], st)
    st, bo = o.st, A.to_ptr(o.st, o.val)
    if shared:
        st = run('o_copy', [Ptr(shared), Ptr(obj)], st).st
    st.trace = None
    st.facts = type(st.facts)() if tag == '' else st.facts
    n, cap = S('length' + tag, 64, 0, MAX), S('capacity' + tag, 64, 1, MAX)
    old = A.to_ptr(st, A.peek(st, Ptr(bo[0], dom.add(bo[1], C(b.get[0], 64))), 8, True))
    rid = ('h', 'text of' + tag, 'new')
    r = A.region(st, old[0]).clone()
    del st.mem[old[0]]
    r.rid, r.layers, r.gen, r.size, r.alive, r.bytes = rid, (('set', n, dom.sub(cap, n), C(0, 8)),), 1, cap, True, True
    st.mem[rid] = r
    for c, v in ((b.get, Ptr(rid)), (b.full, n), (b.cap, cap)):
        A.poke(st, Ptr(bo[0], dom.add(bo[1], C(c[0], 64))), c[1], v)
    # whatever else is a number of the buffer: how much it grows
    for L in list(A.region(st, bo[0]).layers):
        for o_, (k, v) in sorted(L.items()):
            if (o_ - cv(bo[1]), k) not in (b.get, b.full, b.cap) and k == 8 and isc(v) and cv(v) == 64:
                A.poke(st, Ptr(bo[0], C(o_, 64)), 8, S('growth' + tag, 64, 1, MAX))
    A.assume(st, dom.cmp('ult', n, cap), True)
    st.ghost[('text', rid)] = n
    st.ghost[('str', obj)] = (rid, n, cap)
    return st


def look(A, b, mod, st, obj):
    """(storage, position, capacity) of the string, or a complaint"""
    D = Str(mod, False)
    s = st.copy()
    s.frames = []
    D.start('o_buf', [Ptr(obj)], s)
    try:
        o = [o for o in D.run(lambda: s)]
    except AnalysisError as e:
        return 'cannot be looked at (%s)' % e
    if len(o) != 1 or o[0].kind != 'ret':
        return 'the handle of the string is broken'
    q = A.to_ptr(o[0].st, o[0].val)
    if q is None or o[0].val is NULL:
        return None
    if q[0] not in st.mem or not A.region(st, q[0]).alive:
        return 'the string holds a buffer that was released'
    at = lambda c: Ptr(q[0], dom.add(q[1], C(c[0], 64)))
    p = A.to_ptr(st, A.peek(st, at(b.get), 8, True))
    return p, zext(A.peek(st, at(b.full), b.full[1]), 64), zext(A.peek(st, at(b.cap), b.cap[1]), 64), q


def check_text(cx, A, b, mod, st, obj, pieces, ob, what, loose=False):
    """the string obj holds exactly the pieces [(region, offset, length) or constant bytes]"""
    f = st.facts
    l = look(A, b, mod, st, obj)
    if isinstance(l, str) or l is None:
        ob('invariant', False, '%s: %s' % (what, l or 'the string holds nothing'))
        return None
    p, pos, cap, q = l
    bad = None
    if p is None or p[0] not in st.mem or not isc(p[1]) or cv(p[1]) != 0 or not A.region(st, p[0]).alive:
        bad = 'the text is not a live block'
    elif not f.ult(pos, cap):
        bad = 'no room for the end of the text'
    elif not f.eq(A.region(st, p[0]).size, cap):
        bad = 'the block has another size than the string says'
    if bad:
        ob('invariant', False, '%s: %s' % (what, bad))
        return None
    # zero behind
    i = S('i', 64, 0, 1 << 50)
    s = st.copy()
    if A.assume(s, dom.cmp('ule', pos, i), True) and A.assume(s, dom.cmp('ult', i, cap), True) and not s.facts.contra():
        ok = all(isc(v) and cv(v) == 0 or A.iszero(s2, v) for s2, v in A.read_cases(s, p[0], i))
        ob('ended', ok, what + ': the bytes behind the text are not zero')
    # the text
    total = C(0, 64)
    for pc in pieces:
        total = dom.add(total, C(len(pc), 64) if isinstance(pc, (bytes, list)) else pc[2])
    ob('length', f.eq(pos, total), what + ': the length is not that of the text')
    start = C(0, 64)
    for pc in pieces:
        if isinstance(pc, (bytes, list)):
            for k, c in enumerate(pc):
                for s2, v in A.read_cases(st, p[0], dom.add(start, C(k, 64))):
                    ok = isc(v) and cv(v) == c if isinstance(c, int) else v is c or s2.facts.eq(v, c)
                    ob('text', ok, what + ': the text is not the one expected')
            start = dom.add(start, C(len(pc), 64))
            continue
        rid, off, ln = pc
        end = dom.add(start, ln)
        s = st.copy()
        if A.assume(s, dom.cmp('ule', start, i), True) and A.assume(s, dom.cmp('ult', i, end), True) and not s.facts.contra():
            for s2, v in A.read_cases(s, p[0], i):
                ob('text', same(v, rid, dom.add(dom.sub(i, start), off), s2.facts), what + ': the text is not the one expected')
        start = end
    return l


def user(A, st, rid=USER, tag='', n=None):
    m = n if n is not None else S('given' + tag, 64, 0, MAX)
    r = A.region(st, rid).clone()
    r.size, r.kind, r.bytes, r.gen = dom.add(m, C(1, 64)), 'obj', True, 1
    st.mem[rid] = r
    st.ghost[('text', rid)] = m
    return m


def cases(deep):
    """name, function, kind of argument, expectation"""
    P = lambda st: st.ghost['given']            # the text given: (rid, off, len)
    T = lambda st: (lambda g: (g[0], C(0, 64), g[1]))(st.ghost[('str', OBJ)])
    T2 = lambda st: (lambda g: (g[0], C(0, 64), g[1]))(st.ghost[('str', OBJ2)])
    # (function, arguments, text of the string afterwards, text of the result)
    for src in ('user', 'own', 'null'):
        null = src == 'null'
        yield 'setc', src, None if null else (lambda st: [P(st)]), None
        yield 'addc', src, (lambda st: [T(st)]) if null else (lambda st: [T(st), P(st)]), None
        if not null:
            yield 'append', src, (lambda st: [T(st), P(st)]), None
            yield 'plusc', src, (lambda st: [T(st)]), (lambda st: [T(st), P(st)])
            yield 'cplus', src, (lambda st: [T(st)]), (lambda st: [P(st), T(st)])
    yield 'sets', 'string', lambda st: [T2(st)], None
    yield 'sets', 'self', lambda st: [T(st)], None
    yield 'sets', 'share', lambda st: [T(st)], None
    yield 'adds', 'string', lambda st: [T(st), T2(st)], None
    yield 'adds', 'self', lambda st: [T(st), T(st)], None
    yield 'adds', 'share', lambda st: [T(st), T(st)], None
    yield 'pluss', 'share', lambda st: [T(st)], lambda st: [T(st), T(st)]
    yield 'pluss', 'string', lambda st: [T(st)], lambda st: [T(st), T2(st)]
    yield 'pluss', 'self', lambda st: [T(st)], lambda st: [T(st), T(st)]
    yield 'clone', 'none', lambda st: [T(st)], lambda st: [T(st)]
    yield 'copy', 'none', lambda st: [T(st)], lambda st: [T(st)]
    yield 'clear', 'none', lambda st: [], None


def run(cx, mod, b, fn, argk, after, result, shared):
    A = cx.use(Str(mod))
    inst = '%s(%s)%s' % (fn, argk, ', shared' if shared else '')

    def init():
        st = generic(A, b, mod, OBJ, '', None, SHARE if shared else None)
        rid, n, cap = st.ghost[('str', OBJ)]
        args = []
        if argk == 'user':
            m = user(A, st)
            st.ghost['given'] = (USER, C(0, 64), m)
            args = [Ptr(USER)]
        elif argk == 'own':
            a = S('at', 64, 0, MAX)
            A.assume(st, dom.cmp('ule', a, n), True)
            st.ghost['given'] = (rid, a, dom.sub(n, a))
            args = [Ptr(rid, a)]
        elif argk == 'null':
            args = [NULL]
        elif argk == 'string':
            st = generic(A, b, mod, OBJ2, '2', st)
            args = [Ptr(OBJ2)]
        elif argk == 'self':
            args = [Ptr(OBJ)]
        elif argk == 'share':
            if not shared:
                raise AnalysisError('no sharing string')
            args = [Ptr(SHARE)]
        st.ghost['keep'] = ({st.ghost[('str', OBJ2)][0]} if argk == 'string' else set()) | ({USER} if argk == 'user' else set())
        full = ([Ptr(OUT)] if result else []) + [Ptr(OBJ)] + args
        A.start('o_' + fn, full, st)
        return st
    outs = A.run(init)

    def ob(rule, ok, what):
        cx.ob(rule, inst, ok, W, '%s: %s' % (inst, what), 'C13|%s|%s' % (fn, what))
    finish(cx, A, b, mod, outs, ob, inst, fn, after, result, shared, argk)


def finish(cx, A, b, mod, outs, ob, inst, fn, after, result, shared, argk):
    cx.ob('ends', inst, any(o.kind == 'ret' for o in outs), W, '%s never returns' % inst, 'C13|%s|ends' % fn)
    for o in outs:
        st = o.st
        st.frames = []
        if not bad_events(cx, A, o, ob, inst):
            continue
        if o.kind == 'end':
            continue
        g = st.ghost
        base = [(g[('str', OBJ)][0], C(0, 64), g[('str', OBJ)][1])]
        if o.kind == 'throw':
            why = [e for e in st.events() if e[0] in ('badalloc', 'failed')]
            ob('raises', bool(why), 'raises without a reason')
            check_text(cx, A, b, mod, st, OBJ, base, ob, 'after an error')
            continue
        if any(e[0] == 'failed' for e in st.events()):
            ob('raises', False, 'hides the failure of the C library')
        if after is not None:
            check_text(cx, A, b, mod, st, OBJ, after(st), ob, 'the string')
        if result is not None:
            check_text(cx, A, b, mod, st, OUT, result(st), ob, 'the result')
        if fn in ('clone', 'sub', 'plusc', 'pluss', 'cplus'):
            x, y = look(A, b, mod, st, OBJ), look(A, b, mod, st, OUT)
            ob('own', isinstance(x, tuple) and isinstance(y, tuple) and x[0][0] != y[0][0], 'the result is no text of its own')
        if argk == 'string':
            check_text(cx, A, b, mod, st, OBJ2, [(g[('str', OBJ2)][0], C(0, 64), g[('str', OBJ2)][1])], ob, 'the string given')
        if shared and fn in ('sets', 'setc'):
            check_text(cx, A, b, mod, st, SHARE, base, ob, 'a string that was copied before')
        # blocks: what nobody holds is released
        keep = set()
        for s in (OBJ, OBJ2, SHARE, OUT):
            if s in st.mem or ('str', s) in g:
                l = look(A, b, mod, st, s)
                if isinstance(l, tuple):
                    keep |= {l[0][0]}
        texts = {g[k][0] for k in g if isinstance(k, tuple) and k[0] == 'str'}
        for r, reg in st.mem.items():
            if r[0] == 'h' and reg.alive and (r in texts or reg.size is not None and not isc(reg.size)) and r not in keep:
                ob('released', False, 'a text nobody holds is not released')


def bad_events(cx, A, o, ob, inst):
    bad = None
    for e in o.st.events():
        if e[0] in ('oob', 'foreign', 'uaf', 'doublefree', 'nullderef', 'notext', 'assert', 'format', 'varargs', 'cut', 'abort', 'terminate'):
            bad = {'oob': 'leaves the memory it may use', 'foreign': 'changes what it was given', 'uaf': 'uses a text that was released',
                   'doublefree': 'releases a text twice', 'nullderef': 'follows a null pointer', 'notext': 'takes memory without an end for a text',
                   'assert': 'an assertion fails', 'format': 'a format does not fit its argument', 'varargs': 'uses a list of arguments twice, or one that was not begun',
                   'cut': 'a formatted text is cut off'}.get(e[0], e[0])
            where = e[2] if e[0] in ('oob', 'format') else e[1]
            cx.ob('memory', inst, False, where, '%s: %s' % (inst, bad), 'C13|%s|%s' % (inst.split('(')[0], bad))
            break
    else:
        cx.ob('memory', inst, True)
    if o.kind == 'end' and bad is None:
        if o.why not in ('recursion',):
            ob('ends', False, 'ends abnormally (%s)' % o.why)
        else:
            cx.notes.append('%s: growth in more steps than were unfolded' % inst)
    return bad is None


def simple(cx, mod, b, name, setup, verify, throws=True):
    """setup(A, st) -> arguments; verify(A, st, o, ob)"""
    A = cx.use(Str(mod, throws))

    def init():
        st = generic(A, b, mod, OBJ, '')
        args = setup(A, st)
        A.start('o_' + name.split()[0], args, st)
        return st
    outs = A.run(init)

    def ob(rule, ok, what):
        cx.ob(rule, name, ok, W, '%s: %s' % (name, what), 'C13|%s|%s' % (name.split()[0], what))
    cx.ob('ends', name, any(o.kind == 'ret' for o in outs), W, '%s never returns' % name, 'C13|%s|ends' % name.split()[0])
    for o in outs:
        o.st.frames = []
        if not bad_events(cx, A, o, ob, name) or o.kind == 'end':
            continue
        verify(A, o.st, o, ob)


def is_bool(st, v, want):
    if v.w == 1:
        return st.facts.decide(v) is bool(want)
    return st.facts.eq(v, C(int(want), v.w))


def txt(st, obj=OBJ):
    g = st.ghost[('str', obj)]
    return (g[0], C(0, 64), g[1])


def istext(A, st, t, want, f=None):
    f = f or st.facts
    return t[0] == want[0] and f.eq(t[1], want[1]) and f.eq(t[2], want[2])


def singles(cx, mod, b):
    out = []
    add = lambda name, setup, verify, throws=True: out.append((name, setup, verify, throws))
    unchanged = lambda A, st, ob: check_text(cx, A, b, mod, st, OBJ, [txt(st)], ob, 'the string')

    def number(A, st, o, ob):
        made = [e for e in st.events() if e[0] == 'made']
        failed = any(e[0] in ('failed', 'badalloc') for e in st.events())
        if o.kind == 'throw':
            ob('raises', failed, 'raises without a reason')
            unchanged(A, st, ob)
            return None
        if any(e[0] == 'failed' for e in st.events()):
            ob('raises', False, 'hides the failure of the C library')
            return None
        ob('formatted', len(made) == 1, 'is not formatted once')
        check_text(cx, A, b, mod, st, OBJ, [txt(st)] + [(e[1], C(0, 64), st.ghost[('text', e[1])]) for e in made[:1]], ob, 'the string')
        return made

    def num(name, w, conv):
        v = S('number', w)

        def setup(A, st):
            if name == 'addf':
                return [Ptr(OBJ), v]
            return [Ptr(OBJ), v]

        def verify(A, st, o, ob):
            m = number(A, st, o, ob)
            if m:
                f, x = m[0][2]
                ob('formatted', f in conv[0] and (x is conv[1](v) or st.facts.eq(x, conv[1](v)) or (name == 'addf' and x.op == 'fpext' and x.a[0] is v)), 'another number is written')
        add(name, setup, verify)
    sd, ud = ('%ld', '%lld', '%li', '%lli'), ('%lu', '%llu')
    num('addi', 32, (sd, lambda v: sext(v, 64)))
    num('addu', 32, (ud, lambda v: zext(v, 64)))
    num('addl', 64, (sd, lambda v: v))
    num('addul', 64, (ud, lambda v: v))
    num('addf', 32, (('%.6f', '%f'), lambda v: v))

    def s_fmt(A, st):
        user(A, st)
        return [Ptr(OBJ), Ptr(USER), S('a', 32), Ptr(('arg',))]

    def v_fmt(A, st, o, ob):
        m = number(A, st, o, ob)
        if m:
            ob('formatted', m[0][2] == ('vsnprintf', (USER, C(0, 64))) or m[0][2][0] == 'vsnprintf' and m[0][2][1][0] == USER, 'another format is used')
    add('fmt', s_fmt, v_fmt)

    for k in range(0, 3):
        for lo in (range(0, 256) if k == 1 else (0,)):
            vals = [0x00, 0x9f, 0xe7][:k] if k != 1 else [lo]

            def s_hex(A, st, k=k, vals=vals):
                r = A.region(st, MEM).clone()
                r.size = C(k, 64)
                st.mem[MEM] = r
                for i, v in enumerate(vals):
                    A.poke(st, Ptr(MEM, C(i, 64)), 1, C(v, 8))
                return [Ptr(OBJ), Ptr(MEM), C(k, 32)]

            def v_hex(A, st, o, ob, vals=vals):
                if o.kind == 'throw':
                    return ob('raises', any(e[0] == 'badalloc' for e in st.events()), 'raises without a reason')
                check_text(cx, A, b, mod, st, OBJ, [txt(st), ''.join('%02X' % v for v in vals).encode()], ob, 'the string')
            add('hex %d %s' % (k, ' '.join('%02x' % v for v in vals)), s_hex, v_hex)

    for k in range(0, 4):
        def s_unhex(A, st, k=k):
            p = S('from', 32, 0, MAX)
            r = A.region(st, MEM).clone()
            r.size = C(k, 64)
            st.mem[MEM] = r
            st.ghost['memw'] = True
            A.assume(st, dom.cmp('ule', dom.add(zext(p, 64), C(2 * k, 64)), st.ghost[('str', OBJ)][1]), True)
            return [Ptr(OBJ), Ptr(MEM), C(k, 32), p]

        def v_unhex(A, st, o, ob, k=k):
            ev = [e for e in st.events() if e[0] == 'sscanf']
            t = txt(st)
            unchanged(A, st, ob)
            if o.kind == 'throw':
                return ob('raises', any(e[0] in ('badalloc', 'failed') for e in st.events()), 'raises without a reason')
            ob('raises', not any(e[0] == 'failed' for e in st.events()), 'hides digits that are none')
            ob('digits', len(ev) == k, 'does not read each pair of digits once')
            for i, e in enumerate(ev[:k]):
                p = dom.add(zext(S('from', 32, 0, MAX), 64), C(2 * i, 64))
                rid, off, ln = e[2]
                good = e[1] in ('%lx', '%llx', '%x') and st.facts.eq(ln, C(2, 64))
                for j in (0, 1):
                    for s2, v in A.read_cases(st, rid, dom.add(off, C(j, 64))) if good and A.region(st, rid).layers else ():
                        good = good and same(v, t[0], dom.add(p, C(j, 64)), s2.facts)
                ob('digits', good, 'reads other digits')
                got = A.peek(st, Ptr(MEM, C(i, 64)), 1)
                ob('digits', st.facts.eq(got, dom.trunc(e[3], 8)), 'stores another byte')
        add('unhex %d' % k, s_unhex, v_unhex)

    # searching
    for name in ('find', 'rfind'):
        for needle in ('given', 'empty'):
            def s_find(A, st, needle=needle):
                user(A, st, n=C(0, 64) if needle == 'empty' else S('given1', 64, 1, MAX))
                p = S('from', 32, 0, MAX)
                if needle == 'empty' and name == 'rfind':
                    A.assume(st, dom.cmp('ule', dom.sub(st.ghost[('str', OBJ)][1], C(2, 64)), zext(p, 64)), True)
                return [Ptr(OBJ), Ptr(USER), p]

            def v_find(A, st, o, ob, name=name, needle=needle):
                f = st.facts
                unchanged(A, st, ob)
                if o.kind == 'throw':
                    return ob('raises', False, 'raises')
                t = txt(st)
                p = zext(S('from', 32, 0, MAX), 64)
                ev = [e for e in st.events() if e[0] == 'strstr']
                frm, last = p, None
                for e in ev:
                    ob('search', e[1][0] == t[0] and f.eq(e[1][1], frm) and f.eq(dom.add(e[1][1], e[1][2]), t[2]) and istext(A, st, e[2], (USER, C(0, 64), st.ghost[('text', USER)])),
                       'does not search in the rest of the text')
                    if e[3] is not None:
                        last = dom.add(frm, e[3])
                        frm = dom.add(last, C(1, 64))
                none = C((1 << 32) - 1, 32)
                ended = bool(ev) and ev[-1][3] is None or f.ult(t[2], frm)
                if name == 'find':
                    ob('search', len(ev) <= 1, 'searches more than once')
                    ended = True if ev else f.ult(t[2], p)
                ended = ended or f.ult(t[2], dom.add(frm, st.ghost[('text', USER)]))
                ob('search', ended, 'stops searching too early')
                ob('result', f.eq(o.val, dom.trunc(last, 32) if last is not None else none), 'is not the place of the text')
            add('%s %s' % (name, needle), s_find, v_find)

    # parts
    def s_sub(A, st):
        return [Ptr(OUT), Ptr(OBJ), S('begin', 64), S('want', 64)]

    def v_sub(A, st, o, ob):
        f = st.facts
        t = txt(st)
        unchanged(A, st, ob)
        if o.kind == 'throw':
            return ob('raises', any(e[0] == 'badalloc' for e in st.events()), 'raises without a reason')
        bg, want = S('begin', 64), S('want', 64)
        for inside in (True, False):
            s = st.copy()
            if not A.assume(s, dom.cmp('ule', bg, t[2]), inside) or s.facts.contra():
                continue
            if not inside:
                check_text(cx, A, b, mod, s, OUT, [], ob, 'behind the end')
                continue
            for short in (True, False):
                s3 = s.copy()
                if not A.assume(s3, dom.cmp('ule', want, dom.sub(t[2], bg)), short) or s3.facts.contra():
                    continue
                check_text(cx, A, b, mod, s3, OUT, [(t[0], bg, want if short else dom.sub(t[2], bg))], ob, 'the part')
        x, y = look(A, b, mod, st, OBJ), look(A, b, mod, st, OUT)
        ob('own', isinstance(x, tuple) and isinstance(y, tuple) and x[0][0] != y[0][0], 'the result is no text of its own')
    add('sub', s_sub, v_sub)

    # values
    def value(name, want, w):
        def v(A, st, o, ob):
            unchanged(A, st, ob)
            if o.kind == 'throw':
                return ob('raises', False, 'raises')
            if w == 'p':
                p = A.to_ptr(st, o.val)
                ob('value', p is not None and p[0] == txt(st)[0] and st.facts.eq(p[1], C(0, 64)), 'is not the text')
            else:
                ob('value', st.facts.eq(zext(o.val, 64), want(st)), 'is not the value')
        add(name, lambda A, st: [Ptr(OBJ)], v)
    value('size', lambda st: txt(st)[2], 0)
    value('len', lambda st: txt(st)[2], 0)
    value('str', None, 'p')
    value('cstr', None, 'p')
    value('not', lambda st: C(0, 64), 0)

    # comparing
    def compare(name, neg, second, order=False):
        def setup(A, st):
            if second == 'text':
                user(A, st)
                return [Ptr(OBJ), Ptr(USER)]
            s2 = generic(A, b, mod, OBJ2, '2', st)
            for x in ('mem', 'ghost', 'facts', 'uid', 'alias', 'trace'):
                setattr(st, x, getattr(s2, x))
            return [Ptr(OBJ), Ptr(OBJ2)]

        def v(A, st, o, ob):
            unchanged(A, st, ob)
            if o.kind == 'throw':
                return ob('raises', any(e[0] == 'badalloc' for e in st.events()), 'raises without a reason')
            ev = [e for e in st.events() if e[0] == 'strcmp']
            other = (USER, C(0, 64), st.ghost[('text', USER)]) if second == 'text' else txt(st, OBJ2)
            if not ev:
                return ob('compared', False, 'does not compare the texts')
            e = ev[-1]

            def isit(t, w):
                if istext(A, st, t, w):
                    return True
                # a copy of the text
                if not st.facts.eq(t[2], w[2]):
                    return False
                i = S('i', 64, 0, 1 << 50)
                s = st.copy()
                if not (A.assume(s, dom.cmp('ult', i, w[2]), True)):
                    return True
                return all(same(v, w[0], dom.add(i, w[1]), s2.facts) for s2, v in A.read_cases(s, t[0], dom.add(t[1], i)))
            fwd = isit(e[1], txt(st)) and isit(e[2], other)
            bwd = isit(e[2], txt(st)) and isit(e[1], other)
            ob('compared', fwd or bwd and not order, 'compares other texts')
            r = e[3]
            truth = dom.cmp('slt', r, C(0, 32)) if order else dom.cmp('ne' if neg else 'eq', r, C(0, 32))
            for tv in (True, False):
                s = st.copy()
                if A.assume(s, truth, tv) and not s.facts.contra():
                    ob('value', is_bool(s, o.val, tv), 'is not the result of the comparison')
        add(name, setup, v)
    compare('eqc', 0, 'text')
    compare('nec', 1, 'text')
    compare('ceq', 0, 'text')
    compare('cne', 1, 'text')
    compare('eqs', 0, 'string')
    compare('lt', 0, 'string', True)

    def v_bool(A, st, o, ob):
        import strmodel
        unchanged(A, st, ob)
        yes, seen = False, set()
        for e in st.events():
            if e[0] == 'strcmp':
                a, c = (e[1], e[2]) if e[1][0] == txt(st)[0] else (e[2], e[1])
                if not istext(A, st, a, txt(st)):
                    ob('compared', False, 'compares something else')
                k = strmodel.ctext(A, st, Ptr(c[0], c[1]))
                d = st.facts.decide(dom.cmp('eq', e[3], C(0, 32)))
                seen.add(k)
                if d:
                    yes = True
                    ob('value', k in ('1', 'true', 'yes', 'TRUE', 'True'), 'another text is true')
        ob('value', is_bool(st, o.val, yes), 'is not the truth')
        if not yes:
            ob('value', seen >= {'1', 'true', 'yes', 'TRUE', 'True'}, 'a true text is false')
    add('bool', lambda A, st: [Ptr(OBJ)], v_bool)

    # numbers
    for name, fm, w in (('int', ('%d',), 32), ('i64', ('%ld', '%lld'), 64), ('u64', ('%lu', '%llu'), 64), ('dbl', ('%lf',), 64)):
        def v_num(A, st, o, ob, fm=fm, w=w):
            unchanged(A, st, ob)
            ev = [e for e in st.events() if e[0] == 'sscanf']
            failed = any(e[0] == 'failed' for e in st.events())
            if o.kind == 'throw':
                return ob('raises', failed, 'raises without a reason')
            ob('raises', not failed, 'a text that is no number becomes one')
            ob('read', len(ev) == 1 and ev[0][1] in fm and istext(A, st, ev[0][2], txt(st)) and ev[0][4] * 8 == w, 'is not read from the text')
            if len(ev) == 1:
                ob('value', o.val is ev[0][3] or st.facts.eq(o.val, ev[0][3]), 'is not the number')
        add(name, lambda A, st: [Ptr(OBJ)], v_num)

    # room for the caller
    for name in ('room', 'roomc'):
        def v_room(A, st, o, ob, name=name):
            n = S('n', 64, 1, MAX)
            if o.kind == 'throw':
                ob('raises', any(e[0] == 'badalloc' for e in st.events()), 'raises without a reason')
                return unchanged(A, st, ob)
            l = look(A, b, mod, st, OBJ)
            if not isinstance(l, tuple):
                return ob('invariant', False, 'the string is broken')
            p, t, f = A.to_ptr(st, o.val), txt(st), st.facts
            ob('room', p is not None and p[0] == l[0][0] and f.eq(p[1], t[2]), 'the place is not behind the text')
            ob('room', f.ult(dom.add(t[2], n), l[2]) and f.eq(A.region(st, l[0][0]).size, l[2]), 'there is not room for what was asked for and the end')
            if name == 'room':
                check_text(cx, A, b, mod, st, OBJ, [t], ob, 'the string')
            else:
                ob('length', f.eq(l[1], dom.add(t[2], n)), 'what was asked for is not part of the string')
        add(name, lambda A, st: [Ptr(OBJ), S('n', 64, 1, MAX)], v_room)

    def s_commit(A, st):
        # the caller wrote n bytes behind the text
        rid, n, cap = st.ghost[('str', OBJ)]
        k = S('n', 64, 0, MAX)
        A.assume(st, dom.cmp('ult', dom.add(n, k), cap), True)
        r = A.region(st, ('wrote',)).clone()
        r.bytes = True
        st.mem[('wrote',)] = r
        st.ghost[('text', ('wrote',))] = k
        A.copy(st, rid, n, ('wrote',), C(0, 64), k)
        return [Ptr(OBJ), k]

    def v_commit(A, st, o, ob):
        if o.kind == 'throw':
            return ob('raises', False, 'raises')
        check_text(cx, A, b, mod, st, OBJ, [txt(st), (('wrote',), C(0, 64), S('n', 64, 0, MAX))], ob, 'the string')
    add('commit', s_commit, v_commit)

    def v_del(A, st, o, ob):
        ob('released', o.kind == 'ret' and not A.region(st, txt(st)[0]).alive and
           not any(r[0] == 'h' and reg.alive for r, reg in st.mem.items()), 'the text is not released')
    add('del', lambda A, st: [Ptr(OBJ)], v_del)
    return out


def fresh(cx, mod, b):
    """strings made from nothing"""
    def one(name, fn, setup, pieces):
        A = cx.use(Str(mod))

        def init():
            st = State()
            args = setup(A, st)
            A.start(fn, [Ptr(OBJ)] + args, st)
            return st

        def ob(rule, ok, what):
            cx.ob(rule, name, ok, W, '%s: %s' % (name, what), 'C13|%s|%s' % (name, what))
        for o in A.run(init):
            o.st.frames = []
            if not bad_events(cx, A, o, ob, name) or o.kind == 'end':
                continue
            if o.kind == 'throw':
                ob('raises', any(e[0] == 'badalloc' for e in o.st.events()), 'raises without a reason')
                continue
            p = pieces(A, o.st)
            if p is None:
                ob('null', look(A, b, mod, o.st, OBJ) is None, 'a null text is not kept as one')
            else:
                check_text(cx, A, b, mod, o.st, OBJ, p, ob, 'a new string')
    one('new', 'o_new0', lambda A, st: [], lambda A, st: [])
    one('new with room', 'o_newn', lambda A, st: [S('n', 32, 1, MAX)], lambda A, st: [])
    one('new from text', 'o_newc', lambda A, st: (user(A, st), [Ptr(USER)])[1], lambda A, st: [(USER, C(0, 64), st.ghost[('text', USER)])])
    one('new from null', 'o_newc', lambda A, st: [NULL], lambda A, st: None)


def check(cx):
    mod = cx.build(UNITS, DRIVER)
    b = learn(cx, mod)
    items = []
    for c in cases(cx.thorough):
        for shared in (False, True):
            if c[1] == 'share' and not shared or c[0] == 'setc' and c[1] == 'null':
                continue
            items.append(('case',) + c + (shared,))
    S1 = singles(cx, mod, b)
    items += [('single', i) for i in range(len(S1))]
    items.append(('fresh',))

    def one(c, it):
        if it[0] == 'case':
            run(c, mod, b, *it[1:])
        elif it[0] == 'fresh':
            fresh(c, mod, b)
        else:
            simple(c, mod, b, *singles(c, mod, b)[it[1]])
    cx.pmap(items, one)
