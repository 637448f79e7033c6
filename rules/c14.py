"""Splitting and replacing: the fields are the text between the separators.

The splitter is interpreted through its real classes over the strings of rule C13 (symbolic texts), down to strstr, which answers
with the first occurrence or none: a sequence of at most three occurrences (two when replacing) at symbolic places. Checked on every
path: the search goes on behind each separator; the number of fields is one more than the separators found; field i is the text between
separator i-1 and i, a text of its own; splitting again forgets the fields before; the text given is not changed and can go."""
import dom
from dom import C, S, Ptr, NULL, isc, cv, zext
from absint import Interp, State, AnalysisError
import c13
from c13 import (Str, learn, generic, user, look, check_text, bad_events, txt, OBJ, OBJ2, USER, OUT, MAX)

LEVEL = 'other'
FLOOR = 60
UNITS = ['mg/core/nx/util.cpp']
DRIVER = '#include "mgcore.h"\n#include <new>\nusing namespace mg::core;\nextern "C" {\n' + c13.OPS + r'''
void p_new(Csplitter* w) { new (w) Csplitter(); }
void p_make(Csplitter* w, const char* t, const char* s) { new (w) Csplitter(t, s); }
void p_makes(Csplitter* w, Cstring* t, Cstring* s) { new (w) Csplitter(*t, *s); }
void p_split(Csplitter* w, const char* t, const char* s) { w->split(t, s); }
size_t p_count(Csplitter* w) { return w->getCount(); }
void p_at(Cstring* o, Csplitter* w, size_t i) { new (o) Cstring((*w)[i]); }
void p_text(Cstring* o, Csplitter* w) { new (o) Cstring(w->getInternalString()); }
void p_del(Csplitter* w) { w->~Csplitter(); }
void q_once(Csplitter* w, const char* t, const char* s) { new (w) Csplitter(t, s); }
void q_strings(Csplitter* w, Cstring* t, Cstring* s) { new (w) Csplitter(*t, *s); }
void q_twice(Csplitter* w, const char* t, const char* s, const char* t0) { new (w) Csplitter(t0, s); w->split(t, s); }
void q_null(Csplitter* w, const char* t, const char* s) { new (w) Csplitter(t, s); w->split((const char*)0, s); }
void q_replace(Cstring* o, const char* t, const char* in, const char* out) { new (o) Cstring(replace(t, in, out)); }
}
'''
ASSUMPTIONS = ['texts below 2^30 bytes', 'strstr finds the first occurrence', 'at most three separators on a path, two when replacing (the loop treats each alike)']
W = ('src/mg/splitter.h', 0)
SP, IN, TXT0 = ('a', 'splitter'), ('a', 'replacement'), ('a', 'text before')


class Split(Str):
    def symunroll(self, f, h):
        return 1000


def check(cx):
    mod = cx.build(UNITS, DRIVER)
    b = learn(cx, mod)

    class Lim(Split):
        def __init__(self, mod, throws):
            Split.__init__(self, mod, throws)
            self.max_steps = 60000000
            self.max_states = 400000
            self.hook(r'mg::core::CBuffer<char, unsigned long>::prepare\(unsigned long\)', self.prepare)

        def prepare(self, A, st, ins, a, n):
            # room is made in place (what prepare does is decided by C12 and C13)
            q = A.to_ptr(st, a[0])
            at = lambda c: Ptr(q[0], dom.add(q[1], C(c[0], 64)))
            cur, cap = A.peek(st, at(b.full), 8), A.peek(st, at(b.cap), 8)
            rid, off = A.to_ptr(st, A.peek(st, at(b.get), 8, True))
            more = C(1 << 40, 64)
            if isc(cap) and cv(cap) == 1 << 40:
                return ()
            new = dom.sub(more, cap)
            r = A.region(st, rid).clone()
            r.size = more
            r.layers = r.layers + (('set', cap, new, C(0, 8)),)
            st.mem[rid] = r
            A.poke(st, at(b.cap), 8, more)
            return ()

    def mk(throws=False):
        A = cx.use(Lim(mod, throws))
        return A

    def scen(cx, it):
        name, sep = it
        inst = '%s, %s separator' % (name, sep)
        A = mk('alloc' in name)
        fn = name.split()[0]
        A.maxfinds = (4 if fn == 'once' else 3) if cx.thorough else 2 if fn in ('replace', 'twice') else 3

        def init():
            st = State()
            m = user(A, st)
            k = C(0, 64) if sep == 'empty' else S('separator', 64, 1, MAX)
            user(A, st, IN, 'in')
            user(A, st, ('a', 'the separator'), 'sep', k)
            if fn == 'twice':
                user(A, st, TXT0, '0')
            keep = {USER, ('a', 'the separator'), IN, TXT0}
            st.ghost['keep'] = keep
            if fn == 'strings':
                st = generic(A, b, mod, OBJ, 't', st)
                st = generic(A, b, mod, OBJ2, 's', st)
                if sep != 'empty':
                    A.assume(st, dom.cmp('ult', C(0, 64), st.ghost[('str', OBJ2)][1]), True)
                else:
                    A.assume(st, dom.cmp('eq', C(0, 64), st.ghost[('str', OBJ2)][1]), True)
                args = [Ptr(SP), Ptr(OBJ), Ptr(OBJ2)]
            elif fn == 'replace':
                args = [Ptr(OUT), Ptr(USER), Ptr(IN), Ptr(('a', 'the separator'))]
            elif fn == 'twice':
                args = [Ptr(SP), Ptr(USER), Ptr(('a', 'the separator')), Ptr(TXT0)]
            elif fn == 'null':
                args = [Ptr(SP), Ptr(USER), Ptr(('a', 'the separator'))]
            else:
                args = [Ptr(SP), Ptr(USER), Ptr(('a', 'the separator'))]
            A.start('q_' + fn, args, st)
            return st
        outs = A.run(init)

        def ob(rule, ok, what):
            cx.ob(rule, inst, ok, W, '%s: %s' % (inst, what), 'C14|%s|%s' % (fn, what))
        counts = set()
        for o in outs:
            st = o.st
            st.frames = []
            if not bad_events(cx, A, o, ob, inst) or o.kind == 'end':
                continue
            if o.kind == 'throw':
                ob('raises', any(e[0] == 'badalloc' for e in st.events()), 'raises without a reason')
                continue
            f = st.facts
            src = (st.ghost[('str', OBJ)][0] if fn == 'strings' else USER)
            ln = st.ghost[('text', src)]
            sln = st.ghost[('str', OBJ2)][1] if fn == 'strings' else st.ghost[('text', ('a', 'the separator'))]
            ev = [e for e in st.events() if e[0] == 'strstr']
            if fn == 'twice':
                # the last run of the searches, which begins at the start of the second text
                cut = [i for i, e in enumerate(ev) if i == 0 or ev[i - 1][3] is None]
                if sep != 'empty':
                    ob('search', len(cut) == 2, 'does not search each of the texts to its end')
                    ev = ev[cut[-1]:] if cut else []
            places, frm = [], C(0, 64)
            base = ev[0][1] if ev else None
            for e in ev:
                ob('search', e[1][0] == base[0] and f.eq(dom.sub(e[1][1], base[1]), frm) and f.eq(dom.add(frm, e[1][2]), ln) and f.eq(e[2][2], sln),
                   'does not go on behind the separator')
                if e[3] is not None:
                    places.append(dom.add(frm, e[3]))
                    frm = dom.add(places[-1], sln)
            if sep != 'empty':
                ob('search', bool(ev) and ev[-1][3] is None, 'stops before the last separator')
            if sep == 'empty':
                places = []
            fields, at = [], C(0, 64)
            for p in places:
                fields.append((src, at, dom.sub(p, at)))
                at = dom.add(p, sln)
            fields.append((src, at, dom.sub(ln, at)))
            if fn == 'null':
                fields = []
            counts.add(len(fields))
            if fn == 'replace':
                pcs = [fields[0]]
                for x in fields[1:]:
                    pcs += [(IN, C(0, 64), st.ghost[('text', IN)]), x]
                check_text(cx, A, b, mod, st, OUT, pcs, ob, 'the text')
                continue

            def call(g, args, s):
                D = Lim(mod, False)
                s = s.copy()
                D.start(g, args, s)
                r = D.run(lambda: s)
                for x in r:
                    x.st.frames = []
                return r
            r = call('p_count', [Ptr(SP)], st)
            ob('count', len(r) == 1 and r[0].kind == 'ret' and f.eq(r[0].val, C(len(fields), 64)), 'the number of fields is not one more than the separators')
            for i, x in enumerate(fields):
                r = call('p_at', [Ptr(OUT), Ptr(SP), C(i, 64)], st)
                rets = [q for q in r if q.kind == 'ret']
                ob('field', bool(rets) and len(rets) == len(r), 'a field cannot be taken')
                for q in rets:
                    check_text(cx, A, b, mod, q.st, OUT, [x], ob, 'a field')
                    l = look(A, b, mod, q.st, OUT)
                    ob('own', isinstance(l, tuple) and l[0][0] not in {y for y in st.mem}, 'a field is no text of its own')
            if fn != 'null':
                for q in call('p_text', [Ptr(OUT), Ptr(SP)], st):
                    check_text(cx, A, b, mod, q.st, OUT, [(src, C(0, 64), ln)], ob, 'the text kept')
            for q in call('p_del', [Ptr(SP)], st):
                ob('released', q.kind == 'ret' and not [e for e in q.st.events() if e[0] in ('uaf', 'doublefree', 'bad-free')], 'the destruction fails')
                left = [rr for rr, reg in q.st.mem.items() if rr[0] == 'h' and reg.alive and rr not in (
                    {g for k, g in ((k, v[0]) for k, v in q.st.ghost.items() if isinstance(k, tuple) and k[0] == 'str')})]
                if fn != 'strings':
                    ob('released', not left, 'memory is kept after the destruction')
        want = {1} if sep == 'empty' else {0} if fn == 'null' else set(range(1, 2 + A.maxfinds)) if fn != 'twice' else {1, 2}
        cx.ob('covered', inst, counts >= want, W, '%s: results with %s fields, not with %s' % (inst, sorted(counts), sorted(want)), 'C14|covered|' + fn)
    items = [('once', 'any'), ('once', 'empty'), ('strings', 'any'), ('strings', 'empty'), ('twice', 'any'), ('twice', 'empty'), ('null', 'any'), ('replace', 'any'),
             ('replace', 'empty'), ('once alloc', 'any')]
    cx.pmap(items, scen)
