"""Joining streams: all move by the same time, the least by which none begins before its predecessor ends.

`CMediaJoin` is interpreted for every number of streams up to a bound with all times symbols, the standard library's vector and algorithms
included (their code is in the headers); each way the comparisons can go is a path. Checked on each: the difference of joined time and
start is one and the same for all streams, no joined time lies before the end of its stream, one coincides with it; the same after the
streams were asked for again, or computed a second time; nothing outside the vectors is touched and their memory is released."""
import dom
from dom import C, S, Ptr, isc, cv
from absint import Interp, State, AnalysisError, Reg
import models

LEVEL = 'other'
FLOOR = 20
UNITS = ['mg/core/thread.cpp', 'mg/core/uvbase.cpp']
DRIVER = r'''#include "mgcore.h"
#include <new>
using namespace mg::core;
#include "mg/media/MediaJoin.h"
extern "C" {
void j_new(void * w) { new (w) CMediaJoin; }
void j_del(CMediaJoin * j) { j->~CMediaJoin(); }
void j_count(CMediaJoin * j, unsigned long n) { j->SetStreamCount(n); }
unsigned long j_counted(CMediaJoin * j) { return j->GetStreamCount(); }
void j_add(CMediaJoin * j, uint64_t s, uint64_t e) { j->AddStreamEnd(e); j->AddStreamStart(s); }
void j_compute(CMediaJoin * j) { j->Compute(); }
int64_t j_get(CMediaJoin * j, int i) { return j->GetJoinTime(i); }
}
'''
ASSUMPTIONS = ['times are not negative and below 2^60', 'as many starts and ends are given as there are streams, at least one']
AT = ('src/mg/media/MediaJoin.h', 0)
OBJ = ('a', 'join')
MOST = (1 << 60) - 1


class Join(Interp):
    def __init__(self, mod):
        Interp.__init__(self, mod)
        models.install_std(self)
        self.alloc_throws = False
        self.max_steps = 40000000

    def symunroll(self, f, h):
        return 1000


def check(cx):
    mod = cx.build(UNITS, DRIVER)
    for f in ('j_new', 'j_add', 'j_compute', 'j_get'):
        cx.anchor(mod.func(f) is not None, f)

    def one(cx, item):
        n, again = item
        A = cx.use(Join(mod))
        inst = '%d streams%s' % (n, {'': '', 'twice': ', computed twice', 'more': ', others before'}[again])
        ob = lambda rule, ok, what: cx.ob(rule, inst, ok, AT, '%s (%s)' % (what, inst), rule + '|' + what)
        s = [S(('start', i), 64, 0, MOST) for i in range(n)]
        e = [S(('end', i), 64, 0, MOST) for i in range(n)]

        def calls(st, *seq):
            """the states after all of these"""
            sts = [st]
            for fn, args in seq:
                nxt = []
                for x in sts:
                    def mk(x=x):
                        y = x.copy()
                        y.frames = []
                        A.start(fn, args, y)
                        return y
                    for o in A.run(mk):
                        good = o.kind == 'ret' and not any(v[0] in ('uaf', 'nullderef', 'doublefree') for v in o.st.events())
                        ob('compute', good, 'joining fails')
                        if good:
                            o.st.ghost['got'] = o.st.ghost.get('got', ()) + ((fn, o.val),)
                            nxt.append(o.st)
                sts = nxt
            return sts
        st = State()
        st.mem[OBJ] = Reg(OBJ, 'obj', C(512, 64))
        seq = [('j_new', [Ptr(OBJ)]), ('j_count', [Ptr(OBJ), C(n, 64)])] + [('j_add', [Ptr(OBJ), s[i], e[i]]) for i in range(n)]
        seq += [('j_compute', [Ptr(OBJ)])]
        if again == 'twice':
            seq += [('j_compute', [Ptr(OBJ)])]
        if again == 'more':
            m = n - 1
            seq = seq[:2 + m]
            seq[1] = ('j_count', [Ptr(OBJ), C(m, 64)])
            seq += [('j_compute', [Ptr(OBJ)]), ('j_count', [Ptr(OBJ), C(n, 64)]), ('j_add', [Ptr(OBJ), s[m], e[m]]), ('j_compute', [Ptr(OBJ)])]
        sts = calls(st, *seq)
        ob('compute', bool(sts), 'no way through')
        for x in sts:
            x.ghost['got'] = ()
            for y in calls(x, *[('j_get', [Ptr(OBJ), C(i, 32)]) for i in range(n)]):
                f = y.facts
                t = [v for _, v in y.ghost['got']]
                d = [dom.sub(t[i], s[i]) for i in range(n)]
                ob('together', all(d[i] is d[0] or f.eq(d[i], d[0]) for i in range(n)), 'the streams are moved by different times')
                # the longest one
                b = [i for i in range(n) if t[i] is e[i] or f.eq(t[i], e[i])]
                ob('least', bool(b), 'the streams are moved further than needed, or no stream follows its predecessor directly')
                # every other: it moves as far as it needs, or further
                for i in range(n):
                    ok = i in b or any(later(A, y, s, e, i, k) for k in b)
                    ob('after', ok, 'a stream begins before its predecessor ends')
            for y in calls(x, ('j_del', [Ptr(OBJ)])):
                ob('release', all(not r.alive for rid, r in y.mem.items() if rid[0] == 'h'), 'memory is never released')
    most = 4 if cx.thorough else 3
    items = [(n, a) for n in range(1, most + 1) for a in ('', 'twice', 'more') if a != 'more' or n > 1]
    cx.pmap(items, one)


def later(A, st, s, e, i, k):
    """end i - start i <= end k - start k"""
    if i == k:
        return True
    s2 = st.copy()
    c = dom.cmp('sle', dom.sub(e[i], s[i]), dom.sub(e[k], s[k]))
    return s2.facts.decide(c) is True
