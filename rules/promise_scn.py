"""shared: enumerates every order of registering handlers, chaining and completing a promise, as C++ scenarios that are
abstractly interpreted (never run)."""
from itertools import permutations, combinations
import dom
from dom import C, S, Ptr, mk, isc, cv
from absint import Interp, State
import models

HEAD = r'''
#include "mgcore.h"
using namespace mg::core;
struct Payload { Payload(); ~Payload(); int v; };
template class mg::core::CResource<Payload>;
template class mg::core::CPromise<Payload>;
typedef CPromise<Payload> P;
typedef CResource<Payload> H;
extern "C" { void seen_cb(int who, Payload* p); bool seen_er(int who, std::exception_ptr* e); void started(P* p); void step(int i); void finished(); }
struct CB { int who; void operator()(H& r) const { seen_cb(who, (Payload*)r); } };
struct ER { int who; bool operator()(std::exception_ptr e) const { return seen_er(who, &e); } };
inline CB mkcb(int i) { CB c; c.who = i; return c; }
inline ER mker(int i) { ER c; c.who = i; return c; }
'''
OPS = {
    'S': 'p->set_cb(mkcb(1));',
    'E': 'p->set_er(mker(1));',
    'D': 'p->set_er();',
    'F': 'f = p->forward(); f->set_cb(mkcb(2)); f->set_er(mker(2));',
    'A': 'f = p->forward(true); f->set_cb(mkcb(2));',
    'V': 'p->call_cb(*v);',
    'X': 'p->call_er(*e);',
}


def sequences(thorough):
    out = []
    kinds = [('E', 'F'), ('D', 'F'), ('E', 'A')] if thorough else [('E', 'F'), ('D', 'F'), ('E', 'A')]
    seen = set()
    for er, fw in kinds:
        for comp in 'VX':
            for k in range(0, 4):
                for sub in combinations(['S', er, fw], k):
                    for pm in permutations(list(sub) + [comp]):
                        if pm not in seen:
                            seen.add(pm)
                            out.append(''.join(pm))
    return out


def driver(seqs):
    t = HEAD + 'extern "C" {\n'
    for q in seqs:
        body = ''.join('step(%d); %s ' % (i, OPS[c]) for i, c in enumerate(q))
        t += 'void sq_%s(void* w, H* v, std::exception_ptr* e) { P* p = new (w) P(); CResource<P> f; started(p); %s finished(); }\n' % (q, body)
    t += 'bool sq_has(void* w, H* v) { P* p = new (w) P(); started(p); p->call_cb(*v); return p->has_value(); }\n'
    t += 'bool sq_hasnot(void* w, H* v) { P* p = new (w) P(); started(p); return p->has_value(); }\n'
    return t + '}\n'


def interp(cx, mod, monitor=None):
    A = cx.use(Interp(mod))
    models.install_std(A)
    models.install_locks(A)

    def cb(A, st, ins, args, n):
        st.ev('cb', cv(args[0]), args[1], A.loc(st, ins))
        s2 = st.copy()
        x = Ptr(('*', 'exc', 'cb%d' % cv(args[0])))
        s2.ev('cb-throws', cv(args[0]), x)
        return [('ret', st, None), ('throw', s2, (x, None))]

    def er(A, st, ins, args, n):
        x = A.peek(st, args[1], 8, True)
        s2 = st.copy()
        w = cv(args[0])
        st.ev('er', w, x, True)
        s2.ev('er', w, x, False)
        return [('ret', st, C(1, 1)), ('ret', s2, C(0, 1))]
    A.hook('seen_cb', cb)
    A.hook('seen_er', er)
    A.hook('started', lambda A, st, ins, args, n: (st.ev('started', args[0]), ())[1])
    A.hook('finished', lambda A, st, ins, args, n: (st.ev('finished'), ())[1])
    A.hook('step', lambda A, st, ins, args, n: (st.ev('step', cv(args[0])), ())[1])
    A.hook(r'Payload::~Payload\(\)', lambda A, st, ins, args, n: ())
    return A


def init(A, fn):
    st = State()
    b = ('pay', 0)
    st.facts.bl[mk('isnull', 1, b)] = False
    # a handle around the payload, built by the program's own constructor, then the sequence
    st.facts.bl[mk('isnull', 1, ('E0',))] = False
    A.poke(st, Ptr(('eptr',)), 8, Ptr(('E0',)))
    return st
