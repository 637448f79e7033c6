"""Promise state is touched only under the promise's own lock, and every lock taken is released on every exit.
Lock-set analysis over all interpreted orders of registration, chaining and completion (callbacks may throw): each load
and store of the promise object outside its mutex must happen with the mutex held, from the end of construction to the
start of destruction; at every return and every exceptional exit no mutex is left held and none is released twice."""
import promise_scn as ps
import lockmon
import models
import c03
from dom import Ptr, isc, cv

LEVEL = 'proof'
ASSUMPTIONS = ['the recursive mutex provides mutual exclusion']
FLOOR = 60


def check(cx):
    seqs = ps.sequences(cx.thorough)
    if not cx.thorough:
        seqs = [q for q in seqs if len(q) <= 3 or q in ('FESV', 'SFEV', 'VSEF', 'EFXS', 'SAVE'[:3])]
    mod = cx.build(['mg/core/thread.cpp'], ps.driver(seqs))
    total = 0
    for q in seqs + ['has', 'hasnot']:
        A = ps.interp(cx, mod)
        hits = []
        note = lockmon.attach(A, hits)
        # a constructed object becomes guarded when its mutex is initialised, until it is destroyed

        def onev(A, st, ins, args, n):
            r, o = A.to_ptr(st, args[0])
            A._guards.setdefault(r, set()).add(cv(o))
            st.ghost[('guard', r)] = 1
            from dom import C
            return C(0, 32)
        A.hooks.insert(0, (__import__('re').compile('pthread_mutex_init|uv_mutex_init.*'), onev))

        def ondes(A, st, ins, args, n):
            r, o = A.to_ptr(st, args[0])
            st.ghost[('guard', r)] = 0
            return () if ins.ty.k == 'void' else __import__('dom').C(0, 32)
        A.hooks.insert(0, (__import__('re').compile('pthread_mutex_destroy|uv_mutex_destroy'), ondes))
        A.hookcache = {}
        outs = c03.run_seq(A, 'sq_' + q, 2 if q.startswith('has') else 3)
        cx.anchor(A._guards, 'promise mutex initialisation')
        total += A.guarded
        by = {}
        for loc, op, rid, off in hits:
            by.setdefault((loc, op), 0)
        for (loc, op) in by:
            cx.ob('under-lock', '%s: %s at %s:%d' % (q, op, loc[0], loc[1]), False, loc,
                  '%s of promise state without holding the promise lock (order %s)' % (op, q if q.startswith('has') else c03.pretty(q)),
                  'C04|unlocked|' + op)
        if not hits:
            cx.ob('under-lock', '%s: %d accesses' % (q, A.guarded), True)
        for o in outs:
            if o.kind == 'end':
                continue
            un = models.unbalanced(o.st)
            last = [e for e in o.st.events() if e[0] == 'lock']
            cx.ob('balanced', '%s exit by %s' % (q, o.kind), not un, last[-1][3] if last and un else None,
                  'order %s: a lock is left with depth %s when the operation exits by %s' % (
                      q, [d for k, d in un], 'exception' if o.kind == 'throw' else 'return'), 'C04|balance|' + o.kind)
            neg = [e for e in o.st.events() if e[0] == 'unlock' and e[2] < 0]
            cx.ob('no-foreign-unlock', '%s exit by %s' % (q, o.kind), not neg, neg[0][3] if neg else None,
                  'order %s: a lock is released that is not held' % q, 'C04|unlock')
    cx.anchor(total > 500, 'guarded accesses (%d)' % total)
    cx.notes.append('%d guarded accesses examined' % total)
