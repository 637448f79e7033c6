"""Lock-set monitor: objects that contain a mutex are accessed only while that mutex is held."""
from dom import isc, cv

MSZ = 40


def attach(A, hits, skip=lambda st, reg, off: False):
    """hits collects (loc, what, rid, off) for accesses of guarded bytes with the lock not held"""
    def init_mutex(st):
        return {e for e in st.ghost if e[0] == 'guard'}

    def note(A, st, reg, off, n, v, ins, at):
        g = A._guards.get(reg.rid)
        if not g or st.ghost.get(('guard', reg.rid)) != 1:
            return
        if at:
            return
        o = cv(off) if isc(off) else None
        for m in g:
            # the lock object itself (vptr + mutex) is not guarded
            if o is not None and m - 8 <= o < m + MSZ:
                return
        if skip(st, reg, o):
            return
        A.guarded += 1
        if not any(st.ghost.get(('lock', reg.rid, m), 0) > 0 for m in g):
            hits.append((A.loc(st, ins), ins.op if ins is not None else '?', reg.rid, o))
    A._guards = {}
    A.guarded = 0
    A.on_load.append(note)
    A.on_store.append(note)
    return note


def learn(A, st):
    """mutexes initialised so far"""
    for e in st.events():
        if e[0] == 'init' and 'mutex_init' in e[1] and e[2].op == 'ptr' and isc(e[2].a[1]):
            A._guards.setdefault(A.canon(st, e[2].a[0]), set()).add(cv(e[2].a[1]))
