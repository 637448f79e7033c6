"""The share count of a resource is updated safely from several threads: in every handle operation on an existing
block, each access to the count cell (found through the public count()) is an atomic read-modify-write, and the
decision to destroy is taken on the value that read-modify-write itself returned (no separate second read).
Checked on every abstract access that reaches the cell, in every path of every handle operation."""
import dom
from dom import C, S, Ptr, cv, isc
from absint import State
import c01
from c01 import Scene, OPS, nm, vtable_of_block, MAXC

LEVEL = 'proof'
ASSUMPTIONS = ['std::atomic read-modify-write operations are atomic']
FLOOR = 12


def check(cx):
    mod = cx.build([], c01.DRIVER)
    sc = Scene(cx, mod)
    sub = type(cx)(cx.pid, cx.tier, cx.here)
    vt = vtable_of_block(sub, sc)
    seen = 0
    for name, fn, this_k, oth in OPS:
        B1, B2 = ('blk', 1), ('blk', 2)
        for t, o in ((B1, B2), (B1, None), (None, B1)) if this_k == 'old' else ((('raw', B1),) if this_k == 'new' else ((B1, 'none'),)):
            A = sc.interp()
            acc = []

            def note(A, st, reg, off, n, v, ins, at):
                if reg.rid in (B1, B2) and isc(off) and cv(off) < sc.coff + sc.cn and cv(off) + n > sc.coff and ins is not None:
                    acc.append((ins.op, at, A.loc(st, ins), ins))
            A.on_load.append(note)
            A.on_store.append(lambda A, st, reg, off, n, v, ins, at: note(A, st, reg, off, n if isinstance(n, int) else 8, v, ins, at))

            def init():
                st = State()
                for b in (t, o):
                    if isinstance(b, tuple):
                        sc.block(A, st, b, 1, MAXC - 2)
                        for off, (n, v) in vt.items():
                            A.poke(st, Ptr(b, C(off, 64)), n, v)
                if t != 'raw':
                    sc.handle(A, st, ('hnd', 1), t)
                if o != 'none':
                    sc.handle(A, st, ('hnd', 2), o)
                A.start(fn, [Ptr(('hnd', 1))] + ([Ptr(('hnd', 2))] if o != 'none' else []), st)
                return st
            A.run(init)
            inst = '%s this=%s other=%s' % (name, nm(t), nm(o))
            cx.anchor(acc, 'access to the share count in ' + inst)
            cas = any(a[0] == 'cmpxchg' for a in acc)
            sites = {}
            for op, at, loc, ins in acc:
                sites.setdefault((loc, op, at), 0)
                sites[(loc, op, at)] += 1
            for (loc, op, at), k in sites.items():
                seen += 1
                rmw = op in ('atomicrmw', 'cmpxchg')
                okk = rmw or (at and cas)
                why = 'is not atomic' if not at else 'is a second, separate read: another thread may change the count in between'
                cx.ob('atomic-count', '%s at %s:%d (%s)' % (inst, loc[0], loc[1], op), okk, loc,
                      '%s: %s of the share count %s' % (name, 'read' if op == 'load' else 'write' if op == 'store' else op, why),
                      'C02|%s|%s' % (name, op))
    # positive control: the rule's access filter sees the count() read itself
    A = sc.interp()
    hits = []
    A.on_load.append(lambda A, st, reg, off, n, v, ins, at: hits.append(1) if isc(off) and cv(off) == sc.coff and n == sc.cn else None)
    A.run(lambda: A.start('sc_count', [Ptr(('hnd', 9))]))
    cx.control('count() read is seen', bool(hits))
