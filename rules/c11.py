"""Buffering of the bit stream reader: an inductive invariant, decided on the IR.

The invariant says what the two buffers hold (which bytes of the stream), that the position in the buffer and in the
stream agree, that a read on its way fits what is missing and that nobody waits for a read that was never asked for. It
has to hold after construction, and every operation of the reader, interpreted from every state that satisfies it (the
kinds of states are enumerated, positions, lengths, contents and page size are symbolic), has to preserve it whether it
returns or raises, with every behaviour of the storage (delivering at once, later, at the end, not at all). Loops are
cut at their back edge by the same invariant. While a read is on its way nothing its completion uses may be touched, the
lock it needs may not be held while waiting, and every access has to lie inside the buffers."""
import dom
from dom import C, S, Ptr, isc, cv, zext
from bitlib import *
import bitlib
from c10 import number

LEVEL = 'proof'
FLOOR = 400
DRIVER = bitlib.DRIVER
UNITS = ['mg/core/thread.cpp']
ASSUMPTIONS = [
    'the storage delivers the bytes at its position in order, as modelled (sync, asynchronous, stdio-like end)',
    'pages of at least 5 bytes; one thread uses the stream besides its storage; bytes are read at byte boundaries',
]


def events(cx, A, R, st, op, inst, rule='safety'):
    for e in st.events():
        if e[0] in ('bad', 'oob', 'race', 'uaf', 'doublefree', 'nullderef'):
            w = e[4] if e[0] == 'oob' else e[-1] if e[0] in ('bad', 'race') else e[1]
            cx.ob(rule, inst, False, w, '%s: %s (%s)' % (op, show_event(A, e) if e[0] in ('bad', 'oob', 'race') else e[0], inst), e[0] + '|' + op)
            return
    cx.ob(rule, inst, True)


def common(cx, A, R, mode, op, inst, outs):
    cx.ob('ends', inst, any(o.kind in ('ret', 'throw') for o in outs), R.where, '%s never ends' % op, 'ends|' + op)
    for b, w in getattr(A, 'cut_bad', ()):
        cx.ob('loop-invariant', inst, False, w, '%s: %s, inside its loop (%s)' % (op, b, inst), 'loop|%s|%s' % (op, b))
    for o in outs:
        events(cx, A, R, o.st, op, inst)
        if o.kind == 'end':
            continue
        bad = invariant(A, R, o.st, mode)
        cx.ob('invariant', inst, not bad, R.where, 'after %s%s: %s (%s)' % (op, ' raised' if o.kind == 'throw' else '', '; '.join(bad), inst),
              'inv|%s|%s' % (op, ';'.join(bad)))


def run(cx, mod, R, EOD, it):
    op, mode, var, arg = it
    inst = '%s%s, %s (%s)' % (op, '' if arg is None else ' %s' % (arg,), var, mode)
    total = lambda st: dom.scale(st.ghost['T'], 8)

    def go2(fn, args, r=None, cut=False, pre=None, gen={}):
        A = cx.use(Cut(mod, mode, R, **gen) if cut else Stream(mod, mode, R))
        if cut:
            # what was found out about the variables of the loop in an earlier case (checked again in this one)
            A.rel = R.rel.setdefault((op, arg), {})
        if not cut:
            A.sym = 14
        if state(A, R, var, r) is None:
            return None, []

        def init():
            st = state(A, R, var, r)
            if pre:
                pre(A, st)
            return go(A, fn, [Ptr(OBJ)] + args, st)
        return A, init

    def ob(c, st, what):
        cx.ob(op, inst, c, R.where, '%s: %s (%s)' % (op, what, inst), '%s|%s' % (op, what))

    if op in ('getbits', 'nextbits'):
        r, n = arg
        A, init = go2('b_get' if op == 'getbits' else 'b_next', [C(n, 16)], r)
        if A is None:
            return
        outs = A.run(init)
        common(cx, A, R, mode, op, inst, outs)
    elif op in ('atend', 'has_bits'):
        n = C(0, 32) if arg is None else C(arg, 32)
        A, init = go2('b_eof' if op == 'atend' else 'b_has', [] if op == 'atend' else [n])
        if A is None:
            return
        outs = A.run(init)
        common(cx, A, R, mode, op, inst, outs)
        for o in outs:
            f, g = o.st.facts, o.st.ghost
            ob(o.kind == 'ret', o.st, 'raises')
            if o.kind != 'ret':
                continue
            for truth in (0, 1):
                s = o.st.copy()
                if o.val.w != 1:
                    return ob(False, s, 'answer not understood')
                if not A.assume(s, dom.cmp('eq', o.val, C(truth, 1)), True) or s.facts.contra():
                    continue
                need = dom.add(g['tot0'], C(1 if arg is None else arg, 64))
                inside = s.facts.ule(need, total(s))
                outside = s.facts.ult(total(s), need)
                if op == 'atend':
                    ob(outside if truth else inside, s, 'reports the end before the data was consumed' if truth else 'does not report the end of the data')
                else:
                    ob(inside if truth else outside, s, 'promises bits that are not there' if truth else 'denies bits that are there')
            ob(o.st.facts.eq(cellv(A, o.st, R.tot), g['tot0']), o.st, 'moves the position')
    elif op == 'skip':
        n = S('n', 16, 0, 32767)
        A, init = go2('b_skip', [n], None, True)
        if A is None:
            return
        outs = A.run(init)
        common(cx, A, R, mode, op, inst, outs)
        for o in outs:
            f, g = o.st.facts, o.st.ghost
            ob(o.kind == 'ret', o.st, 'raises')
            if o.kind != 'ret':
                continue
            t = cellv(A, o.st, R.tot)
            want = dom.add(g['tot0'], zext(n, 64))
            ob(f.eq(t, want) and f.ule(want, total(o.st)) or f.eq(t, total(o.st)) and f.ule(total(o.st), want), o.st,
               'ends at another position than n bits further (or the end of the data)')
    elif op == 'align':
        n, c, r = arg
        A, init = go2('b_align', [C(n, 32)], r, pre=lambda A, st: modn(A, R, st, n, c))
        if A is None:
            return
        outs = A.run(init)
        common(cx, A, R, mode, op, inst, outs)
        z = (-(8 * c + r)) % n
        for o in outs:
            f, g = o.st.facts, o.st.ghost
            want = dom.add(g['tot0'], C(z, 64))
            if o.kind == 'ret':
                ob(f.eq(o.val, C(z, 32)), o.st, 'returns another number of bits than it skipped')
                ob(f.eq(cellv(A, o.st, R.tot), want) and f.ule(want, total(o.st)), o.st, 'does not end at the boundary')
            elif o.kind == 'throw':
                e = excnum(o.st, o)
                ob(e is not None and f.eq(e, EOD) and f.ult(total(o.st), want), o.st, 'raises an error although the boundary is inside the data')
    elif op == 'set_position':
        rhs = S('rhs', 64, 0, 1 << 41)
        A, init = go2('b_set_position', [rhs], pre=lambda A, st: A.assume(st, dom.cmp('ule', rhs, st.ghost['T']), True))
        if A is None:
            return
        outs = A.run(init)
        common(cx, A, R, mode, op, inst, outs)
        for o in outs:
            ob(o.kind == 'ret', o.st, 'raises')
            if o.kind == 'ret':
                ob(o.st.facts.eq(cellv(A, o.st, R.tot), dom.scale(rhs, 8)), o.st, 'ends at another position')
    elif op == 'read':
        size = S('size', 32, 0, PMAX)
        GOT = ('got',)

        def pre(A, st):
            g = A.region(st, USER)
            g.size = zext(size, 64)
        A, init = go2('b_read', [Ptr(USER), size, Ptr(GOT)], 0, True, pre, {'r': 0})
        if A is None:
            return
        A.extra = lambda A, st: filled(A, R, st)
        A.regen = lambda A, st: refill(A, R, st)
        outs = A.run(init)
        common(cx, A, R, mode, op, inst, outs)
        for o in outs:
            f, g = o.st.facts, o.st.ghost
            ob(o.kind == 'ret', o.st, 'raises')
            if o.kind != 'ret':
                continue
            t = cellv(A, o.st, R.tot)
            n = zext(A.peek(o.st, Ptr(GOT), 4), 64)
            ob(f.eq(dom.scale(n, 8), dom.sub(t, g['tot0'])), o.st, 'the number of bytes reported is not what the position moved')
            ob(f.eq(n, zext(size, 64)) or f.eq(t, total(o.st)) and f.ule(n, zext(size, 64)), o.st, 'reads less than asked for before the end of the data')
            for b in filled(A, R, o.st):
                ob(False, o.st, b)
    elif op == 'nextcode':
        n, alen = arg
        A, init = go2('b_nextcode', [S('code', 32), C(n, 32), C(alen, 32)], 0 if alen else None, True, None, {'r': 0} if alen else {})
        if A is None:
            return
        outs = A.run(init)
        common(cx, A, R, mode, op, inst, outs)
        for o in outs:
            f, g = o.st.facts, o.st.ghost
            if o.kind == 'ret':
                d = dom.sub(cellv(A, o.st, R.tot), g['tot0'])
                ob(f.eq(o.val, dom.trunc(d, 32)), o.st, 'returns another number of bits than it skipped')
            elif o.kind == 'throw':
                e = excnum(o.st, o)
                ob(e is not None and f.eq(e, EOD), o.st, 'raises another error than the end of the data')


def modn(A, R, st, n, c):
    """the position is c bytes after a multiple of n bits"""
    g = st.ghost
    q = S('q', 64, 0, 1 << 40)
    # K + k = (n/8) q + c : K is replaced
    k = dom.lshr(g['cur'], C(3, 64))
    A.assume(st, dom.cmp('eq', dom.add(g['K'], k), dom.add(dom.scale(q, n // 8), C(c, 64))), True)
    t = dom.add(dom.scale(q, n), C(8 * c + (cv(dom.and_(g['cur'], C(7, 64)))), 64))
    A.poke(st, Ptr(OBJ, C(R.tot[0], 64)), 8, t)


def filled(A, R, st):
    """what was read so far is in the caller's memory"""
    g = st.ghost
    n = dom.lshr(dom.sub(cellv(A, st, R.tot), g['tot0']), C(3, 64))
    p0 = dom.lshr(g['tot0'], C(3, 64))
    i = S('ui', 64, 0, PMAX)
    s = st.copy()
    if not A.assume(s, dom.cmp('ult', dom.scale(i, 8), dom.sub(cellv(A, st, R.tot), g['tot0'])), True) or s.facts.contra():
        return []
    for s2, v in A.read_cases(s, USER, i):
        ok = v.op == 's' and v.a[0][0] == 'v' and v.a[0][1] == DATA and \
            s2.facts.eq(v.a[0][3] if isinstance(v.a[0][3], dom.T) else C(v.a[0][3], 64), dom.add(p0, i))
        if not ok:
            return ['the bytes read are not those of the stream']
    return []


def refill(A, R, st):
    g = st.ghost
    d = dom.sub(cellv(A, st, R.tot), g['tot0'])
    c0, dd = dom.lin_parts(d)
    n = dom.mklin(bitlib._sg(c0) // 8, {x: bitlib._sg(y) // 8 for x, y in dd.items()}, 64)
    r = A.region(st, USER).clone()
    r.layers = (('copy', C(0, 64), n, A.region(st, DATA), dom.lshr(g['tot0'], C(3, 64))),)
    r.gen = st.fresh()
    st.mem[USER] = r
    return True


def construction(cx, mod, R, mode):
    A = cx.use(Stream(mod, mode, R))
    inst = 'construction (%s)' % mode

    def init():
        st = State()
        T = S('T', 64, 0, 1 << 41)
        st.ghost.update(pos=C(0, 64), T=T, K=C(0, 64), cur=C(0, 64), tot0=C(0, 64), hit=False, pend=None, sig=False, incb=False)
        A.start('b_new', [Ptr(OBJ), Ptr(HND), Ptr(STO), R.page, C(1, 1)], st)
        return st
    outs = A.run(init)
    cx.anchor(outs, 'construction of a reader')
    for o in outs:
        cx.ob('construction', inst, o.kind == 'ret', R.where, 'the construction of a reader fails', 'new')
        if o.kind != 'ret':
            continue
        events(cx, A, R, o.st, 'construction', inst)
        # the object found here is the one the invariant talks about
        R2 = bitlib.same_layout(A, R, o.st)
        bad = invariant(A, R2, o.st, mode)
        cx.ob('construction', inst, not bad, R.where, 'after construction: %s (%s)' % ('; '.join(bad), mode), 'new|' + ';'.join(bad))


def destruction(cx, mod, R, mode, var):
    A = cx.use(Stream(mod, mode, R))
    inst = 'destruction, %s (%s)' % (var, mode)
    if state(A, R, var) is None:
        return
    for o in A.run(lambda: go(A, 'b_del', [Ptr(OBJ)], state(A, R, var))):
        events(cx, A, R, o.st, 'destruction', inst)
        cx.ob('destruction', inst, o.kind == 'ret', R.where, 'the destruction of a reader raises', 'del')
        if o.kind == 'ret':
            cx.ob('destruction', inst, not o.st.ghost.get('pend'), R.where, 'a reader is destroyed while a read is on its way', 'del-pending')
            for off, rid in R.bufs.items():
                if rid[0] == 'h' and 'new' in str(rid) and rid in (R.buf[1], R.shadow[1]):
                    cx.ob('destruction', inst, not A.region(o.st, rid).alive, R.where, 'a buffer of the reader is not released', 'del-leak')


def check(cx):
    mod = cx.build(UNITS, DRIVER)
    R = learn(cx, mod)
    R.where = ('src/mg/core/bitstream.h', 0)
    footprint(cx, mod, R)
    loaded(cx, mod, R)
    EOD = number(cx, mod, 'k_eod')
    items = []
    for mode in MODES:
        items.append(('new', mode, None, None))
        for var in MODES[mode]:
            items.append(('del', mode, var, None))
            for r, n in ((0, 8), (3, 32), (7, 1), (5, 17), (0, 32)) if not cx.thorough else [(r, n) for r in range(8) for n in range(1, 33, 3)]:
                items.append(('getbits', mode, var, (r, n)))
                if not cx.thorough and n == 32:
                    items.append(('nextbits', mode, var, (r, n)))
            items.append(('atend', mode, var, None))
            for n in (0, 1, 8, 32):
                items.append(('has_bits', mode, var, n))
            items.append(('skip', mode, var, None))
            for n, c, r in ((8, 0, 0), (8, 0, 3), (16, 1, 0), (32, 0, 5), (32, 2, 0)) + (((64, 3, 1), (32, 3, 7), (16, 0, 1)) if cx.thorough else ()):
                items.append(('align', mode, var, (n, c, r)))
            items.append(('set_position', mode, var, None))
            items.append(('read', mode, var, None))
            for a in ((24, 0), (32, 8)) if not cx.thorough else ((24, 0), (8, 0), (32, 8), (16, 32)):
                items.append(('nextcode', mode, var, a))

    def work(cx, it):
        if it[0] == 'new':
            construction(cx, mod, R, it[1])
        elif it[0] == 'del':
            destruction(cx, mod, R, it[1], it[2])
        else:
            run(cx, mod, R, EOD, it)
    R.rel = {}
    first = [next(it for it in items if it[0] == op and it[1] == 'sync' and it[2] == 'end in the second buffer') for op in ('skip', 'read', 'nextcode')]
    for it in first:
        work(cx, it)
        items.remove(it)
    cx.pmap(items, work)
