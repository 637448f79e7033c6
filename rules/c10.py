"""Bit exactness of the bit stream, decided on the IR of the template instantiated with an abstract storage.

Reader: from an arbitrary state that satisfies the reader's invariant (symbolic position, lengths and contents; the bit
offset inside the byte enumerated 0..7) every operation is interpreted for every width; the value it returns, as a list
of bits over the symbolic bytes of the stream, has to be exactly the n bits of the stream at the position, in the order
the format defines, and the position has to move by exactly n (not at all for the probing operations). The end of the
data is raised exactly when fewer than n bits are left. Writer: from an arbitrary state (symbolic position and contents,
bits after the position zero) every operation is interpreted for every width; the memory after it has to differ from
the memory before in exactly the bits written; flushing hands exactly the whole bytes to the storage, keeps the rest."""
import dom
from dom import C, S, Ptr, isc, cv, zext
from bitlib import *
import bitlib

LEVEL = 'proof'
FLOOR = 3000
DRIVER = bitlib.DRIVER
UNITS = ['mg/core/thread.cpp']
ASSUMPTIONS = [
    'the storage delivers the bytes at its position in order, as modelled (sync, asynchronous, stdio-like end)',
    'pages of at least 5 bytes; widths of 0..32 bits; one thread uses the stream besides its storage',
    'flush and moving a writer are asked for at byte boundaries (what is left of a byte is kept for later)',
]
OPS = {
    # op: (entry, args, moves, signed)
    'getbits': ('b_get', lambda n: [Ptr(OBJ), C(n, 16)], True, False),
    'nextbits': ('b_next', lambda n: [Ptr(OBJ), C(n, 16)], False, False),
    'sgetbits': ('b_sget', lambda n: [Ptr(OBJ), C(n, 16)], True, True),
    'signed next': ('b_nextx', lambda n: [Ptr(OBJ), C(n, 32), C(1, 32)], False, True),
    'unsigned next': ('b_nextx', lambda n: [Ptr(OBJ), C(n, 32), C(0, 32)], False, False),
    'little_getbits': ('b_lget', lambda n: [Ptr(OBJ), C(n, 32)], True, 'little'),
}


def expected(A, st, at, n, how):
    b = streambits(A, st, at, n)
    if how == 'little':
        out = []
        i = 0
        while n - i >= 8:
            out += b[i:i + 8][::-1]
            i += 8
        out += b[i:][::-1]
        return out + [dom.B0] * (32 - n)
    v = asvalue(b, 32)
    if how and n > 1:
        v = v[:n] + [b[0]] * (32 - n)
    return v


def read_case(cx, mod, R, EOD, mode, var, op, r, n):
    fn, args, moves, how = OPS[op]
    A = cx.use(Stream(mod, mode, R))
    A.sym = 6
    st0 = state(A, R, var, r)
    if st0 is None:
        return
    inst = '%s of %d bits at bit %d, %s (%s)' % (op, n, r, var, mode)
    outs = A.run(lambda: go(A, fn, args(n), state(A, R, var, r)))
    cx.ob('completes', inst, any(o.kind in ('ret', 'throw') for o in outs), R.where, 'never ends', 'ends|' + op)
    for o in outs:
        st = o.st
        f = st.facts
        g = st.ghost
        tot0 = dom.add(dom.scale(g['K'], 8), g['cur'])
        need = dom.add(tot0, C(n, 64))
        total = dom.scale(g['T'], 8)
        bad = next((e for e in st.events() if e[0] == 'oob'), None)
        cx.ob('inside-the-buffers', inst, bad is None, bad[4] if bad else R.where, bad and '%s: %s (%s)' % (op, bitlib.show_event(A, bad), inst), 'oob|' + op)
        if o.kind == 'ret':
            cx.ob('enough-data', inst, f.ule(need, total), R.where, '%s returns bits after the end of the data' % op, 'after-end|' + op)
            d = same_bits(A, st, o.val, expected(A, st, tot0, n, how))
            cx.ob('value', inst, d is None, R.where, '%s of %d bits at bit %d of a byte returns something else than the bits of '
                  'the stream (%s; %s)' % (op, n, r, d, var), 'value|' + op)
            t = cellv(A, st, R.tot)
            cx.ob('position', inst, f.eq(t, need if moves else tot0), R.where, '%s of %d bits leaves the position at %s' % (
                op, n, 'something else than n bits further' if moves else 'another place'), 'position|' + op)
        elif o.kind == 'throw':
            e = excnum(st, o)
            cx.ob('end', inst, e is not None and f.eq(e, EOD) and f.ult(total, need), R.where,
                  '%s raises an error although the bits are there, or another error than the end of the data' % op, 'end|' + op)


def invalid_case(cx, mod, R, EINV, op, n):
    fn, args, moves, how = OPS[op]
    A = cx.use(Stream(mod, 'sync', R))
    st0 = state(A, R, 'both buffers full', 3)
    inst = '%s of %d bits' % (op, n)
    w = []
    A.on_store.append(lambda A, s, reg, off, nn, v, ins, at: w.append(A.loc(s, ins)) if reg.rid == OBJ else None)
    outs = A.run(lambda: go(A, fn, args(n), state(A, R, 'both buffers full', 3)))
    for o in outs:
        e = excnum(o.st, o) if o.kind == 'throw' else None
        cx.ob('invalid-width', inst, e is not None and o.st.facts.eq(e, EINV), R.where,
              '%s of %d bits is not refused' % (op, n), 'invalid|' + op)
        t = cellv(A, o.st, R.tot)
        cx.ob('invalid-width', inst + ' moves nothing', o.st.facts.eq(t, cellv(A, st0, R.tot)), R.where,
              'a refused %s moves the position' % op, 'invalid-moves|' + op)


def number(cx, mod, fn):
    A = cx.use(Stream(mod, 'sync', None))

    def init():
        st = State()
        A.start(fn, [], st)
        return st
    (o,) = A.run(init)
    return o.val


# ---- writer
def wstate(A, R, r):
    st = R.st0.copy()
    st.trace = None
    k = S('wk', 64, 0, PMAX)
    A.assume(st, dom.cmp('ule', dom.add(k, C(1 if r else 0, 64)), zext(R.page, 64)), True)
    cur = dom.add(dom.scale(k, 8), C(r, 64))
    K = S('K', 64, 0, 1 << 40)
    if getattr(R, 'mod', None):
        n, c = R.mod
        k = dom.add(dom.scale(S('k4', 64, 0, PMAX), n // 8), C(c, 64))
        K = dom.scale(S('K4', 64, 0, 1 << 40), n // 8)
        A.assume(st, dom.cmp('ule', dom.add(k, C(1 if r else 0, 64)), zext(R.page, 64)), True)
        cur = dom.add(dom.scale(k, 8), C(r, 64))
    tot = dom.add(dom.scale(K, 8), cur)
    A.poke(st, Ptr(OBJ, C(R.cur[0], 64)), 8, cur)
    A.poke(st, Ptr(OBJ, C(R.tot[0], 64)), 8, tot)
    rid = R.buf[1]
    g = A.region(st, rid).clone()
    g.layers = (('copy', C(0, 64), k, A.region(st, OLD), C(0, 64)), ('set', k, g.size, C(0, 8)))
    g.gen = st.fresh()
    st.mem[rid] = g
    if r:
        t = A.read(st, A.region(st, OLD), k, 1)
        A.poke(st, Ptr(rid, k), 1, dom.and_(t, C(0xff & ~(0xff >> r), 8)))
    st.ghost.update(k=k, cur=cur, tot=tot, K=K, r=r, pos=K, T=C(1 << 41, 64), pend=None, sig=True)
    return st


OLD = ('old',)


def oldbyte(A, st, j, r):
    """bits (msb first) of byte k+j of the buffer before the operation"""
    if j == 0 and r:
        t = A.read(st, A.region(st, OLD), st.ghost['k'], 1)
        BYTES[t.id] = t
        b = dom.bits(t)[::-1]
        return b[:r] + [dom.B0] * (8 - r)
    return [dom.B0] * 8


def check(cx):
    mod = cx.build(UNITS, DRIVER)
    R = learn(cx, mod)
    footprint(cx, mod, R)
    import re
    fns = [f for f in mod.defined_names()]
    R.where = ('src/mg/core/bitstream.h', 0)
    EOD = number(cx, mod, 'k_eod')
    EINV = number(cx, mod, 'k_inv')
    items = []
    for mode in MODES:
        for var in MODES[mode]:
            full = mode == 'sync' and var == 'both buffers full'
            for op in OPS:
                for r in range(8):
                    if full and op in ('getbits', 'little_getbits') or cx.thorough:
                        ns = range(0, 33)
                    elif full:
                        ns = (0, 1, 2, 7, 8, 9, 15, 16, 17, 24, 25, 26, 31, 32)
                    elif op == 'getbits':
                        ns = ((r * 5 + 1) % 33, 32)
                    elif op == 'little_getbits' and r in (0, 5):
                        ns = (27,)
                    else:
                        continue
                    items.append((mode, var, op, r, tuple(ns)))

    def work(cx, it):
        mode, var, op, r, ns = it
        for n in ns:
            read_case(cx, mod, R, EOD, mode, var, op, r, n)
    for op in ('getbits', 'nextbits', 'sgetbits', 'signed next'):
        for n in (-1, 33, -32768 if 'bits' in op else -2**31, 100, 32767 if 'bits' in op else 2**31 - 1):
            invalid_case(cx, mod, R, EINV, op, n)
    cx.pmap(items, work)
    writer(cx, mod)


WOPS = {
    'putbits': ('b_put', lambda v, n: [Ptr(OBJ), v, C(n, 16)]),
    'little_putbits': ('b_lput', lambda v, n: [Ptr(OBJ), v, C(n, 32)]),
}


def appended(op, v, n):
    b = dom.bits(v)
    if op == 'putbits':
        return b[:n][::-1]
    out = []
    i = 0
    while n - i >= 8:
        out += b[i:i + 8][::-1]
        i += 8
    return out + b[i:n][::-1]


def bytes_of(bl):
    """bits first bit first -> byte values (lists lsb first), the last one filled with zeros"""
    out = []
    for i in range(0, len(bl), 8):
        x = bl[i:i + 8]
        x = x + [dom.B0] * (8 - len(x))
        out.append(x[::-1])
    return out


def holds(A, st, rid, at, want):
    """the byte at `at` of region rid has the bits `want`"""
    for s, v in A.read_cases(st, rid, at):
        if same_bits(A, s, v, want) is not None:
            return False
    return True


def zero_from(A, st, rid, at):
    """all bytes of the region from `at` on are zero"""
    i = S('zi', 64, 0, 1 << 40)
    s = st.copy()
    if not A.assume(s, dom.cmp('ule', at, i), True) or not A.assume(s, dom.cmp('ult', i, A.region(s, rid).size), True) or s.facts.contra():
        return True
    for s2, v in A.read_cases(s, rid, i):
        if not s2.facts.eq(v, C(0, 8)):
            return False
    return True


def old_until(A, st, rid, k):
    """bytes [0, k) are the old ones"""
    i = S('oi', 64, 0, 1 << 40)
    s = st.copy()
    if not A.assume(s, dom.cmp('ult', i, k), True) or s.facts.contra():
        return True
    for s2, v in A.read_cases(s, rid, i):
        ok = v.op == 's' and v.a[0][0] == 'v' and v.a[0][1] == OLD and \
            s2.facts.eq(v.a[0][3] if isinstance(v.a[0][3], dom.T) else C(v.a[0][3], 64), i)
        if not ok:
            return False
    return True


def after_write(A, R, st, bits, direct=None):
    """compare memory and storage after the operation with 'the old bits, then `bits`'; the list of what differs"""
    g = st.ghost
    f = st.facts
    bad = []
    r, k = g['r'], g['k']
    rid = R.buf[1]
    t0 = A.read(st, A.region(st, OLD), k, 1)
    BYTES[t0.id] = t0
    stream = dom.bits(t0)[::-1][:r] + bits
    by = bytes_of(stream)
    whole = len(stream) // 8
    ws = [e for e in st.events() if e[0] == 'sto-write']
    if direct is not None:
        if not ws or ws[-1][1] is not direct[0] or not f.eq(ws[-1][2], direct[1]):
            return ['the bytes given are not handed to the storage']
        ws = ws[:-1]
    done = 0
    base = k
    for w, e in enumerate(ws):
        p, ln = e[1], zext(e[2], 64)
        if p.op != 'ptr' or p.a[0] != rid or not f.eq(p.a[1], C(0, 64)):
            return ['something else than the buffer is handed to the storage']
        js = [j for j in range(whole - done + 1) if f.eq(ln, dom.add(base, C(j, 64)))]
        if not js:
            return ['flushing does not hand over the whole bytes']
        s2 = st.copy()
        s2.mem = dict(g[('written', w + 1)])
        if w == 0 and not old_until(A, s2, rid, k):
            bad.append('what is handed to the storage is not what was written before')
        for j in range(js[0]):
            if not holds(A, s2, rid, dom.add(base, C(j, 64)), by[done + j]):
                bad.append('byte %d handed to the storage is wrong' % (done + j))
        done += js[0]
        base = C(0, 64)
    if ws:
        pass
    elif not old_until(A, st, rid, k):
        bad.append('bytes written before are changed')
    for j in range(done, len(by)):
        if not holds(A, st, rid, dom.add(base, C(j - done, 64)), by[j]):
            bad.append('byte %d of the output is wrong' % j)
    if not zero_from(A, st, rid, dom.add(base, C(len(by) - done, 64))):
        bad.append('bits after the position are not zero')
    want = dom.add(dom.scale(base, 8), C(len(stream) - 8 * done, 64))
    if not f.eq(cellv(A, st, R.cur), want):
        bad.append('the position in the buffer is wrong')
    n = dom.scale(zext(direct[1], 64), 8) if direct is not None else C(len(bits), 64)
    if not f.eq(cellv(A, st, R.tot), dom.add(g['tot'], n)):
        bad.append('the position in the stream is wrong')
    return bad


def write_runs(cx, mod, R, inst, rule, fn, args, r, bits, direct=None, setpos=None, ret=None, dom_ok=None):
    A = cx.use(Stream(mod, 'sync', R))
    A.sym = 12
    outs = A.run(lambda: go(A, fn, args, wstate(A, R, r)))
    cx.ob(rule, inst, bool(outs) and all(o.kind == 'ret' for o in outs), R.where, '%s fails or never ends' % inst, 'wends|' + rule)
    for o in outs:
        if o.kind != 'ret':
            continue
        st = o.st
        for e in st.events():
            if e[0] == 'oob':
                cx.ob('in-bounds', inst, False, e[4], '%s leaves the memory of the buffer' % inst, 'oob|' + rule)
        if setpos is not None:
            ev = [e for e in st.events() if e[0] in ('sto-write', 'sto-setpos')]
            ok = ev and ev[-1][0] == 'sto-setpos' and st.facts.eq(ev[-1][1], setpos) and \
                st.facts.eq(cellv(A, st, R.tot), dom.scale(setpos, 8)) and \
                all(e[0] == 'sto-write' for e in ev[:-1])
            cx.ob(rule, inst, ok, R.where, 'moving a writer does not flush and then move the storage there', 'w|' + rule)
            A.poke(st, Ptr(OBJ, C(R.tot[0], 64)), 8, st.ghost['tot'])
        bad = after_write(A, R, st, bits, direct)
        cx.ob(rule, inst, not bad, R.where, '%s: %s' % (inst, '; '.join(bad)), 'w|' + rule)
        if ret is not None:
            cx.ob(rule, inst + ' result', st.facts.eq(o.val, ret), R.where, '%s returns something else' % inst, 'wret|' + rule)


def writer(cx, mod):
    R = learn(cx, mod, False)
    R.where = ('src/mg/core/bitstream.h', 0)
    R.shared = None
    V = S('value', 32)
    items = []
    for r in range(8):
        for op in WOPS:
            items += [('put', op, r, n) for n in range(1, 33)]
        items.append(('flush', 0, r, 0))
        items.append(('align', 8, r, 0))
        items.append(('skip', 0, r, 3))
        items.append(('skip', 0, r, 40))
    items += [('write', 0, 0, 0), ('setpos', 0, 0, 0)]
    for c in range(4):
        for r in (0, 3):
            items.append(('align', 32, r, c))
            items.append(('align', 16, r, c))

    def work(cx, it):
        k, op, r, n = it
        if k == 'put':
            fn, args = WOPS[op]
            write_runs(cx, mod, R, '%s of %d bits at bit %d' % (op, n, r), op, fn, args(V, n), r, appended(op, V, n))
        elif k == 'flush':
            write_runs(cx, mod, R, 'flush at bit %d' % r, 'flush', 'b_flush', [Ptr(OBJ)], r, [])
        elif k == 'skip':
            write_runs(cx, mod, R, 'skip of %d bits by a writer at bit %d' % (n, r), 'write-skip', 'b_skip', [Ptr(OBJ), C(n, 16)], r, [dom.B0] * n)
        elif k == 'align':
            z = (-(r + 8 * n)) % op
            R.mod = (op, n)
            write_runs(cx, mod, R, 'alignment to %d of a writer at bit %d' % (op, (r + 8 * n) % op), 'write-align', 'b_align',
                       [Ptr(OBJ), C(op, 32)], r, [dom.B0] * z, ret=C(z, 32))
            R.mod = None
        elif k == 'write':
            P, n = Ptr(('user',)), S('wn', 32, 0, PMAX)
            write_runs(cx, mod, R, 'write of bytes', 'write', 'b_write', [Ptr(OBJ), P, n], 0, [], direct=(P, n))
        else:
            rhs = S('rhs', 64, 0, 1 << 40)
            write_runs(cx, mod, R, 'moving a writer', 'write-move', 'b_set_position', [Ptr(OBJ), rhs], 0, [], setpos=rhs)
    cx.pmap(items, work)
