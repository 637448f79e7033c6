"""The growable buffer: every operation from every state.

The states of the buffer are described by an inductive invariant over the cells its own accessors read (position, size,
storage): position <= size, size >= 1, the storage is one live block of exactly size elements. The constructor has to
establish it and every operation, interpreted from every such state with symbolic position, size, growth step, contents
and arguments, has to preserve it, whether it returns or raises, keep the elements committed before, commit exactly the
elements given, stay inside its storage and the caller's memory, and release each block it gives up once."""
import dom
from dom import C, S, Ptr, isc, cv, zext
from absint import Interp, State, AnalysisError
import models

LEVEL = 'proof'
FLOOR = 150
UNITS = []
TYPES = {'bytes': ('unsigned char', 'unsigned long', 1, 64), 'words': ('unsigned int', 'unsigned long', 4, 64),
         'records': ('Rec', 'unsigned long', 12, 64), 'short buffer of bytes': ('unsigned char', 'unsigned int', 1, 32)}
DRIVER = r'''
#include "mgcore.h"
#include "mg/cbuffer.h"
#include <new>
using namespace mg::core;
struct Rec { int a, b, c; };
#define OPS(N, T, Z) typedef CBuffer<T, Z> Bu_##N; typedef ResetBuffer<T, Z> Re_##N; extern "C" { \
void new_##N(void* w, Z n) { new (w) Bu_##N(n); } \
void del_##N(Bu_##N* b) { b->Bu_##N::~Bu_##N(); } \
void add_##N(Bu_##N* b, const T* p, Z n) { b->add(p, n); } \
void plus_##N(Bu_##N* b, Bu_##N* c) { *b += *c; } \
void prepare_##N(Bu_##N* b, Z n) { b->prepare(n); } \
void commit_##N(Bu_##N* b, Z n) { b->updatePosition(n); } \
T* get_##N(Bu_##N* b) { return b->get(); } \
T* conv_##N(Bu_##N* b) { return *b; } \
T* cur_##N(Bu_##N* b) { return b->getCurrent(); } \
Z size_##N(Bu_##N* b) { return b->getSize(); } \
Z free_##N(Bu_##N* b) { return b->getFree(); } \
Z full_##N(Bu_##N* b) { return b->getFull(); } \
Z size2_##N(Bu_##N* b) { return b->size(); } \
T* at_##N(Bu_##N* b, unsigned i) { return &b->getAt(i); } \
T* idx_##N(Bu_##N* b, Z i) { return &(*b)[i]; } \
void write_##N(Bu_##N* b, unsigned i, T* p) { b->WriteAt(i, p); } \
bool read_##N(Bu_##N* b, T* p, unsigned long n, unsigned long* got, Z at) { return b->ReadBuffer(p, n, *got, at); } \
void reset_##N(Bu_##N* b) { Re_##N(*b).Reset(); } \
void reset2_##N(Bu_##N* b) { Re_##N(b).Reset(); } \
void back_##N(Bu_##N* b, Z n) { Re_##N(*b).Back(n); } \
void back0_##N(Bu_##N* b, Z n) { Re_##N(*b).Back(n, false); } \
void moveback_##N(Bu_##N* b, Z n) { Re_##N(*b).MoveBack(n); } }
''' + '\n'.join('OPS(%d, %s, %s)' % (i, t[0], t[1]) for i, t in enumerate(TYPES.values())) + '\n'
ASSUMPTIONS = ['sizes and arguments below 2^40 elements (2^30 with a 32-bit size): memory, not arithmetic, is the limit',
               'elements are plain data; what is added lies in memory of its own or in the committed part of the buffer',
               'a buffer is used by one thread']
OBJ, OBJ2, USER, GOT = ('buf',), ('buf2',), ('user',), ('got',)


class Buf(Interp):
    alloc_throws = True

    def __init__(self, mod):
        Interp.__init__(self, mod)
        models.install_std(self)
        self.on_access.append(Buf.inb)
        self.alloc_throws = True
        self.seen = []

    def inb(A, st, reg, off, n, rw, ins):
        if reg.size is None:
            return
        end = dom.add(off, C(n, 64) if isinstance(n, int) else n)
        if not (st.facts.ule(end, reg.size) and st.facts.ule(off, reg.size)):
            st.ev('oob', reg.rid, A.loc(st, ins), rw)
        if rw == 'w' and reg.rid == USER and not st.ghost.get('userw'):
            st.ev('userwrite', A.loc(st, ins))


class T:
    pass


def learn(cx, mod, i, name):
    t = T()
    t.i, t.name = i, name
    _, _, t.es, t.w = list(TYPES.values())[i]
    t.max = (1 << 40) if t.w == 64 else (1 << 30)
    A = cx.use(Buf(mod))
    A.alloc_throws = False
    N = S('N', t.w, 1, t.max)
    outs = A.run(lambda: (lambda s: (A.start('new_%d' % i, [Ptr(OBJ), N], s), s)[1])(State()))
    cx.anchor(len(outs) == 1 and outs[0].kind == 'ret', 'construction of a buffer')
    t.st0 = outs[0].st
    t.N = N
    where = ('src/mg/cbuffer.h', 0)
    t.where = where
    cells = {}
    for L in A.region(t.st0, OBJ).layers:
        if not isinstance(L, dict):
            raise AnalysisError('layout of the buffer')
        cells.update(L)

    def loads(fn):
        seen = set()
        B = cx.use(Buf(mod))
        B.on_load.append(lambda A, s, reg, off, n, v, ins, at: seen.add((cv(off), n)) if reg.rid == OBJ and isc(off) else None)
        s = t.st0.copy()
        B.run(lambda: go(B, fn, [Ptr(OBJ)], s.copy()))
        return seen
    for role in ('get', 'full', 'size'):
        l = loads('%s_%d' % (role, i))
        cx.anchor(len(l) == 1, 'what %s of the buffer reads' % role)
        setattr(t, role, l.pop())
    cx.anchor(len({t.get, t.full, t.size}) == 3, 'the three roles of the buffer')
    # what else the object holds: the growth step (a positive number), the dynamic type
    t.steps = [(off, n) for off, (n, v) in sorted(cells.items()) if n == t.w // 8 and v.op != 'ptr' and (off, n) not in (t.full, t.size) and v is N]
    t.known = {t.get, t.full, t.size} | set(t.steps)
    t.cells = cells
    # the constructed buffer
    check_inv(cx, A, t, t.st0, OBJ, 'construction', 'constructed')
    f = t.st0.facts
    cx.ob('construction', name, f.eq(val(A, t.st0, OBJ, t.full), C(0, t.w)) and f.eq(val(A, t.st0, OBJ, t.size), N), where,
          'a new buffer is not empty or not of the size asked for (%s)' % name, 'new')
    z = bytes_(A, t.st0, store(A, t.st0, t, OBJ), S('z', 64, 0, 1 << 50), dom.scale(zext(N, 64), t.es))
    cx.ob('construction', name + ' zero', all(isc(v) and cv(v) == 0 for _, v in z), where, 'a new buffer is not cleared (%s)' % name, 'new0')
    return t


def go(A, fn, args, st):
    A.start(fn, args, st)
    return st


def val(A, st, obj, cell):
    return A.peek(st, Ptr(obj, C(cell[0], 64)), cell[1])


def store(A, st, t, obj):
    p = A.to_ptr(st, A.peek(st, Ptr(obj, C(t.get[0], 64)), 8, True))
    return p


def bytes_(A, st, p, i, below):
    """the byte i < below of what p points to, by cases"""
    s = st.copy()
    if not A.assume(s, dom.cmp('ult', i, below), True) or s.facts.contra():
        return []
    return A.read_cases(s, p[0], dom.add(p[1], i))


def generic(A, t, obj=OBJ, base=None, tag=''):
    st = base if base is not None else t.st0.copy()
    if base is None:
        st.trace = None
        st.facts = type(st.facts)()
    size = S('size' + tag, t.w, 1, t.max)
    cur = S('pos' + tag, t.w, 0, t.max)
    rid = ('h', 'old' + tag, 'new')
    o = store(A, t.st0, t, OBJ)[0]
    r = A.region(t.st0, o).clone()
    r.rid, r.layers, r.gen, r.size, r.alive = rid, (), 1, dom.scale(zext(size, 64), t.es), True
    st.mem[rid] = r
    if obj != OBJ:
        q = A.region(t.st0, OBJ).clone()
        q.rid = obj
        st.mem[obj] = q
    elif o in st.mem and o != rid:
        del st.mem[o]
    A.poke(st, Ptr(obj, C(t.get[0], 64)), 8, Ptr(rid))
    A.poke(st, Ptr(obj, C(t.full[0], 64)), t.full[1], cur)
    A.poke(st, Ptr(obj, C(t.size[0], 64)), t.size[1], size)
    for k, c in enumerate(t.steps):
        A.poke(st, Ptr(obj, C(c[0], 64)), c[1], S('step%d' % k + tag, t.w, 1, t.max))
    A.assume(st, dom.cmp('ule', cur, size), True)
    st.ghost['b' + tag] = (rid, zext(cur, 64), zext(size, 64))
    return st


def check_inv(cx, A, t, st, obj, op, inst):
    f = st.facts
    cur, size = (zext(val(A, st, obj, c), 64) for c in (t.full, t.size))
    p = store(A, st, t, obj)
    bad = []
    if not f.ule(cur, size):
        bad.append('the position is beyond the size')
    if not f.ule(C(1, 64), size):
        bad.append('the size is zero')
    for c in t.steps:
        if not f.ule(C(1, t.w), val(A, st, obj, c)):
            bad.append('the growth step is zero')
    if p is None or p[0] not in st.mem or not isc(p[1]) or cv(p[1]) != 0 or p[0][0] != 'h':
        bad.append('the storage is not a block of its own')
    else:
        r = A.region(st, p[0])
        if not r.alive:
            bad.append('the storage has been released')
        elif not f.eq(r.size, dom.scale(size, t.es)):
            bad.append('the storage has another size than the buffer says')
    cx.ob('invariant', inst, not bad, t.where, 'after %s: %s (%s)' % (op, '; '.join(bad), t.name), 'inv|%s|%s' % (op, ';'.join(bad)))
    return not bad


def same(v, rid, at, f):
    """v is the initial byte at offset `at` of region rid"""
    return not isinstance(v, tuple) and v.op == 's' and isinstance(v.a[0], tuple) and len(v.a[0]) > 3 and v.a[0][0] == 'v' and v.a[0][1] == rid and \
        f.eq(v.a[0][3] if isinstance(v.a[0][3], dom.T) else C(v.a[0][3], 64), at)


def ops(t):
    s = lambda n, lo=0, hi=None: S(n, t.w, lo, t.max if hi is None else hi)
    n = s('n')
    le = lambda a, b: (lambda A, st: A.assume(st, dom.cmp('ule', zext(a, 64), b(st)), True))
    cur, size = (lambda st: st.ghost['b'][1]), (lambda st: st.ghost['b'][2])
    at = s('at')
    idx32 = S('index', 32, 0, min(t.max, (1 << 32) - 1))
    # name -> function, arguments, precondition, what is committed, what it may change
    yield ('add', [Ptr(USER), n], None, dict(user=n, grow=n, src=lambda st, j: (USER, j)))
    own = lambda st: dom.scale(zext(at, 64), t.es)
    yield ('add', ['own', n], lambda A, st: A.assume(st, dom.cmp('ule', dom.add(zext(at, 64), zext(n, 64)), cur(st)), True),
           dict(at=at, grow=n, src=lambda st, j: (st.ghost['b'][0], dom.add(own(st), j))))
    yield ('plus', [Ptr(OBJ), Ptr(OBJ2)], None, dict(second=True, grow='b2', src=lambda st, j: (st.ghost['b2'][0], j)))
    yield ('plus', [Ptr(OBJ), Ptr(OBJ)], None, dict(grow='b', src=lambda st, j: (st.ghost['b'][0], j)))
    yield ('prepare', [s('n', 1)], None, dict(room=s('n', 1)))
    yield ('commit', [n], lambda A, st: A.assume(st, dom.cmp('ule', dom.add(zext(n, 64), cur(st)), size(st)), True), dict(grow=n, src=None))
    yield ('reset', [], None, dict(zero=True))
    yield ('reset2', [], None, dict(zero=True))
    for b in ('back', 'back0', 'moveback'):
        yield (b, [n], le(n, cur), dict(shrink=n, clear=b == 'back'))
    yield ('write', [idx32, Ptr(USER)], lambda A, st: A.assume(st, dom.cmp('ult', zext(idx32, 64), size(st)), True), dict(user=C(1, t.w), at1=zext(idx32, 64)))
    for g in ('get', 'conv', 'cur', 'size', 'free', 'full', 'size2'):
        yield (g, [], None, dict(value=g))
    yield ('at', [idx32], lambda A, st: A.assume(st, dom.cmp('ult', zext(idx32, 64), size(st)), True), dict(value=zext(idx32, 64)))
    yield ('idx', [n], lambda A, st: A.assume(st, dom.cmp('ult', zext(n, 64), size(st)), True), dict(value=zext(n, 64)))
    want = S('want', 64, 0, 1 << 40)
    yield ('read', [Ptr(USER), want, Ptr(GOT), at], None, dict(user=want, read=(want, zext(at, 64)), userw=True))


def run(cx, mod, t, op, args, pre, spec, k):
    A = cx.use(Buf(mod))
    inst = '%s #%d (%s)' % (op, k, t.name)
    es = t.es

    def init():
        st = generic(A, t)
        if spec.get('second'):
            generic(A, t, OBJ2, st, '2')
        if 'user' in spec:
            r = A.region(st, USER).clone()
            r.size = dom.scale(zext(spec['user'], 64), es)
            r.kind = 'obj'
            st.mem[USER] = r
        if 'at' in spec:
            a = [Ptr(st.ghost['b'][0], dom.scale(zext(spec['at'], 64), es)) if x == 'own' else x for x in args]
        else:
            a = args
        st.ghost['userw'] = spec.get('userw')
        if pre and not pre(A, st):
            raise AnalysisError('precondition of ' + op)
        full = a if op == 'plus' else [Ptr(OBJ)] + list(a)
        return go(A, '%s_%d' % (op, t.i), full, st)
    outs = A.run(init)
    cx.ob('ends', inst, any(o.kind == 'ret' for o in outs), t.where, '%s never returns (%s)' % (op, t.name), 'ends|' + op)

    def ob(rule, c, what):
        cx.ob(rule, inst, c, t.where, '%s: %s (%s)' % (op, what, t.name), '%s|%s' % (op, what))
    for o in outs:
        st, f = o.st, o.st.facts
        bad = None
        for e in st.events():
            if e[0] in ('oob', 'userwrite', 'uaf', 'doublefree', 'nullderef', 'abort', 'terminate'):
                what = {'oob': 'leaves the memory of %s' % ('the caller' if e[0] == 'oob' and e[1] == USER else 'the buffer'),
                        'userwrite': 'changes what it was given', 'uaf': 'uses storage it released', 'doublefree': 'releases storage twice'}.get(e[0], e[0])
                bad = (what, e[2] if e[0] == 'oob' else e[1])
                break
        cx.ob('memory', inst, bad is None, bad[1] if bad else None, bad and '%s %s (%s)' % (op, bad[0], t.name), bad and '%s|%s' % (op, bad[0]))
        if o.kind == 'end':
            if o.why == 'recursion':
                cx.notes.append('%s: growth in more steps than were unfolded' % inst)
            elif bad is None:
                ob('ends', False, 'ends abnormally')
            continue
        if not check_inv(cx, A, t, st, OBJ, op + (' raised' if o.kind == 'throw' else ''), inst):
            continue
        rid, c0, s0 = st.ghost['b']
        cur, size = (zext(val(A, st, OBJ, c), 64) for c in (t.full, t.size))
        p = store(A, st, t, OBJ)
        if spec.get('second'):
            check_inv(cx, A, t, st, OBJ2, op, inst + ' argument')
            ob('argument', f.eq(val(A, st, OBJ2, t.full), val(A, init_st(A, t), OBJ2, t.full)), 'changes the buffer it was given')
        # blocks: one is held, the others are released
        live = [r for r, reg in st.mem.items() if r[0] == 'h' and reg.alive and r[2] in ('new', 'malloc')]
        mine = {p[0]} | ({st.ghost['b2'][0]} if spec.get('second') else set())
        ob('leak', set(live) <= mine, 'keeps storage it has no use for')
        if o.kind == 'throw':
            ob('raise', f.eq(cur, c0), 'raises an error but changed the buffer')
        g = spec.get('grow')
        shrink = spec.get('shrink')
        if o.kind == 'ret':
            gn = st.ghost[g][1] if isinstance(g, str) else zext(g, 64) if g is not None else None
            want = dom.add(c0, gn) if gn is not None else dom.sub(c0, zext(shrink, 64)) if shrink is not None else C(0, 64) if spec.get('zero') else c0
            ob('position', f.eq(cur, want), 'the position does not move by what was asked')
            if 'room' in spec:
                ob('room', f.ule(zext(spec['room'], 64), dom.sub(size, cur)), 'does not make the room asked for')
            elif gn is None or g == 'commit':
                ob('size', f.eq(size, s0), 'changes the size')
        # the elements committed before
        below = c0 if o.kind == 'throw' or not (shrink is not None or spec.get('zero')) else cur
        i = S('i', 64, 0, 1 << 60)
        if 'at1' in spec and o.kind == 'ret':
            lo = dom.scale(spec['at1'], es)
            for part in ('before', 'in', 'after'):
                s = st.copy()
                ok = {'before': lambda: A.assume(s, dom.cmp('ult', i, lo), True),
                      'in': lambda: A.assume(s, dom.cmp('ule', lo, i), True) and A.assume(s, dom.cmp('ult', i, dom.add(lo, C(es, 64))), True),
                      'after': lambda: A.assume(s, dom.cmp('ule', dom.add(lo, C(es, 64)), i), True)}[part]()
                if not ok or s.facts.contra():
                    continue
                for s2, v in bytes_(A, s, p, i, dom.scale(size, es)):
                    good = same(v, USER, dom.sub(i, lo), s2.facts) if part == 'in' else same(v, rid, i, s2.facts)
                    ob('elements', good, 'the element is not written' if part == 'in' else 'changes another element')
        else:
            for s2, v in bytes_(A, st, p, i, dom.scale(below, es)):
                ob('elements', same(v, rid, i, s2.facts), 'elements committed before are lost')
        # the elements committed now
        if o.kind == 'ret' and g is not None:
            j = S('j', 64, 0, 1 << 60)
            for s2, v in bytes_(A, st, (p[0], dom.add(p[1], dom.scale(c0, es))), j, dom.scale(gn, es)):
                if spec['src'] is None:
                    ob('committed', same(v, rid, dom.add(dom.scale(c0, es), j), s2.facts), 'what was written into the free part is lost')
                else:
                    r2, at2 = spec['src'](st, j)
                    ob('committed', same(v, r2, at2, s2.facts), 'the elements added are not those given')
        if o.kind == 'ret' and (spec.get('zero') or spec.get('clear')):
            lo, hi = dom.scale(cur, es), dom.scale(size if spec.get('zero') else c0, es)
            for s2, v in bytes_(A, st, (p[0], dom.add(p[1], lo)), i, dom.sub(hi, lo)):
                ob('cleared', isc(v) and cv(v) == 0, 'the part given back is not cleared')
        if o.kind == 'ret' and 'value' in spec:
            w = spec['value']
            if isinstance(w, str):
                w = {'get': ('p', C(0, 64)), 'conv': ('p', C(0, 64)), 'cur': ('p', dom.scale(c0, es)), 'size': s0, 'free': dom.sub(s0, c0),
                     'full': c0, 'size2': c0}[w]
            else:
                w = ('p', dom.scale(w, es))
            if isinstance(w, tuple):
                q = A.to_ptr(st, o.val)
                ob('value', q is not None and q[0] == rid and f.eq(q[1], w[1]), 'does not return the place in the buffer')
            else:
                ob('value', f.eq(zext(o.val, 64), w), 'does not return the value')
        if o.kind == 'ret' and 'read' in spec:
            n, at = spec['read']
            got = A.peek(st, Ptr(GOT), 8)
            for truth in (1, 0):
                s = st.copy()
                if not A.assume(s, dom.cmp('eq', o.val, C(truth, o.val.w)), True) or s.facts.contra():
                    continue
                fs = s.facts
                if truth:
                    ob('read', fs.ule(at, c0), 'reads beyond what was committed')
                    for more in (True, False):
                        s3 = s.copy()
                        if A.assume(s3, dom.cmp('ule', dom.add(at, n), c0), more) and not s3.facts.contra():
                            ob('read', s3.facts.eq(got, n if more else dom.sub(c0, at)), 'reports another number than it read')
                            for s4, v in bytes_(A, s3, (USER, C(0, 64)), i, dom.scale(got, es)):
                                ob('read', same(v, rid, dom.add(dom.scale(at, es), i), s4.facts), 'the elements read are not those of the buffer')
                else:
                    ob('read', fs.ult(c0, at) and fs.eq(got, C(0, 64)), 'does not read what is there')


def init_st(A, t):
    st = generic(A, t)
    return generic(A, t, OBJ2, st, '2')


def destroy(cx, mod, t):
    A = cx.use(Buf(mod))
    for o in A.run(lambda: go(A, 'del_%d' % t.i, [Ptr(OBJ)], generic(A, t))):
        rid = o.st.ghost['b'][0]
        bad = [e for e in o.st.events() if e[0] in ('oob', 'uaf', 'doublefree')]
        cx.ob('destruction', t.name, o.kind == 'ret' and not bad and not A.region(o.st, rid).alive, t.where,
              'the destruction of a buffer does not release its storage once (%s)' % t.name, 'del')


def check(cx):
    mod = cx.build(UNITS, DRIVER)
    ts = [learn(cx, mod, i, n) for i, n in enumerate(TYPES)]
    items = [(t, k) + o for t in ts for k, o in enumerate(ops(t))]

    def one(cx, it):
        t, k, op, args, pre, spec = it
        run(cx, mod, t, op, args, pre, spec, k)
    cx.pmap(items, one)
    for t in ts:
        destroy(cx, mod, t)
