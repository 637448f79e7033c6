"""Handle lifetime, decided per handle operation by abstract interpretation of the type-checked template: from a
pre-state with arbitrary handles (null / same block / different blocks, symbolic share count) every operation must
change each block's count by exactly the change in the number of handles pointing at it, destroy the payload exactly
when that count reaches zero (cleanup callback first, payload before or with the block, each once), never touch a
destroyed block, and leave the handle itself null or pointing at a live block.  The cell holding the count and the
cell holding the block are derived from what the public count() reads."""
import dom
from dom import C, S, Ptr, mk, cv, isc
from absint import Interp, State, AnalysisError, PathEnd

LEVEL = 'proof'
ASSUMPTIONS = ['a block count below 2^31 (no wrap of the share counter)',
               'operations on one handle object are not themselves concurrent (the count is shared, the handle is not)']
FLOOR = 30
DRIVER = r'''
#include "mgcore.h"
using namespace mg::core;
struct Payload { Payload(); ~Payload(); int v; };
template class mg::core::CResource<Payload>;
typedef CResource<Payload> H;
extern "C" {
void sc_copy(void* where, const H* o) { new (where) H(*o); }
void sc_copyfrom_nc(void* where, H* o) { new (where) H(*o); }
void sc_move(void* where, H* o) { new (where) H(static_cast<H&&>(*o)); }
void sc_default(void* where) { new (where) H(); }
void sc_fromptr(void* where, Payload* p) { new (where) H(p); }
void sc_create(H* h) { h->Create(); }
void sc_assign(H* a, const H* b) { *a = *b; }
void sc_assign_move(H* a, H* b) { *a = static_cast<H&&>(*b); }
void sc_Assign(H* a, const H* b) { a->Assign(*b); }
void sc_dtor(H* a) { a->H::~H(); }
long sc_count(const H* a) { return a->count(); }
bool sc_bool(H* a) { return *a; }
bool sc_not(H* a) { return !*a; }
Payload* sc_ptr(H* a) { return *a; }
Payload* sc_arrow(H* a) { return a->operator->(); }
const Payload* sc_carrow(const H* a) { return a->operator->(); }
Payload* sc_ref(H* a) { return &a->GetRef(); }
void cleanup_seen(Payload*);
void sc_cl(Payload* p) { H a(p); a.add_cleanup_function([](Payload* q) { cleanup_seen(q); }); H b(a); H c; c = b; }
void sc_cl2(Payload* p, Payload* q) { H a(p); a.add_cleanup_function([](Payload* x) { cleanup_seen(x); }); H b(q); a = b; }
void sc_nocl(Payload* p) { H a(p); { H b(a); } { H b(a); H d(b); d = b; } }
void sc_cleanup(H* a, std::function<void(Payload*)>* f) { a->add_cleanup_function(*f); }
}
'''


class Scene:
    def __init__(self, cx, mod):
        self.cx = cx
        self.mod = mod
        self.A = None
        self.roles()

    def interp(self):
        A = self.cx.use(Interp(self.mod))
        A.hook(r'Payload::~Payload\(\)', self.h_dtor)
        A.hook(r'Payload::Payload\(\)', lambda A, st, ins, args, n: (st.ev('ctor', args[0]), ())[1])
        A.ext_throws = True
        A.hook(r'cleanup_seen', lambda A, st, ins, args, n: (st.ev('seen', args[0]), ())[1])
        return A

    @staticmethod
    def h_dtor(A, st, ins, args, name):
        st.ev('payload-dtor', args[0], A.loc(st, ins))
        return ()

    def roles(self):
        """locate, through count(): the handle cell holding the block, the block cell holding the count"""
        A = self.interp()
        loads = []
        A.on_load.append(lambda A, st, reg, off, n, v, ins, at: loads.append((reg.rid, off, n, v)))
        H = ('hnd', 0)
        outs = A.run(lambda: A.start('sc_count', [Ptr(H)]))
        rets = [o for o in outs if o.kind == 'ret']
        self.cx.anchor(rets, 'handle count()')
        ret = rets[-1].val
        hcell = [l for l in loads if l[0] == H and l[2] == 8]
        self.cx.anchor(len({cv(l[1]) for l in hcell if isc(l[1])}) == 1, 'handle block pointer (read by count())')
        self.hoff = cv(hcell[0][1])
        blk = hcell[0][3].a[0]
        ccell = [l for l in loads if l[0] == blk and (l[3] is ret or dom.same(dom.sext(l[3], 64), ret))]
        self.cx.anchor(ccell, 'share count cell (returned by count())')
        self.coff, self.cn = cv(ccell[-1][1]), ccell[-1][2]
        # payload pointer cell: what the pointer conversion returns
        A = self.interp()
        loads = []
        A.on_load.append(lambda A, st, reg, off, n, v, ins, at: loads.append((reg.rid, off, n, v)))
        outs = A.run(lambda: A.start('sc_ptr', [Ptr(H)]))
        pc = [l for o in outs if o.kind == 'ret' for l in loads if l[3] is o.val and l[0] == blk]
        self.cx.anchor(pc, 'payload pointer cell')
        self.poff = cv(pc[-1][1])

    # ---- pre-states
    def handle(self, A, st, h, blk):
        """handle region h points to block name blk or is null (None)"""
        st.mem.pop(h, None)
        A.poke(st, Ptr(h, C(self.hoff, 64)), 8, Ptr(blk) if blk is not None else dom.NULL)
        return Ptr(h)

    def block(self, A, st, blk, lo, hi):
        st.facts.bl[mk('isnull', 1, blk)] = False
        n = S(('cnt', blk), 8 * self.cn, lo, hi)
        A.poke(st, Ptr(blk, C(self.coff, 64)), self.cn, n)
        p = ('pay', blk)
        A.poke(st, Ptr(blk, C(self.poff, 64)), 8, Ptr(p))
        st.facts.bl[mk('isnull', 1, p)] = False
        # dynamic class of the block: the one the program constructs
        return n

    def blockof(self, A, st, hp):
        v = A.peek(st, dom.add(hp, C(self.hoff, 64)), 8, True)
        if v.op == 'ptr' and not A.isnull(st, A.canon(st, v.a[0])):
            return A.canon(st, v.a[0])
        return None

    def count(self, A, st, blk):
        return A.read(st, A.region(st, blk), C(self.coff, 64), self.cn)


MAXC = (1 << 31) - 1


def check(cx):
    mod = cx.build([], DRIVER)
    sc = Scene(cx, mod)
    vt = vtable_of_block(cx, sc)
    ops(cx, sc, vt)
    accessors(cx, sc, vt)
    lifetimes(cx, sc)


def lifetimes(cx, sc):
    """whole lifetimes through the public interface: order and multiplicity of cleanup / destructor / free"""
    for fn, pays, seen in (('sc_cl', 1, 1), ('sc_cl2', 2, 1), ('sc_nocl', 1, 0)):
        A = sc.interp()

        def init():
            st = State()
            for i in range(pays):
                st.facts.bl[mk('isnull', 1, ('pay', i))] = False
            return A.start(fn, [Ptr(('pay', i)) for i in range(pays)], st)
        n = 0
        for o in A.run(init):
            ev = o.st.events()
            bad = [e for e in ev if e[0] in ('nullderef', 'uaf', 'doublefree')]
            loc = fnloc(sc.mod, r'mg::core::CInternalResource<Payload>::release\(\)')
            if o.kind == 'end' and not bad:
                continue
            n += 1
            if o.kind == 'throw':
                continue
            cx.ob('lifetime', fn + ': no use after destroy', not bad, loc, fn + ': %s' % (bad[:1],), 'C01|life|uaf')
            for i in range(pays):
                q = ('pay', i)
                sq = [e[0] for e in ev if (e[0] in ('seen', 'payload-dtor') and e[1].op == 'ptr' and e[1].a[0] == q) or
                      (e[0] == 'free' and e[1] == q)]
                want = (['seen'] if i < seen else []) + ['payload-dtor', 'free']
                cx.ob('lifetime', '%s: payload %d' % (fn, i), sq == want, loc,
                      'lifetime %s: payload %d sees %s, expected %s' % (fn, i, sq, want), 'C01|life|order')
            news = [e[1] for e in ev if e[0] == 'new']
            frees = [e[1] for e in ev if e[0] == 'free']
            leak = [r for r in news if r not in frees and o.st.mem[r].alive]
            cx.ob('lifetime', fn + ': every block freed', not leak, loc, fn + ': a block is never freed', 'C01|life|leak')
        cx.anchor(n, 'lifetime ' + fn)


def vtable_of_block(cx, sc):
    """class of the block object: run the pointer constructor and keep the constant cells it installs"""
    A = sc.interp()
    H = ('hnd', 0)
    P = ('pay', 0)
    outs = A.run(lambda: A.start('sc_fromptr', [Ptr(H), Ptr(P)]))
    rets = [o for o in outs if o.kind == 'ret']
    cx.anchor(rets, 'handle(pointer) constructor')
    for o in rets:
        blk = sc.blockof(A, o.st, Ptr(H))
        ok = blk is not None
        cx.ob('construct', 'handle(pointer): points at a block', ok, site(A, o), 'a handle built from a pointer owns nothing')
        if not ok:
            continue
        c = sc.count(A, o.st, blk)
        cx.ob('construct', 'handle(pointer): count is 1', isc(c) and cv(c) == 1, site(A, o),
              'a handle built from a pointer starts with share count %s, expected 1' % c)
        p = A.peek(o.st, Ptr(blk, C(sc.poff, 64)), 8, True)
        cx.ob('construct', 'handle(pointer): owns the given payload', p.op == 'ptr' and p.a[0] == P, site(A, o),
              'the block does not hold the pointer it was given')
        reg = A.region(o.st, blk)
        cells = {}
        for L in reg.layers:
            if isinstance(L, dict):
                for off, (n, v) in L.items():
                    if v.op == 'ptr' and v.a[0][0] == 'g':
                        cells[off] = (n, v)
        return cells
    return {}


def site(A, o):
    return None


def fnloc(mod, pat):
    for f in mod.find(pat):
        l = mod.func_loc(f)
        if l:
            return '%s:%d' % l
    return 'src/mg/cresource.h'


def summarize(A, sc, o):
    ev = o.st.events()
    return ev


OPS = [
    # name, scenario, operand handles (this, other), which handles exist before / after, pretty
    ('copy constructor', 'sc_copy', 'new', 'const'),
    ('copy constructor (non-const)', 'sc_copyfrom_nc', 'new', 'const'),
    ('construct from temporary', 'sc_move', 'new', 'any'),
    ('operator=', 'sc_assign', 'old', 'const'),
    ('operator= from temporary', 'sc_assign_move', 'old', 'any'),
    ('Assign', 'sc_Assign', 'old', 'const'),
    ('destructor', 'sc_dtor', 'dead', None),
]


def ops(cx, sc, vt):
    mod = sc.mod
    where = {'copy constructor': r'mg::core::CResource<Payload>::CResource\(mg::core::CResource<Payload> const&\)',
             'operator=': r'mg::core::CResource<Payload>::operator=\(.*\)',
             'Assign': r'mg::core::CResource<Payload>::Assign\(.*\)',
             'destructor': r'mg::core::CResource<Payload>::~CResource\(\)'}
    for name, fn, this_k, oth in OPS:
        cfgs = []
        B1, B2 = ('blk', 1), ('blk', 2)
        for t in ([None, B1] if this_k in ('old', 'dead') else ['raw']):
            if oth is None:
                cfgs.append((t, 'none', False))
                continue
            for o in [None, B1, B2]:
                if o == B2 and t in (None, 'raw'):
                    continue
                cfgs.append((t, o, False))
            if this_k == 'old':
                cfgs.append((t, t, True))
        for t, o, selfa in cfgs:
            for cl in (False, True):
                run_op(cx, sc, vt, name, fn, this_k, t, o, selfa, cl, fnloc(mod, where.get(name.split(' from')[0].split(' (')[0], where['copy constructor'])))


def run_op(cx, sc, vt, name, fn, this_k, t, o, selfa, cl, loc):
    A = sc.interp()
    H1, H2 = ('hnd', 1), ('hnd', 2)
    blks = sorted({b for b in (t, o) if isinstance(b, tuple)})
    held = {b: (1 if t == b else 0) + (1 if (o == b and not selfa) else 0) for b in blks}
    cuncalls = []

    def icall(st, f, ins, tt, args, work, outs):
        pay = []
        for x in args:
            if x is not None and x.op == 'ptr':
                r = A.region(st, x.a[0])
                y = A.read(st, r, x.a[1], 8, True) if r.kind == 'obj' and r.alive else x
                pay += [z.a[0] for z in (x, y) if z.op == 'ptr']
        st.ev('cleanup', tt, args, A.loc(st, ins), tuple(pay))
        v = A.freshv(st, ins.ty, 'icall')
        return A.results(st, f, ins, [('ret', st, v)], work, outs)
    A.icall = icall

    def init():
        st = State()
        for b in blks:
            sc.block(A, st, b, held[b], MAXC - 2)
            for off, (n, v) in vt.items():
                A.poke(st, Ptr(b, C(off, 64)), n, v)
            # the cleanup callback (a std::function): absent or present, seen through its own emptiness test
        hp1 = Ptr(H1)
        if t != 'raw':
            sc.handle(A, st, H1, t)
        if o != 'none' and not selfa:
            sc.handle(A, st, H2, o)
        if not selfa:
            distinct(A, st, H1, H2)
        for i, b in enumerate(blks):
            for c in blks[:i]:
                distinct(A, st, b, c)
                distinct(A, st, ('pay', b), ('pay', c))
        args = [hp1] + ([Ptr(H1 if selfa else H2)] if o != 'none' else [])
        A.start(fn, args, st)
        return st
    outs = A.run(init)
    inst = '%s this=%s other=%s%s' % (name, nm(t), nm(o), ' (self)' if selfa else '')
    n = 0
    for oc in outs:
        st = oc.st
        ev = st.events()
        bad = [e for e in ev if e[0] in ('nullderef', 'uaf', 'doublefree')]
        for e in bad:
            cx.ob('no-use-after-destroy', inst, False, '%s:%d' % (e[1] if isinstance(e[1], tuple) else e[1]),
                  '%s: %s' % (inst, {'nullderef': 'null block dereferenced', 'uaf': 'block used after it was destroyed',
                                    'doublefree': 'destroyed twice'}[e[0]]), 'C01|%s|%s' % (e[0], name))
        if bad:
            n += 1
            continue
        if oc.kind == 'end':
            continue
        if oc.kind == 'throw':
            cx.ob('no-throw', inst, False, loc, inst + ': throws', 'C01|throw|' + name)
            continue
        n += 1
        # handles after
        after = {b: 0 for b in blks}
        hs = []
        if this_k != 'dead':
            b1 = sc.blockof(A, st, Ptr(H1))
            hs.append(b1)
        if o != 'none' and not selfa:
            hs.append(sc.blockof(A, st, Ptr(H2)))
        for b in hs:
            if b is not None:
                after[b] = after.get(b, 0) + 1
        # result of assignment-like operations
        if this_k in ('new', 'old') and fn not in ('sc_move', 'sc_assign_move'):
            want = o
            cx.ob('target', inst, hs[0] == want, loc, '%s: the target refers to %s, expected %s' % (inst, nm(hs[0]), nm(want)),
                  'C01|target|' + name)
            if o != 'none' and not selfa:
                cx.ob('source-unchanged', inst, hs[1] == o, loc, '%s: the source handle changed' % inst, 'C01|source|' + name)
        elif this_k in ('new', 'old') and not selfa:
            cx.ob('target', inst, hs[0] == o, loc, '%s: the target refers to %s, expected %s' % (inst, nm(hs[0]), nm(o)),
                  'C01|target|' + name)
        frees = [e for e in ev if e[0] == 'free']
        dts = [e for e in ev if e[0] == 'payload-dtor']
        for b in blks:
            alive = A.region(st, b).alive
            pay = ('pay', b)
            d = [e for e in dts if e[1].op == 'ptr' and e[1].a[0] == pay]
            fp = [e for e in frees if e[1] == pay]
            n0 = S(('cnt', b), 8 * sc.cn)
            delta = after[b] - held[b]
            if alive:
                c = sc.count(A, st, b)
                diff = dom.sub(c, n0)
                k = st.facts.const(diff)
                ok = k is not None and dom.sgn(k, 8 * sc.cn) == delta
                cx.ob('count-balance', '%s %s' % (inst, nm(b)), ok, loc,
                      '%s: share count of %s changes by %s but the number of handles changes by %d' % (
                          inst, nm(b), dom.sgn(k, 8 * sc.cn) if k is not None else diff, delta),
                      'C01|balance|%s' % name)
                # still alive although no handle is left
                left = dom.add(n0, C(delta, 8 * sc.cn))
                z = st.facts.dcmp('eq', left, C(0, 8 * sc.cn))
                cx.ob('destroy-at-zero', '%s %s kept' % (inst, nm(b)), z is False or after[b] > 0 or not zero_possible(st, n0, delta, sc),
                      loc, '%s: the last handle is gone but the payload is not destroyed' % inst, 'C01|leak|' + name)
                cx.ob('destroy-at-zero', '%s %s not destroyed while shared' % (inst, nm(b)), not d and not fp, loc,
                      '%s: payload destroyed while handles remain' % inst, 'C01|early|' + name)
            else:
                left = dom.add(n0, C(delta, 8 * sc.cn))
                z = st.facts.eq(left, C(0, 8 * sc.cn))
                cx.ob('destroy-at-zero', '%s %s destroyed' % (inst, nm(b)), z and after[b] == 0, loc,
                      '%s: block destroyed although handles remain (remaining = %s)' % (inst, left), 'C01|early|' + name)
                cx.ob('destroy-once', '%s %s' % (inst, nm(b)), len(d) == 1 and len(fp) == 1, loc,
                      '%s: payload destructor runs %d times and its storage is freed %d times when the last handle goes'
                      % (inst, len(d), len(fp)), 'C01|once|' + name)
                cl_ev = [i for i, e in enumerate(ev) if e[0] == 'cleanup']
                if cl_ev:
                    i0 = ev.index(d[0]) if d else len(ev)
                    calls = [i for i in cl_ev if not is_manager(ev[i])]
                    good = all(i < i0 for i in calls) and len(calls) <= 1
                    cx.ob('cleanup-before-destroy', inst, good, loc,
                          '%s: cleanup callback runs %s' % (inst, 'after the payload is destroyed' if calls and calls[0] > i0 else 'more than once'),
                          'C01|cleanup|' + name)
                    for i in calls:
                        okp = pay in ev[i][4]
                        cx.ob('cleanup-argument', inst, okp, loc,
                              '%s: cleanup callback does not receive the payload' % inst, 'C01|cleanuparg|' + name)
                # cleanup must run when one is registered
                setf = cleanup_registered(A, st, b)
                if setf is True:
                    calls = [i for i, e in enumerate(ev) if e[0] == 'cleanup' and not is_manager(e)]
                    cx.ob('cleanup-runs', inst, len(calls) == 1, loc,
                          '%s: a registered cleanup callback runs %d times' % (inst, len(calls)), 'C01|cleanuprun|' + name)
        # nothing else is destroyed
        other = [e for e in dts if not (e[1].op == 'ptr' and e[1].a[0] in [('pay', b) for b in blks])]
        cx.ob('no-foreign-destroy', inst, not other, loc, inst + ': destroys an unrelated object', 'C01|foreign|' + name)
    cx.anchor(n, 'outcome of ' + inst)


def distinct(A, st, r, q):
    A.assume(st, A.pcmp(st, 'eq', Ptr(r), Ptr(q)), False)


def zero_possible(st, n0, delta, sc):
    if delta >= 0:
        return False
    f = st.facts.copy()
    return f.assume(dom.cmp('eq', n0, C(-delta, 8 * sc.cn)), True) and f.dcmp('eq', n0, C(-delta, 8 * sc.cn)) is not False


def is_manager(e):
    # a std::function manager call passes an operation code; the callback itself takes (object, payload pointer)
    return any(x is not None and x.w == 32 for x in e[2])


def cleanup_registered(A, st, b):
    for k, v in st.facts.bl.items():
        if k.op == 'isnull' and isinstance(k.a[0], tuple) and k.a[0][0] == '*' and k.a[0][1] == b and v is False:
            return True
    return None


def nm(b):
    return {None: 'null', 'raw': 'raw', 'none': '-'}.get(b) or ('block%d' % b[1] if isinstance(b, tuple) and b[0] == 'blk' else str(b))


def accessors(cx, sc, vt):
    mod = sc.mod
    for fn, what in (('sc_bool', 'bool'), ('sc_not', 'not'), ('sc_ptr', 'ptr'), ('sc_arrow', 'ptr'), ('sc_carrow', 'ptr'), ('sc_ref', 'ref')):
        for b in (None, ('blk', 1)):
            A = sc.interp()

            def init():
                st = State()
                if b:
                    sc.block(A, st, b, 1, MAXC)
                    for off, (n, v) in vt.items():
                        A.poke(st, Ptr(b, C(off, 64)), n, v)
                sc.handle(A, st, ('hnd', 1), b)
                return A.start(fn, [Ptr(('hnd', 1))], st)
            outs = A.run(init)
            for o in outs:
                bad = [e for e in o.st.events() if e[0] in ('nullderef', 'uaf')]
                inst = '%s on %s' % (fn[3:], nm(b))
                loc = 'src/mg/cresource.h'
                if bad:
                    cx.ob('accessor', inst, False, '%s:%d' % bad[0][1], inst + ': dereferences a null handle', 'C01|acc|' + fn)
                    continue
                if o.kind == 'throw':
                    cx.ob('accessor', inst, what == 'ref' and b is None, loc, inst + ': throws', 'C01|acc|' + fn)
                    continue
                if o.kind != 'ret':
                    continue
                v = o.val
                if what == 'bool':
                    ok = isc(v) and cv(v) == (1 if b else 0)
                elif what == 'not':
                    ok = isc(v) and cv(v) == (0 if b else 1)
                elif b is None:
                    ok = what == 'ptr' and isc(v) and cv(v) == 0
                else:
                    ok = v.op == 'ptr' and v.a[0] == ('pay', b)
                cx.ob('accessor', inst, ok, loc, '%s: yields %s' % (inst, v), 'C01|acc|' + fn)
    # Create on an empty handle
    A = sc.interp()

    def init():
        st = State()
        sc.handle(A, st, ('hnd', 1), None)
        return A.start('sc_create', [Ptr(('hnd', 1))], st)
    for o in A.run(init):
        if o.kind != 'ret':
            continue
        b = sc.blockof(A, o.st, Ptr(('hnd', 1)))
        ok = b is not None
        c = sc.count(A, o.st, b) if ok else None
        ct = [e for e in o.st.events() if e[0] == 'ctor']
        cx.ob('create', 'Create on null', ok and isc(c) and cv(c) == 1 and len(ct) == 1, 'src/mg/cresource.h',
              'Create yields share count %s and %d payloads' % (c, len(ct)), 'C01|create')
    A = sc.interp()

    def init2():
        st = State()
        sc.block(A, st, ('blk', 1), 1, MAXC)
        sc.handle(A, st, ('hnd', 1), ('blk', 1))
        return A.start('sc_create', [Ptr(('hnd', 1))], st)
    for o in A.run(init2):
        if o.kind == 'ret':
            b = sc.blockof(A, o.st, Ptr(('hnd', 1)))
            cx.ob('create', 'Create on a bound handle does not lose its block', b == ('blk', 1) or not A.region(o.st, ('blk', 1)).alive or False,
                  'src/mg/cresource.h', 'Create on a bound handle replaces the block without releasing it', 'C01|create2')
        elif o.kind == 'throw':
            cx.ob('create', 'Create on a bound handle is refused', True)
    A = sc.interp()
    outs = A.run(lambda: A.start('sc_default', [Ptr(('hnd', 1))]))
    for o in outs:
        if o.kind == 'ret':
            cx.ob('construct', 'default handle is null', sc.blockof(A, o.st, Ptr(('hnd', 1))) is None, 'src/mg/cresource.h',
                  'a default constructed handle is not null', 'C01|default')
