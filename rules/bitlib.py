"""The bit stream of the program under analysis: discovery of its layout, its abstract states, its storage.

Layout: nothing is taken from the names of members. The constructor is interpreted with a storage that delivers unknown
amounts; the cells that end up holding these amounts, the page size and the buffers are the roles they play.
Storage contract: a read of n bytes delivers min(n, what is left) bytes at its position, once, before it returns or (when
asynchronous) at any time until the reader waits for its event; the position is advanced when the read is issued; the
end is reported once the position is at the end, or (like stdio) once a read came back short."""
import re
import dom
from dom import C, S, Ptr, isc, cv, mk, zext
from absint import Interp, State, Reg, AnalysisError
import models

DRIVER = r'''
#include "mgcore.h"
#include <new>
using namespace mg::core;
struct Sto;
extern "C" {
void sto_read(Sto*, unsigned, Ibitstream_cb*);
void sto_write(Sto*, const unsigned char*, unsigned, Ibitstream_cb*);
bool sto_eof(Sto*);
void sto_flush(Sto*);
unsigned long sto_getpos(const Sto*);
void sto_setpos(Sto*, unsigned long);
void sto_idle(Sto*);
}
struct Sto : public Ibitstream_storage {
  virtual void read(uint32_t n, Ibitstream_cb* c) { sto_read(this, n, c); }
  virtual void write(const unsigned char* p, uint32_t n, Ibitstream_cb* c) { sto_write(this, p, n, c); }
  virtual bool eof() { return sto_eof(this); }
  virtual void flush() { sto_flush(this); }
  virtual uint64_t get_position() const { return sto_getpos(this); }
  virtual void set_position(uint64_t p) { sto_setpos(this, p); }
  virtual void idle() { sto_idle(this); }
};
typedef bitstream<Sto> BS;
extern "C" {
void b_new(void* w, void* rs, void* s, unsigned size, bool load) { CResource<Sto>* r = new (rs) CResource<Sto>(new (s) Sto()); new (w) BS(*r, load, size); }
void b_del(BS* b) { b->BS::~BS(); }
void b_cb(Ibitstream_cb* c, const unsigned char* p, unsigned n) { c->read_cb(p, n); }
void b_wcb(Ibitstream_cb* c, unsigned n) { c->write_cb(n); }
unsigned b_get(BS* b, short n) { return b->getbits(n); }
unsigned b_next(BS* b, short n) { return b->nextbits(n); }
unsigned b_sget(BS* b, short n) { return b->sgetbits(n); }
unsigned b_nextx(BS* b, int n, int sign) { return b->next(n, 1, sign, 0); }
unsigned b_lget(BS* b, int n) { return b->little_getbits(n); }
void b_skip(BS* b, short n) { b->skipbits(n); }
unsigned b_align(BS* b, int n) { return b->align(n); }
bool b_eof(BS* b) { return b->eof(); }
bool b_has(BS* b, int n) { return b->has_bits(n); }
unsigned long b_getpos(BS* b) { return b->getpos(); }
unsigned long b_get_position(BS* b) { return b->get_position(); }
void b_set_position(BS* b, unsigned long p) { b->set_position(p); }
void b_read(BS* b, unsigned char* p, unsigned n, unsigned* got) { b->read(p, n, got); }
unsigned b_nextcode(BS* b, unsigned code, int n, int alen) { return b->nextcode(code, n, alen); }
void b_put(BS* b, unsigned v, short n) { b->putbits(v, n); }
void b_lput(BS* b, unsigned v, int n) { b->little_putbits(v, n); }
void b_flush(BS* b) { b->flush(); }
void b_write(BS* b, const unsigned char* p, unsigned n) { b->write(p, n); }
int k_eod() { return E_END_OF_DATA; }
int k_inv() { return E_INVALID_INPUT; }
}
'''
OBJ, STO, HND, DATA = ('bs',), ('sto',), ('hnd',), ('data',)
PMAX = 1 << 26


class Roles:
    pass


class Stream(Interp):
    """interpreter with the storage, its deliveries and the reader's event"""

    def __init__(self, mod, mode='sync', roles=None):
        Interp.__init__(self, mod)
        self.mode = mode
        self.roles = roles
        self.racy = []
        self.invariant = None
        models.install_std(self)
        models.install_locks(self)
        models.install_exc(self)
        h = self.hook
        h('sto_read', Stream.sto_read)
        h('sto_write', Stream.sto_write)
        h('sto_eof', Stream.sto_eof)
        h('sto_flush', lambda A, st, ins, args, n: (st.ev('sto-flush', A.loc(st, ins)), ())[1])
        h('sto_getpos', Stream.sto_getpos)
        h('sto_setpos', Stream.sto_setpos)
        h('sto_idle', lambda A, st, ins, args, n: ())
        SE = r'mg::core::signal_event::'
        h(SE + r'signal_event\(\)', lambda A, st, ins, args, n: (st.ghost.__setitem__('sig', False), ())[1])
        h(SE + r'~signal_event\(\)', lambda A, st, ins, args, n: ())
        h(SE + r'signal\(\)', lambda A, st, ins, args, n: (st.ghost.__setitem__('sig', True), ())[1])
        h(SE + r'reset\(\)', Stream.ev_reset)
        h(SE + r'(wait|is_signaled)\(.*\)', Stream.ev_wait)
        self.on_access.append(Stream.access)
        self.templates = [self.tpl]
        self.mem = {}
        self.sym = 0

    def symunroll(self, f, h):
        return self.sym

    def tpl(self, st, rid):
        if rid in (DATA,):
            return {'bytes': True}
        return None

    # ---- storage
    def sto_eof(A, st, ins, args, n):
        g = st.ghost
        if A.mode == 'learn':
            return C(0, 1)
        if A.mode == 'feof':
            return C(int(g['hit']), 1)
        return dom.cmp('uge', g['pos'], g['T'])

    def sto_getpos(A, st, ins, args, n):
        return st.ghost['pos']

    def sto_setpos(A, st, ins, args, n):
        st.ev('sto-setpos', args[1], A.loc(st, ins))
        if st.ghost.get('pend'):
            st.ev('bad', 'the storage is moved while a read is on its way', A.loc(st, ins))
        st.ghost['pos'] = args[1]
        st.ghost['hit'] = False
        return ()

    def sto_write(A, st, ins, args, n):
        st.ev('sto-write', args[1], args[2], A.loc(st, ins))
        st.ghost[('written', len([e for e in st.events() if e[0] == 'sto-write']))] = dict(st.mem)
        return [('push', st, (A.mod.func('b_wcb'), [args[3], args[2]]))]

    def deliver(A, st, pos, m, cb, ret=None):
        st.ghost['incb'] = True
        st.ghost['pend'] = None

        def done(A, st, v, f):
            st.ghost['incb'] = False
            return ret
        return ('push', st, (A.mod.func('b_cb'), [cb, Ptr(DATA, pos), m], done))

    def sto_read(A, st, ins, args, n):
        g = st.ghost
        q, cb = args[1], args[2]
        st.ev('sto-read', q, A.loc(st, ins))
        if g.get('pend'):
            st.ev('bad', 'a read is issued while another is on its way', A.loc(st, ins))
            return [('dead', st, None)]
        pos = g['pos']
        if A.mode == 'learn':
            m = S(('got', len([e for e in st.events() if e[0] == 'sto-read'])), 32, 1, PMAX)
            if not A.assume(st, dom.cmp('ule', m, q), True):
                return [('dead', st, None)]
            g['pos'] = dom.add(pos, zext(m, 64))
            return [A.deliver(st, pos, m, cb)]
        out = []
        rem = dom.sub(g['T'], pos)
        q64 = zext(q, 64)
        for full in (True, False):
            s = st.copy()
            if not A.assume(s, dom.cmp('ule', q64, rem), full):
                continue
            if full:
                m = q
            else:
                m = S(('short', s.fresh()), 32, 0, PMAX)
                if not A.assume(s, dom.cmp('eq', zext(m, 64), rem), True):
                    continue
                s.ghost['hit'] = True
            if s.facts.contra():
                continue
            s.ghost['pos'] = dom.add(pos, zext(m, 64))
            if A.mode == 'async':
                s.ghost['pend'] = (pos, m, cb)
                out.append(('ret', s, None))
            else:
                out.append(A.deliver(s, pos, m, cb))
        return out

    def ev_reset(A, st, ins, args, n):
        if st.ghost.get('pend'):
            st.ev('bad', 'the event is reset while a read is on its way: its completion is lost', A.loc(st, ins))
        st.ghost['sig'] = False
        return ()

    def ev_wait(A, st, ins, args, n):
        g = st.ghost
        if any(k[0] == 'lock' and d > 0 for k, d in g.items() if isinstance(k, tuple)) and g.get('pend'):
            st.ev('bad', 'waits for data with the lock that delivers it', A.loc(st, ins))
        if g.get('pend'):
            pos, m, cb = g['pend']
            return [A.deliver(st, pos, m, cb, C(1, 1))]
        if not g.get('sig'):
            st.ev('bad', 'waits for data that nobody was asked for', A.loc(st, ins))
            return [('dead', st, None)]
        return C(1, 1) if ins.ty.k != 'void' else ()

    # ---- accesses
    def access(A, st, reg, off, n, rw, ins):
        R = A.roles
        nt = C(n, 64) if isinstance(n, int) else n
        if reg.size is not None and reg.kind == 'obj':
            end = dom.add(off, nt)
            f = st.facts
            if not (f.ule(end, reg.size) and f.ule(off, reg.size)):
                st.ev('oob', reg.rid, off, nt, A.loc(st, ins), rw)
        if R is None or reg.rid[0] not in ('bs', 'h'):
            return
        if reg.rid == OBJ:
            if not isc(off) or not isinstance(n, int):
                return
            cell = (OBJ, cv(off))
        else:
            cell = (reg.rid, None)
        if A.racy is not None and st.ghost.get('incb'):
            A.racy.append((cell, rw))
        if st.ghost.get('pend') and not st.ghost.get('incb') and R.shared:
            w = R.shared.get(cell) if cell not in R.vptr else None
            if w and ('w' in w or rw == 'w'):
                st.ev('race', cell, rw, A.loc(st, ins))


class Cut(Stream):
    """a loop of the stream is cut at its back edge: there the invariant of the reader has to hold, and the analysis goes
    on from every state that satisfies it. What the variables of the loop have to do with the position is inferred."""
    ALL = ('const', 1, -1, 8, -8, 'mod')

    def __init__(self, mod, mode, R, **kw):
        Stream.__init__(self, mod, mode, R)
        self.rel = {}
        self.gen = kw
        self.sym = 8
        self.wide = True
        self.cut_bad = []
        self.cuts = set()
        self.extra = None         # (A, st) -> what is broken at the back edge;
        self.regen = None         # (A, st) re-establish it in the new state

    def run(self, mk):
        def mk2():
            self.cut_bad = []
            return mk()
        return Interp.run(self, mk2)

    def tot(self, st):
        return cellv(self, st, self.roles.tot)

    def phiok(self, st, c, a, b, t0, t1):
        if isinstance(a, tuple) or isinstance(b, tuple):
            return False
        if c == 'const':
            return a is b or (a.op != 'ptr' and b.op != 'ptr' and st.facts.eq(a, b))
        if (a.op == 'ptr') != (b.op == 'ptr') or a.op == 'ptr' and a.a[0] != b.a[0]:
            return False
        if a.op == 'ptr':
            a, b = a.a[1], b.a[1]
        if a.w > 64 or a.w < 8:
            return False
        dt = dom.sub(t1, t0)
        if c == 'mod':
            return a.w < 64 and st.facts.eq(dom.add(a, dom.trunc(dt, a.w)), b)
        k = abs(c)
        if a.w < 64 and k == 1:
            # equal modulo the width, and the sum does not wrap
            m = dom.trunc(dt, a.w)
            if st.facts.eq(dom.add(a, m) if c > 0 else dom.sub(a, m), b):
                z = zext(a, 64)
                return st.facts.ule(dom.add(z, dt), C((1 << a.w) - 1, 64)) if c > 0 else st.facts.ule(dt, z)
        d = dom.sub(zext(b, 64), zext(a, 64))
        d = dom.scale(d, k) if k > 1 else d
        return st.facts.eq(d, dt) if c > 0 else st.facts.eq(dom.add(d, dt), C(0, 64))

    def relations(self, st, f, h, c0, t0):
        t1 = self.tot(st)
        for ph in f.fn.blocks[h].phis:
            k = (f.fn.name, h, ph.res)
            r = self.rel.setdefault(k, set(self.ALL))
            for c in list(r):
                if not self.phiok(st, c, c0[('phi', ph.res)], f.env[ph.res], t0, t1):
                    r.discard(c)
                    self.dirty = True

    def bounds(self, st, f, h, first):
        """which variables of the loop stay at or below an argument of the function"""
        for ph in f.fn.blocks[h].phis:
            k = ('le', f.fn.name, h, ph.res)
            v = f.env[ph.res]
            ok = not isinstance(v, tuple) and v.op != 'ptr' and 8 <= v.w <= 64
            if k not in self.rel:
                self.rel[k] = {p[1] for p in f.fn.params} if ok else set()
            for a in list(self.rel[k]):
                x = f.env.get(a)
                if not ok or x is None or isinstance(x, tuple) or x.op == 'ptr' or x.w != v.w or not st.facts.ule(v, x):
                    self.rel[k].discard(a)
                    self.dirty = True

    def best(self, k):
        r = self.rel[k]
        return next((c for c in self.ALL if c in r), None)

    def header(self, st, f, h, back):
        d = self.mod.demangle(f.fn.name)
        if 'bitstream_base<' not in d or any(g is not f and g.loops for g in st.frames):
            return Stream.header(self, st, f, h, back)
        rec = f.loops.get(h)
        if not back or rec is None:
            f.loops[h] = ('cut', 0, self.cells(st, f, h), dict(st.mem), self.tot(st), None)
            self.bounds(st, f, h, True)
            return True
        _, phase, c0, m0, t0, av0 = rec
        self.cuts.add((d, h))
        self.relations(st, f, h, c0, t0)
        self.bounds(st, f, h, False)
        bad = invariant(self, self.roles, st, self.mode)
        if self.extra:
            bad += self.extra(self, st)
        t1 = self.tot(st)
        avail = dom.sub(dom.scale(zext(cellv(self, st, self.roles.len), 64), 8), cellv(self, st, self.roles.cur))
        if phase and not st.facts.ult(t0, t1):
            for none in (True, False):
                s = st.copy()
                if self.assume(s, dom.cmp('eq', av0, C(0, 64)) if none else dom.cmp('ult', C(0, 64), av0), True) and not s.facts.contra():
                    if not (s.facts.ult(t0, t1) or none and s.facts.ult(C(0, 64), avail)):
                        bad.append('a round of the loop goes nowhere')
        where = self.loc(st)
        for b in bad:
            self.cut_bad.append((b, where))
        for e in st.events():
            if e[0] in ('bad', 'oob', 'race'):
                self.cut_bad.append((show_event(self, e), e[4] if e[0] == 'oob' else e[-1]))
        if phase:
            return False
        for var in MODES[self.mode]:
            s = state(self, self.roles, var, base=st, tag='@%s' % h, **self.gen)
            if s is None:
                continue
            fr = s.frames[-1]
            tn = self.tot(s)
            if not self.assume(s, dom.cmp('ule', t0, tn), True):
                continue
            ok = True
            for ph in fr.fn.blocks[h].phis:
                k = (fr.fn.name, h, ph.res)
                c = self.best(k)
                v0 = c0[('phi', ph.res)]
                if c == 'const':
                    fr.env[ph.res] = v0
                    continue
                if c is None:
                    fr.env[ph.res] = self.havocv(s, v0, ('cut', h, ph.res))
                    continue
                dt = dom.sub(tn, t0)
                if c == 'mod':
                    fr.env[ph.res] = dom.add(v0, dom.trunc(dt, v0.w))
                    continue
                if abs(c) == 8:
                    q = S(('eighth', h, s.fresh()), 64, 0, 1 << 44)
                    ok = ok and self.assume(s, dom.cmp('eq', dom.scale(q, 8), dt), True)
                    c0_, d_ = dom.lin_parts(dt)
                    if c0_ % 8 == 0 and all(x % 8 == 0 for x in d_.values()):
                        q = dom.mklin(_sg(c0_) // 8, {x: _sg(y) // 8 for x, y in d_.items()}, 64)
                    dt = q
                base = v0.a[1] if v0.op == 'ptr' else v0
                if base.w == 64:
                    n = dom.add(base, dt) if c > 0 else dom.sub(base, dt)
                else:
                    n = S(('cutv', h, ph.res, s.fresh()), base.w)
                    ok = ok and self.assume(s, dom.cmp('eq', dom.add(zext(n, 64), C(0, 64)) if c > 0 else dom.add(zext(n, 64), dt),
                                                       dom.add(zext(base, 64), dt) if c > 0 else zext(base, 64)), True)
                fr.env[ph.res] = Ptr(v0.a[0], n) if v0.op == 'ptr' else n
            for ph in fr.fn.blocks[h].phis:
                for a in sorted(self.rel.get(('le', fr.fn.name, h, ph.res), ())):
                    ok = ok and self.assume(s, dom.cmp('ule', fr.env[ph.res], fr.env[a]), True)
            for rid, reg in list(s.mem.items()):
                old = m0.get(rid)
                if old is None or old is reg or rid in (OBJ, DATA) or rid in self.roles.bufs.values() or rid == USER:
                    continue
                if old.layers is reg.layers and old.gen == reg.gen:
                    continue
                if reg.kind == 'obj' and rid[0] in ('a',):
                    for (o, n) in self.changed(old, reg) or ():
                        self.write(s, rid, C(o, 64), n, self.havocv(s, self.read(s, reg, C(o, 64), n), ('cutm', h, o)))
                    continue
            if self.regen:
                ok = ok and self.regen(self, s)
            if not ok or s.facts.contra():
                continue
            s.trace = None
            fr.loops[h] = ('cut', 1, self.cells(s, fr, h), dict(s.mem), tn,
                           dom.sub(dom.scale(zext(cellv(self, s, self.roles.len), 64), 8), cellv(self, s, self.roles.cur)))
            self.work.append(s)
        return False


USER = ('user',)


def _sg(x):
    return x - (1 << 64) if x >= 1 << 63 else x


def show_event(A, e):
    if e[0] == 'oob':
        return 'leaves the memory of %s' % ('the caller' if e[1] == USER else 'a buffer')
    if e[0] == 'race':
        return 'uses what the completion of the pending read uses, without waiting for it'
    return e[1]


def excnum(st, o):
    v = o.val[0] if isinstance(o.val, tuple) else None
    return st.ghost.get(('mgerr', v.a[0])) if v is not None and v.op == 'ptr' else None


def learn(cx, mod, load=True):
    """interpret the constructor; find the roles of the cells of the object"""
    A = cx.use(Stream(mod, 'learn'))
    R = Roles()
    Pg = S('page', 32, 5, PMAX)

    def init():
        st = State()
        st.ghost['pos'] = C(0, 64)
        A.start('b_new', [Ptr(OBJ), Ptr(HND), Ptr(STO), Pg, C(int(load), 1)], st)
        return st
    outs = [o for o in A.run(init) if o.kind == 'ret']
    cx.anchor(len(outs) == 1, 'construction of a bit stream')
    st = outs[0].st
    for e in st.events():
        if e[0] == 'oob':
            cx.viol('in-bounds', e[4], 'the construction of a bit stream leaves its memory', 'oob')
    R.st0 = st
    R.page = Pg

    def cells(s):
        reg = A.region(s, OBJ)
        d = {}
        for L in reg.layers:
            if not isinstance(L, dict):
                raise AnalysisError('layout of the bit stream')
            d.update(L)
        return d
    c = cells(st)
    R.other, R.loads = {}, set()
    # construction and destruction change the dynamic type; the completion calls the same functions either way
    R.vptr = {(OBJ, off) for off, (n, v) in c.items() if n == 8 and v.op == 'ptr' and '_ZTV' in str(v.a[0])}
    cx.anchor(R.vptr, 'dynamic type of the bit stream')
    R.bufs = {}
    for off, (n, v) in c.items():
        if n == 8 and v.op == 'ptr' and v.a[0][0] == 'h':
            R.bufs[off] = v.a[0]
    by = lambda f: [(off, n) for off, (n, v) in sorted(c.items()) if n in (4, 8) and v.op != 'ptr' and f(v)]
    R.size = by(lambda v: v is Pg or v is zext(Pg, 64))
    cx.anchor(len(R.size) >= 1, 'page size of the stream')
    if load:
        g1, g2 = S(('got', 1), 32, 1, PMAX), S(('got', 2), 32, 1, PMAX)
        l1, l2 = by(lambda v: v is g1 or v is zext(g1, 64)), by(lambda v: v is g2 or v is zext(g2, 64))
        cx.anchor(len(l1) == 1 and len(l2) == 1, 'lengths of the two buffers of the stream')
        R.len, R.slen = l1[0], l2[0]

        def holder(at, ln):
            out = []
            for off, rid in R.bufs.items():
                for L in A.region(st, rid).layers:
                    if not isinstance(L, dict) and L[0] == 'copy' and L[3].rid == DATA and L[4] is at:
                        out.append((off, rid))
            return out
        b1, b2 = holder(C(0, 64), g1), holder(zext(g1, 64), g2)
        cx.anchor(len(b1) == 1 and len(b2) == 1, 'the two buffers of the stream')
        R.buf, R.shadow = b1[0], b2[0]
    # the positions: what moves when eight bits are consumed or written
    fn, args = ('b_get', [Ptr(OBJ), C(8, 16)]) if load else ('b_put', [Ptr(OBJ), S('any', 32), C(8, 16)])

    def mv():
        s = st.copy()
        A.assume(s, dom.cmp('uge', S(('got', 1), 32, 1, PMAX), C(5, 32)), True)
        A.start(fn, args, s)
        return s
    o = [x for x in A.run(mv) if x.kind == 'ret' and not any(e[0] == 'sto-read' for e in x.st.events()[len(st.events()):])]
    cx.anchor(o, 'reading or writing eight bits')
    c2 = cells(o[0].st)
    moved = [(off, n) for off, (n, v) in c2.items() if n == 8 and isc(v) and cv(v) == 8 and off in c and c[off][1] is C(0, 64)]
    seen = []
    A.on_load.append(lambda A, s, reg, off, n, v, ins, at: seen.append((cv(off), n)) if reg.rid == OBJ and isc(off) else None)

    def gp():
        s = st.copy()
        A.start('b_getpos', [Ptr(OBJ)], s)
        return s
    A.run(gp)
    R.tot = [m for m in moved if m in seen]
    R.cur = [m for m in moved if m not in seen]
    cx.anchor(len(R.tot) == 1 and len(R.cur) == 1, 'bit position in the buffer and in the stream')
    R.tot, R.cur = R.tot[0], R.cur[0]
    if not load:
        hit = []
        for off, rid in R.bufs.items():
            if A.region(o[0].st, rid).layers != A.region(st, rid).layers:
                hit.append((off, rid))
        cx.anchor(len(hit) == 1, 'the buffer bits are written to')
        R.buf = hit[0]
    R.shared = None
    mine = {R.cur[0], R.tot[0], R.buf[0]} | ({R.len[0], R.slen[0], R.shadow[0]} if load else set())
    R.other = {off: nv for off, nv in c.items() if off not in mine}
    return R


def loaded(cx, mod, R):
    """cells of the object that any operation reads (after those written first by it are left out)"""
    for fn, args in (('b_get', [C(8, 16)]), ('b_sget', [C(9, 16)]), ('b_eof', []), ('b_has', [C(8, 32)]), 
                     ('b_set_position', [S('rhs', 64, 0, 1 << 40)])):
        for mode, var in (('sync', 'both buffers full'), ('async', 'full read on its way')):
            A = cx.use(Stream(mod, mode, R))
            A.sym = 4
            A.on_load.append(lambda A, s, reg, off, n, v, ins, at: R.loads.add((OBJ, cv(off))) if reg.rid == OBJ and isc(off) else None)
            A.run(lambda: go(A, fn, [Ptr(OBJ)] + args, state(A, R, var, 0)))
    return R


def footprint(cx, mod, R):
    """cells the completion of a background read uses"""
    A = cx.use(Stream(mod, 'async', R))
    A.racy = []
    for o in A.run(lambda: go(A, 'b_eof', [Ptr(OBJ)], generic(A, R, pend=True, T=True))):
        pass
    A2 = cx.use(Stream(mod, 'async', R))
    # whatever the operation, the wait delivers
    d = {}
    for cell, rw in A.racy:
        d.setdefault(cell, set()).add(rw)
    cx.anchor(d, 'completion of a background read')
    R.shared = {k: ''.join(sorted(v)) for k, v in d.items()}
    return R


def go(A, fn, args, st):
    A.start(fn, args, st)
    return st


def generic(A, R, r=None, pend=False, T=True, tag='', base=None, aligned=False, keep=None):
    """an arbitrary state of a reader: the buffer holds the stream from K on, the shadow what follows"""
    st = (base or R.st0).copy()
    if base is None:
        st.trace = None
        st.facts = type(st.facts)()
    f = st.facts
    s = lambda n, w, lo, hi: S(n + tag, w, lo, hi)
    K = s('K', 64, 0, 1 << 40)
    L1, L2 = s('len', 32, 0, PMAX), s('slen', 32, 0, PMAX)
    Pg = R.page
    k = zext(s('k', 32, 0, PMAX), 64)
    A.assume(st, dom.cmp('ule', L1, Pg), True)
    A.assume(st, dom.cmp('ule', L2, Pg), True)
    if r is not None:
        cur = dom.add(dom.scale(k, 8), C(r, 64))
        A.assume(st, dom.cmp('ule', dom.add(k, C(1 if r else 0, 64)), zext(L1, 64)), True)
    else:
        cur = dom.add(dom.scale(k, 8), s('bit', 64, 0, 7))
        A.assume(st, dom.cmp('ule', cur, dom.scale(zext(L1, 64), 8)), True)
    st.ghost.update(K=K, L1=L1, L2=L2, cur=cur)
    A.poke(st, Ptr(OBJ, C(R.cur[0], 64)), 8, cur)
    A.poke(st, Ptr(OBJ, C(R.tot[0], 64)), 8, dom.add(dom.scale(K, 8), cur))
    A.poke(st, Ptr(OBJ, C(R.len[0], 64)), R.len[1], L1 if R.len[1] == 4 else zext(L1, 64))
    A.poke(st, Ptr(OBJ, C(R.slen[0], 64)), R.slen[1], L2 if R.slen[1] == 4 else zext(L2, 64))
    data = A.region(st, DATA)
    for (off, rid), ln, at in ((R.buf, L1, K), (R.shadow, L2, dom.add(K, zext(L1, 64)))):
        g = A.region(st, rid).clone()
        g.layers = (('copy', C(0, 64), zext(ln, 64), data, at),)
        g.gen = st.fresh()
        st.mem[rid] = g
    TT = S('T', 64, 0, 1 << 41)
    E = dom.add(K, dom.add(zext(L1, 64), zext(L2, 64)))
    st.ghost['T'] = TT
    st.ghost['pend'] = None
    st.ghost['incb'] = False
    st.ghost['sig'] = True
    st.ghost['hit'] = False
    if pend:
        m = s('m', 32, 0, PMAX)
        # the read on its way fills the shadow, or brings what is left
        A.assume(st, dom.cmp('ule', dom.add(zext(L2, 64), zext(m, 64)), zext(Pg, 64)), True)
        A.assume(st, dom.cmp('eq', L1, Pg), True)
        st.ghost['pend'] = (E, m, Ptr(OBJ))
        st.ghost['sig'] = False
        pos = dom.add(E, zext(m, 64))
        st.ghost['m'] = m
        full = pend == 'full'
        A.assume(st, dom.cmp('eq', dom.add(zext(L2, 64), zext(m, 64)), zext(Pg, 64)), full)
        A.assume(st, dom.cmp('ule', pos, TT), True)
        if not full:
            A.assume(st, dom.cmp('eq', pos, TT), True)
    else:
        pos = E
    st.ghost['pos'] = pos
    A.assume(st, dom.cmp('ule', pos, TT), True)
    return st


VARIANTS = {
    # name: (pending, extra facts)
    'both buffers full': (False, lambda A, st, R: _eq(A, st, st.ghost['L1'], R.page) and _eq(A, st, st.ghost['L2'], R.page)),
    'end in the second buffer': (False, lambda A, st, R: _eq(A, st, st.ghost['L1'], R.page) and _end(A, st)),
    'end in the first buffer': (False, lambda A, st, R: _eq(A, st, st.ghost['L2'], C(0, 32)) and _end(A, st)),
    'full read on its way': ('full', lambda A, st, R: True),
    'last read on its way': (True, lambda A, st, R: True),
}
MODES = {'sync': ('both buffers full', 'end in the second buffer', 'end in the first buffer'),
         'feof': ('both buffers full', 'end in the second buffer', 'end in the first buffer'),
         'async': ('full read on its way', 'last read on its way', 'end in the second buffer', 'end in the first buffer',
                   'both buffers full')}


def _eq(A, st, a, b):
    return A.assume(st, dom.cmp('eq', a, b), True)


def _end(A, st):
    st.ghost['hit'] = True
    return _eq(A, st, st.ghost['pos'], st.ghost['T'])


def state(A, R, var, r=None, **kw):
    pend, f = VARIANTS[var]
    st = generic(A, R, r, pend, **kw)
    if 'base' not in kw:
        st.ghost['tot0'] = dom.add(dom.scale(st.ghost['K'], 8), st.ghost['cur'])
    ok = f(A, st, R)
    if pend is True:
        st.ghost['hit'] = True
    return st if ok and not st.facts.contra() else None


def streambits(A, st, at, n):
    """the n bits of the stream from bit `at` (8*byte + concrete offset), first bit first"""
    c, d = dom.lin_parts(at)
    r = c % 8
    byte = dom.mklin((c - r) >> 3, {x: k >> 3 for x, k in d.items()}, 64)
    assert all(k % 8 == 0 for k in d.values()), dom.show(at)
    reg = A.region(st, DATA)
    out = []
    for j in range((r + n + 7) // 8):
        t = A.read(st, reg, dom.add(byte, C(j, 64)), 1)
        BYTES[t.id] = t
        out += dom.bits(t)[::-1]
    return out[r:r + n]


def asvalue(bits_, w):
    """bits first bit first -> little-endian bit list of a w-bit value"""
    b = bits_[::-1]
    return b + [dom.B0] * (w - len(b))


def cellv(A, st, c):
    return A.peek(st, Ptr(OBJ, C(c[0], 64)), c[1])


def invariant(A, R, st, mode):
    """list of broken parts of the reader's invariant"""
    f = st.facts
    bad = []
    L1, L2 = zext(cellv(A, st, R.len), 64), zext(cellv(A, st, R.slen), 64)
    cur, tot = cellv(A, st, R.cur), cellv(A, st, R.tot)
    Pg = zext(R.page, 64)
    pend = st.ghost.get('pend')
    pos = st.ghost['pos']
    E = pend[0] if pend else pos
    K = dom.sub(dom.sub(E, L2), L1)
    ob = lambda c, m: None if c else bad.append(m)
    ob(pend or st.ghost.get('sig'), 'the reader waits for data nobody was asked for')
    ob(not any(isinstance(k, tuple) and k[0] == 'lock' and d for k, d in st.ghost.items()), 'a lock is kept')
    for at, (n, v) in R.other.items():
        if (OBJ, at) in R.loads:
            ob(cellv(A, st, (at, n)) is v, 'a setting of the reader (at byte %d of it) is changed for good' % at)
    ob(f.ule(cur, dom.scale(L1, 8)), 'the bit position is beyond the buffered data')
    ob(f.ule(L1, Pg) and f.ule(L2, Pg), 'more is buffered than the buffers hold')
    ob(f.eq(tot, dom.add(dom.scale(K, 8), cur)), 'the position in the stream is not that of the next bit')
    atend = f.eq(pos, st.ghost['T']) and (mode != 'feof' or st.ghost['hit'])
    if pend:
        m = zext(pend[1], 64)
        ob(f.ule(dom.add(L2, m), Pg), 'the read on its way does not fit')
        ob(f.eq(dom.add(L2, m), Pg) or atend, 'the read on its way does not fill the second buffer')
        ob(f.eq(L1, Pg), 'a read is on its way before the first buffer is full')
    else:
        ob(atend or f.eq(L2, Pg), 'the second buffer is not filled')
        ob(f.eq(L1, Pg) or (f.eq(L2, C(0, 64)) and atend), 'data is in the second buffer with space in the first')
    # contents
    for nm_, rid, ln, base in (('first', R.buf[1], L1, K), ('second', R.shadow[1], L2, dom.add(K, L1))):
        i = S(('idx', nm_), 64, 0, PMAX)
        s2 = st.copy()
        if not A.assume(s2, dom.cmp('ult', i, ln), True) or s2.facts.contra():
            continue
        for s3, v in A.read_cases(s2, rid, i):
            want = dom.add(base, i)
            ok = v.op == 's' and v.a[0][0] == 'v' and v.a[0][1] == DATA and \
                s3.facts.eq(v.a[0][3] if isinstance(v.a[0][3], dom.T) else C(v.a[0][3], 64), want)
            ob(ok, 'the %s buffer does not hold the stream' % nm_)
    return bad


# ---- values, as bits of the stream, under the facts of a path
def terms_of(t, acc=None):
    acc = {} if acc is None else acc
    wl = [t]
    while wl:
        x = wl.pop()
        if not isinstance(x, dom.T) or x.id in acc:
            continue
        acc[x.id] = x
        for a in x.a:
            if isinstance(a, dom.T):
                wl.append(a)
            elif isinstance(a, tuple):
                for y in a:
                    if isinstance(y, tuple) and y and isinstance(y[0], dom.T):
                        wl.append(y[0])
                    elif isinstance(y, dom.T):
                        wl.append(y)
    return acc


def subst(b, f):
    out = dom.B0
    for a in b:
        if a == 1:
            out = out ^ dom.B1
        elif a[0] == '&':
            out = out ^ dom.band(subst(a[1], f), subst(a[2], f))
        else:
            out = out ^ f(a)
    return out


def known_bits(st):
    """single stream bits the branches of the path have decided"""
    d = {}
    for t, v in st.facts.bl.items():
        if t.w != 1 or t.op not in ('cmp', 'trunc', 'and', 'xor', 's'):
            continue
        b = dom.bits(t)[0]
        c = dom.B1 in (b,) or 1 in b
        r = b - frozenset([1])
        if len(r) == 1:
            (a,) = r
            if a != 1 and a[0] != '&':
                d[a] = bool(v) != bool(c)
    return d


def same_bits(A, st, val, want):
    """val (a term) shows the bits `want` (little-endian list) in every case of the path; None or what differs"""
    allt = terms_of(val)
    for b in want:
        pass
    wl = [(st, {})]
    amb = [t for t in allt.values() if t in A.ambs]
    used = {a[0] for b in dom.bits(val) for a in flat(b)}
    amb = [t for t in amb if t.id in used]
    for t in amb:
        nw = []
        for s, m in wl:
            for s2, v in A.cases(s, t):
                m2 = dict(m)
                m2[t.id] = v
                nw.append((s2, m2))
        wl = nw
        if len(wl) > 200:
            return 'too many cases'
    wterms = {}
    for s, m in wl:
        if s.facts.contra():
            continue
        kb = known_bits(s)
        # offsets of the stream bytes, identified up to the facts of the path
        reps = []

        def canon(t):
            if t.op != 's' or not isinstance(t.a[0], tuple) or t.a[0][0] != 'v' or len(t.a[0]) < 5:
                return t.id
            who = (t.a[0][1], t.a[0][2], t.a[0][4])
            o = t.a[0][3]
            o = o if isinstance(o, dom.T) else C(o, 64)
            for w2, o2, i2 in reps:
                if who == w2 and (o is o2 or s.facts.eq(o, o2)):
                    return i2
            reps.append((who, o, t.id))
            return t.id
        byid = dict(BYTES)
        byid.update(allt)
        for v in m.values():
            byid.update(terms_of(v))

        def f(a):
            t = byid.get(a[0])
            if t is not None and a[0] in m:
                return subst(dom.bits(m[a[0]])[a[1]], f)
            if a in kb:
                return dom.B1 if kb[a] else dom.B0
            if t is None:
                return frozenset([a])
            c = (canon(t), a[1])
            if c in kb:
                return dom.B1 if kb[c] else dom.B0
            return frozenset([c])
        kb2 = {}
        dead = False
        wk = list(kb.items())
        while wk:
            a, v = wk.pop()
            if a[0] in m:
                x = dom.bits(m[a[0]])[a[1]]
                if x in (dom.B0, dom.B1):
                    dead = dead or (x == dom.B1) != v
                y = x - dom.B1
                if len(y) == 1:
                    (b1,) = y
                    if b1[0] != '&':
                        wk.append((b1, v != (x != y)))
                continue
            t = byid.get(a[0])
            k2 = (canon(t) if t is not None else a[0], a[1])
            dead = dead or kb2.get(k2, v) != v
            kb2[k2] = v
        if dead:
            continue
        kb = {**kb2, **kb}
        got = [subst(b, f) for b in dom.bits(val)]
        exp = [subst(b, f) for b in want]
        if got != exp:
            j = next(i for i, (x, y) in enumerate(zip(got, exp)) if x != y)
            return 'bit %d' % j
    return None


def flat(b):
    for a in b:
        if a == 1:
            continue
        if a[0] == '&':
            for x in (a[1], a[2]):
                for y in flat(x):
                    yield y
        else:
            yield a


BYTES = {}


def same_layout(A, R, st):
    """the roles, with the buffers of the object of this state"""
    R2 = Roles()
    R2.__dict__.update(R.__dict__)

    def at(off):
        v = A.peek(st, Ptr(OBJ, C(off, 64)), 8)
        if v.op != 'ptr':
            raise AnalysisError('the buffers of the bit stream')
        return (off, v.a[0])
    R2.buf, R2.shadow = at(R.buf[0]), at(R.shadow[0])
    R2.other = {}
    return R2
