"""Queues on a fixed memory: items come out as they went in, in their order, and nothing else of the memory is touched.

Every operation of both queues is interpreted from every state of the queue: empty, one item, several in a row, several around the end of
the memory; sizes, places and the memory's size are symbols, the item behind the first is unknown until it is looked at. The loops of
putting (making room, growing) and of moving everything to a larger memory are cut: one arbitrary round from an arbitrary state. Checked:
what is put is the bytes given, behind the last item, in memory no item uses; what is taken is the first; an item is removed only when
there is no room and that is the policy; growing moves every item in order; a refused item changes nothing."""
import dom
from dom import C, S, Ptr, NULL, isc, cv, zext, trunc
from absint import State, AnalysisError, PathEnd, Reg
from cut import CutAt
import models
import quot

LEVEL = 'proof'
FLOOR = 60
UNITS = ['mg/core/thread.cpp', 'mg/core/uvbase.cpp']
DRIVER = r'''#include "mgcore.h"
#include <new>
#include <stddef.h>
typedef unsigned char BYTE;
using namespace mg::core;
#include "mg/media/media_queue.h"
typedef cfixed_queue<media_sample> base;
extern "C" { bool policy(int k); void grow(void* q); }
struct Q : base {
  Q(bool d) : base(d) {}
  static size_t off(int k) {
    switch (k) {
      case 0: return offsetof(base::queue_header, full_size);
      case 1: return offsetof(base::queue_header, start_offset);
      case 2: return offsetof(base::queue_header, end_offset);
      case 3: return offsetof(base::queue_header, total_written);
      case 4: return offsetof(base::queue_header, total_deleted);
      case 5: return offsetof(base::queue_item_header, body_size);
      case 6: return offsetof(base::queue_item_header, next_item_offset);
      case 7: return sizeof(base::queue_header);
      case 8: return sizeof(base::queue_item_header);
      case 9: return sizeof(media_sample);
      case 10: return sizeof(Q);
      case 11: return offsetof(media_sample, composition_time);
      case 12: return offsetof(media_sample, decoding_time);
      case 13: return offsetof(media_sample, duration);
      case 14: return offsetof(media_sample, discontinuity);
      case 15: return offsetof(media_sample, bIsSyncPoint);
    }
    return 0;
  }
};
struct G : grow_queue<media_sample> {
  bool failed_to_grow_should_drop() override { return policy(0); }
  bool failed_to_grow_should_throw() override { return policy(1); }
  void no_space() override { grow(this); }
  void made() { grow_queue<media_sample>::no_space(); }
};
#define OPS(N, T) void N##_alloc(T* q, int n) { q->allocate(true, n); } \
bool N##_put(T* q, const media_sample* t, const BYTE* p, unsigned int n, bool r) { return q->push(*t, p, n, r); } \
void N##_get(media_sample* o, T* q, BYTE* p, int n, int* r) { new (o) media_sample(q->pop(p, n, r)); } \
const media_sample* N##_look(T* q, int* r, BYTE** p) { return q->pick_next(r, p); } \
void N##_delete(T* q) { q->delete_item(); } \
void N##_clear(T* q) { q->clear(); } \
int N##_size(T* q) { return q->size(); } \
void N##_del(T* q) { q->~T(); }
extern "C" {
size_t k_off(int k) { return Q::off(k); }
void q_new(void* w, bool d) { new (w) Q(d); }
void g_new(void* w) { new (w) G; }
void g_grow(G* q) { q->made(); }
const media_sample* g_llook(G* q, int* r, BYTE** p) { return q->locked_pick_next(r, p); }
OPS(q, Q)
OPS(g, G)
}
'''
ASSUMPTIONS = ['the memory of a queue is below 2^30 bytes', 'an item is looked at or taken only when there is one', 'operations are not entered again from inside no_space overridden elsewhere',
               'what is put does not lie in the memory of the queue', 'items lie behind each other without gaps, so that a larger memory they were all moved to has more room than the one before']
FQ, MQ = ('src/mg/media/fixed_queue.h', 0), ('src/mg/media/media_queue.h', 0)
OBJ, LOC, NEW, ITEM, DATA, OUT, USER, N1, N2 = ('a', 'queue object'), ('h', 'memory'), ('h', 'larger memory'), ('item',), ('data',), ('result',), ('a', 'user'), ('count',), ('place',)
B = (1 << 30) - 1
LONG = 1 << 31
MANY = (1 << 31) - 2    # put so far; at most 2^25 are there, each has a head


def wide(st, t):
    """a 32-bit number as a 64-bit one, a sum as the sum of its parts"""
    if t.op == 'lin':
        c, d = dom.lin_parts(t)
        m = lambda k: C(dom.sgn(k, t.w) & ((1 << 64) - 1), 64)
        r = m(c)
        for y, k in d.items():
            r = dom.add(r, dom.scale(wide(st, y), dom.sgn(k, t.w)))
        return r
    if t.op in ('sext', 'zext') and t.a[0].op == 'lin':
        return wide(st, t.a[0])
    return zext(t, 64) if t.w <= 64 else t


def place(st, t):
    """an offset: the parts of sums made wide when that is the same"""
    if t.op in ('sext', 'zext', 'lin'):
        return wide(st, t)
    if t.op == 'select' and t.a[0].op == 'cmp':
        p, x, y = t.a[0].a
        c = st.facts.decide(dom.cmp(p, place(st, x), place(st, y)))
        if c is not None:
            return place(st, t.a[1 if c else 2])
    return t


class Every:
    """the regions the rule looks after itself"""
    def __contains__(self, rid):
        return rid == OBJ or rid[0] == 'h'


class Que(CutAt):
    handled = Every()
    named = True

    def __init__(self, mod, lay=None, policy='none'):
        CutAt.__init__(self, mod)
        models.install_std(self)
        models.install_exc(self)
        models.install_streams(self)
        self.lay = lay
        self.policy = policy
        self.alloc_throws = True
        self.max_steps = 20000000
        self.cutpat = r'.*::(?:push|no_space)\(.*|.*queue<.*>::.*' if lay else r'(?!)'
        CS = r'mg::core::critical_section::'

        def held(k):
            def h(A, st, ins, a, n):
                d = st.ghost['held'] = st.ghost.get('held', 0) + k
                if d < 0:
                    A.problem('the lock is released without being held', A.loc(st, ins))
                return ()
            return h
        own = lambda f: lambda A, st, ins, a, n: f(A, st, ins, a, n) if A.to_ptr(st, a[0])[0] == OBJ else ()
        self.hook(CS + r'lock\(\)', own(held(1)))
        self.hook(CS + r'unLock\(\)', own(held(-1)))
        self.hook(CS + r'critical_section\(\)', lambda A, st, ins, a, n: (A.poke(st, a[0], 8, Ptr(('g', '_ZTVN2mg4core16critical_sectionE'), C(16, 64))), ())[1])
        self.hook(CS + r'~critical_section\(\)', lambda A, st, ins, a, n: ())
        self.hook('policy', lambda A, st, ins, a, n: S(('policy', cv(a[0])), 1) if ins.ty.a == 1 else zext(S(('policy', cv(a[0])), 1), ins.ty.a))
        self.hook('grow', Que.growth)
        self.hook(r'mg::core::cfixed_queue<.*>::push\(.*', Que.moveone)
        self.on_access.append(Que.acc)
        self.on_load.append(Que.ld)

    # ---- the state of a queue
    def where(self, st):
        """the region of the memory now"""
        v = self.peek(st, Ptr(OBJ, C(self.lay['loc'], 64)), 8, True)
        p = self.to_ptr(st, v) if v.op == 'ptr' else None
        return p[0] if p and isc(p[1]) and cv(p[1]) == 0 else None

    def hd(self, st, rid, k):
        return self.peek(st, Ptr(rid, C(self.lay[k], 64)), 4)

    def full(self, b):
        return dom.add(b, C(self.lay['H'], 32))

    def memory(self, st, rid, q):
        """a memory holding q = (kind, s, a, e, b, n, w, full)"""
        kind, s, a, e, b, n, w, full = q
        g = Reg(rid, 'obj', zext(full, 64))
        g.gen = st.fresh()
        st.mem[rid] = g
        for k, v in (('full', full), ('start', s), ('end', e), ('written', w), ('deleted', dom.sub(w, n))):
            self.poke(st, Ptr(rid, C(self.lay[k], 64)), 4, v)
        self.poke(st, Ptr(rid, C(0, 64)), 4, C(0x100, 32))
        st.ghost[('q', rid)] = q
        st.ghost[('next', rid)] = None

    def fresh_q(self, st, kind, u, row=False):
        """an arbitrary queue of a kind; None if there is none"""
        H, HS = self.lay['H'], self.lay['HS']
        s, e = S(('s', u), 32, 0 if kind == 'empty' else HS, B), S(('e', u), 32, 0 if kind == 'empty' else HS, B)
        a, b = S(('a', u), 32, 0, B), S(('b', u), 32, 0, B)
        full = S(('full', u), 32, HS + 1, B)
        w = S(('w', u), 32, 0, MANY)
        n = C(0, 32) if kind == 'empty' else C(1, 32) if kind == 'one' else S(('n', u), 32, 2, 1 << 25)
        if kind == 'empty':
            s = S(('s', u), 32, 0, (1 << 31) - 1)
            e = S(('e', u), 32, 0, (1 << 31) - 1)
        if kind == 'one':
            e, b = s, a
        A = lambda p, x, y: self.assume(st, dom.cmp(p, x, y), True)
        ok = A('ule', n, w)
        if kind == 'one':
            ok = ok and A('ule', dom.add(s, self.full(a)), full)
        elif kind == 'row':
            ok = ok and A('ule', dom.add(s, self.full(a)), e) and A('ule', dom.add(e, self.full(b)), full)
        elif kind == 'around':
            ok = ok and A('ule', dom.add(e, self.full(b)), s) and A('ule', dom.add(s, self.full(a)), full)
        return (kind, s, a, e, b, n, w, full) if ok and not st.facts.contra() else None

    def items(self, st, rid):
        q = st.ghost.get(('q', rid))
        if q is None:
            return []
        r = []
        if q[0] != 'empty':
            r.append((q[1], q[2]))
            if q[0] != 'one':
                r.append((q[3], q[4]))
        x = st.ghost.get(('next', rid))
        return r + ([x] if x else [])

    def resolve(self, st, rid):
        """the kinds the memory can be of now: [(state, q)]; problems when it is none"""
        old = st.ghost.get(('q', rid))
        w, d, s, e, full = (self.hd(st, rid, k) for k in ('written', 'deleted', 'start', 'end', 'full'))
        n = dom.sub(w, d)
        if st.facts.eq(n, C(0, 32)):
            return [(st, ('empty', s, None, e, None, C(0, 32), w, full))]
        its = self.items(st, rid)
        sb = self.body(st, its, s)
        eb = self.body(st, its, e)
        if sb is None or eb is None:
            return [(st, None)]
        out = []
        one = st.facts.decide(dom.cmp('eq', n, C(1, 32)))
        x = st.ghost.get(('next', rid))
        if one is not False:
            s1 = st.copy()
            ok = self.assume(s1, dom.cmp('eq', n, C(1, 32)), True)
            if ok and x and old and s1.facts.eq(s, x[0]):
                # the only one left is the last
                ok = self.assume(s1, dom.cmp('eq', x[0], old[3]), True) and self.assume(s1, dom.cmp('eq', x[1], old[4]), True)
            if ok and not s1.facts.contra():
                out.append((s1, ('one', s, sb, e, eb, n, w, full) if s1.facts.eq(s, e) else None))
        if one is not True:
            s1 = st.copy()
            if not self.assume(s1, dom.cmp('eq', n, C(1, 32)), False) or not self.assume(s1, dom.cmp('ult', C(1, 32), n), True) or s1.facts.contra():
                return out
            ways = [s1]
            if x and old and s1.facts.eq(s, x[0]):
                # the item behind the first, with others behind it
                _, so, ao, eo, bo = old[:5]
                row = lambda z: self.assume(z, dom.cmp('ule', dom.add(so, self.full(ao)), x[0]), True)
                ends = lambda z, t: self.assume(z, dom.cmp('ule', dom.add(x[0], self.full(x[1])), t), True)
                if old[0] == 'row':
                    ways = [z for z in [s1] if row(z) and ends(z, eo)]
                else:
                    s2 = s1.copy()
                    ways = [z for z in [s1] if row(z) and ends(z, old[7])] + [z for z in [s2] if ends(z, eo)]
            for z in ways:
                if z.facts.contra():
                    continue
                f = z.facts
                if f.ule(dom.add(wide(z, s), wide(z, self.full(sb))), wide(z, e)) and f.ule(dom.add(wide(z, e), wide(z, self.full(eb))), wide(z, full)):
                    k = 'row'
                elif f.ule(dom.add(wide(z, e), wide(z, self.full(eb))), wide(z, s)) and f.ule(dom.add(wide(z, s), wide(z, self.full(sb))), wide(z, full)):
                    k = 'around'
                else:
                    k = None
                out.append((z, (k, s, sb, e, eb, n, w, full) if k else None))
        return out

    def body(self, st, its, o):
        for off, b in its:
            if st.facts.eq(off, o):
                return b
        return None

    # ---- what is accessed
    def memories(self, st, rid):
        return rid in (LOC, NEW) or rid[0] == 'h' and ('mem', rid) in st.ghost or rid[0] == 'h' and self.lay and rid == self.where(st)

    def acc(A, st, reg, off, n, rw, ins):
        rid = reg.rid
        if rid == USER and rw == 'w':
            st.ghost['user'] = st.ghost.get('user', ()) + ((wide(st, off), wide(st, n if isinstance(n, dom.T) else C(n, 64))),)
        if not A.lay or not A.memories(st, rid):
            return
        n = n if isinstance(n, dom.T) else C(n, 64)
        o = place(st, off)
        m = wide(st, n)
        if reg.size is not None and not st.facts.ule(dom.add(o, m), place(st, reg.size)):
            A.problem('the memory of the queue is left', A.loc(st, ins))
            raise PathEnd('memory')
        c, d = dom.lin_parts(o)
        neg = C(max(0, -dom.sgn(c, 64)), 64)
        pos = C(max(0, dom.sgn(c, 64)), 64)
        for y, k in d.items():
            k = dom.sgn(k, 64)
            if k < 0:
                neg = dom.add(neg, dom.scale(y, -k))
            else:
                pos = dom.add(pos, dom.scale(y, k))
        if not st.facts.ule(neg, pos):
            A.problem('the memory of the queue is left', A.loc(st, ins))
        if rid != NEW and not st.ghost.get('held') and not A.unlocked:
            A.problem('the memory is used without the lock', A.loc(st, ins))
        if rw == 'w' and not (isc(o) and cv(o) < A.lay['HS']):
            st.ghost[('writes', rid)] = st.ghost.get(('writes', rid), ()) + ((o, m, A.loc(st, ins)),)

    # places as the sums they are
    def read(self, st, reg, off, n, isptr=False):
        return CutAt.read(self, st, reg, self.norm(st, reg.rid, off), n, isptr)

    def write(self, st, rid, off, n, val):
        return CutAt.write(self, st, rid, self.norm(st, rid, off), n, val)

    def copy(self, st, drid, doff, srid, soff, ln):
        return CutAt.copy(self, st, drid, self.norm(st, drid, doff), srid, self.norm(st, srid, soff), wide(st, ln))

    def norm(self, st, rid, off):
        return place(st, off) if self.lay and not isc(off) and self.memories(st, rid) else off

    unlocked = False

    def ld(A, st, reg, off, n, v, ins, at):
        rid = reg.rid
        if not A.lay or n != 4 or not A.memories(st, rid):
            return None
        o = place(st, off)
        if isc(o) and cv(o) < A.lay['HS']:
            return None
        for w, m, _ in st.ghost.get(('writes', rid), ()):
            if st.facts.ule(w, o) and st.facts.ult(o, dom.add(w, m)):
                return None
        q = st.ghost.get(('q', rid))
        for i, (x, b) in enumerate(A.items(st, rid)):
            d = dom.sub(o, zext(x, 64))
            c = st.facts.const(d)
            if c is None or c > 1 << 20:
                d = None
                for k in (0, A.lay['body'], A.lay['next']):
                    if st.facts.eq(o, dom.add(zext(x, 64), C(k, 64))):
                        c = k
                        break
                else:
                    continue
            if c == 0:
                return C(0x200, 32)
            if c == A.lay['body']:
                return b
            if c == A.lay['next']:
                if q[0] in ('row', 'around') and st.facts.eq(x, q[1]):
                    y = st.ghost.get(('next', rid))
                    if y is None:
                        y = A.second(st, rid)
                    return y[0]
                return None
            if c > A.lay['next']:
                return None
        # no item: whatever is there
        return None

    def second(self, st, rid):
        """the item behind the first"""
        u = st.fresh()
        q = st.ghost[('q', rid)]
        y = S(('o', u), 32, self.lay['HS'], B), S(('c', u), 32, 0, B)
        self.assume(st, dom.cmp('ule', dom.add(y[0], self.full(y[1])), q[7]), True)
        if q[0] == 'row':
            self.assume(st, dom.cmp('ule', dom.add(q[1], self.full(q[2])), y[0]), True)
            self.assume(st, dom.cmp('ule', y[0], q[3]), True)
        st.ghost[('next', rid)] = y
        return y

    def seconds(self, st, rid):
        """the item behind the first known: where it can be"""
        q = st.ghost[('q', rid)]
        if q[0] != 'around' or st.ghost.get(('next', rid)):
            return [st]
        s2 = st.copy()
        y = self.second(st, rid)
        st.ghost[('next', rid)] = s2.ghost[('next', rid)] = y
        ok = self.assume(st, dom.cmp('ule', dom.add(q[1], self.full(q[2])), y[0]), True)
        ok2 = self.assume(s2, dom.cmp('ule', dom.add(y[0], self.full(y[1])), q[7]), True) and self.assume(s2, dom.cmp('ule', y[0], q[3]), True)
        return [s for s, k in ((st, ok), (s2, ok2)) if k and not s.facts.contra()]

    # ---- putting
    def fits(self, st, q, space):
        """conditions under which there is room, one of them enough"""
        H, HS = self.lay['H'], C(self.lay['HS'], 64)
        k, s, a, e, b, n, w, full = q
        W = lambda x: wide(st, x)
        if k == 'empty':
            return [dom.cmp('ule', dom.add(HS, space), W(full))]
        top = dom.add(W(e), W(self.full(b)))
        if k in ('one', 'row'):
            return [dom.cmp('ule', dom.add(top, space), W(full)), dom.cmp('ule', dom.add(HS, space), W(s))]
        return [dom.cmp('ule', dom.add(top, space), W(s))]

    def space(self, st):
        return dom.add(zext(st.ghost['len'], 64), C(self.lay['H'], 64))

    def room(self, st, q, space):
        """there may be room"""
        for c in self.fits(st, q, space):
            s2 = st.copy()
            d = s2.facts.decide(c)
            if d is True or d is None and self.assume(s2, c, True) and not s2.facts.contra():
                return True
        return False

    def put(self, st, rid, item, src, length, where):
        """what is new in this memory is the item, behind the others, in memory none of them uses; the new item (place, size) or None"""
        say = lambda w: self.problem(w, where)
        q = st.ghost.get(('q', rid))
        H, HS = self.lay['H'], self.lay['HS']
        if q is None:
            # a memory just made
            q = ('empty', None, None, None, None, C(0, 32), C(0, 32), self.hd(st, rid, 'full'))
        f = st.facts
        W = lambda x: wide(st, x)
        n = dom.sub(self.hd(st, rid, 'written'), self.hd(st, rid, 'deleted'))
        if not f.eq(n, dom.add(q[5], C(1, 32))):
            return say('the number of items is not one more')
        if not f.ule(self.hd(st, rid, 'written'), C(MANY, 32)):
            say('the number of items put overflows')
        if not f.eq(self.hd(st, rid, 'full'), q[7]):
            return say('the size of the memory is forgotten')
        o = self.hd(st, rid, 'end')
        if q[0] == 'empty':
            if not f.eq(self.hd(st, rid, 'start'), o):
                return say('the only item is not the first')
        elif not f.eq(self.hd(st, rid, 'start'), q[1]):
            return say('putting an item changes which is the first')
        end = dom.add(W(o), dom.add(W(length), C(H, 64)))
        if not f.ule(C(HS, 64), W(o)) or not f.ule(end, W(q[7])):
            return say('an item is put outside of the memory')
        if q[0] != 'empty':
            top = dom.add(W(q[3]), W(self.full(q[4])))
            if q[0] in ('one', 'row'):
                ok = f.ule(top, W(o)) or f.ule(end, W(q[1]))
            else:
                ok = f.ule(top, W(o)) and f.ule(end, W(q[1]))
            if not ok:
                return say('an item is put where another one is')
        for wo, wn, at in st.ghost.get(('writes', rid), ()):
            inside = f.ule(W(o), wo) and f.ule(dom.add(wo, wn), end)
            link = q[0] != 'empty' and f.eq(wo, dom.add(W(q[3]), C(self.lay['next'], 64))) and f.eq(wn, C(4, 64))
            if not (inside or link):
                self.problem('putting an item changes another one', at)
        R = lambda k, m=4: self.read(st, self.region(st, rid), dom.add(W(o), C(k, 64)), m)
        if not f.eq(R(self.lay['body']), trunc(length, 32)):
            say('the size of an item is not kept')
        if not f.eq(R(0), C(0x200, 32)):
            say('an item is not marked as one')
        if q[0] != 'empty':
            x = self.read(st, self.region(st, rid), dom.add(W(q[3]), C(self.lay['next'], 64)), 4)
            if not f.eq(x, o):
                say('the last item does not lead to the new one')
        for k, m in self.lay['fields']:
            if R(self.lay['IH'] + k, m) is not self.peek(st, item(k), m) and not f.eq(R(self.lay['IH'] + k, m), self.peek(st, item(k), m)):
                say('what describes an item is changed')
                break
        # any of its bytes
        s2 = st.copy()
        k = S(('any byte',), 64, 0, B)
        if self.assume(s2, dom.cmp('ult', k, W(length)), True) and not s2.facts.contra():
            rs, so = src
            x = self.read(s2, self.region(s2, rid), dom.add(W(o), dom.add(k, C(H, 64))), 1)
            y = self.read(s2, self.region(s2, rs), dom.add(so, k), 1)
            if x is not y and not s2.facts.eq(x, y):
                say('the bytes of an item are changed')
        return o, trunc(length, 32)

    def given(self, st):
        return (lambda k: Ptr(ITEM, C(k, 64))), (DATA, C(0, 64))

    def segment(self, st, key):
        raise AnalysisError('segment')

    def arrive(self, st, f, h):
        where = self.loc(st)
        for s2, phase in (self.moved(st, where) if self.moving else self.rounds(st, where)):
            self.now = phase
            CutAt.arrive(self, s2, s2.frames[-1], h)
        return False

    def segment(self, st, key):
        return self.now

    def rounds(self, st, where):
        """a round of making room"""
        rid = self.where(st)
        if rid is None:
            self.problem('there is no memory', where)
            return
        q0 = st.ghost.get(('q', LOC)) if ('q', LOC) in st.ghost else None
        for s2, q in self.resolve(st, rid):
            if q is None:
                self.problem('the queue is not a row of items', where)
                continue
            if not self.change(s2, rid, q0, q, where):
                continue
            s2.ghost['q now'] = q
            yield s2, (q[0], '' if self.room(s2, q, self.space(s2)) else 'no room')

    def change(self, st, rid, q0, q, where):
        """from q0 to q without putting anything"""
        say = lambda w: self.problem(w, where)
        f = st.facts
        if rid != LOC:
            # everything is in a larger memory
            return True
        for wo, wn, at in st.ghost.get(('writes', LOC), ()):
            self.problem('making room changes an item', at)
            return False
        if not f.eq(q[7], q0[7]):
            say('the size of the memory is forgotten')
            return False
        d = f.const(dom.sub(q0[5], q[5]))
        if d == 0:
            if q[0] != 'empty' and not (f.eq(q[1], q0[1]) and f.eq(q[3], q0[3])):
                say('making room mixes the items up')
                return False
            return True
        if d != 1:
            say('more than one item is removed for room, or none is known')
            return False
        if not self.mayremove(st):
            say('an item is removed although that is not the policy')
            return False
        if self.room(st, q0, self.space(st)):
            say('an item is removed although there is room')
            return False
        if q[0] != 'empty':
            x = st.ghost.get(('next', LOC))
            if not (x and f.eq(q[1], x[0]) and f.eq(q[3], q0[3])):
                say('another item than the first is removed')
                return False
        return True

    def mayremove(self, st):
        if self.policy == 'fixed':
            return st.facts.decide(st.ghost['dons']) is True
        return st.facts.decide(S(('policy', 0), 1)) is True

    # ---- growing
    moving = False

    def growth(A, st, ins, a, n):
        """what making a larger memory can come to (see 'growing')"""
        rid = A.where(st)
        if A.to_ptr(st, a[0])[0] != OBJ or rid is None:
            raise AnalysisError('a queue without memory grows')
        at = A.loc(st, ins)
        if not st.ghost.get('held'):
            A.problem('the memory is used without the lock', at)
        for wo, wn, w in st.ghost.get(('writes', rid), ()):
            A.problem('making room changes an item', w)
        out = []
        for s0, q in A.resolve(st, rid):
            if q is None:
                A.problem('the queue is not a row of items', at)
                continue
            # all of it moved
            s = s0.copy()
            u = s.fresh()
            kind = 'row' if q[0] == 'around' else q[0]
            to = ('h', 'grown %s' % u)
            s.ghost['mem', to] = True
            g = A.fresh_q(s, kind, u)
            if g and all(A.assume(s, dom.cmp('eq', x, y), True) for x, y in ((g[5], q[5]), (g[6], q[5]))) and A.assume(s, dom.cmp('ult', q[7], g[7]), True) and \
                    A.assume(s, dom.cmp('ult', dom.add(*A.spaces(q)), dom.add(*A.spaces(g))), True) and \
                    (kind == 'empty' or A.assume(s, dom.cmp('eq', g[2], q[2]), True) and A.assume(s, dom.cmp('eq', g[4], q[4]), True)) and not s.facts.contra():
                A.memory(s, to, g)
                s.mem[rid] = r = A.region(s, rid).clone()
                r.alive = False
                A.poke(s, Ptr(OBJ, C(A.lay['loc'], 64)), 8, Ptr(to))
                out.append(('ret', s, ()))
            drop, throw = S(('policy', 0), 1), S(('policy', 1), 1)
            rest = []
            s0.ghost['failed'] = True
            for c in (True, False):
                s = s0.copy()
                if not A.assume(s, drop, c):
                    continue
                if c and q[0] != 'empty':
                    out += [('push', s3, (A.mod.func('g_delete'), [Ptr(OBJ)])) for s3 in A.seconds(s, rid)]
                else:
                    rest.append(s)
            for s1 in rest:
                for c in (True, False):
                    s = s1.copy()
                    if not A.assume(s, throw, c):
                        continue
                    out.append(('throw', s, (Ptr(('exc', 'given up')), 'given up')) if c else ('ret', s, ()))
        return out

    def moveone(A, st, ins, a, n):
        """an item is put in the larger memory: there is room for all of them"""
        if not A.moving:
            return None
        return A.moveitem(st, ins, a)

    def larger(self, st, at):
        """the memory everything is moved to"""
        rid = self.where(st)
        q0 = st.ghost[('q', LOC)]
        if rid is None or rid == LOC or not self.region(st, rid).alive:
            return self.problem('the items are moved nowhere', at)
        if rid != NEW:
            if not st.facts.eq(self.hd(st, rid, 'written'), self.hd(st, rid, 'deleted')):
                return self.problem('a new memory is not empty', at)
            full = self.hd(st, rid, 'full')
            if not st.facts.ult(wide(st, q0[7]), wide(st, full)) or not st.facts.eq(place(st, self.region(st, rid).size), place(st, zext(full, 64))):
                return self.problem('the memory does not become larger', at)
        return rid

    def moveitem(self, st, ins, a):
        at = self.loc(st, ins)
        q = st.ghost[('q', LOC)]
        f = st.facts
        if self.to_ptr(st, a[0])[0] != OBJ or not self.larger(st, at):
            self.problem('the items are moved nowhere', at)
            raise PathEnd('moved')
        if st.ghost.get('taken'):
            self.problem('an item is moved twice', at)
        st.ghost['taken'] = True
        t, p = self.to_ptr(st, a[1]), self.to_ptr(st, a[2])
        ok = q[0] != 'empty' and t and p and p[0] == LOC and f.eq(place(st, p[1]), dom.add(zext(q[1], 64), C(self.lay['H'], 64))) and f.eq(a[3], q[2])
        for k, m in self.lay['fields'] if ok else ():
            x = self.read(st, self.region(st, t[0]), dom.add(t[1], C(k, 64)), m)
            y = self.read(st, self.region(st, LOC), dom.add(zext(q[1], 64), C(self.lay['IH'] + k, 64)), m)
            ok = ok and (x is y or f.eq(x, y))
        if not ok:
            self.problem('what is moved is not the first item', at)
        return C(1, 1)

    def moved(self, st, where):
        """a round of moving the items to the larger memory"""
        if not self.larger(st, where):
            return
        for s2, q in self.resolve(st, LOC):
            if q is None:
                self.problem('the queue is not a row of items', where)
            elif self.movedone(s2, q, where):
                s2.ghost['q now'] = q
                yield s2, ('move', q[0])

    def movedone(self, st, q, where):
        """the first item was moved and removed, or nothing was done"""
        g, f = st.ghost, st.facts
        q0 = g[('q', LOC)]
        if g.get(('writes', LOC)):
            return self.problem('moving changes the items', where)
        if f.const(dom.sub(q0[5], q[5])) != (1 if g.get('taken') else 0):
            return self.problem('not one item after the other is moved', where)
        if q[0] != 'empty':
            x = g.get(('next', LOC))
            first = x and f.eq(q[1], x[0]) if g.get('taken') else f.eq(q[1], q0[1])
            if not first or not f.eq(q[3], q0[3]):
                return self.problem('another item than the first is removed', where)
        return True

    def candidates(self, st):
        g = st.ghost
        rid = self.where(st)
        if self.moving:
            return {'loc': Ptr(rid), 'none': C(0, 32), 'size': g['q now'][5], 'first': Ptr(LOC)}
        r = {'len': g['len'], 'space': dom.add(g['len'], C(self.lay['H'], 32)), 'loc': Ptr(rid), 'none': C(0, 32)}
        q = g.get('q now')
        if q:
            r['size'] = q[5]
            t, h = self.spaces(q)
            r['total'], r['tail'], r['head'] = dom.add(t, h), t, h
        return r

    def spaces(self, q):
        """behind the last item, before the first"""
        if q[0] == 'empty':
            return C(0, 32), dom.sub(q[7], C(self.lay['HS'], 32))
        top = dom.add(q[3], self.full(q[4]))
        if q[0] == 'around':
            return dom.sub(q[1], top), C(0, 32)
        return dom.sub(q[7], top), dom.sub(q[1], C(self.lay['HS'], 32))

    def generic(self, st, key, phase):
        g = st.ghost
        u = '%s/%s' % (key[2], ' '.join(phase))
        g.pop('failed', None)
        st.facts = type(st.facts)()
        for k in list(g):
            if isinstance(k, tuple) and k[0] in ('writes', 'next', 'q', 'mem', 'put'):
                del g[k]
        if phase[0] != 'move':
            q = self.fresh_q(st, phase[0], u)
            if q is None:
                return False
            if phase[1] and not all(self.assume(st, c, False) for c in self.fits(st, q, self.space(st))):
                return False
            self.memory(st, LOC, q)
            g['q now'] = q
            self.poke(st, Ptr(OBJ, C(self.lay['loc'], 64)), 8, Ptr(LOC))
            return True
        q = self.fresh_q(st, phase[1], u)
        if q is None:
            return False
        self.memory(st, LOC, q)
        g['q now'] = q
        g['taken'] = False
        fn = S(('fulln', u), 32, self.lay['HS'] + 1, (1 << 31) - 1)
        self.memory(st, NEW, ('empty', S(('sn', u), 32), None, S(('en', u), 32), None, C(0, 32), S(('wn', u), 32), fn))
        self.poke(st, Ptr(OBJ, C(self.lay['loc'], 64)), 8, Ptr(NEW))
        return self.assume(st, dom.cmp('ult', q[7], fn), True) and not st.facts.contra()


def go(A, fn, args, st):
    A.start(fn, args, st)
    return st


def layout(cx, mod):
    def num(k):
        A = Que(mod)
        o = A.run(lambda: go(A, 'k_off', [C(k, 32)], State()))
        cx.anchor(len(o) == 1 and o[0].kind == 'ret' and isc(o[0].val), 'layout %d' % k)
        return cv(o[0].val)
    lay = dict(zip(('full', 'start', 'end', 'written', 'deleted', 'body', 'next', 'HS', 'IH', 'T', 'obj'), (num(k) for k in range(11))))
    lay['H'] = lay['IH'] + lay['T']
    lay['fields'] = tuple(zip((num(k) for k in range(11, 16)), (8, 8, 8, 1, 1)))
    for cls in 'qg':
        A = Que(mod)
        A.alloc_throws = False
        st = make(A, cls)
        o = A.run(lambda: go(A, cls + '_alloc', [Ptr(OBJ), C(1000, 32)], st.copy()))
        cx.anchor(len(o) == 1 and o[0].kind == 'ret', 'a queue can be made')
        s = o[0].st
        at = [k for k in range(0, lay['obj'] + 8, 8) for v in [A.peek(s, Ptr(OBJ, C(k, 64)), 8, True)] if v.op == 'ptr' and v.a[0][0] == 'h']
        cx.anchor(len(at) == 1 and lay.setdefault('loc', at[0]) == at[0], 'where the memory is kept')
    return lay


def make(A, cls):
    dons = S('remove when full', 1)

    def mk():
        st = State()
        st.ghost['dons'] = dons
        st.mem[OBJ] = Reg(OBJ, 'obj', C(4096, 64))
        A.start(cls + '_new', [Ptr(OBJ)] + ([dons] if cls == 'q' else []), st)
        return st
    o = A.run(mk)
    if len(o) != 1 or o[0].kind != 'ret':
        raise AnalysisError('a queue cannot be constructed')
    st = o[0].st
    st.frames = []
    return st


KINDS = ('empty', 'one', 'row', 'around')


def check(cx):
    mod = cx.build(UNITS, DRIVER)
    lay = layout(cx, mod)
    NAMES = {'q': 'fixed queue', 'g': 'growing queue'}
    W = {'q': FQ, 'g': MQ}

    def queue(A, cls, kind, length=None):
        st = make(A, cls)
        q = A.fresh_q(st, kind, 'at first')
        A.memory(st, LOC, q)
        A.poke(st, Ptr(OBJ, C(lay['loc'], 64)), 8, Ptr(LOC))
        st.mem[USER] = Reg(USER, 'obj', C(1 << 40, 64))
        st.ghost['len'] = length
        st.ghost['q now'] = q
        return st, q

    def operate(cls, kind, fn, args, unlocked=False, length=None):
        A = cx.use(Que(mod, lay, 'fixed' if cls == 'q' else 'grow'))
        A.unlocked = unlocked

        def mk():
            st, q = queue(A, cls, kind, length)
            A.start(cls + '_' + fn, args, st)
            return st
        outs = A.run(mk)
        return A, outs

    def report(A, inst, rule='memory', outs=()):
        for o in outs:
            for e in o.st.events():
                if e[0] in ('uaf', 'doublefree', 'nullderef'):
                    A.problem({'uaf': 'memory is used after its release', 'doublefree': 'memory is released twice', 'nullderef': 'NULL is used'}[e[0]], next((x for x in e[1:] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], int)), None))
        for w, at in A.problems:
            cx.ob(rule, inst, False, at or FQ, '%s (%s)' % (w, inst), w)
        cx.ob(rule, inst, True)
        A.problems = []

    def unchanged(A, st, grown=False):
        rid = A.where(st)
        q = st.ghost.get(('q', rid))
        return (grown or rid == LOC) and q and all(st.facts.eq(A.hd(st, rid, k), v) for k, v in (('start', q[1]), ('end', q[3]), ('full', q[7])) if q[0] != 'empty' or k == 'full') \
            and st.facts.eq(dom.sub(A.hd(st, rid, 'written'), A.hd(st, rid, 'deleted')), q[5]) and not st.ghost.get(('writes', rid))

    def put(cx, x):
        cls, kind, long = x
        inst = '%s, %s, putting%s' % (NAMES[cls], kind, ' what fits in no queue' if long else '')
        ob = lambda rule, c, what: cx.ob(rule, inst, c, W[cls], '%s (%s)' % (what, inst), rule + '|' + what)
        R = S('return on failure', 1)
        most = LONG - 1 - lay['H']
        length = S('length', 32, most + 1, (1 << 32) - 1) if long else S('length', 32, 0, most)
        A, outs = operate(cls, kind, 'put', [Ptr(OBJ), Ptr(ITEM), Ptr(DATA), length, R], length=length)
        report(A, inst, outs=outs)
        done = 0
        for o in outs:
            st = o.st
            if o.kind == 'end':
                continue
            ob('lock', not st.ghost.get('held'), 'the lock is still held')
            if o.kind == 'ret' and st.facts.const(zext(o.val, 8)) == 1:
                done += 1
                rid = A.where(st)
                ob('put', ('q', rid) in st.ghost, 'an item is put nowhere')
                if ('q', rid) in st.ghost:
                    item, src = A.given(st)
                    A.put(st, rid, item, src, st.ghost['len'], W[cls])
                    report(A, inst, 'put')
                continue
            # refused
            retf = st.facts.decide(R)
            ti = o.val[1] if o.kind == 'throw' else None
            alloc = ti is not None and 'bad_a' in str(ti)
            ob('refuse', o.kind == 'throw' or st.facts.const(zext(o.val, 8)) == 0, 'the result is not known')
            grew = o.kind == 'throw' and cls == 'g' and st.facts.decide(S(('policy', 1), 1)) is True
            ob('refuse', retf is not None and retf == (o.kind == 'ret') or grew or alloc, 'an item is refused in the other way than asked for')
            ob('refuse', unchanged(A, st, cls == 'g'), 'a refused item changes the queue')
            q = st.ghost[('q', LOC)]
            if cls == 'q':
                ob('refuse', not A.room(st, q, A.space(st)), 'an item is refused although there is room')
            elif not long:
                ob('refuse', st.ghost.get('failed'), 'an item is refused although there is memory')
        ob('put', (done > 0) != long, 'what fits in no queue is put' if long else 'no item can be put')
        cx.ob('cut', inst, bool(A.ncut) or long)
    def grow(cx, kind):
        inst = '%s, %s, growing' % (NAMES['g'], kind)
        ob = lambda rule, c, what: cx.ob(rule, inst, c, MQ, '%s (%s)' % (what, inst), rule + '|' + what)
        A = cx.use(Que(mod, lay, 'grow'))
        A.moving = True

        def mk():
            st, q = queue(A, 'g', kind)
            st.ghost['held'] = 1
            A.start('g_grow', [Ptr(OBJ)], st)
            return st
        outs = A.run(mk)
        report(A, inst, outs=outs)
        grown = 0
        for o in outs:
            st = o.st
            if o.kind == 'end':
                continue
            rid = A.where(st)
            ob('lock', st.ghost.get('held') == 1, 'the lock is not as it was')
            drop, throw = (st.facts.decide(S(('policy', k), 1)) for k in (0, 1))
            if rid == LOC:
                ob('grow', any(e[0] == 'badalloc' for e in st.events()), 'the queue does not grow although there is memory')
                ob('grow', A.region(st, LOC).alive, 'the memory is released and used further')
                if drop is True and kind != 'empty':
                    removed(cx, A, o, inst, MQ, lay)
                else:
                    ob('grow', unchanged(A, st), 'a queue that cannot grow is changed')
                    ob('grow', throw is not None and throw == (o.kind == 'throw'), 'not growing is told in the other way')
                    ob('grow', drop is not None or kind == 'empty', 'no item is removed although that is the policy')
                continue
            grown += 1
            ok = o.kind == 'ret' and A.larger(st, MQ)
            ob('grow', ok, 'the queue has no memory')
            report(A, inst)
            ob('grow', not A.region(st, LOC).alive, 'the memory from before is never released')
            ob('grow', st.facts.eq(A.hd(st, LOC, 'written'), A.hd(st, LOC, 'deleted')), 'items are lost when the queue grows')
        ob('grow', grown > 0, 'the queue never grows')
    L = [(c, k, long) for long in (False, True) for c in 'qg' for k in KINDS]
    cx.pmap(L, put)
    cx.pmap(KINDS, grow)

    for cls in 'qg':
        for kind in KINDS:
            def ob(rule, c, what):
                cx.ob(rule, inst, c, W[cls], '%s (%s)' % (what, inst), rule + '|' + what)
            count = lambda A, st: dom.sub(A.hd(st, LOC, 'written'), A.hd(st, LOC, 'deleted'))
            # ---- how many
            inst = '%s, %s, size' % (NAMES[cls], kind)
            A, outs = operate(cls, kind, 'size', [Ptr(OBJ)], cls == 'q')
            report(A, inst, outs=outs)
            for o in outs:
                ob('size', o.kind == 'ret' and o.st.facts.eq(o.val, o.st.ghost[('q', LOC)][5]) and unchanged(A, o.st), 'the number of items is told wrongly')
            # ---- none any more
            inst = '%s, %s, clearing' % (NAMES[cls], kind)
            A, outs = operate(cls, kind, 'clear', [Ptr(OBJ)])
            report(A, inst, outs=outs)
            for o in outs:
                ob('clear', o.kind == 'ret' and o.st.facts.eq(count(A, o.st), C(0, 32)), 'items are left')
                ob('lock', not o.st.ghost.get('held'), 'the lock is still held')
            # ---- gone
            inst = '%s, %s, destroying' % (NAMES[cls], kind)
            A, outs = operate(cls, kind, 'del', [Ptr(OBJ)])
            report(A, inst, outs=outs)
            for o in outs:
                ob('release', o.kind == 'ret' and not A.region(o.st, LOC).alive, 'the memory is never released')
                ob('release', not any(e[0] in ('doublefree', 'uaf') for e in o.st.events()), 'memory is used after its release')
            # ---- another memory
            inst = '%s, %s, allocating' % (NAMES[cls], kind)
            N = S('memory asked for', 32, lay['HS'] + 1, B)
            A, outs = operate(cls, kind, 'alloc', [Ptr(OBJ), N])
            report(A, inst, outs=outs)
            for o in outs:
                st = o.st
                ob('lock', not st.ghost.get('held'), 'the lock is still held')
                ob('allocate', not A.region(st, LOC).alive, 'the memory is never released')
                if o.kind != 'ret':
                    ob('allocate', A.where(st) is None, 'the memory released is kept')
                    continue
                rid = A.where(st)
                ok = rid is not None and rid != LOC and A.region(st, rid).alive
                ob('allocate', ok and st.facts.eq(place(st, A.region(st, rid).size), zext(N, 64)) and st.facts.eq(A.hd(st, rid, 'full'), N), 'the memory is not the one asked for')
                ob('allocate', ok and st.facts.eq(A.hd(st, rid, 'written'), A.hd(st, rid, 'deleted')), 'a new queue is not empty')
            if kind == 'empty':
                continue
            # ---- the first
            for fn in ['look'] + (['llook'] if cls == 'g' else []):
                inst = '%s, %s, looking' % (NAMES[cls], kind)
                A, outs = operate(cls, kind, fn, [Ptr(OBJ), Ptr(N1), Ptr(N2)], fn == 'look')
                report(A, inst, outs=outs)
                for o in outs:
                    st = o.st
                    q = st.ghost[('q', LOC)]
                    at = lambda v, k: v.op == 'ptr' and v.a[0] == LOC and st.facts.eq(place(st, v.a[1]), dom.add(zext(q[1], 64), C(k, 64)))
                    ob('look', o.kind == 'ret' and at(o.val, lay['IH']) and at(A.peek(st, Ptr(N2), 8, True), lay['H']) and st.facts.eq(A.peek(st, Ptr(N1), 4), q[2]), 'what is looked at is not the first item')
                    ob('look', unchanged(A, st), 'looking changes the queue')
            # ---- without it
            inst = '%s, %s, deleting' % (NAMES[cls], kind)
            A, outs = operate(cls, kind, 'delete', [Ptr(OBJ)])
            report(A, inst, outs=outs)
            for o in outs:
                removed(cx, A, o, inst, W[cls], lay)
                ob('lock', not o.st.ghost.get('held'), 'the lock is still held')
            # ---- taking it
            for given in (True, False):
                inst = '%s, %s, taking%s' % (NAMES[cls], kind, '' if given else ' without memory')
                R = S('room', 32)
                A, outs = operate(cls, kind, 'get', [Ptr(OUT), Ptr(OBJ), Ptr(USER) if given else NULL, R, Ptr(N1)])
                report(A, inst, outs=outs)
                taken = 0
                for o in outs:
                    st = o.st
                    q = st.ghost[('q', LOC)]
                    ob('take', o.kind == 'ret', 'taking fails')
                    if o.kind != 'ret':
                        continue
                    ob('lock', not st.ghost.get('held'), 'the lock is still held')
                    ob('take', st.facts.eq(A.peek(st, Ptr(N1), 4), q[2]), 'the size of the item is told wrongly')
                    s0 = State()
                    for k, m in lay['fields']:
                        x = A.read(st, A.region(st, OUT), C(k, 64), m)
                        y = A.read(st, A.region(st, LOC), dom.add(zext(q[1], 64), C(lay['IH'] + k, 64)), m)
                        ob('take', x is y or st.facts.eq(x, y), 'what describes the item is changed')
                    if unchanged(A, st):
                        enough = st.facts.decide(dom.cmp('sle', q[2], R))
                        ob('take', not given or enough is False, 'an item for which there is room is not taken')
                        continue
                    taken += 1
                    ob('take', given and st.facts.decide(dom.cmp('sle', q[2], R)) is True, 'an item is lost')
                    removed(cx, A, o, inst, W[cls], lay)
                    s2 = st.copy()
                    k = S(('any byte',), 64, 0, B)
                    if A.assume(s2, dom.cmp('ult', k, zext(q[2], 64)), True) and not s2.facts.contra():
                        x = A.read(s2, A.region(s2, USER), k, 1)
                        y = A.read(s2, A.region(s2, LOC), dom.add(zext(q[1], 64), dom.add(k, C(lay['H'], 64))), 1)
                        ob('take', x is y or s2.facts.eq(x, y), 'the bytes taken are not those of the item')
                    ob('take', all(st.facts.ule(dom.add(a, b), zext(q[2], 64)) for a, b in st.ghost.get('user', ())), 'more is written than the item')
                ob('take', (taken > 0) == given, 'an item is never taken' if given else 'an item is lost')


def removed(cx, A, o, inst, w, lay):
    """the first item is gone, nothing else"""
    st = o.st
    f = st.facts
    q = st.ghost[('q', LOC)]
    ob = lambda c, what: cx.ob('remove', inst, c, w, '%s (%s)' % (what, inst), what)
    ob(o.kind == 'ret' and A.where(st) == LOC, 'an item cannot be removed')
    n = dom.sub(A.hd(st, LOC, 'written'), A.hd(st, LOC, 'deleted'))
    ob(f.eq(n, dom.sub(q[5], C(1, 32))), 'the number of items is not one less')
    ob(not st.ghost.get(('writes', LOC)), 'removing an item changes another one')
    if q[0] != 'one':
        x = st.ghost.get(('next', LOC))
        ob(bool(x) and f.eq(A.hd(st, LOC, 'start'), x[0]), 'the first item is not the one behind the one removed')
        ob(f.eq(A.hd(st, LOC, 'end'), q[3]), 'another item becomes the last')
        ob(f.eq(A.hd(st, LOC, 'full'), q[7]), 'the size of the memory is forgotten')
