"""The raw bytes of a NAL unit: exactly the bytes put in against emulated start codes are taken out.

`H264Nal` is interpreted for a unit of any size; the bit stream it reads from is taken at its word (C10, C11), its bytes are symbols. The loop is
cut by an inferred invariant; each piece between two cuts has to take bytes and give bytes as the reference does: 00 00 03 gives 00 00, any other byte
gives itself, whatever comes first or last. Nothing beyond the unit is read, nothing beyond the room prepared is written, and a unit decoded in place
only overwrites bytes already read or leaves them as they are."""
import os
import dom
from dom import C, S, Ptr, isc, cv, zext, trunc
from absint import State, AnalysisError, Reg
import models
from cut import CutAt

LEVEL = 'proof'
FLOOR = 15
UNITS = ['mg/core/thread.cpp', 'mg/core/uvbase.cpp', 'mg/core/bitstream.cpp']
DRIVER = r'''#include "mgcore.h"
#include <new>
using namespace mg::core;
#include "mg/media/TBitstream.h"
#include "mg/media/h264nal.h"
extern "C" {
void n_new(void * w) { new (w) H264Nal; }
void n_dec(H264Nal * h, unsigned n, const unsigned char * p) { h->decode_nal(n, p); }
void n_place(H264Nal * h, unsigned * o, unsigned n, unsigned char * p) { h->decode_nal_in_place(o[0], o[1], o[2], n, p); }
const unsigned char * n_bytes(const H264Nal * h) { return h->decoded_rbsp(); }
unsigned n_size(const H264Nal * h) { return h->decoded_rbsp_size(); }
unsigned n_type(const H264Nal * h) { return h->get_decoded_nal_unit_type(); }
unsigned n_ref(const H264Nal * h) { return h->get_decoded_nal_ref_idc(); }
}
'''
ASSUMPTIONS = ['a unit has at least one byte and fewer than 2^28', 'the bit stream gives the bits of its memory in order (C10, C11)']
AT = ('src/mg/media/h264nal.h', 0)
OBJ, SRC, OUTS = ('a', 'nal'), ('src',), ('a', 'outs')
UNITS_OF = (('unit', 'first'), ('unit', 'then'))
Z = C(0, 64)


class Small:
    """memory the rule looks after itself"""
    def __init__(self, A):
        self.A = A

    def __contains__(self, rid):
        return rid == SRC or rid in UNITS_OF or rid in self.A.wordy or rid in self.A.dsts


class Nal(CutAt):
    cutpat = r'.*H264Nal::.*'
    named = True
    slopes = (-1, 1)

    def __init__(self, mod, size):
        CutAt.__init__(self, mod)
        models.install_std(self)
        models.install_locks(self)
        self.size = zext(size, 64)
        self.alloc_throws = False
        self.max_steps = 20000000
        self.wordy, self.dsts, self.nth = set(), set(), 0
        self.handled = Small(self)
        self.snapw, self.hw = {}, {}
        self.looping = False
        self.templates = [lambda st, rid: {'size': self.size, 'bytes': True} if rid == SRC or rid in UNITS_OF else None]
        self.on_access.append(lambda *a: Nal.inb(*a))
        self.on_store.append(lambda *a: Nal.stored(*a))
        B = r'.*bitstream(?:_base)?<fixed_memory_read>::'
        self.hook(B + r'_?nextbits\((?:short|int)\)', lambda A, st, ins, args, fn: A.bits(st, ins, args[1], False))
        self.hook(B + r'_?getbits\(short\)', lambda A, st, ins, args, fn: A.bits(st, ins, args[1], True))
        self.hook(B + r'_?skipbits\(short\)', lambda A, st, ins, args, fn: (A.bits(st, ins, args[1], True), ())[1])
        self.hook(B + r'create\(.*', Nal.opened)
        self.hook(r'fixed_memory_read::fixed_memory_read\(.*', Nal.given)
        for g in mod.globals:
            self.inited[g] = True

    def iscut(self, fn):
        return self.looping and CutAt.iscut(self, fn)

    def given(A, st, ins, args, fn):
        p, n = args[1], args[2]
        if not (p.op == 'ptr' and A.canon(st, p.a[0]) == SRC and st.facts.eq(p.a[1], Z) and st.facts.eq(zext(n, 64), A.size)):
            A.problem('the bit stream is not of the unit given', A.loc(st, ins))
        return None

    def opened(A, st, ins, args, fn):
        st.ghost.update(open=True, took=False, to=None, P=Z, b=0, q=Z, o=Z, O=Z, w=())
        return ()

    def byte(self, st, at):
        return self.read(st, self.region(st, UNITS_OF[self.nth]), at, 1)

    def triple(self, at):
        return S(('three', at), 32, 0, 0xffffff)

    def bits(self, st, ins, n, take):
        g = st.ghost
        n = st.facts.const(trunc(n, 16))
        if n is None:
            raise AnalysisError('a number of bits that is not known')
        if not g.get('open'):
            raise AnalysisError('another bit stream')
        b = g['b']
        k = (b + n + 7) // 8
        if not st.facts.ule(dom.add(g['P'], C(k, 64)), self.size):
            self.problem('bits beyond the unit are read', self.loc(st, ins))
        if k == 1:
            v = dom.and_(dom.lshr(zext(self.byte(st, g['P']), 32), C(8 - b - n, 32)), C((1 << n) - 1, 32))
        elif (b, n) == (0, 24):
            v = self.triple(g['P'])
        else:
            v = S(('bits', g['P'], b, n), 32, 0, (1 << n) - 1)
        g['took'] = True
        if take:
            g['P'] = dom.add(g['P'], C((b + n) // 8, 64))
            g['b'] = (b + n) % 8
        return v

    def inb(A, st, reg, off, n, rw, ins):
        if not st.ghost.get('open'):
            return
        if reg.rid == SRC and rw != 'w':
            A.problem('the unit is read past the bit stream', A.loc(st, ins))
        if reg.rid == SRC or reg.rid == st.ghost.get('to'):
            end = dom.add(off, C(n, 64) if isinstance(n, int) else n)
            if not (st.facts.ule(end, reg.size) and st.facts.ule(off, reg.size)):
                A.problem('bytes are written beyond the room there is', A.loc(st, ins))

    def stored(A, st, reg, off, n, v, ins, *at):
        g = st.ghost
        if not g.get('took') or reg.rid[0] in ('a', 'l', 'g'):
            return
        n = n if isinstance(n, int) else st.facts.const(n)
        if g.get('to') is None and n == 1:
            g['to'] = reg.rid
            A.dsts.add(reg.rid)
        if reg.rid != g.get('to'):
            if n == 1:
                A.problem('bytes are written to another place', A.loc(st, ins))
            return
        if n is None or n > 64:
            A.problem('an unknown number of bytes is written', A.loc(st, ins))
            return
        for i in range(n):
            at = dom.add(off, C(i, 64))
            A.stored1(st, reg, at, v if n == 1 and v is not None else A.read(st, A.region(st, reg.rid), at, 1) if v is None else trunc(dom.lshr(v, C(8 * i, v.w)), 8), ins)

    def stored1(A, st, reg, off, v, ins):
        g = st.ghost
        if reg.rid == SRC:
            ok = st.facts.ult(off, g['P']) or A.eqv(st, v, A.byte(st, off))
            if not ok and st.facts.const(v) == 0 and st.facts.eq(A.triple(g['P']), C(3, 32)):
                ok = st.facts.ule(off, dom.add(g['P'], C(1, 64)))
            if not ok:
                A.problem('a byte of the unit is overwritten before it is read', A.loc(st, ins))
        elif not st.facts.ult(off, reg.size):
            A.problem('bytes are written beyond the room there is', A.loc(st, ins))
        g['w'] = g['w'] + ((off, v),)

    def follow(self, st, where):
        """the pieces read since the last cut against the bytes written since"""
        g = st.ghost
        bad = lambda w: self.problem(w, where)
        ws, g['w'] = g['w'], ()
        if g['b']:
            bad('a byte is read in part')
        want, q = [], g['q']
        while not st.facts.eq(q, g['P']):
            d = st.facts.const(dom.sub(g['P'], q))
            if d is None or d >> 32:
                bad('more is taken than the three bytes that stand for two')
                break
            t = self.triple(q)
            head = isc(q) and cv(q) == 0
            if not head and st.facts.eq(t, C(3, 32)):
                want += [C(0, 8), C(0, 8)]
                q = dom.add(q, C(3, 64))
                continue
            s2 = st.copy()
            s2.facts = s2.facts.copy()
            is3 = dom.cmp('eq', t, C(3, 32))
            if not head and st.facts.decide(is3) is not False and self.assume(s2, is3, True) and self.assume(s2, dom.cmp('ule', dom.add(q, C(3, 64)), self.size), True):
                bad('a byte is taken without a look whether it begins 00 00 03')
            want.append(self.byte(st, q))
            q = dom.add(q, C(1, 64))
        got = {}
        for off, v in ws:
            d = next((i for i in range(len(want) + 1) if st.facts.eq(off, dom.add(g['o'], C(i, 64)))), None)
            if d is None:
                bad('a byte is written to another place than the next')
            else:
                got[d] = v
        if sorted(got) != list(range(len(want))):
            bad('not as many bytes are given as there are to be')
        elif any(not self.eqv(st, trunc(got[i], 8), want[i]) for i in got):
            bad('a byte given is not the one of the unit')
        g['q'] = g['P']
        g['o'] = g['O'] = dom.add(g['o'], C(len(want), 64))

    # ---- the cut
    def segment(self, st, key):
        g = st.ghost
        if not g.get('open'):
            raise AnalysisError('a loop before the bit stream is opened')
        self.follow(st, self.loc(st))
        phase = (g.get('to'),)
        key = key + (phase,)
        cur = {rid: r for rid, r in st.mem.items() if rid[0] in ('a', 'l') and r.alive and isc(r.size) and cv(r.size) < 4096}
        self.wordy |= set(cur)
        snap = self.snapw.get(key)
        if snap is None:
            self.snapw[key] = cur
            return phase
        cand = self.candidates(st)
        for rid, r in cur.items():
            o = snap.get(rid)
            if o is None or o is r or o.layers is r.layers and o.gen == r.gen:
                continue
            hw = self.hw.setdefault(key, {})
            for i in range(0, cv(r.size) // 4 * 4, 4):
                a, b = self.raw(st, o, i), self.raw(st, r, i)
                if (rid, i) not in hw:
                    if a is b or isinstance(a, tuple) and a == b or not isinstance(a, tuple) and not isinstance(b, tuple) and self.eqv(st, a, b):
                        continue
                    hw[rid, i] = set(cand)
                    self.dirty = True
                keep = {c for c in hw[rid, i] if not isinstance(b, tuple) and (cand[c].op == b.op == 'ptr' or cand[c].op != 'ptr' != b.op and self.eqv(st, b, trunc(cand[c], 32)))}
                if keep != hw[rid, i]:
                    hw[rid, i] = keep
                    self.dirty = True
        return phase

    def raw(self, st, r, i):
        return self.read(st, r, C(i, 64), 4)

    def candidates(self, st):
        g = st.ghost
        P, O = g['P'], g['O']
        c = {'k': dom.sub(P, C(1, 64)), 'P': P, 'O': O, 'left': dom.sub(self.size, P), 'O-1': dom.sub(O, C(1, 64))}
        if g.get('to') is not None:
            c['to'] = Ptr(g['to'], O)
        return c

    def generic(self, st, key, phase):
        g = st.ghost
        u = str(key[1:])
        st.facts = type(st.facts)()
        g['P'] = zext(S(('P', u), 32, 1, 1 << 28), 64)
        g['O'] = zext(S(('O', u), 32, 1, 1 << 28), 64)
        g['q'], g['o'], g['w'] = g['P'], g['O'], ()
        if not (self.assume(st, dom.cmp('ule', g['P'], self.size), True) and self.assume(st, dom.cmp('ule', g['O'], g['P']), True)):
            return False
        cand = self.candidates(st)
        for (rid, i), cs in self.hw.get(key, {}).items():
            if rid in st.mem:
                v = trunc(cand[sorted(cs)[0]], 32) if cs else S(('w', u, rid, i), 32)
                self.write(st, rid, C(i, 64), 4, v)
        return True


def check(cx):
    mod = cx.build(UNITS, DRIVER, extra=('-I' + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'stubs'),))
    for f in ('n_new', 'n_dec', 'n_place', 'n_bytes', 'n_size'):
        cx.anchor(mod.func(f) is not None, f)

    def one(cx, item):
        lo, hi, place, again = item
        size = S('size', 32, lo, hi) if lo < hi else C(lo, 32)
        A = cx.use(Nal(mod, size))
        inst = 'units of %s%s bytes%s%s' % (lo, ' to %d' % hi if lo < hi else '', ', in place' if place else '', ', after another' if again else '')
        ob = lambda rule, ok, what, at=None: cx.ob(rule, inst, ok, at or AT, '%s (%s)' % (what, inst), rule + '|' + what)
        st = State()
        st.mem[OBJ] = Reg(OBJ, 'obj', C(1024, 64))
        st.mem[OUTS] = Reg(OUTS, 'obj', C(12, 64))
        st = A.run(lambda: (A.start('n_new', [Ptr(OBJ)], st), st)[1])[0].st
        st.frames, st.trace = [], None

        def mk(fn, args, s):
            def m():
                x = s.copy()
                x.trace, x.frames = None, []
                x.ghost.update(open=False, took=False)
                A.start(fn, args, x)
                return x
            return m
        before = [st]
        if again:
            # a unit of four bytes, whatever they are
            A.size = C(4, 64)
            before = []
            for o in A.run(mk('n_dec', [Ptr(OBJ), C(4, 32), Ptr(SRC)], st)):
                ob('returns', o.kind == 'ret', 'decoding fails')
                if o.kind == 'ret':
                    before.append(o.st)
            ob('before', len(before), 'decoding never ends')
            A.size, A.nth = zext(size, 64), 1
        for st in before:
            decode(A, cx, st, ob, mk, size, place, inst)

    def decode(A, cx, st, ob, mk, size, place, inst):
        A.looping = True
        A.rel, A.hm, A.done, A.snapw, A.hw, A.dsts = {}, {}, set(), {}, {}, set()
        st.mem.pop(SRC, None)
        outs = A.run(mk('n_place', [Ptr(OBJ), Ptr(OUTS), size, Ptr(SRC)], st) if place else mk('n_dec', [Ptr(OBJ), size, Ptr(SRC)], st))
        probs = list(dict.fromkeys(A.problems))
        A.looping = False
        ob('ends', any(o.kind == 'ret' for o in outs), 'decoding never ends')
        for o in outs:
            good = o.kind == 'ret' and not any(v[0] in ('uaf', 'nullderef', 'doublefree') for v in o.st.events())
            ob('returns', good, 'decoding fails')
            if not good:
                continue
            g = o.st.ghost
            A.problems = []
            A.follow(o.st, AT)
            probs += A.problems
            ob('all', o.st.facts.eq(g['P'], A.size), 'not every byte of the unit is taken')

            def got(fn, s=o.st):
                r = A.run(mk(fn, [Ptr(OBJ)], s))
                return r[0].val
            first = zext(A.byte(o.st, Z), 32)
            if place:
                r, t, n = [A.read(o.st, A.region(o.st, OUTS), C(i, 64), 4) for i in (0, 4, 8)]
                to = Ptr(SRC, Z)
            else:
                r, t, n, to = got('n_ref'), got('n_type'), got('n_size'), got('n_bytes')
            ob('count', A.eqv(o.st, zext(n, 64), g['O']), 'the number of bytes is not the one there are')
            ob('bytes', to.op == 'ptr' and A.canon(o.st, to.a[0]) == g['to'] and o.st.facts.eq(to.a[1], Z), 'the bytes are somewhere else')
            ob('header', A.eqv(o.st, r, dom.lshr(first, C(5, 32))) and A.eqv(o.st, t, dom.and_(first, C(31, 32))), 'reference mark or type are not those of the first byte')
        for w, at in dict.fromkeys(probs):
            ob('piece', False, w, at)
        cx.ob('piece', inst, True)
    items = [(1, 1023, False, False), (1024, 1 << 28, False, False), (1, 1 << 28, True, False), (1, 1023, False, True), (1024, 1 << 28, False, True)]
    cx.pmap(items, lambda cx, i: one(cx, i))
