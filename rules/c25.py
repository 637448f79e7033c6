"""Transport packets: the bytes of a payload come out once, in order, in packets of 188 bytes.

The classes the flavor compiler would make of `mpeg2ts.fl` are translated from that file (engine/flavor.py), and `CTSWrite::output_ts` is
interpreted together with them down to the single fields written. Lengths are K * 184 + R with R each of 0..183: K = 0 runs through, for K >= 1 the
loops are cut by an inferred invariant, so every length is covered. The fields written are read back as a stream of packets: sync byte, pid, flags,
counter following the packet before, adaptation field of the length stated, payload equal to the next bytes of the buffer, 188 bytes in all."""
import re
import dom
from dom import C, S, Ptr, isc, cv, zext, trunc, sgn
from absint import State, AnalysisError, Reg
import models, flavor, build, quot, os
from cut import CutAt, maxoff

LEVEL = 'proof'
FLOOR = 500
UNITS = ['mg/core/thread.cpp', 'mg/core/uvbase.cpp', 'mg/media/wincrc.cpp']
FL = 'mg/media/mp4/mpeg2ts.fl'
WANT = ['Transport_Packet', 'PesData', 'Pointer_Field', 'Program_Association_Section', 'Program_Map_Section', 'MpegTime']
HEAD = r'''#include "mgcore.h"
#include <new>
using namespace mg::core;
#include "mg/media/TBitstream.h"
%s
class CTS;
#include "mg/media/tswrite.h"
extern "C" void rec_put(uint32_t, short);
extern "C" void rec_other();
struct Rec : IBitstream {
  void putbits(uint32_t val, short n) { rec_put(val, n); }
  uint32_t getbits(short) { rec_other(); return 0; }
  uint32_t sgetbits(short) { rec_other(); return 0; }
  uint32_t nextbits(short) { rec_other(); return 0; }
  void flush() {}
  bool eof() { return false; }
  void skipbits(short) { rec_other(); }
  uint32_t align(int) { rec_other(); return 0; }
  uint64_t getpos() { return 0; }
  uint32_t next(int, int, int, int) { rec_other(); return 0; }
  int little_putbits(unsigned int, int) { rec_other(); return 0; }
  uint32_t little_getbits(int) { rec_other(); return 0; }
  uint64_t get_position() const { return 0; }
  void set_position(uint64_t) { rec_other(); }
  void read(unsigned char *, uint32_t, uint32_t *) { rec_other(); }
  void write(const unsigned char * p, uint32_t n) { for (uint32_t i = 0; i < n; i++) rec_put(p[i], 8); }
  unsigned int nextcode(unsigned int, int, int) { rec_other(); return 0; }
};
struct RecW : CTSW { Rec r; RecW() { _p_f = &r; } };
struct Fill : CTSWrite {};
struct Pes : CPESWrite {};
extern "C" {
void r_new(void * w) { new (w) RecW; }
void t_new(void * w) { new (w) CTSWrite; }
void t_out(CTSWrite * w, unsigned pid, const unsigned char * b, int32_t n, RecW * t, unsigned ra, int64_t pcr)
  { w->output_ts(pid, b, n, *t, ra, pcr); }
void t_plain(CTSWrite * w, unsigned pid, const unsigned char * b, int32_t n, RecW * t) { w->output_ts(pid, b, n, *t); }
void t_fill(CTSWrite * w, unsigned pid, RecW * t) { w->fill_pid(pid, *t); }
void t_pes(unsigned id, uint64_t pts, uint64_t dts, uint64_t pcr, unsigned n, RecW * t) { Pes p; p.WritePesHeader(id, pts, dts, pcr, n, *t); }
}
'''
ASSUMPTIONS = ['the clock reference is given only together with the mark of a random access point', 'at least one byte is given', 'one pid per stream']
AT = ('src/mg/media/tswrite.h', 0)
OBJ, REC, BUF, CNT = ('a', 'w'), ('a', 'rec'), ('buf',), ('h', 'cnt')
PID = S('pid', 32, 0, 0x1fff)
K0 = S('K', 32, 1, 11000000)
CC = S('counter', 8)
NOPCR = C((1 << 64) - 1, 64)


def driver():
    return HEAD % flavor.header(os.path.join(build.REPO, 'src', FL), WANT)


class Unclear(Exception):
    pass


class Fields:
    """fields written, read back with other widths"""
    def __init__(self, st, out):
        self.st, self.q = st, list(reversed(out))

    def left(self):
        return bool(self.q)

    def take(self, n):
        r, w = None, 0
        while w < n:
            if not self.q:
                raise EOFError
            v, k = self.q.pop()
            if k > n - w:
                rest = k - (n - w)
                self.q.append((v, rest))
                v = trunc(dom.lshr(v, C(rest, 32)), n - w)
                k = n - w
            else:
                v = trunc(v, k) if k < 32 else v
            r = v if r is None else dom.or_(dom.shl(zext(r, w + k), C(k, w + k)), zext(v, w + k))
            w += k
        return r

    def num(self, n, what):
        t = self.take(n)
        v = self.st.facts.const(t)
        if v is None and n <= 8:
            v = next((k for k in range(1 << n) if self.st.facts.eq(t, C(k, n))), None)
        if v is None:
            raise Unclear(what)
        return v


class Words:
    """memory of the functions analysed: looked after word by word"""
    def __init__(self, A):
        self.A = A

    def __contains__(self, rid):
        return rid in (BUF, CNT, OBJ, REC) or rid in self.A.wordy


class Ts(CutAt):
    cutpat = r'.*CTSWrite::.*'
    named = True
    slopes = (-184, -1, 1, 184)

    def __init__(self, mod, size):
        CutAt.__init__(self, mod)
        models.install_std(self)
        self.size = size
        self.alloc_throws = False
        self.symbolic = False
        self.wordy, self.terms = set(), {}
        self.handled = Words(self)
        self.hw, self.hwrel, self.snapw = {}, {}, {}
        self.templates = [lambda st, rid: {'size': zext(size, 64), 'bytes': True} if rid == BUF else None]
        self.on_access.append(lambda *a: Ts.inb(*a))
        self.max_steps = 60000000
        self.max_states = 20000
        self.unroll = 2000
        self.hook(r'rec_put', Ts.put)
        self.hook(r'rec_other', lambda A, st, ins, args, fn: (A.problem('the packets are written in another way', A.loc(st, ins)), ())[1])
        self.hook(r'std::map<int, unsigned char.*>::operator\[\]\(.*', lambda A, *a: A.counter(*a))
        for g in mod.globals:
            self.inited[g] = True

    def counter(A, st, ins, args, fn):
        k = args[1]
        if k.op == 'ptr':
            k = A.read(st, A.region(st, k.a[0]), k.a[1], 4)
        if not (k is PID or st.facts.eq(trunc(k, 32) if k.w > 32 else zext(k, 32), PID)):
            A.problem('the counter of another pid is used', A.loc(st, ins))
        return Ptr(CNT, C(0, 64))

    def put(A, st, ins, args, fn):
        n = st.facts.const(args[1])
        if n is None:
            raise AnalysisError('a field of unknown width')
        v = args[0]
        if v.op == 'lin' and any(x is K0 for x, _ in v.a[1]):
            # a number of bytes that the number of packets written determines
            v = next((C(k, v.w) for k in range(256) if st.facts.eq(v, C(k, v.w))), v)
        st.ghost['out'] = st.ghost['out'] + ((trunc(zext(v, 64), 32), n & 0xffff),)
        return ()

    def inb(A, st, reg, off, n, rw, ins):
        if reg.rid == BUF:
            if rw == 'w':
                A.problem('the payload is written to', A.loc(st, ins))
            end = dom.add(off, C(n, 64) if isinstance(n, int) else n)
            if not (st.facts.ule(end, reg.size) and st.facts.ule(off, reg.size)):
                A.problem('bytes that are not of the payload are read', A.loc(st, ins))

    def binop(self, st, op, a, b):
        r = self.divided(st, op, a, b)
        self.terms[r.id] = r
        return r

    def divided(self, st, op, a, b):
        if op in ('udiv', 'urem', 'sdiv', 'srem') and isc(b) and a.op == 'lin' and cv(b):
            d = cv(b)
            lo, hi = dom.srange(a)
            if lo >= 0 and d <= hi and all(sgn(k, a.w) % d == 0 for _, k in a.a[1]):
                c = sgn(a.a[0], a.w)
                if op[1:] == 'rem':
                    return C(c % d, a.w)
                q = C(c // d, a.w)
                for x, k in a.a[1]:
                    q = dom.add(q, dom.mul(x, C(sgn(k, a.w) // d, a.w)))
                return q
        return CutAt.binop(self, st, op, a, b)

    def iscut(self, fn):
        return self.symbolic and CutAt.iscut(self, fn)

    # ---- the packets written since the last cut
    def packets(self, st):
        g = st.ghost
        out, g['out'] = g['out'], ()
        where = self.loc(st) if st.frames else AT
        bad = lambda w: self.problem(w, where)
        q = Fields(st, out)
        take, num = q.take, q.num
        buf = self.region(st, BUF)
        while q.left():
            left = 188
            try:
                first = g['first']
                if num(8, 'the sync byte') != 0x47:
                    bad('a packet does not begin with the sync byte')
                    return
                if num(1, 'the error flag'):
                    bad('a packet is marked as damaged')
                if num(1, 'the start flag') != (first and not g['fill']):
                    bad('the first packet of a payload, and only this, has to be marked as its start')
                num(1, 'the priority')
                p = take(13)
                if not (st.facts.eq(zext(p, 32), PID) or self.eqv(st, p, trunc(PID, 13))):
                    bad('a packet has not the pid of its stream')
                if num(2, 'scrambling'):
                    bad('a packet is marked as scrambled')
                a, b = num(1, 'the adaptation flag'), num(1, 'the payload flag')
                cc = take(4)
                if not self.eqv(st, cc, trunc(dom.add(CC, g['N']), 4)):
                    bad('the counter of a packet does not follow that of the packet before')
                g['N'] = dom.add(g['N'], C(1, 8))
                left -= 4
                ra = pcr = 0
                if a:
                    n = num(8, 'the length of the adaptation field')
                    left -= 1
                    if n > left:
                        bad('an adaptation field is longer than its packet')
                        return
                    left -= n
                    if n:
                        num(1, 'discontinuity')
                        ra = num(1, 'random access')
                        num(1, 'priority')
                        pcr = num(1, 'the clock flag')
                        if num(4, 'the other flags'):
                            bad('an adaptation field announces what it does not have')
                        n -= 1
                        if pcr:
                            if n < 6:
                                bad('an adaptation field is too short for its clock reference')
                                return
                            base, _, ext = take(33), take(6), take(9)
                            if not self.clock(st, base, g['pcr']) or st.facts.const(ext) != 0:
                                bad('the clock reference is not the time given')
                            n -= 6
                        for _ in range(n):
                            take(8)
                    elif ra:
                        pass
                if ra != (g['ra'] if first else 0):
                    bad('the mark of a random access point is not on its first packet' if first else 'a later packet is marked as a random access point')
                if pcr != (g['pcr'] is not None if first else 0):
                    bad('the clock reference is missing' if first else 'a later packet has a clock reference')
                if not b and left:
                    bad('a packet is not filled')
                    return
                if g['fill'] and left:
                    bad('a packet to fill up carries data')
                for i in range(left):
                    v = take(8)
                    at = dom.add(g['P'], C(i, 64))
                    if not st.facts.ult(at, buf.size):
                        bad('a packet carries bytes that are not of the payload')
                        return
                    w = self.read(st, buf, at, 1)
                    if not (v is w or self.eqv(st, v, w)):
                        bad('a packet does not carry the bytes that follow those of the packet before')
                        return
                g['P'] = dom.add(g['P'], C(left, 64))
                g['first'] = False
            except EOFError:
                bad('a packet is not 188 bytes long')
                return
            except Unclear as e:
                bad('%s of a packet is not the one it has to be (fields missing, or fields too many before it)' % e)
                return

    def clock(self, st, base, time):
        """33 bits of the time, given in units of 100 ns, in units of 1 / 90000 s; whole milliseconds count"""
        b = dom.bits(base)
        ids = set()
        for e in b:
            try:
                ids |= {x for x, _ in e if isinstance(x, int)}
            except (TypeError, ValueError):
                return False                    # a bit that is the same at all times
        wide = [self.terms[x] for x in ids if x in self.terms and self.terms[x].w == 64]
        for t in wide:
            # the low bits of this number, however they were cut out of it
            parts = [dom.bits(trunc(t, k)) for k in range(1, 64)] + [dom.bits(t)]
            if all(any(i < len(p) and e == p[i] for p in parts) for i, e in enumerate(b)):
                return quot.equal(st, t, dom.mul(dom.udiv(time, C(10000, 64)), C(90, 64)))
        return False

    # ---- the cut
    def segment(self, st, key):
        self.packets(st)
        g = st.ghost
        phase = (g['first'], g['ra'] if g['first'] else None)
        key = key + (phase,)
        base = self.base.setdefault(key, g['P'])
        # so many packets after the first arrival
        k = None
        if isc(base):
            x = dom.sub(g['P'], base)
            if x.op == 'c':
                k = C(cv(x) // 184, 64) if cv(x) % 184 == 0 else None
            elif x.op == 'lin' and all(sgn(c, 64) % 184 == 0 for _, c in x.a[1]) and sgn(x.a[0], 64) % 184 == 0:
                k = C(sgn(x.a[0], 64) // 184, 64)
                for t, c in x.a[1]:
                    k = dom.add(k, dom.mul(t, C(sgn(c, 64) // 184, 64)))
        g['k'] = k
        # the memory of the functions, word by word
        snap = self.snapw.get(key)
        cur = {rid: r for rid, r in st.mem.items() if rid[0] in ('a', 'l') and rid not in (OBJ, REC) and r.alive and isc(r.size) and cv(r.size) < 4096}
        self.wordy |= set(cur)
        if snap is None:
            self.snapw[key] = cur
        else:
            for rid, r in cur.items():
                o = snap.get(rid)
                if o is None or o is r or o.layers is r.layers and o.gen == r.gen:
                    continue
                hw = self.hw.setdefault(key, {}).setdefault(rid, set())
                n = cv(r.size)
                i = 0
                while i < n:
                    m = 4 if i % 4 == 0 and i + 4 <= n else 1
                    if i % 8 == 0 and i + 8 <= n and any(not isinstance(x, tuple) and x.op == 'ptr' for x in (self.raw(st, o, i, 8), self.raw(st, r, i, 8))):
                        m = 8
                    if i not in {x for x, _ in hw}:
                        if not self.sameword(st, o, r, i, m):
                            hw.add((i, m))
                            self.dirty = True
                    i += m
        # and how those that change do
        cand = {'k': g['k']} if k is not None else {}
        for rid, ws in self.hw.get(key, {}).items():
            for i, m in ws:
                if rid not in cur or rid not in self.snapw[key]:
                    continue
                v0, v = self.raw(st, self.snapw[key][rid], i, m), self.raw(st, cur[rid], i, m)
                was = self.hwrel.get((key, rid, i))
                now = {}
                for by in self.slopes if was is None else was:
                    t = self.grown(st, v0, by, cand)
                    if t is not None and self.eqv(st, v, t):
                        now[by] = v0
                if now != was:
                    self.hwrel[key, rid, i] = now
                    self.dirty = True
        return phase

    def sameword(self, st, o, r, i, m):
        a, b = self.raw(st, o, i, m), self.raw(st, r, i, m)
        return a is b or not (isinstance(a, tuple) or isinstance(b, tuple)) and self.eqv(st, a, b)

    def raw(self, st, r, i, m):
        return self.read(st, r, C(i, 64), m)

    def candidates(self, st):
        g = st.ghost
        c = {'P': g['P'], 'at': Ptr(BUF, g['P']), 'left': dom.sub(zext(self.size, 64), g['P'])}
        if g['k'] is not None:
            c['k'] = g['k']
            c['k+1'] = dom.add(g['k'], C(1, 64))
        return c

    def generic(self, st, key, phase):
        g = st.ghost
        u = str(key[1:])
        st.facts = type(st.facts)()
        base = self.base[key]
        if not isc(base):
            return False
        k = zext(S(('k', u), 32, 0, 11000000), 64)
        g['k'] = k
        g['P'] = dom.add(base, dom.mul(k, C(184, 64)))
        g['N'] = S(('N', u), 8)
        g['out'] = ()
        self.write(st, CNT, C(0, 64), 1, dom.add(CC, g['N']))
        for rid, ws in self.hw.get(key, {}).items():
            if rid in st.mem:
                for i, m in ws:
                    v = S(('w', u, rid, i), 8 * m)
                    for by, v0 in self.hwrel.get((key, rid, i), {}).items():
                        v = self.grown(st, v0, by, {'k': k})
                    self.write(st, rid, C(i, 64), m, v)
        # what was given to packets is of the payload
        # base + 184 k <= 184 K + R, for integers
        top = dom.add(zext(K0, 64), C((self.R - cv(base)) // 184, 64)) if self.many else C((self.R - cv(base)) // 184, 64)
        return self.assume(st, dom.cmp('ule', dom.mul(k, C(184, 64)), dom.mul(top, C(184, 64))), True) and self.assume(st, dom.cmp('ule', k, top), True)


def check(cx):
    try:
        mod = cx.build(UNITS, driver())
    except flavor.FlavorError as e:
        cx.anchor(False, 'classes of %s: %s' % (FL, e))
        return
    for f in ('t_out', 't_fill', 't_pes'):
        cx.anchor(mod.func(f) is not None, f)

    def ready(A):
        st = State()
        st.mem[OBJ] = Reg(OBJ, 'obj', C(65536, 64))
        st.mem[REC] = Reg(REC, 'obj', C(256, 64))
        st.mem[CNT] = Reg(CNT, 'obj', C(1, 64))
        A.write(st, CNT, C(0, 64), 1, CC)
        outs = A.run(lambda: (A.start('r_new', [Ptr(REC)], st), st)[1])
        st = outs[0].st
        st.frames = []
        st.trace = None
        st.ghost.update(out=(), P=C(0, 64), N=C(0, 8), first=True, ra=0, pcr=None, fill=False, k=None)
        return st

    def one(cx, item):
        many, R, ra, pcr = item
        size = dom.add(dom.mul(K0, C(184, 32)), C(R, 32)) if many else C(R, 32)
        A = cx.use(Ts(mod, size))
        A.base = {}
        A.many, A.R = many, R
        inst = '%s bytes%s%s' % ('184 K + %d' % R if many else R, ', random access' if ra else '', ', clock' if pcr else '')
        st0 = ready(A)
        st0.ghost['ra'] = ra
        st0.ghost['pcr'] = S('pcr', 64, 0, (1 << 60)) if pcr else None
        A.symbolic = many
        A.problems = []

        def mk():
            s = st0.copy()
            s.trace = None
            A.start('t_out', [Ptr(OBJ), PID, Ptr(BUF), size, Ptr(REC), C(ra, 32), st0.ghost['pcr'] if pcr else NOPCR], s)
            return s
        outs = A.run(mk)
        cx.ob('ends', inst, any(o.kind == 'ret' for o in outs), AT, 'the payload is never written (%s)' % inst, 'ends')
        for o in outs:
            good = o.kind == 'ret' and not any(v[0] in ('uaf', 'nullderef', 'doublefree') for v in o.st.events())
            cx.ob('returns', inst, good, AT, 'writing a payload fails (%s)' % inst, 'fails')
            if not good:
                continue
            A.packets(o.st)
            g = o.st.ghost
            cx.ob('all', inst, o.st.facts.eq(g['P'], zext(size, 64)), AT, 'not every byte of the payload is written (%s)' % inst, 'all')
            last = A.read(o.st, A.region(o.st, CNT), C(0, 64), 1)
            cx.ob('counter', inst, A.eqv(o.st, trunc(last, 4), trunc(dom.add(CC, g['N']), 4)), AT,
                  'the counter of the pid is not the one of the next packet (%s)' % inst, 'counter')
        for w, at in dict.fromkeys(A.problems):
            cx.ob('packets', inst, False, at or AT, '%s (%s)' % (w, inst), 'packets|' + w)
        cx.ob('packets', inst, True)
    def pes(cx, item):
        _, sid, dts = item
        A = cx.use(Ts(mod, C(0, 32)))
        inst = 'header of a packet of stream %d%s' % (sid, ', two times' if dts else '')
        ob = lambda rule, ok, what: cx.ob(rule, inst, ok, AT, '%s (%s)' % (what, inst), rule + '|' + what)
        st0 = ready(A)
        n = S('n', 32)
        t1, t2 = S('presented', 64, 0, 1 << 60), S('decoded', 64, 0, 1 << 60)

        def mk():
            s = st0.copy()
            s.trace = None
            A.start('t_pes', [C(sid, 32), t1, t2 if dts else NOPCR, NOPCR, n, Ptr(REC)], s)
            return s
        outs = A.run(mk)
        ob('pes', any(o.kind == 'ret' for o in outs), 'the header is never written')
        for o in outs:
            good = o.kind == 'ret' and not any(v[0] in ('uaf', 'nullderef', 'doublefree') for v in o.st.events())
            ob('pes', good, 'writing the header fails')
            if not good:
                continue
            st = o.st
            q = Fields(st, st.ghost['out'])
            try:
                ob('pes', q.num(24, 'the start code') == 1 and q.num(8, 'the stream') == sid, 'the header does not begin with its start code and stream')
                size = zext(q.take(16), 64)
                ob('pes', q.num(2, 'mark') == 2 and q.num(2, 'scrambling') == 0, 'the marks of the header are wrong')
                q.take(4)
                ob('pes', q.num(2, 'times') == (3 if dts else 2), 'the flags do not tell which times follow')
                ob('pes', q.num(6, 'flags') == 0, 'the flags tell of fields that do not follow')
                h = q.num(8, 'the length of the times')
                ob('pes', h == (10 if dts else 5), 'the length of the times is wrong')
                for t, mark in ((t1, 3 if dts else 2), (t2, 1))[:2 if dts else 1]:
                    m = q.num(4, 'mark of a time')
                    a, x, b, y, c, z = q.take(3), q.num(1, ''), q.take(15), q.num(1, ''), q.take(15), q.num(1, '')
                    v = dom.or_(dom.or_(dom.shl(zext(a, 33), C(30, 33)), dom.shl(zext(b, 33), C(15, 33))), zext(c, 33))
                    ob('pes', m == mark and x == y == z == 1, 'the marks of a time are wrong')
                    ob('pes', A.clock(st, v, t), 'a time written is not the one given')
                ob('pes', not q.left(), 'more than the header is written')
                # the bytes that follow the length, or 0
                total = dom.add(zext(n, 64), C(3 + h, 64))
                for c in (True, False):
                    s2 = st.copy()
                    s2.facts = s2.facts.copy()
                    if not A.assume(s2, dom.cmp('ule', total, C(65535, 64)), c):
                        continue
                    none = s2.facts.const(size) == 0
                    if c:
                        zero = s2.copy()
                        some = A.assume(zero, dom.cmp('ne', n, C(0, 32)), True)
                        ob('pes', s2.facts.eq(size, total) or not some and none or low(s2, size, total), 'the length is not the number of bytes that follow')
                    else:
                        ob('pes', none, 'a length that does not fit is written cut off')
            except EOFError:
                ob('pes', False, 'the header is incomplete')
            except Unclear as e:
                ob('pes', False, '%s of the header is not the one it has to be' % (e.args[0] or 'a mark'))

    def low(st, a, b):
        """the low 16 bits of a number that has no others"""
        x, y = trunc(a, 16), trunc(b, 16)
        return x is y or dom.same(x, y) or st.facts.eq(x, y)

    def fill(cx, item):
        _, start = item
        A = cx.use(Ts(mod, C(0, 32)))
        inst = 'filling up from counter %d' % start
        ob = lambda rule, ok, what: cx.ob(rule, inst, ok, AT, '%s (%s)' % (what, inst), rule + '|' + what)
        st0 = ready(A)
        A.write(st0, CNT, C(0, 64), 1, C(start, 8))
        st0.ghost['fill'] = True
        st0.ghost['N'] = dom.sub(C(start, 8), CC)
        A.problems = []

        def mk():
            s = st0.copy()
            s.trace = None
            A.start('t_fill', [Ptr(OBJ), PID, Ptr(REC)], s)
            return s
        for o in A.run(mk):
            good = o.kind == 'ret' and not any(v[0] in ('uaf', 'nullderef', 'doublefree') for v in o.st.events())
            ob('fill', good, 'filling up fails')
            if good:
                A.packets(o.st)
                n = o.st.facts.const(dom.sub(dom.add(o.st.ghost['N'], CC), C(start, 8)))
                ob('fill', n == -start % 16, 'the packets of a stream are not filled up to a multiple of sixteen')
        for w, at in dict.fromkeys(A.problems):
            cx.ob('fill', inst, False, at or AT, '%s (%s)' % (w, inst), 'fill|' + w)
    work = {'pes': pes, 'fill': fill}
    items = [('pes', sid, d) for sid in (192, 224) for d in (0, 1)] + [('fill', k) for k in range(256)]
    items += [(m, r, ra, p) for m in (False, True) for r in range(0 if m else 1, 184) for ra, p in ((0, 0), (1, 0), (1, 1))]
    cx.pmap(items, lambda cx, i: work.get(i[0], one)(cx, i))
