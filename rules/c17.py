"""The checksum of transport stream sections, decided over GF(2).

The table the library builds is computed from its own source (all of it is constant) and every look-up is recognised as
a linear map of the bits of its index. The loops of the checksum are cut by an inferred invariant; each segment between
two cuts has to turn the remainder of the bytes read so far into the remainder (CRC-32, polynomial 0x04C11DB7, most
significant bit first) of these and the bytes the segment read, bit for bit, reading each byte once, in order, inside the
buffer; the value returned has to be the remainder after the last byte."""
import dom
from dom import C, S, Ptr, isc, cv, zext
from absint import State, AnalysisError
import models
from cut import CutAt, distance, lookup, maxoff

LEVEL = 'proof'
FLOOR = 20
UNITS = ['mg/media/wincrc.cpp']
DRIVER = r'''
#include <stdint.h>
#include "mg/media/wincrc.h"
#include <new>
extern "C" {
void crc_new(void* w) { new (w) CWinCrc(); }
unsigned int crc_of(CWinCrc* c, const unsigned char* b, unsigned int n, unsigned int crc) { return c->crc_32(b, n, crc); }
unsigned int crc_std(CWinCrc* c, const unsigned char* b, unsigned int n) { return c->crc_32(b, n); }
}
'''
ASSUMPTIONS = ['the tables are built by one thread', 'little-endian machine (the build target)']
OBJ, BUF = ('obj',), ('buf',)
POLY = 0x04C11DB7
LEN = S('len', 32, 0, (1 << 32) - 1)


def fold(bits_, byte):
    r = list(bits_)
    for i in range(8):
        r[24 + i] = r[24 + i] ^ byte[i]
    for _ in range(8):
        top = r[31]
        r = [dom.B0] + r[:31]
        for i in range(32):
            if POLY >> i & 1:
                r[i] = r[i] ^ top
    return r


def swap(bits_):
    return [b for i in (3, 2, 1, 0) for b in bits_[8 * i:8 * i + 8]]


class Crc(CutAt):
    cutpat = r'.*crc.*'
    handled = (BUF,)

    def __init__(self, mod):
        CutAt.__init__(self, mod)
        models.install_std(self)
        self.templates = [lambda st, rid: {'size': zext(LEN, 64), 'bytes': True} if rid == BUF else
                          {'size': C(64, 64)} if rid == OBJ else None]
        for g in mod.globals:
            self.inited[g] = True
        self.on_load.append(Crc.ld)
        self.on_store.append(lambda A, st, reg, off, n, v, ins, at: A.problem('the buffer is written to', A.loc(st, ins)) if reg.rid == BUF else None)
        self.on_access.append(Crc.inb)
        self.max_states = 20000
        self.unroll = 2000
        self.symbolic = False

    def iscut(self, fn):
        return self.symbolic and CutAt.iscut(self, fn)

    def inb(A, st, reg, off, n, rw, ins):
        if reg.size is not None and reg.rid != OBJ:
            end = dom.add(off, C(n, 64) if isinstance(n, int) else n)
            if isc(reg.size) and isinstance(n, int) and maxoff(off) + n <= cv(reg.size):
                return
            if not (st.facts.ule(end, reg.size) and st.facts.ule(off, reg.size)):
                A.problem('an access outside the buffer', A.loc(st, ins))

    def ld(A, st, reg, off, n, v, ins, at):
        if reg.rid == BUF:
            st.ghost['reads'] = st.ghost['reads'] + ((off, n),)
            return None
        if reg.rid[0] == 'g' and not isc(off):
            t = lookup(A, st, reg, off, None, n)
            if t is None:
                A.problem('a look-up in a table that is not the one of a checksum', A.loc(st, ins))
            return t
        return None

    def advance(self, st):
        """what the reads since the last cut make of the remainder"""
        g = st.ghost
        rel = {}
        for off, n in g['reads']:
            d = distance(st, g['P'], off)
            if d is None:
                self.problem('bytes are not read in order', self.loc(st) if st.frames else None)
                return
            rel.update({d + j: dom.add(off, C(j, 64)) for j in range(n)})
        k = len(rel)
        if set(rel) != set(range(k)):
            self.problem('bytes are skipped or read again', self.loc(st) if st.frames else None)
            return
        r = dom.bits(g['V'])
        reg = self.region(st, BUF)
        for i in range(k):
            r = fold(r, dom.bits(self.read(st, reg, rel[i], 1)))
        g['V'] = dom.frombits(r)
        g['P'] = dom.add(g['P'], C(k, 64))
        g['reads'] = ()

    def push(self, st, fn, args, call, onret=None):
        CutAt.push(self, st, fn, args, call, onret)
        # each pass over the bytes begins with the function that has the loop
        if self.symbolic and not st.ghost.get('pass') and self.iscut(fn) and fn.loops():
            st.ghost.update({'pass': st.frames[-1].id, 'P': C(0, 64), 'V': st.ghost['start'], 'reads': ()})

    def ret(self, st, v, outs):
        if self.symbolic and st.frames[-1].id == st.ghost.get('pass'):
            self.advance(st)
            g = st.ghost
            if not st.facts.eq(g['P'], zext(LEN, 64)):
                self.problem('the checksum does not cover all the bytes', self.loc(st))
            if v is not None and not isinstance(v, tuple):
                for name, t in self.candidates(st).items():
                    if t.w == 32 and t.op != 'ptr' and self.eqv(st, v, t):
                        # the remainder of all the bytes, whichever way it was come by
                        g['V'] = S('remainder', 32)
                        v = self.candidates(st)[name]
                        break
            g['pass'] = None
        return CutAt.ret(self, st, v, outs)

    def segment(self, st, key):
        self.advance(st)
        if not st.facts.ule(st.ghost['P'], zext(LEN, 64)):
            self.problem('more than the buffer is read', self.loc(st))
        return 0

    def candidates(self, st):
        g = st.ghost
        v = dom.bits(g['V'])
        l = zext(LEN, 64)
        return {'crc': g['V'], 'swapped': dom.frombits(swap(v)), 'inverted': dom.frombits([b ^ dom.B1 for b in v]),
                'at': Ptr(BUF, g['P']), 'n': g['P'], 'left': dom.sub(l, g['P'])}

    def generic(self, st, key, phase):
        u = str(key[1:])
        st.facts = type(st.facts)()
        st.ghost['P'] = S(('P', u), 64, 0, 1 << 32)
        st.ghost['V'] = S(('V', u), 32)
        st.ghost['reads'] = ()
        return self.assume(st, dom.cmp('ule', st.ghost['P'], zext(LEN, 64)), True)


def start(A, fn, args, st, v0):
    st.ghost.update({'P': C(0, 64), 'V': v0, 'start': v0, 'reads': (), 'pass': None})
    A.start(fn, args, st)
    return st


class Default(Crc):
    """what the checksum is asked for when no start is given"""
    def push(self, st, fn, args, call, onret=None):
        if st.frames:
            self.seen.append((fn, args))
            raise Seen()
        Crc.push(self, st, fn, args, call, onret)


class Seen(Exception):
    pass


def default(cx, mod, st, where):
    A = cx.use(Default(mod))
    A.seen = []
    st = st.copy()
    st.trace = None
    try:
        A.run(lambda: start(A, 'crc_std', [Ptr(OBJ), Ptr(BUF), LEN], st.copy(), C(0xffffffff, 32)))
    except Seen:
        pass
    cx.anchor(A.seen, 'call of the checksum with its default start')
    for fn, args in A.seen:
        same = len(args) == 4 and all(A.eqv(st, a, b) for a, b in zip(args, [Ptr(OBJ), Ptr(BUF), LEN, C(0xffffffff, 32)]))
        cx.ob('default-start', 'crc_32', same, where, 'without a start the checksum does not begin with all ones', 'default')


def check(cx):
    mod = cx.build(UNITS, DRIVER)
    A0 = cx.use(Crc(mod))
    init = State()
    init.ghost.update(P=C(0, 64), V=C(0, 32), reads=())
    outs = A0.run(lambda: (A0.start('crc_new', [Ptr(OBJ)], init.copy()), )[0])
    cx.anchor(len(outs) == 1 and outs[0].kind == 'ret', 'construction of the checksum')
    st1 = outs[0].st
    where = ('src/mg/media/wincrc.cpp', 0)
    crc = S('crc', 32)
    start_v = {'crc_of': dom.frombits(swap(dom.bits(crc)))}

    def one(fn, st, inst):
        A = cx.use(Crc(mod))
        A.symbolic = True
        A.cutpat = r'.*crc(_\d+)?\(.*|av_crc\(.*'
        args = [Ptr(OBJ), Ptr(BUF), LEN, crc]

        def mk():
            s = st.copy()
            s.trace = None
            return start(A, fn, args, s, start_v[fn])
        outs = A.run(mk)
        got = [o for o in outs if o.kind == 'ret']
        cx.ob('ends', inst, bool(got), where, 'the checksum is never returned (%s)' % inst, 'ends')
        for w, at in list(A.problems):
            cx.ob('reads', inst, False, at or where, '%s (%s)' % (w, inst), 'reads|' + w)
        for o in outs:
            cx.ob('returns', inst, o.kind == 'ret', where, 'the checksum fails (%s)' % inst, 'fails')
            if o.kind != 'ret':
                continue
            n = len(A.problems)
            A.advance(o.st)
            for w, at in A.problems[n:]:
                cx.ob('reads', inst, False, where, '%s (%s)' % (w, inst), 'reads|' + w)
            g = o.st.ghost
            cx.ob('all-bytes', inst, o.st.facts.eq(g['P'], zext(LEN, 64)), where, 'the checksum does not cover all the bytes (%s)' % inst, 'all')
            cx.ob('remainder', inst, A.eqv(o.st, o.val, g['V']), where, 'the value returned is not the remainder of the bytes (%s)' % inst, 'value')
        for k, rel in A.rel.items():
            for c, r in rel.items():
                cx.ob('invariant', '%s %s' % (k[1:], c), True)
        return got, A

    got, A = one('crc_of', st1, 'first use')
    cx.anchor(A.ncut, 'loop of the checksum')
    if got:
        one('crc_of', got[0].st, 'later use')
        default(cx, mod, got[0].st, where)
    # the remainder of known data, to show that the reference itself is CRC-32/MPEG-2
    r = dom.bits(C(0xffffffff, 32))
    for ch in b'123456789':
        r = fold(r, dom.bits(C(ch, 8)))
    cx.control('reference remainder of "123456789" is 0x0376E6E7', cv(dom.frombits(r)) == 0x0376E6E7)
