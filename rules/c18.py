"""Base64.

The coders keep a position between two blocks, so their loops are cut by an inferred invariant whose phase is the number
of bits pending. Each segment between two cuts has to take the bits pending and the bytes (characters) it reads, in
order, to exactly the characters (bytes) it writes and the bits pending afterwards, bit for bit; the pending bits are
carried by the state from block to block, so any split into blocks gives the same text. The two alphabets are evaluated
over every value of a character."""
import dom
from dom import C, S, Ptr, isc, cv, zext, sext, trunc
from absint import State, AnalysisError
import models
from cut import CutAt, distance

LEVEL = 'proof'
FLOOR = 300
UNITS = ['b64/src/cencode.cpp', 'b64/src/cdecode.cpp']
DRIVER = r'''
#include <stddef.h>
#include "b64/include/cencode.h"
#include "b64/include/cdecode.h"
extern "C" {
void e_init(base64_encodestate* s) { base64_init_encodestate(s); }
char e_val(char v) { return base64_encode_value(v); }
int e_block(const char* in, int n, char* out, base64_encodestate* s) { return base64_encode_block(in, n, out, s); }
int e_end(char* out, base64_encodestate* s) { return base64_encode_blockend(out, s); }
void d_init(base64_decodestate* s) { base64_init_decodestate(s); }
int d_val(char v) { return base64_decode_value(v); }
size_t d_block(const char* in, int n, char* out, base64_decodestate* s) { return base64_decode_block(in, n, out, s); }
unsigned long e_step() { return offsetof(base64_encodestate, step); }
unsigned long e_result() { return offsetof(base64_encodestate, result); }
unsigned long e_size() { return sizeof(base64_encodestate); }
unsigned long d_step() { return offsetof(base64_decodestate, step); }
unsigned long d_plain() { return offsetof(base64_decodestate, plainchar); }
unsigned long d_size() { return sizeof(base64_decodestate); }
unsigned long e_a() { return step_A; }
unsigned long e_b() { return step_B; }
unsigned long e_c() { return step_C; }
unsigned long d_a() { return step_a; }
unsigned long d_b() { return step_b; }
unsigned long d_c() { return step_c; }
unsigned long d_d() { return step_d; }
}
'''
ASSUMPTIONS = ['a block is not longer than 2^31-1 characters and does not overlap its output',
               'the decoder is given room for one byte more than it decodes']
IN, OUT, STATE = ('in',), ('out',), ('state',)
ALPHA = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
LEN = S('len', 32, 0, (1 << 31) - 1)
EW, DW = ('src/b64/src/cencode.cpp', 0), ('src/b64/src/cdecode.cpp', 0)


def pack(msb, w=8):
    """term of w bits from bits given the most significant first, at the top of the low len(msb) bits"""
    l = list(reversed(msb))
    return dom.frombits(l + [dom.B0] * (w - len(l)))


class Coder(CutAt):
    handled = (IN, OUT)
    dec = False

    def __init__(self, mod, real=False):
        CutAt.__init__(self, mod)
        models.install_std(self)
        self.templates = [lambda st, rid: {'size': zext(LEN, 64), 'bytes': True} if rid == IN else {'bytes': True} if rid == OUT else
                          {'size': C(self.ssize, 64)} if rid == STATE else None]
        self.ssize = 64
        for g in mod.globals:
            self.inited[g] = True
        self.max_states = 20000
        if not real:
            self.cutpat = r'.*'
            self.hook(r'.*\((char|signed char|unsigned char|int|unsigned int)\)', Coder.value)
            self.on_load.append(Coder.ld)
            self.on_store.append(Coder.sto)
            self.on_access.append(Coder.inb)
        else:
            self.cutpat = r'(?!)'
        self.encs = {}

    def value(A, st, ins, args, n):
        """a function of one character that is one of the two alphabets, whatever its name"""
        v = args[0]
        if isc(v) or isinstance(v, tuple):
            return None
        memo = A.mod.__dict__.setdefault('_b64', {})
        if n not in memo:
            memo[n] = evaluate(A.mod, n, v.w)
        kind, w = memo[n]
        if kind == 'dec' and A.dec:
            c = v if v.w == 8 else v.a[0] if v.op in ('sext', 'zext') and v.a[0].w == 8 else None
            if c is not None:
                d = S(('dec', c), 8)
                return d if w == 8 else sext(d, w)
        if kind == 'enc' and not A.dec:
            if all(b is dom.B0 or b == dom.B0 for b in dom.bits(v)[6:]):
                e = A.enc(trunc(v, 8))
                return e if w == 8 else zext(e, w)
            A.problem('a value that can be more than 63 is encoded', A.loc(st, ins))
        return None

    def enc(A, v):
        s = S(('enc', v), 8, 43, 122)
        A.encs[s] = v
        return s

    def inb(A, st, reg, off, n, rw, ins):
        if reg.rid in (IN, STATE) and reg.size is not None:
            end = dom.add(off, C(n, 64) if isinstance(n, int) else n)
            if not (st.facts.ule(end, reg.size) and st.facts.ule(off, reg.size)):
                A.problem('an access outside of the %s' % ('input' if reg.rid == IN else 'state'), A.loc(st, ins))

    def ld(A, st, reg, off, n, v, ins, at):
        if reg.rid == IN:
            st.ghost['reads'] = st.ghost['reads'] + ((off, n),)
        elif reg.rid[0] == 'g' and not isc(off) and n == 1:
            return A.table(st, reg, off)
        return None

    def table(A, st, reg, off):
        """a look-up in one of the alphabets"""
        def at(i):
            b = A.read(st, reg, C(i, 64), 1)
            return cv(b) if isc(b) else None
        if not A.dec:
            b = dom.bits(off)
            if all(x is dom.B0 or x == dom.B0 for x in b[6:]) and all(at(i) == ALPHA[i] for i in range(64)):
                return A.enc(dom.frombits(b[:8]))
            return None
        for o, n in st.ghost['reads']:
            c = A.read(st, A.region(st, IN), o, 1)
            for x in (sext(c, 64), zext(c, 64)):
                k = st.facts.const(dom.sub(off, x))
                if k is not None:
                    k = dom.sgn(k, 64)
                    if all(at(c + k) == ALPHA.index(c) if c in ALPHA else at(c + k) > 127 for c in range(43, 123)):
                        return S(('dec', c), 8)
        return None

    def sto(A, st, reg, off, n, v, ins, at):
        if reg.rid == IN:
            A.problem('the input is written to', A.loc(st, ins))
        if reg.rid == OUT:
            st.ghost['writes'] = st.ghost['writes'] + ((off, n),)

    # ---- one segment
    def taken(self, st):
        """the units read since the last cut, as lists of bits (most significant first), or None"""
        g = st.ghost
        rel = {}
        for off, n in g['reads']:
            d = distance(st, g['P'], off)
            if d is None or n != 1:
                self.problem('the input is not read in order', self.loc(st) if st.frames else None)
                return None
            rel[d] = off
        k = len(rel)
        if set(rel) != set(range(k)):
            self.problem('input is skipped or read again', self.loc(st) if st.frames else None)
            return None
        out = []
        for i in range(k):
            c = self.read(st, self.region(st, IN), rel[i], 1)
            if not self.dec:
                out.append(list(reversed(dom.bits(c))))
                continue
            d = S(('dec', c), 8)
            bad = st.facts.decide(dom.cmp('slt', d, C(0, 8)))
            if bad is None:
                bad = self.never(st, c)
                if not bad:
                    self.problem('a character is used without regard to whether it belongs to the alphabet', self.loc(st) if st.frames else None)
            if not bad:
                out.append(list(reversed(dom.bits(d)[:6])))
        g['P'] = dom.add(g['P'], C(k, 64))
        g['reads'] = ()
        return out

    def never(self, st, c):
        """no character of the alphabet is possible on this path"""
        for ch in ALPHA:
            s = st.copy()
            if self.assume(s, dom.cmp('eq', c, C(ch, 8)), True) and not s.facts.contra():
                return False
        return True

    def advance(self, st):
        g = st.ghost
        where = self.loc(st) if st.frames else None
        u = self.taken(st)
        if u is None:
            u = []
        bits = list(g['pend']) + [b for x in u for b in x]
        w = 8 if self.dec else 6
        m = len(bits) // w
        for off, n in g['writes']:
            d = distance(st, g['Q'], off)
            if d is None or n != 1 or d >= m + (1 if self.dec else 0):
                self.problem('something is written that the input does not give', where)
        reg = self.region(st, OUT)
        for i in range(m):
            v = self.read(st, reg, dom.add(g['Q'], C(i, 64)), 1)
            want = bits[w * i:w * i + w]
            got = v if self.dec else self.encs.get(v)
            if got is None or not same(dom.bits(got), list(reversed(want)) + [dom.B0] * (8 - w)):
                self.problem('what is written is not the code of the bits read', where)
        g['pend'] = tuple(bits[w * m:])
        g['Q'] = dom.add(g['Q'], C(m, 64))
        g['writes'] = ()

    def carry(self, st):
        """how the pending bits are kept"""
        p = list(st.ghost['pend'])
        return pack(p + [dom.B0] * ((8 if self.dec else 6) - len(p)))

    def segment(self, st, key):
        self.advance(st)
        g = st.ghost
        if not st.facts.ule(g['P'], zext(LEN, 64)):
            self.problem('more than the input is read', self.loc(st))
        if self.dec and g['pend']:
            v = self.read(st, self.region(st, OUT), g['Q'], 1)
            if not same(dom.bits(v), dom.bits(self.carry(st))):
                self.problem('the bits pending are not kept in the output', self.loc(st))
        return len(g['pend'])

    def candidates(self, st):
        g = st.ghost
        l = zext(LEN, 64)
        r = {'at': Ptr(IN, g['P']), 'n': g['P'], 'left': dom.sub(l, g['P']), 'to': Ptr(OUT, g['Q']), 'm': g['Q']}
        if g['pend']:
            r['pend'] = self.carry(st)
        return r

    def generic(self, st, key, phase):
        u = str(key[1:]) + str(phase)
        st.facts = type(st.facts)()
        g = st.ghost
        g['P'] = S(('P', u), 64, 0, 1 << 31)
        g['Q'] = S(('Q', u), 64, 0, 1 << 32)
        g['pend'] = tuple(reversed(dom.bits(S(('pend', u), 8))[:phase]))
        g['reads'] = g['writes'] = ()
        for r in (IN, OUT):
            if r in st.mem:
                self.havoc(st, r)
        if self.dec and phase:
            self.poke(st, Ptr(OUT, g['Q']), 1, self.carry(st))
            g['writes'] = ()
        return self.assume(st, dom.cmp('ule', g['P'], zext(LEN, 64)), True)


def evaluate(mod, fn, w):
    """('enc' or 'dec', width of the result) when the function is one of the alphabets for every value"""
    A = Coder(mod, True)
    r, rw = {}, None
    for v in range(256):
        def mk():
            s = State()
            A.start(fn, [C(v, w)], s)
            return s
        try:
            o = A.run(mk)
        except AnalysisError:
            return None, None
        if len(o) == 1 and o[0].kind == 'ret' and o[0].val is not None and isc(o[0].val):
            r[v] = cv(o[0].val)
            rw = o[0].val.w
    if rw is None or rw < 8:
        return None, None
    if all(r.get(i) == ALPHA[i] for i in range(64)):
        return 'enc', rw
    if w == 8 and all(v in r and (r[v] == ALPHA.index(v) if v in ALPHA else -128 <= dom.sgn(r[v], rw) < 0) for v in range(256)):
        return 'dec', rw
    return None, None


def same(a, b):
    return len(a) == len(b) and all(x is y or x == y for x, y in zip(a, b))


def check(cx):
    mod = cx.build(UNITS, DRIVER)

    def num(fn):
        A = Coder(mod, True)
        st = State()

        def mk():
            s = State()
            A.start(fn, [], s)
            return s
        o = A.run(mk)
        cx.anchor(len(o) == 1 and isc(o[0].val), fn)
        return cv(o[0].val)
    F = {x: num(x) for x in ('e_step', 'e_result', 'e_size', 'd_step', 'd_plain', 'd_size', 'e_a', 'e_b', 'e_c', 'd_a', 'd_b', 'd_c', 'd_d')}
    # ---- the two alphabets, for every value
    for fn, where in (('e_val', EW), ('d_val', DW)):
        A = cx.use(Coder(mod, True))
        for v in range(256):
            def mk():
                s = State()
                A.start(fn, [C(v, 8)], s)
                return s
            if fn == 'e_val' and v > 63:
                continue
            o = A.run(mk)
            ok = len(o) == 1 and o[0].kind == 'ret' and isc(o[0].val)
            r = dom.sgn(cv(o[0].val), o[0].val.w) if ok else None
            if fn == 'e_val':
                cx.ob('alphabet', 'encode %d' % v, ok and r == ALPHA[v], where, 'the value %d is not encoded as %r' % (v, chr(ALPHA[v])), 'enc')
            else:
                good = ok and (r == ALPHA.index(v) if v in ALPHA else -128 <= r < 0)
                cx.ob('alphabet', 'decode %d' % v, good, where, 'the character %d is not decoded as base64 says' % v, 'dec')
    for dec in (False, True):
        coder(cx, mod, F, dec)
    cx.control('the alphabet has 64 different characters', len(set(ALPHA)) == 64)


def coder(cx, mod, F, dec):
    k = 'd' if dec else 'e'
    where = DW if dec else EW
    name = 'decode' if dec else 'encode'
    steps = [F[k + '_' + x] for x in ('abcd' if dec else 'abc')]
    bits = [0, 6, 4, 2] if dec else [0, 2, 4]
    step = dict(zip(bits, steps))
    field = F['d_plain' if dec else 'e_result']

    def state(A, st, n):
        """arbitrary state of the coder with n bits pending"""
        g = st.ghost
        g['P'] = g['Q'] = C(0, 64)
        g['pend'] = tuple(reversed(dom.bits(S('pend0', 8))[:n]))
        g['reads'] = g['writes'] = ()
        A.poke(st, Ptr(STATE, C(F[k + '_step'], 64)), 4, C(step[n], 32))
        if n:
            A.poke(st, Ptr(STATE, C(field, 64)), 1, A.carry(st))

    def machine():
        A = cx.use(Coder(mod))
        A.dec = dec
        A.ssize = F[k + '_size']
        return A

    def left(A, o, inst):
        """the state keeps what is pending"""
        st = o.st
        n = len(st.ghost['pend'])
        v = A.peek(st, Ptr(STATE, C(F[k + '_step'], 64)), 4)
        cx.ob('state', inst, n in step and st.facts.eq(v, C(step.get(n, 0), 32)), where, 'the state does not say how many bits are pending (%s)' % inst, 'step')
        if n:
            v = A.peek(st, Ptr(STATE, C(field, 64)), 1)
            cx.ob('state', inst, same(dom.bits(v), dom.bits(A.carry(st))), where, 'the bits pending are not kept between two blocks (%s)' % inst, 'pend')

    def report(A, inst):
        for w, at in A.problems:
            cx.ob('code', inst, False, at or where, '%s (%s)' % (w, inst), 'code|' + w)
        A.problems = []

    # the state to begin with
    A = machine()

    def mk():
        s = State()
        s.ghost.update(P=C(0, 64), Q=C(0, 64), pend=(), reads=(), writes=())
        A.start(k + '_init', [Ptr(STATE)], s)
        return s
    outs = A.run(mk)
    for o in outs:
        cx.ob('begins', name, o.kind == 'ret', where, 'a new state cannot be made', 'init')
        left(A, o, name + ', new state')
    cx.anchor(outs, 'first state')
    ends = set()
    for n in bits:
        inst = '%s, %d bits pending' % (name, n)
        A = machine()

        def mk():
            s = State()
            state(A, s, n)
            A.start(k + '_block', [Ptr(IN), LEN, Ptr(OUT), Ptr(STATE)], s)
            return s
        outs = A.run(mk)
        cx.ob('ends', inst, any(o.kind == 'ret' for o in outs), where, 'a block never ends (%s)' % inst, 'ends')
        report(A, inst)
        for o in outs:
            cx.ob('returns', inst, o.kind == 'ret', where, 'a block fails (%s)' % inst, 'fails')
            if o.kind != 'ret':
                continue
            A.advance(o.st)
            report(A, inst)
            g = o.st.ghost
            ends.add(len(g['pend']))
            cx.ob('all-input', inst, o.st.facts.eq(g['P'], zext(LEN, 64)), where, 'not all of a block is used (%s)' % inst, 'all')
            q = trunc(g['Q'], o.val.w) if o.val.w < 64 else g['Q']
            cx.ob('count', inst, A.eqv(o.st, o.val, q), where, 'the number returned is not that of the characters written (%s)' % inst, 'count')
            left(A, o, inst)
        cx.ob('cut', inst, bool(A.ncut), where, 'no loop', 'cut')
        for kk, rel in A.rel.items():
            for c in rel:
                cx.ob('invariant', '%s %s %s' % (inst, kk[1:], c), True)
        if dec:
            continue
        A = machine()

        def mk():
            s = State()
            state(A, s, n)
            A.start('e_end', [Ptr(OUT), Ptr(STATE)], s)
            return s
        A.cutpat = '(?!)'  # what is pending is known: loops are followed to their end
        outs = A.run(mk)
        report(A, inst)
        cx.ob('ends', inst + ', end', bool(outs), where, 'the end is never reached (%s)' % inst, 'end')
        for o in outs:
            g = o.st.ghost
            want = [] if n == 0 else [None] + [ord('=')] * (2 if n == 2 else 1)
            ok = o.kind == 'ret' and o.st.facts.eq(o.val, C(len(want), 32))
            cx.ob('padding', inst, ok, where, 'the number of characters at the end is wrong (%s)' % inst, 'pad')
            reg = A.region(o.st, OUT)
            for off, sz in g['writes']:
                d = distance(o.st, C(0, 64), off)
                cx.ob('padding', inst, sz == 1 and d is not None and d < len(want), where, 'more is written at the end than the padding (%s)' % inst, 'pad')
            for i, c in enumerate(want):
                v = A.read(o.st, reg, C(i, 64), 1)
                if c is None:
                    e = A.encs.get(v)
                    good = e is not None and same(dom.bits(e), dom.bits(A.carry(o.st)))
                else:
                    good = isc(v) and cv(v) == c
                cx.ob('padding', inst, good, where, 'the last characters are not the bits left over and the padding (%s)' % inst, 'pad')
    cx.control('every number of pending bits is left by some block (%s)' % name, ends == set(bits))
