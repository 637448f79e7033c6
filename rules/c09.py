"""Conversions between number types.

Every conversion function is interpreted with a symbolic argument: on a path that returns, the facts of the path have to
place the argument in the range of the result and the result has to be the argument; on a path that raises, the number
raised has to be the overflow error and the argument must lie outside. Floating point arguments are split into the cells
between the values where the answer changes (not a number, negative, zero, below 2^64, above)."""
import struct
import dom
from dom import C, S, Ptr, isc, cv, zext, sext, trunc, mk
from absint import Interp, State, AnalysisError
import models

LEVEL = 'proof'
FLOOR = 25
UNITS = []
E_OVERFLOW = -10009
DRIVER = r'''
#include "mgcore.h"
extern "C" {
double c_u64_dbl(uint64_t v) { return U64_DBL(v); }
uint64_t c_dbl_u64(double v) { return DBL_U64(v); }
int64_t c_u64_i64(uint64_t v) { return U64_i64(v); }
uint32_t c_u64_u32(uint64_t v) { return U64_U32(v); }
int32_t c_st_i32(size_t v) { return ST_I32(v); }
uint32_t c_st_u32(size_t v) { return ST_U32(v); }
uint32_t c_is_u32(int64_t v) { return IS_U32(v); }
}
'''
ASSUMPTIONS = ['64-bit build: size_t is 64 bits wide', 'rounding to nearest for whole numbers above 2^53']
WHERE = ('src/mg/core/core.h', 0)
M32, M63, M31 = (1 << 32) - 1, (1 << 63) - 1, (1 << 31) - 1
INTS = [('U64_i64', 'c_u64_i64', 64, M63), ('U64_U32', 'c_u64_u32', 32, M32), ('ST_I32', 'c_st_i32', 32, M31),
        ('ST_U32', 'c_st_u32', 32, M32), ('IS_U32', 'c_is_u32', 32, M31)]


def machine(cx, mod):
    A = cx.use(Interp(mod))
    models.install_exc(A)
    A.hook(r'mg::core::mgexceptionbase::mgexceptionbase\(int\)', lambda A, st, ins, args, nm: (
        st.ghost.__setitem__(('mgerr', A.canon(st, args[0].a[0])), args[1]), ())[1])
    return A


def number(A, o):
    if not (isinstance(o.val, tuple) and o.val and o.val[0].op == 'ptr'):
        return None
    n = o.st.ghost.get(('mgerr', A.canon(o.st, o.val[0].a[0])))
    k = None if n is None else o.st.facts.const(n)
    return None if k is None else dom.sgn(k, 32)


def run(A, fn, v):
    def mk():
        s = State()
        A.start(fn, [v], s)
        return s
    return [o for o in A.run(mk) if o.kind != 'end']


def fbits(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def check(cx):
    mod = cx.build(UNITS, DRIVER)
    for name, fn, w, top in INTS:
        # the argument in and out of the range of the result
        for lo, hi, ok in ((0, top, True), (top + 1, M63, False), (1 << 63, (1 << 64) - 1, False)):
            if lo > hi:
                continue
            A = machine(cx, mod)
            v = S((name, lo, hi), 64, lo, hi)
            outs = run(A, fn, v)
            cx.anchor(name, outs)
            inst = '%s %s' % (name, 'in range' if ok else 'too large' if hi == M63 else 'negative, or 2^63 and more')
            for o in outs:
                if ok:
                    cx.ob('same', inst, o.kind == 'ret', WHERE, '%s raises an error for a number it can represent' % name, 'C09|%s|raises' % name)
                    if o.kind == 'ret':
                        cx.ob('same', inst + ', value', o.st.facts.eq(zext(o.val, 64) if w < 64 else o.val, v), WHERE,
                              '%s changes the number' % name, 'C09|%s|value' % name)
                else:
                    cx.ob('overflow', inst, o.kind == 'throw' and number(A, o) == E_OVERFLOW, WHERE,
                          '%s does not raise the overflow error for a number that does not fit' % name, 'C09|%s|overflow' % name)
    # 64 bits to double: the nearest double, never an error
    A = machine(cx, mod)
    v = S(('n',), 64)
    outs = run(A, 'c_u64_dbl', v)
    cx.anchor('U64_DBL', outs)
    for o in outs:
        cx.ob('same', 'U64_DBL', o.kind == 'ret' and o.val.op == 'uitofp' and dom.same(o.val.a[0], v), WHERE,
              'U64_DBL does not give the double nearest to the number', 'C09|U64_DBL')
    # double to 64 bits, cell by cell
    x = S(('x',), 64)
    inf = float('inf')
    below = struct.unpack('<d', struct.pack('<Q', fbits(2.0 ** 64) - 1))[0]
    tiny = struct.unpack('<d', struct.pack('<Q', 1))[0]
    for inst, cell, ok in (('not a number', (inf, -inf, True), False), ('minus infinity', (-inf, -inf, False), False),
                           ('negative', (-1.7976931348623157e308, -tiny, False), False), ('zero', (0.0, 0.0, False), True),
                           ('up to 2^63', (tiny, 2.0 ** 63, False), True), ('up to 2^64', (2.0 ** 63, below, False), True),
                           ('2^64 and more', (2.0 ** 64, 1.7976931348623157e308, False), False), ('infinity', (inf, inf, False), False)):
        A = machine(cx, mod)
        A.fiv = {x: cell}
        outs = run(A, 'c_dbl_u64', x)
        cx.anchor('DBL_U64', outs)
        for o in outs:
            if ok:
                good = o.kind == 'ret' and (o.val.op == 'fptoui' and dom.same(o.val.a[0], x) or inst == 'zero' and isc(o.val) and cv(o.val) == 0)
                cx.ob('same', 'DBL_U64 ' + inst, good, WHERE, 'DBL_U64 does not give the whole part of the number', 'C09|DBL_U64|value')
            else:
                cx.ob('overflow', 'DBL_U64 ' + inst, o.kind == 'throw' and number(A, o) == E_OVERFLOW, WHERE,
                      'DBL_U64 does not raise the overflow error for what is no number of 64 bits', 'C09|DBL_U64|overflow')
