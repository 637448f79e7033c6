"""Abstract values: hash-consed value numbers with three cooperating views
   - affine forms modulo 2^w                    (lin)
   - unsigned/signed intervals                  (urange/srange)
   - per-bit GF(2)-affine provenance            (bits)
and a conjunction of linear inequalities (Facts) over integer-valued atoms,
closed by bounded Fourier-Motzkin elimination (polyhedra-style entailment).
"""
from math import gcd

_tab = {}


class T:
    __slots__ = ('op', 'w', 'a', 'id', '_bits')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, w, *a):
    k = (op, w, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.w = w
        t.a = a
        t.id = len(_tab)
        t._bits = None
        _tab[k] = t
    return t


def M(w):
    return (1 << w) - 1


def C(n, w):
    return mk('c', w, n & M(w))


def sgn(n, w):
    n &= M(w)
    return n - (1 << w) if n >> (w - 1) else n


SYMR = {}


def S(name, w, lo=None, hi=None):
    t = mk('s', w, name)
    if lo is not None or hi is not None:
        r = (0 if lo is None else lo, M(w) if hi is None else hi)
        if SYMR.get(t) != r:
            # ranges of terms over the symbol are no longer what they were
            SYMR[t] = r
            _ur.clear()
    return t


def Ptr(rid, off=None):
    return mk('ptr', 64, rid, off if off is not None else C(0, 64))


NULL = C(0, 64)


def isc(t):
    return t.op == 'c'


def cv(t):
    return t.a[0]


def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    o = t.op
    if o == 'c':
        return str(sgn(t.a[0], t.w)) if t.w > 1 else str(t.a[0])
    if o == 's':
        return str(t.a[0]) if not isinstance(t.a[0], tuple) else '<' + '.'.join(str(x) for x in t.a[0]) + '>'
    if d > 6:
        return '..'
    if o == 'lin':
        s = '+'.join('%s%s' % ('' if k == 1 else str(sgn(k, t.w)) + '*', show(x, d + 1)) for x, k in t.a[1])
        return '(%s%+d)' % (s, sgn(t.a[0], t.w)) if t.a[0] else '(%s)' % s
    if o == 'ptr':
        return '&%s[%s]' % (t.a[0], show(t.a[1], d + 1))
    return '%s%d(%s)' % (o, t.w, ','.join(show(x, d + 1) for x in t.a))


# ---- affine -----------------------------------------------------------------
def lin_parts(t):
    if t.op == 'c':
        return t.a[0], {}
    if t.op == 'lin':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mklin(c, d, w):
    m = M(w)
    c &= m
    items = tuple(sorted(((x, k & m) for x, k in d.items() if k & m), key=lambda p: p[0].id))
    if not items:
        return C(c, w)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk('lin', w, c, items)


def add(a, b):
    w = a.w
    if a.op == 'ptr' or b.op == 'ptr':
        if a.op == 'ptr' and b.op != 'ptr':
            return Ptr(a.a[0], add(a.a[1], b))
        if b.op == 'ptr' and a.op != 'ptr':
            return Ptr(b.a[0], add(b.a[1], a))
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    for x, k in db.items():
        da[x] = da.get(x, 0) + k
    return mklin(ca + cb, da, w)


def scale(a, k):
    c, d = lin_parts(a)
    return mklin(c * k, {x: v * k for x, v in d.items()}, a.w)


def neg(a):
    return scale(a, -1)


def sub(a, b):
    if a.op == 'ptr' and b.op == 'ptr' and a.a[0] == b.a[0]:
        return sub(a.a[1], b.a[1])
    if a.op == 'ptr' and b.op != 'ptr':
        return Ptr(a.a[0], sub(a.a[1], b))
    return add(a, neg(b)) if b.op != 'ptr' else add(p2i(a), neg(p2i(b)))


def p2i(a):
    """pointer as integer: base(region)+off"""
    if a.op == 'ptr':
        return add(mk('base', 64, a.a[0]), a.a[1])
    return a


def mul(a, b):
    if isc(a):
        return scale(b, cv(a))
    if isc(b):
        return scale(a, cv(b))
    if b.id < a.id:
        a, b = b, a
    return mk('mul', a.w, a, b)


# ---- casts ------------------------------------------------------------------
def zext(a, w):
    if a.w == w:
        return a
    if isc(a):
        return C(cv(a), w)
    if a.op == 'zext':
        return zext(a.a[0], w)
    return mk('zext', w, a)


def sext(a, w):
    if a.w == w:
        return a
    if isc(a):
        return C(sgn(cv(a), a.w), w)
    if a.op == 'sext':
        return sext(a.a[0], w)
    if a.op == 'zext':
        return zext(a.a[0], w)
    if a.op in ('lshr',) and isc(a.a[1]) and cv(a.a[1]) > 0:
        return zext(a, w)
    if a.op == 'and' and isc(a.a[1]) and not cv(a.a[1]) >> (a.w - 1):
        return zext(a, w)
    if a.op == 's' and srange(a)[0] >= 0:
        return zext(a, w)
    return mk('sext', w, a)


def trunc(a, w):
    if a.w == w:
        return a
    if isc(a):
        return C(cv(a), w)
    if a.op in ('zext', 'sext'):
        x = a.a[0]
        if x.w == w:
            return x
        if x.w > w:
            return trunc(x, w)
        return zext(x, w) if a.op == 'zext' else sext(x, w)
    if a.op == 'trunc':
        return trunc(a.a[0], w)
    if a.op == 'lin':
        r = C(a.a[0], w)
        for x, k in a.a[1]:
            r = add(r, scale(trunc(x, w), k))
        return r
    if a.op in ('and', 'or', 'xor'):
        return BIN[a.op](trunc(a.a[0], w), trunc(a.a[1], w))
    if a.op == 'ptr':
        a = p2i(a)
    if a.op == 'select':
        return select(a.a[0], trunc(a.a[1], w), trunc(a.a[2], w))
    return mk('trunc', w, a)


# ---- bit ops -----------------------------------------------------------------
def comm(a, b):
    if isc(a) or (not isc(b) and b.id < a.id):
        return b, a
    return a, b


def and_(a, b):
    a, b = comm(a, b)
    if a is b:
        return a
    w = a.w
    if isc(b):
        if isc(a):
            return C(cv(a) & cv(b), w)
        if cv(b) == 0:
            return b
        if cv(b) == M(w):
            return a
        if a.op == 'and' and isc(a.a[1]):
            return and_(a.a[0], C(cv(a.a[1]) & cv(b), w))
        hi = urange(a)[1]
        m = cv(b)
        if hi <= m and (m & (m + 1)) == 0:
            return a
        if a.op == 'lin' and (m & (m + 1)) == 0 and any(k & m == 0 for _, k in a.a[1]):
            # terms that are multiples of the mask's power of two do not reach the masked bits
            return and_(mklin(a.a[0] & m, {x: k for x, k in a.a[1] if k & m}, w), b)
        if a.op == 'lin' and (m & (m + 1)) == 0 and a.a[0] & ~m:
            return and_(mklin(a.a[0] & m, dict(a.a[1]), w), b)
    return mk('and', w, a, b)


def lin_exact(t):
    """the affine form, read over the integers with all coefficients taken as written, stays within the width"""
    lo = hi = t.a[0]
    for x, k in t.a[1]:
        l, h = urange(x)
        lo += k * l
        hi += k * h
    return hi <= M(t.w)


def or_(a, b):
    a, b = comm(a, b)
    if a is b:
        return a
    if isc(b):
        if isc(a):
            return C(cv(a) | cv(b), a.w)
        if cv(b) == 0:
            return a
        if cv(b) == M(a.w):
            return b
    return mk('or', a.w, a, b)


def xor_(a, b):
    a, b = comm(a, b)
    if a is b:
        return C(0, a.w)
    if isc(b):
        if isc(a):
            return C(cv(a) ^ cv(b), a.w)
        if cv(b) == 0:
            return a
        if a.op == 'xor' and isc(a.a[1]):
            return xor_(a.a[0], C(cv(a.a[1]) ^ cv(b), a.w))
        if a.w == 1 and a.op == 'cmp':
            return cmp(NEG[a.a[0]], a.a[1], a.a[2])
    return mk('xor', a.w, a, b)


def shl(a, b):
    if isc(b):
        if cv(b) >= a.w:
            return mk('poison', a.w, a, b)
        return scale(a, 1 << cv(b))
    return mk('shl', a.w, a, b)


def lshr(a, b):
    w = a.w
    if isc(b):
        k = cv(b)
        if k == 0:
            return a
        if k >= w:
            return mk('poison', w, a, b)
        if isc(a):
            return C(cv(a) >> k, w)
        if a.op == 'lshr' and isc(a.a[1]):
            return lshr(a.a[0], C(min(cv(a.a[1]) + k, w - 1), w)) if cv(a.a[1]) + k < w else C(0, w)
        if a.op == 'zext' and k >= a.a[0].w:
            return C(0, w)
        if urange(a)[1] >> k == 0:
            return C(0, w)
        if a.op == 'zext':
            return zext(lshr(a.a[0], C(k, a.a[0].w)), w)
        if a.op == 'lin' and all(c & M(k) == 0 for _, c in a.a[1]) and lin_exact(a):
            return mklin(a.a[0] >> k, {x: c >> k for x, c in a.a[1]}, w)
        if a.op == 'lin' and lin_exact(a):
            # what is below the divisor does not carry
            rest = mklin(a.a[0] & M(k), {x: c for x, c in a.a[1] if c & M(k)}, w)
            if any(c & M(k) == 0 for _, c in a.a[1]) and (rest.op == 'c' or (rest.op != 'lin' or lin_exact(rest)) and urange(rest)[1] <= M(k)):
                return mklin(a.a[0] >> k, {x: c >> k for x, c in a.a[1] if c & M(k) == 0}, w)
        if a.op == 'lin' and a.a[0] == 0 and len(a.a[1]) == 1 and a.a[1][0][1] == 1 << k:
            # (x << k) >> k
            x = a.a[1][0][0]
            if urange(x)[1] <= M(w - k):
                return x
    return mk('lshr', w, a, b)


def ashr(a, b):
    if isc(b):
        k = cv(b)
        if k == 0:
            return a
        if k >= a.w:
            return mk('poison', a.w, a, b)
        if isc(a):
            return C(sgn(cv(a), a.w) >> k, a.w)
        if urange(a)[1] <= M(a.w - 1):
            return lshr(a, b)
    return mk('ashr', a.w, a, b)


def udiv(a, b):
    if isc(b) and cv(b):
        if isc(a):
            return C(cv(a) // cv(b), a.w)
        if cv(b) == 1:
            return a
        if cv(b) & (cv(b) - 1) == 0:
            return lshr(a, C(cv(b).bit_length() - 1, a.w))
    return mk('udiv', a.w, a, b)


def urem(a, b):
    if isc(b) and cv(b):
        if isc(a):
            return C(cv(a) % cv(b), a.w)
        if cv(b) & (cv(b) - 1) == 0:
            return and_(a, C(cv(b) - 1, a.w))
    return mk('urem', a.w, a, b)


def sdiv(a, b):
    if isc(b) and cv(b):
        if isc(a):
            x, y = sgn(cv(a), a.w), sgn(cv(b), a.w)
            q = abs(x) // abs(y)
            return C(q if (x < 0) == (y < 0) else -q, a.w)
        if urange(a)[1] <= M(a.w - 1) and sgn(cv(b), a.w) > 0:
            return udiv(a, b)
    return mk('sdiv', a.w, a, b)


def srem(a, b):
    if isc(b) and cv(b):
        if isc(a):
            x, y = sgn(cv(a), a.w), sgn(cv(b), a.w)
            r = abs(x) % abs(y)
            return C(-r if x < 0 else r, a.w)
        if urange(a)[1] <= M(a.w - 1) and sgn(cv(b), a.w) > 0:
            return urem(a, b)
    return mk('srem', a.w, a, b)


BIN = {'add': add, 'sub': sub, 'mul': mul, 'and': and_, 'or': or_, 'xor': xor_, 'shl': shl, 'lshr': lshr,
       'ashr': ashr, 'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem}

NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt',
       'sgt': 'sle', 'sle': 'sgt'}
SWP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt',
       'sle': 'sge', 'sge': 'sle'}


def cmpc(p, x, y, w):
    if p[0] == 's':
        x, y = sgn(x, w), sgn(y, w)
    return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'gt': x > y, 'le': x <= y, 'ge': x >= y}[p if p in ('eq', 'ne') else p[1:]]


def cmp(p, a, b):
    if isc(a) and isc(b):
        return C(int(cmpc(p, cv(a), cv(b), a.w)), 1)
    if a is b:
        return C(int(p in ('eq', 'ule', 'uge', 'sle', 'sge')), 1)
    if isc(a) and not isc(b):
        a, b, p = b, a, SWP[p]
    if a.op == 'ptr' and b.op == 'ptr' and a.a[0] == b.a[0]:
        return cmp(p, a.a[1], b.a[1])
    if p in ('eq', 'ne') and not isc(b) and b.id < a.id:
        a, b = b, a
    if p in ('eq', 'ne') and isc(b):
        # zext(i1) == 0 / 1 etc
        if a.op == 'zext' and cv(b) <= M(a.a[0].w):
            return cmp(p, a.a[0], C(cv(b), a.a[0].w))
        if a.op == 'zext':
            return C(int(p == 'ne'), 1)
        if a.w == 1:
            return a if (p == 'eq') == (cv(b) == 1) else xor_(a, C(1, 1))
        if a.op == 'lin' and len(a.a[1]) == 1 and a.a[1][0][1] in (1, M(a.w)):
            x, k = a.a[1][0]
            v = (cv(b) - a.a[0]) * (1 if k == 1 else -1)
            return cmp(p, x, C(v, a.w))
        if a.op == 'sext' and sgn(cv(b), a.w) == sgn(cv(b), a.a[0].w):
            return cmp(p, a.a[0], C(cv(b), a.a[0].w))
    if a.op in ('zext', 'sext') and b.op == a.op and a.a[0].w == b.a[0].w and (p in ('eq', 'ne') or a.op == 'zext'):
        pp = p if p in ('eq', 'ne') else 'u' + p[1:]
        return cmp(pp, a.a[0], b.a[0])
    # unsigned range decides
    la, ha = urange(a)
    lb, hb = urange(b)
    if p in ('eq', 'ne') and (ha < lb or hb < la):
        return C(int(p == 'ne'), 1)
    if p == 'ult' or p == 'uge':
        if ha < lb:
            return C(int(p == 'ult'), 1)
        if la >= hb:
            return C(int(p == 'uge'), 1)
    if p == 'ugt' or p == 'ule':
        if la > hb:
            return C(int(p == 'ugt'), 1)
        if ha <= lb:
            return C(int(p == 'ule'), 1)
    if p[0] == 's':
        la, ha = srange(a)
        lb, hb = srange(b)
        if p in ('slt', 'sge'):
            if ha < lb:
                return C(int(p == 'slt'), 1)
            if la >= hb:
                return C(int(p == 'sge'), 1)
        else:
            if la > hb:
                return C(int(p == 'sgt'), 1)
            if ha <= lb:
                return C(int(p == 'sle'), 1)
    return mk('cmp', 1, p, a, b)


def select(c, a, b):
    if isc(c):
        return a if cv(c) else b
    if a is b:
        return a
    if a.w == 1 and isc(a) and isc(b):
        return c if cv(a) else xor_(c, C(1, 1))
    return mk('select', a.w, c, a, b)


# ---- structural ranges -------------------------------------------------------
_ur = {}


def urange(t):
    r = _ur.get(t)
    if r is None:
        r = _urange(t)
        if t.op not in ('s',):
            _ur[t] = r
    return r


def _urange(t):
    w = t.w
    full = (0, M(w))
    o = t.op
    if o == 'c':
        return (cv(t), cv(t))
    if o == 's':
        return SYMR.get(t, full)
    if o == 'zext':
        return urange(t.a[0])
    if o == 'trunc':
        r = urange(t.a[0])
        return r if r[1] <= M(w) else full
    if o == 'and':
        return (0, min(urange(t.a[0])[1], urange(t.a[1])[1]))
    if o == 'or':
        a, b = urange(t.a[0]), urange(t.a[1])
        n = max(a[1].bit_length(), b[1].bit_length())
        return (max(a[0], b[0]), min(M(w), (1 << n) - 1))
    if o == 'xor':
        a, b = urange(t.a[0]), urange(t.a[1])
        n = max(a[1].bit_length(), b[1].bit_length())
        return (0, min(M(w), (1 << n) - 1))
    if o == 'lshr' and isc(t.a[1]):
        a = urange(t.a[0])
        return (a[0] >> cv(t.a[1]), a[1] >> cv(t.a[1]))
    if o == 'lshr':
        return (0, urange(t.a[0])[1])
    if o == 'udiv':
        a, b = urange(t.a[0]), urange(t.a[1])
        if b[0] > 0:
            return (a[0] // b[1], a[1] // b[0])
        return (0, a[1])
    if o == 'urem':
        a, b = urange(t.a[0]), urange(t.a[1])
        return (0, min(a[1], max(b[1] - 1, 0)))
    if o == 'select':
        a, b = urange(t.a[1]), urange(t.a[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    if o == 'lin':
        for cc in ((t.a[0],) if not t.a[0] >> (w - 1) else (t.a[0], t.a[0] - (1 << w))):
            lo = hi = cc
            for x, k in t.a[1]:
                k = sgn(k, w) if k >> (w - 1) else k
                l, h = urange(x)
                if k >= 0:
                    lo += k * l
                    hi += k * h
                else:
                    lo += k * h
                    hi += k * l
            if lo >= 0 and hi <= M(w):
                return (lo, hi)
    return full


def srange(t):
    w = t.w
    if t.op == 'c':
        v = sgn(cv(t), w)
        return (v, v)
    lo, hi = urange(t)
    if hi <= M(w - 1):
        return (lo, hi)
    if lo >= 1 << (w - 1):
        return (lo - (1 << w), hi - (1 << w))
    if t.op == 'sext':
        return srange(t.a[0])
    if t.op == 'select':
        a, b = srange(t.a[1]), srange(t.a[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    if t.op == 'sdiv' and isc(t.a[1]):
        a = srange(t.a[0])
        k = sgn(cv(t.a[1]), w)
        if k > 0:
            q = lambda x: (abs(x) // k) * (1 if x >= 0 else -1)
            return (q(a[0]), q(a[1]))
    if t.op == 'srem' and isc(t.a[1]):
        k = abs(sgn(cv(t.a[1]), w))
        return (-(k - 1), k - 1)
    if t.op == 'ashr' and isc(t.a[1]):
        a = srange(t.a[0])
        return (a[0] >> cv(t.a[1]), a[1] >> cv(t.a[1]))
    if t.op == 'lin':
        lo = hi = sgn(t.a[0], w)
        for x, k in t.a[1]:
            k = sgn(k, w)
            l, h = srange(x)
            if k >= 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        if lo >= -(1 << (w - 1)) and hi <= M(w - 1):
            return (lo, hi)
    return (-(1 << (w - 1)), M(w - 1))


# ---- bit provenance ----------------------------------------------------------
B0 = frozenset()
B1 = frozenset([1])


def bxor(a, b):
    return a ^ b


def band(a, b):
    if not a or not b:
        return B0
    if a == B1:
        return b
    if b == B1:
        return a
    if a == b:
        return a
    if a == b ^ B1:
        return B0
    x, y = sorted((a, b), key=lambda s: sorted(map(str, s)))
    return frozenset([('&', x, y)])


def bor(a, b):
    return a ^ b ^ band(a, b)


def bits(t):
    if t._bits is None:
        t._bits = _bits(t)
    return t._bits


def frombits(bs):
    """the value with these bits (least significant first)"""
    if all(b == B0 or b == B1 for b in bs):
        return C(sum((b == B1) << i for i, b in enumerate(bs)), len(bs))
    return mk('bv', len(bs), tuple(bs))


def opaque(t):
    return [frozenset([(t.id, i)]) for i in range(t.w)]


def _bits(t):
    w = t.w
    o = t.op
    if o == 'c':
        return [B1 if (t.a[0] >> i) & 1 else B0 for i in range(w)]
    if o == 's':
        hi = urange(t)[1]
        n = hi.bit_length()
        return [frozenset([(t.id, i)]) if i < n else B0 for i in range(w)]
    if o == 'bv':
        return list(t.a[0])
    if o == 'zext':
        return bits(t.a[0]) + [B0] * (w - t.a[0].w)
    if o == 'sext':
        b = bits(t.a[0])
        return b + [b[-1]] * (w - len(b))
    if o == 'trunc':
        return bits(t.a[0])[:w]
    if o == 'and':
        return [band(x, y) for x, y in zip(bits(t.a[0]), bits(t.a[1]))]
    if o == 'or':
        return [bor(x, y) for x, y in zip(bits(t.a[0]), bits(t.a[1]))]
    if o == 'xor':
        return [x ^ y for x, y in zip(bits(t.a[0]), bits(t.a[1]))]
    if o == 'lshr' and isc(t.a[1]):
        b = bits(t.a[0])
        k = cv(t.a[1])
        return b[k:] + [B0] * k
    if o == 'ashr' and isc(t.a[1]):
        b = bits(t.a[0])
        k = cv(t.a[1])
        return b[k:] + [b[-1]] * k
    if o == 'lin':
        acc = None
        for x, k in list(t.a[1]) + [(C(t.a[0], w), 1)]:
            b = bits(x)
            if k == M(w):
                # -x for a single-bit x is sign replication
                if all(not y for y in b[1:]):
                    b = [b[0]] * w
                else:
                    acc = None
                    break
            elif k & (k - 1) == 0:
                s = k.bit_length() - 1
                b = [B0] * s + b[:w - s]
            else:
                acc = None
                break
            if acc is None:
                acc = b
            else:
                if all((not x1) or (not y1) for x1, y1 in zip(acc, b)):
                    acc = [x1 ^ y1 for x1, y1 in zip(acc, b)]
                else:
                    # carries: exact below the first overlap, opaque above
                    j = next(i for i, (x1, y1) in enumerate(zip(acc, b)) if x1 and y1)
                    op = opaque(t)
                    return [x1 ^ y1 for x1, y1 in list(zip(acc, b))[:j]] + op[j:]
        if acc is not None:
            return acc
        return opaque(t)
    if o == 'select':
        c = bits(t.a[0])[0]
        out = []
        ok = True
        for x, y in zip(bits(t.a[1]), bits(t.a[2])):
            d = x ^ y
            out.append(y ^ band(c, d))
        return out
    if o == 'cmp':
        p, a, b = t.a
        ba, bb = bits(a), bits(b)
        if p in ('eq', 'ne'):
            d = [x ^ y for x, y in zip(ba, bb)]
            nz = [x for x in d if x]
            if len(nz) == 0:
                return [B1 if p == 'eq' else B0]
            if any(x == B1 for x in nz):
                return [B0 if p == 'eq' else B1]
            if len(nz) == 1:
                return [nz[0] if p == 'ne' else nz[0] ^ B1]
        if p in ('slt', 'sge') and isc(b) and cv(b) == 0:
            s = ba[-1]
            return [s if p == 'slt' else s ^ B1]
        if p in ('sgt', 'sle') and isc(b) and cv(b) == M(a.w):
            s = ba[-1]
            return [s ^ B1 if p == 'sgt' else s]
    return opaque(t)


def same(a, b):
    """a and b denote the same value (value-number or bit-provenance equality)"""
    if a is b:
        return True
    if a.w != b.w or a.op == 'ptr' or b.op == 'ptr':
        return False
    return bits(a) == bits(b)


# ---- facts -------------------------------------------------------------------
class Facts:
    __slots__ = ('iv', 'bl', 'lin', 'cache', 'bad', 'red', 'sub')

    def __init__(self):
        self.iv = {}
        self.bl = {}
        self.lin = ()
        self.red = {}       # the inequalities after elimination of the equations: {coefficients: constant}
        self.sub = {}       # eliminated atom -> (constant, coefficients)
        self.cache = {}
        self.bad = False

    def copy(self):
        f = Facts.__new__(Facts)
        f.iv = dict(self.iv)
        f.bl = dict(self.bl)
        f.lin = self.lin
        f.red = self.red
        f.sub = self.sub
        f.cache = {}
        f.bad = self.bad
        return f

    # integer views: (const, {atom:coef}); atom is a term (unsigned value) or ('S',term)
    def ur(self, t):
        r = urange(t)
        s = self.iv.get(t)
        if s:
            r = (max(r[0], s[0]), min(r[1], s[1]))
        elif t.op == 'zext':
            return self.ur(t.a[0])
        return r

    def uval(self, t, depth=0):
        o = t.op
        if o == 'c':
            return (cv(t), {})
        if o == 'zext':
            return self.uval(t.a[0], depth)
        if o == 'ptr':
            c, d = self.uval(t.a[1], depth)
            d = dict(d)
            b = ('B', t.a[0])
            d[b] = d.get(b, 0) + 1
            return (c, d)
        if o == 'trunc' and self.ur(t.a[0])[1] <= M(t.w):
            return self.uval(t.a[0], depth)
        if o == 'trunc' and self.lin and depth < 3 and self.arange(t.a[0])[1] > M(t.w):
            e = self.uval(t.a[0], depth + 1)
            if self._within(e, 0, M(t.w), depth):
                return e
        if o == 'and' and isc(t.a[1]) and (cv(t.a[1]) & (cv(t.a[1]) + 1)) == 0:
            k = cv(t.a[1]).bit_length()
            c, d = self.uval(t.a[0], depth)
            q = lshr(t.a[0], C(k, t.w))
            d = dict(d)
            cq, dq = self.uval(q, depth)
            for x, kk in dq.items():
                d[x] = d.get(x, 0) - kk * (1 << k)
            return (c - cq * (1 << k), d)
        if o == 'urem' and isc(t.a[1]):
            k = cv(t.a[1])
            c, d = self.uval(t.a[0], depth)
            q = udiv(t.a[0], t.a[1])
            d = dict(d)
            d[q] = d.get(q, 0) - k
            return (c, d)
        if o == 'sext' and depth < 4:
            e = self.sval(t.a[0], depth + 1)
            if not (len(e[1]) == 1 and ('S', t.a[0]) in e[1]) and self._within(e, 0, M(t.a[0].w - 1), depth):
                return e
        if o == 'lin' and depth < 4:
            w = t.w
            consts = [sgn(t.a[0], w)] if t.a[0] >> (w - 1) else [t.a[0]]
            if t.a[0] >> (w - 1):
                consts.append(t.a[0])
            for cc in consts:
                c, d = cc, {}
                for x, k in t.a[1]:
                    k = sgn(k, w)
                    # (a number extended with its sign is congruent to what it was)
                    c2, d2 = self.sval(x.a[0], depth + 1) if x.op == 'sext' else self.uval(x, depth + 1)
                    c += k * c2
                    for y, k2 in d2.items():
                        d[y] = d.get(y, 0) + k * k2
                d = {x: k for x, k in d.items() if k}
                if self._within((c, d), 0, M(w), depth):
                    return (c, d)
            if any(x.op == 'trunc' for x, _ in t.a[1]):
                # congruent modulo 2^w with the truncated terms taken whole: equal when that is in range
                c, d = sgn(t.a[0], w), {}
                for x, k in t.a[1]:
                    k = sgn(k, w)
                    c2, d2 = self.uval(x.a[0] if x.op == 'trunc' else x, depth + 1)
                    c += k * c2
                    for y, k2 in d2.items():
                        d[y] = d.get(y, 0) + k * k2
                d = {x: k for x, k in d.items() if k}
                if self._within((c, d), 0, M(w), depth):
                    return (c, d)
            return (0, {t: 1})
        if o == 'or' and depth < 4 and urange(t)[1] <= M(t.w):
            pass
        return (0, {t: 1})

    def sval(self, t, depth=0):
        o = t.op
        w = t.w
        if o == 'c':
            return (sgn(cv(t), w), {})
        if self.ur(t)[1] <= M(w - 1):
            return self.uval(t, depth)
        if o == 'sext':
            return self.sval(t.a[0], depth)
        if o == 'lin' and depth < 4:
            c, d = sgn(t.a[0], w), {}
            for x, k in t.a[1]:
                k = sgn(k, w)
                c2, d2 = self.sval(x, depth + 1)
                c += k * c2
                for y, k2 in d2.items():
                    d[y] = d.get(y, 0) + k * k2
            d = {x: k for x, k in d.items() if k}
            if self._within((c, d), -(1 << (w - 1)), M(w - 1), depth):
                return (c, d)
        return (0, {('S', t): 1})

    def arange(self, x):
        if isinstance(x, tuple):
            if x[0] == 'B':
                return (4096, 1 << 47)
            r = srange(x[1])
            s = self.iv.get(x)
            if s:
                r = (max(r[0], s[0]), min(r[1], s[1]))
            return r
        return self.ur(x)

    def _bnd(self, e):
        lo = hi = e[0]
        for x, k in e[1].items():
            l, h = self.arange(x)
            if k > 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        return lo, hi

    def _within(self, e, lo, hi, depth):
        l, h = self._bnd(e)
        if l >= lo and h <= hi:
            return True
        key = ('w', e[0], frozenset(e[1].items()), lo, hi)
        r = self.cache.get(key)
        if r is None:
            ok1 = l >= lo or self.prove_ge0((e[0] - lo, e[1]))
            r = ok1 and (h <= hi or self.prove_ge0((hi - e[0], {x: -k for x, k in e[1].items()})))
            self.cache[key] = r
        return r

    def _side(self, atoms):
        """definitional constraints of structural atoms"""
        out = []
        seen = set()
        wl = list(atoms)
        while wl and len(seen) < 40:
            x = wl.pop()
            if x in seen:
                continue
            seen.add(x)
            if isinstance(x, tuple):
                continue
            if x.op in ('lshr', 'udiv') and isc(x.a[1]):
                k = (1 << cv(x.a[1])) if x.op == 'lshr' else cv(x.a[1])
                if k <= 0:
                    continue
                if x.a[0].op == 'lin':
                    c, d = self._raw(x.a[0])
                else:
                    c, d = self.uval(x.a[0], 2)
                if c is None:
                    continue
                # c+d - k*x >= 0 ; k*x + k-1 - (c+d) >= 0
                e1 = dict(d)
                e1[x] = e1.get(x, 0) - k
                e2 = {y: -v for y, v in d.items()}
                e2[x] = e2.get(x, 0) + k
                out.append((c, e1))
                out.append((k - 1 - c, e2))
                for y in d:
                    wl.append(y)
            elif x.op == 'and':
                for y in x.a:
                    c, d = self.uval(y, 2)
                    e = dict(d)
                    e[x] = e.get(x, 0) - 1
                    out.append((c, e))
                    wl.extend(d)
            elif x.op in ('umin', 'umax'):
                for y in x.a:
                    c, d = self.uval(y, 2)
                    sg = 1 if x.op == 'umin' else -1
                    e = {z: sg * v for z, v in d.items()}
                    e[x] = e.get(x, 0) - sg
                    out.append((sg * c, e))
                    wl.extend(d)
        return out

    def _raw(self, t):
        w = t.w
        c, d = (sgn(t.a[0], w), {})
        for x, k in t.a[1]:
            k = sgn(k, w)
            c2, d2 = self.uval(x, 3)
            c += k * c2
            for y, k2 in d2.items():
                d[y] = d.get(y, 0) + k * k2
        l, h = self._bnd((c, d))
        if l >= 0 and h <= M(w):
            return c, d
        key = ('raw', t)
        if key in self.cache:
            return self.cache[key]
        self.cache[key] = (None, None)
        if self.prove_ge0((c, d)) and self.prove_ge0((M(w) - c, {x: -k for x, k in d.items()})):
            self.cache[key] = (c, d)
        return self.cache[key]

    def prove_ge0(self, e, limit=400):
        """e >= 0 entailed?"""
        lo, hi = self._bnd(e)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        g = gcd(*e[1].values())
        if g > 1:
            e = (e[0] // g, {x: k // g for x, k in e[1].items()})
        key = ('p', e[0], frozenset(e[1].items()))
        r = self.cache.get(key)
        if r is not None:
            return r
        self.cache[key] = False
        negc = (-e[0] - 1, {x: -k for x, k in e[1].items()})
        r = self._infeasible([negc], limit)
        self.cache[key] = r
        return r

    def _sub(self, c, d):
        """the form with the eliminated atoms replaced, divided by its common factor"""
        if self.sub and any(x in self.sub for x in d):
            o = {}
            for x, k in d.items():
                e = self.sub.get(x)
                if e is None:
                    o[x] = o.get(x, 0) + k
                else:
                    c += k * e[0]
                    for y, v in e[1].items():
                        o[y] = o.get(y, 0) + k * v
            d = {x: k for x, k in o.items() if k}
        g = gcd(*d.values()) if d else 1
        if g > 1:
            return c // g, {x: k // g for x, k in d.items()}
        return c, d

    def _reduce_in(self, c, d):
        red = dict(self.red)
        todo = [(c, d)]
        while todo:
            c, d = self._sub(*todo.pop())
            if not d:
                if c < 0:
                    self.bad = True
                    return
                continue
            key = frozenset(d.items())
            o = red.get(key)
            if o is not None and o <= c:
                continue
            red[key] = c
            n = red.get(frozenset((x, -k) for x, k in d.items()))
            if n is None:
                continue
            if n + c < 0:
                self.bad = True
                return
            if n + c:
                continue
            x = max((x for x, k in d.items() if abs(k) == 1), key=lambda x: (0, 0) if isinstance(x, tuple) else (1, x.id), default=None)
            if x is None:
                continue
            # x = -(c + rest)/k
            k = d[x]
            e = (-c * k, {y: -v * k for y, v in d.items() if y != x})
            sub = {}
            self.sub = dict(self.sub)
            self.sub[x] = e
            for y, (c2, d2) in self.sub.items():
                v = d2.get(x)
                if y is not x and v:
                    d3 = dict(d2)
                    del d3[x]
                    for z, w in e[1].items():
                        d3[z] = d3.get(z, 0) + v * w
                    sub[y] = (c2 + v * e[0], {z: w for z, w in d3.items() if w})
                else:
                    sub[y] = (c2, d2)
            self.sub = sub
            keep = {}
            for k2, c2 in red.items():
                if any(y == x for y, _ in k2):
                    todo.append((c2, dict(k2)))
                else:
                    keep[k2] = c2
            red = keep
        self.red = red

    def _infeasible(self, extra, limit=400, used=None):
        atoms = set()
        cons = []
        for c, d in extra:
            c, d = self._sub(c, d)
            cons.append((c, d))
            atoms |= set(d)
        mine = set()
        changed = True
        side_done, gone = set(), set()
        rounds = 0
        while changed and rounds < 6:
            changed = False
            rounds += 1
            more = []
            for key, c in self.red.items():
                if key not in mine and any(x in atoms for x, _ in key):
                    mine.add(key)
                    more.append((c, dict(key)))
            for y, (c, d) in self.sub.items():
                if y not in gone and any(x in atoms for x in d):
                    gone.add(y)
                    lo, hi = self.arange(y)
                    more.append((c - lo, d))
                    more.append((hi - c, {x: -k for x, k in d.items()}))
            new = [x for x in atoms | gone if x not in side_done]
            side_done |= set(new)
            for c, d in self._side(new):
                c, d = self._sub(c, d)
                more.append((c, d))
            for c, d in more:
                cons.append((c, d))
                for x in d:
                    if x not in atoms:
                        atoms.add(x)
                        changed = True
            if len(atoms) > 24:
                break
        if used is not None:
            used |= mine
        for x in atoms:
            lo, hi = self.arange(x)
            cons.append((-lo, {x: 1}))
            cons.append((hi, {x: -1}))
        return fm(cons, limit)

    # ---- assume / decide
    def assume(self, t, val):
        """returns False when contradictory"""
        if self.bad:
            return False
        if t.op == 'c':
            if bool(cv(t)) != val:
                self.bad = True
            return not self.bad
        self.cache = {}
        if t.op == 'xor' and t.w == 1 and isc(t.a[1]):
            return self.assume(t.a[0], not val)
        if t.op == 'and' and t.w == 1 and val:
            return self.assume(t.a[0], True) and self.assume(t.a[1], True)
        if t.op == 'or' and t.w == 1 and not val:
            return self.assume(t.a[0], False) and self.assume(t.a[1], False)
        if t.op == 'select' and t.w == 1:
            c, a, b = t.a
            if isc(b) and not cv(b) and val:
                return self.assume(c, True) and self.assume(a, True)
            if isc(a) and cv(a) and not val:
                return self.assume(c, False) and self.assume(b, False)
        if t.op == 'trunc' and t.w == 1 and self.ur(t.a[0])[1] <= 1:
            self.iv[t.a[0]] = (int(val), int(val))
        self.bl[t] = val
        if t.op == 'cmp':
            p, a, b = t.a
            if not val:
                p = NEG[p]
            return self._assume_cmp(p, a, b)
        if t.op in ('s', 'lin') and t.w == 1:
            self.iv[t] = (int(val), int(val))
        return True

    def _setiv(self, x, lo, hi):
        l, h = self.arange(x)
        lo = max(lo, l)
        hi = min(hi, h)
        if lo > hi:
            self.bad = True
            return
        if (lo, hi) != (l, h):
            self.iv[x] = (lo, hi)
            if not isinstance(x, tuple):
                # propagate through zext/trunc views
                if x.op == 'zext':
                    self._setiv(x.a[0], lo, min(hi, M(x.a[0].w)))
                if x.op == 'sext' and hi <= M(x.a[0].w - 1):
                    self._setiv(x.a[0], lo, hi)

    def addlin(self, e):
        c, d = e
        d = {x: k for x, k in d.items() if k}
        if not d:
            if c < 0:
                self.bad = True
            return
        if len(d) == 1:
            (x, k), = d.items()
            if k > 0:
                # k x + c >= 0 -> x >= ceil(-c/k)
                self._setiv(x, -((c) // k), 1 << 200)
            else:
                self._setiv(x, -(1 << 200), c // (-k))
            return
        lo, hi = self._bnd((c, d))
        if lo >= 0:
            return
        if hi < 0:
            self.bad = True
            return
        self.lin = self.lin + ((c, d),)
        self._reduce_in(c, d)

    def _assume_cmp(self, p, a, b):
        if p in ('eq', 'ne') and (a.op == 'ptr' or b.op == 'ptr'):
            return True
        if p == 'eq':
            self._eqc(a, b)
            for u, v in ((a, b), (b, a)):
                if u.op == 'sext' and u.a[0].op == 'trunc' and same(u.a[0].a[0], v):
                    # equal to its own lower half, sign extended
                    n, (lo, hi) = u.a[0].w, self.ur(v)
                    if lo > M(n - 1) and hi < (1 << v.w) - (1 << (n - 1)):
                        self.bad = True
                    elif hi < (1 << v.w) - (1 << (n - 1)):
                        self._setiv(v, lo, M(n - 1))
        if p[0] == 's':
            ea, eb = self.sval(a), self.sval(b)
        else:
            ea, eb = self.uval(a), self.uval(b)
        d = dict(ea[1])
        for x, k in eb[1].items():
            d[x] = d.get(x, 0) - k
        e = (ea[0] - eb[0], d)  # a-b
        ne = (-e[0], {x: -k for x, k in d.items()})
        q = p if p in ('eq', 'ne') else p[1:]
        if q == 'eq':
            self.addlin(e)
            self.addlin(ne)
        elif q == 'ne':
            dd = {x: k for x, k in d.items() if k}
            if not dd:
                if e[0] == 0:
                    self.bad = True
            elif len(dd) == 1:
                (x, k), = dd.items()
                if k in (1, -1):
                    v = -e[0] * k
                    l, h = self.arange(x)
                    if v == l:
                        self._setiv(x, l + 1, h)
                    elif v == h:
                        self._setiv(x, l, h - 1)
            else:
                # what is at most and different is less
                lo, hi = self._bnd(e)
                if hi <= 0 or self.dcmp('ule', a, b) is True:
                    self.addlin((ne[0] - 1, ne[1]))
                elif lo >= 0 or self.dcmp('ule', b, a) is True:
                    self.addlin((e[0] - 1, e[1]))
                self.cache = {}
        elif q == 'ge':
            self.addlin(e)
        elif q == 'gt':
            self.addlin((e[0] - 1, e[1]))
        elif q == 'le':
            self.addlin(ne)
        elif q == 'lt':
            self.addlin((ne[0] - 1, ne[1]))
        # mixed signed facts: nonnegative signed lower bound makes the unsigned view bounded
        if p[0] == 's':
            for t in (a, b):
                k = ('S', t)
                if k in self.iv:
                    lo, hi = self.iv[k]
                    if lo >= 0:
                        self._setiv(t, lo, hi)
                    elif hi < 0:
                        self._setiv(t, lo + (1 << t.w), hi + (1 << t.w))
        return not self.bad

    def _eqc(self, a, b):
        if isc(b) and not isc(a):
            self._setiv(a, cv(b), cv(b))

    def decide(self, t):
        if t.op == 'c':
            return bool(cv(t))
        v = self.bl.get(t)
        if v is not None:
            return v
        if t.op == 'xor' and t.w == 1 and isc(t.a[1]):
            r = self.decide(t.a[0])
            return None if r is None else (not r if cv(t.a[1]) else r)
        if t.op == 'and' and t.w == 1:
            r, s = self.decide(t.a[0]), self.decide(t.a[1])
            if r is False or s is False:
                return False
            return True if r and s else None
        if t.op == 'or' and t.w == 1:
            r, s = self.decide(t.a[0]), self.decide(t.a[1])
            if r or s:
                return True
            return False if r is False and s is False else None
        if t.op == 'select' and t.w == 1:
            c = self.decide(t.a[0])
            if c is not None:
                return self.decide(t.a[1] if c else t.a[2])
        if t.op == 'trunc' and t.w == 1:
            r = self.ur(t.a[0])
            if r[0] == r[1]:
                return bool(r[0] & 1)
        if t.op == 's':
            r = self.ur(t)
            if r[0] == r[1]:
                return bool(r[0] & 1)
        if t.op == 'cmp':
            p, a, b = t.a
            nt = mk('cmp', 1, NEG[p], a, b)
            v = self.bl.get(nt)
            if v is not None:
                return not v
            r = self.dcmp(p, a, b)
            if r is not None:
                return r
        b = bits(t)[0]
        if b == B0:
            return False
        if b == B1:
            return True
        return None

    def dcmp(self, p, a, b):
        if a.op == 'ptr' or b.op == 'ptr':
            if not (a.op == 'ptr' and b.op == 'ptr' and a.a[0] == b.a[0]):
                return None
            a, b = a.a[1], b.a[1]
        if p[0] == 's':
            ea, eb = self.sval(a), self.sval(b)
        else:
            ea, eb = self.uval(a), self.uval(b)
        d = dict(ea[1])
        for x, k in eb[1].items():
            d[x] = d.get(x, 0) - k
        d = {x: k for x, k in d.items() if k}
        e = (ea[0] - eb[0], d)
        ne = (-e[0], {x: -k for x, k in d.items()})
        q = p if p in ('eq', 'ne') else p[1:]
        P = self.prove_ge0
        if q in ('eq', 'ne'):
            if not d:
                return (e[0] == 0) == (q == 'eq')
            if P((e[0] - 1, e[1])) or P((ne[0] - 1, ne[1])):
                return q == 'ne'
            if P(e) and P(ne):
                return q == 'eq'
            return None
        if q == 'ge':
            if P(e):
                return True
            if P((ne[0] - 1, ne[1])):
                return False
        elif q == 'lt':
            if P((ne[0] - 1, ne[1])):
                return True
            if P(e):
                return False
        elif q == 'gt':
            if P((e[0] - 1, e[1])):
                return True
            if P(ne):
                return False
        elif q == 'le':
            if P(ne):
                return True
            if P((e[0] - 1, e[1])):
                return False
        return None

    def contra(self):
        """the facts exclude each other"""
        if self.bad:
            return True
        n = len(self.lin)
        if self.cache.get('contra') == n:
            return False
        seen = set()
        for key, c in self.red.items():
            if key not in seen and self._infeasible([(c, dict(key))], used=seen):
                return True
        for y, (c, d) in self.sub.items():
            lo, hi = self.arange(y)
            if not d and not lo <= c <= hi or d and not self.red and (self._infeasible([(c - lo, d)]) or self._infeasible([(hi - c, {x: -k for x, k in d.items()})])):
                return True
        self.cache['contra'] = n
        return False

    def ule(self, a, b):
        return self.dcmp('ule', a, b) is True

    def ult(self, a, b):
        return self.dcmp('ult', a, b) is True

    def eq(self, a, b):
        return a is b or same(a, b) or self.dcmp('eq', a, b) is True

    def const(self, t):
        if isc(t):
            return cv(t)
        r = self.ur(t)
        if r[0] == r[1]:
            return r[0]
        return None


def fm(cons, limit):
    """True if the conjunction of  c + sum k x >= 0  is infeasible over the integers
    (sound: rational Fourier-Motzkin with gcd tightening; gives up -> False)."""
    cur = {}

    def norm(c, d):
        d = {x: k for x, k in d.items() if k}
        if not d:
            return ('const', c)
        g = 0
        for k in d.values():
            g = gcd(g, abs(k))
        if g > 1:
            d = {x: k // g for x, k in d.items()}
            c = c // g
        return (c, d)

    def put(s, c, d):
        r = norm(c, d)
        if r[0] == 'const':
            return r[1] >= 0
        key = frozenset(r[1].items())
        o = s.get(key)
        if o is None or r[0] < o:
            s[key] = r[0]
        return True

    for c, d in cons:
        if not put(cur, c, d):
            return True
    while True:
        # an equation eliminates a variable for nothing
        eq = None
        for key, c in cur.items():
            if len(key) > 1 or eq is None:
                o = cur.get(frozenset((x, -k) for x, k in key))
                if o is not None:
                    if o + c < 0:
                        return True
                    if o + c == 0:
                        m = min(((abs(k), len(key)) for x, k in key))
                        if eq is None or m < eq[0]:
                            eq = (m, key, c)
        if eq is not None:
            key, c = eq[1], eq[2]
            # the variable with the smallest coefficient, used least
            ks = [(x, k) for x, k in key if abs(k) == eq[0][0]]
            if len(ks) > 1:
                cn = {x: 0 for x, _ in ks}
                for k2 in cur:
                    for x, _ in k2:
                        if x in cn:
                            cn[x] += 1
                ks.sort(key=lambda p: cn[p[0]])
            x, k = ks[0]
            e = dict(key)
            if k < 0:
                e = {y: -v for y, v in e.items()}
                c = -c
                k = -k
            nxt = {}
            for k2, c2 in cur.items():
                d = dict(k2)
                a = d.get(x, 0)
                if a:
                    # k*(c2 + ..) - a*(c + ..)
                    d = {y: v * k for y, v in d.items()}
                    for y, v in e.items():
                        d[y] = d.get(y, 0) - a * v
                    if not put(nxt, c2 * k - a * c, d):
                        return True
                elif not put(nxt, c2, d):
                    return True
            cur = nxt
            continue
        cnt = {}
        for key in cur:
            for x, k in key:
                p, n = cnt.get(x, (0, 0))
                cnt[x] = (p + (k > 0), n + (k < 0))
        if not cnt:
            return False
        x = min(cnt, key=lambda v: cnt[v][0] * cnt[v][1])
        pos, ng, rest = [], [], {}
        for key, c in cur.items():
            d = dict(key)
            k = d.get(x, 0)
            if k > 0:
                pos.append((c, d, k))
            elif k < 0:
                ng.append((c, d, -k))
            else:
                rest[key] = c
        if len(pos) * len(ng) > 4 * limit:
            return False
        for c1, d1, k1 in pos:
            for c2, d2, k2 in ng:
                d = {}
                for y, k in d1.items():
                    if y != x:
                        d[y] = d.get(y, 0) + k * k2
                for y, k in d2.items():
                    if y != x:
                        d[y] = d.get(y, 0) + k * k1
                if not put(rest, c1 * k2 + c2 * k1, d):
                    return True
        cur = rest
        if len(cur) > limit:
            return False
