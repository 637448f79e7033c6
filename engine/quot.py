"""Canonical form of integer arithmetic with divisions by constants.

An expression over +, -, * constant, / constant and % constant (truncating) becomes a linear combination of quotients
q(x, k) = trunc(x / k) of its atoms x: x % b = x - b q(x, b); q(q(x, a), b) = q(x, a b); q(x - k b y, b) for a remainder
splits exactly. Two expressions with the same form are equal wherever nothing overflows."""
import dom
from dom import C, isc, cv, sgn


class Form(dict):
    """{atom: coefficient}; the atom () stands for 1; an atom is (frozenset of a Form's items, divisor) or a term"""


def addf(a, b, k=1):
    r = Form(a)
    for x, c in b.items():
        r[x] = r.get(x, 0) + k * c
        if not r[x]:
            del r[x]
    return r


def freeze(f):
    return frozenset(f.items())


def div(f, k):
    """trunc(f / k)"""
    if k == 1:
        return f
    if not f:
        return f
    if set(f) == {()}:
        v = f[()]
        q = abs(v) // k
        q = q if v >= 0 else -q
        return Form({(): q}) if q else Form()
    # q(q(x, a), b)
    if len(f) == 1:
        (x, c), = f.items()
        if isinstance(x, tuple) and len(x) == 3 and x[0] == 'q' and c == 1:
            return Form({('q', x[1], x[2] * k): 1})
        if c == -1:
            return addf(Form(), div(Form({x: 1}), k), -1)
        if c % k == 0:
            return Form({x: c // k})
    # the quotient of a remainder: x - m q(x, m) with m a multiple of k; both parts have the sign of x
    r = rem_of(f)
    if r is not None:
        x, m = r
        if m % k == 0:
            return addf(div(x, k), div(x, m), -(m // k))
        if k % m == 0:
            return Form()
    if all(c % k == 0 for c in f.values()):
        return Form({x: c // k for x, c in f.items()})
    # a common factor of the expression and the divisor
    from math import gcd
    g = k
    for c in f.values():
        g = gcd(g, c)
    if g > 1:
        return div(Form({x: c // g for x, c in f.items()}), k // g)
    return Form({('q', freeze(f), k): 1})


def expand(x):
    """the Form an atom q stands on"""
    return Form(dict(x[1]))


def rem_of(f):
    """f = g - m q(g, m)  ->  (g, m)"""
    for x, c in f.items():
        if isinstance(x, tuple) and len(x) == 3 and x[0] == 'q' and c < 0:
            base, k = expand(x), x[2]
            rest = addf(f, Form({x: 1}), -c)
            # rest has to be a form g with q(g, -c) = x
            if div(rest, -c) == Form({x: 1}) if rest else False:
                return rest, -c
    return None


def form(st, t, depth=0):
    """Form of a 64/32-bit term, or None when it holds something else (then the term is an atom)"""
    if isc(t):
        v = sgn(cv(t), t.w)
        return Form({(): v}) if v else Form()
    if t.op == 'lin':
        c, d = dom.lin_parts(t)
        c = sgn(c, t.w)
        r = Form({(): c}) if c else Form()
        for x, k in d.items():
            k = sgn(k, t.w)
            y = form(st, x, depth + 1)
            r = addf(r, y, k)
        return r
    if t.op in ('sdiv', 'udiv', 'srem', 'urem') and isc(t.a[1]):
        k = sgn(cv(t.a[1]), t.w)
        if k > 0 and (t.op[0] == 's' or nonneg(st, t.a[0])):
            x = form(st, t.a[0], depth + 1)
            q = div(x, k)
            return q if t.op[1:] == 'div' else addf(x, q, -k)
    if t.op in ('zext', 'sext', 'trunc') and t.a and hasattr(t.a[0], 'op'):
        x = t.a[0]
        if t.op == 'sext' or t.op == 'zext' and nonneg(st, x) or t.op == 'trunc' and small(st, x, t.w):
            return form(st, x, depth + 1)
    return Form({t: 1})


def nonneg(st, t):
    return st.facts.ule(t, C((1 << (t.w - 1)) - 1, t.w)) or bounds(st, t)[0] >= 0


def small(st, t, w):
    lo, hi = bounds(st, t)
    return lo >= -(1 << (w - 1)) and hi < 1 << (w - 1) or st.facts.ule(t, C((1 << (w - 1)) - 1, t.w))


def equal(st, a, b):
    """a, b: terms or Forms"""
    fa = a if isinstance(a, Form) else form(st, a)
    fb = b if isinstance(b, Form) else form(st, b)
    return fa == fb


def declare(st, t, lo, hi):
    """assumed signed bounds of an atom (the caller has also put them into the facts)"""
    st.ghost[('bnd', t)] = (lo, hi)


def bounds(st, t, memo=None):
    """signed bounds of a term on this path"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    lo, hi = dom.srange(t)
    if isc(t):
        return lo, hi
    b = st.ghost.get(('bnd', t))
    if b:
        lo, hi = max(lo, b[0]), min(hi, b[1])
    if t.op == 'lin':
        c, d = dom.lin_parts(t)
        a = b = sgn(c, t.w)
        for x, k in d.items():
            k = sgn(k, t.w)
            x0, x1 = bounds(st, x, memo)
            a += min(k * x0, k * x1)
            b += max(k * x0, k * x1)
        lo, hi = max(lo, a), min(hi, b)
    elif t.op in ('sdiv', 'udiv', 'srem', 'urem') and isc(t.a[1]) and sgn(cv(t.a[1]), t.w) > 0:
        k = cv(t.a[1])
        x0, x1 = bounds(st, t.a[0], memo)
        if t.op[0] == 'u' and x0 < 0:
            return lo, hi
        if t.op.endswith('div'):
            q = lambda v: abs(v) // k * (1 if v >= 0 else -1)
            lo, hi = max(lo, q(x0)), min(hi, q(x1))
        else:
            lo, hi = max(lo, 0 if x0 >= 0 else -(k - 1), x0 if x0 > -k and x1 < k else lo), \
                min(hi, 0 if x1 <= 0 else k - 1, x1 if x0 > -k and x1 < k else hi)
    elif t.op in ('zext', 'sext', 'trunc') and t.a and hasattr(t.a[0], 'op'):
        x0, x1 = bounds(st, t.a[0], memo)
        h = 1 << (t.w - 1)
        if (t.op == 'sext' or t.op == 'zext' and x0 >= 0 or t.op == 'trunc' and x0 >= -h and x1 < h):
            lo, hi = max(lo, x0), min(hi, x1)
    if lo < 0 <= hi:
        if st.facts.ule(t, C((1 << (t.w - 1)) - 1, t.w)):
            lo = 0
        elif st.facts.ule(C(1 << (t.w - 1), t.w), t):
            hi = -1
    # comparisons decided on this path
    for c, v in st.facts.bl.items():
        if c.op == 'cmp' and c.a[0] in ('slt', 'sle', 'sgt', 'sge'):
            x, y = c.a[1:]
            if t is not x and t is not y or not isc(x if t is y else y):
                continue
            op = c.a[0] if t is x else {'slt': 'sgt', 'sle': 'sge', 'sgt': 'slt', 'sge': 'sle'}[c.a[0]]
            if not v:
                op = {'slt': 'sge', 'sle': 'sgt', 'sgt': 'sle', 'sge': 'slt'}[op]
            k = sgn(cv(y if t is x else x), t.w)
            if op in ('slt', 'sle'):
                hi = min(hi, k - (op == 'slt'))
            else:
                lo = max(lo, k + (op == 'sgt'))
    z = C(0, t.w)
    if lo == 0 <= hi and st.facts.decide(dom.cmp('eq', t, z)) is False:
        lo = 1
    elif hi == 0 >= lo and st.facts.decide(dom.cmp('eq', t, z)) is False:
        hi = -1
    memo[t] = (lo, hi)
    return lo, hi


def feasible(st):
    """False when a comparison taken on this path contradicts the bounds of what it compares"""
    memo = {}
    for c, v in st.facts.bl.items():
        if c.op == 'cmp':
            for x in c.a[1:]:
                lo, hi = bounds(st, x, memo)
                if lo > hi:
                    return False
    return True
