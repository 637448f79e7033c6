"""Floating point in the interpreter: exact folding of constants and intervals for the rest."""
import math, struct
import dom
from dom import C, mk, isc, cv, M

INF = float('inf')


def bits2f(n, w):
    return struct.unpack('<d', struct.pack('<Q', n))[0] if w == 64 else struct.unpack('<f', struct.pack('<I', n))[0]


def f2bits(x, w):
    if w == 64:
        return struct.unpack('<Q', struct.pack('<d', x))[0]
    try:
        return struct.unpack('<I', struct.pack('<f', x))[0]
    except OverflowError:
        return struct.unpack('<I', struct.pack('<f', INF if x > 0 else -INF))[0]


def lit(text, w):
    """constant of the textual IR: decimal, or hexadecimal bits of a double"""
    t = str(text)
    if w not in (32, 64):
        return None
    if t.startswith('0x') and len(t) > 2 and t[2] not in 'KLMHR':
        x = bits2f(int(t, 16), 64)
    else:
        try:
            x = float(t)
        except ValueError:
            return None
    return C(f2bits(x, w), w)


def binop(op, w, a, b):
    if isc(a) and isc(b) and w in (32, 64):
        x, y = bits2f(cv(a), w), bits2f(cv(b), w)
        try:
            if op == 'fadd':
                r = x + y
            elif op == 'fsub':
                r = x - y
            elif op == 'fmul':
                r = x * y
            elif op == 'fdiv':
                r = x / y if y else (float('nan') if x == 0 or x != x else math.copysign(INF, x) * math.copysign(1, y))
            else:
                r = math.fmod(x, y)
            return C(f2bits(r, w), w)
        except (OverflowError, ValueError):
            pass
    return mk(op, w, a, b)


def conv(op, w, x, facts):
    """conversions between integers and floats"""
    if op in ('sitofp', 'uitofp'):
        k = facts.const(x)
        if k is not None and w in (32, 64):
            return C(f2bits(float(dom.sgn(k, x.w) if op == 'sitofp' else k), w), w)
    elif op in ('fpext', 'fptrunc'):
        if isc(x) and x.w in (32, 64) and w in (32, 64):
            return C(f2bits(bits2f(cv(x), x.w), w), w)
    elif op in ('fptosi', 'fptoui') and isc(x) and x.w in (32, 64):
        v = bits2f(cv(x), x.w)
        if v == v and abs(v) != INF:
            n = int(v)
            lo, hi = (0, M(w)) if op == 'fptoui' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            if lo <= n <= hi:
                return C(n & M(w), w)
        return mk('fpoison', w, op, x)
    return mk(op, w, x)


def rng(t, facts, fiv):
    """(lo, hi, may be NaN)"""
    if isc(t) and t.w in (32, 64):
        v = bits2f(cv(t), t.w)
        return (v, v, False) if v == v else (INF, -INF, True)
    if t in fiv:
        return fiv[t]
    if t.op == 'uitofp':
        lo, hi = facts.ur(t.a[0])
        return float(lo), float(hi), False
    if t.op == 'sitofp':
        lo, hi = facts.sval(t.a[0]) if hasattr(facts, 'sval') else (-(2 ** 63), 2 ** 63)
        return float(lo), float(hi), False
    if t.op in ('fpext', 'fptrunc'):
        return rng(t.a[0], facts, fiv)
    if t.op in ('fadd', 'fsub', 'fmul', 'fdiv'):
        a, b = rng(t.a[0], facts, fiv), rng(t.a[1], facts, fiv)
        if a[0] > a[1] or b[0] > b[1] or a[2] or b[2]:
            return -INF, INF, True
        try:
            if t.op == 'fadd':
                r = [a[0] + b[0], a[1] + b[1]]
            elif t.op == 'fsub':
                r = [a[0] - b[1], a[1] - b[0]]
            elif t.op == 'fmul':
                r = [x * y for x in a[:2] for y in b[:2]]
            else:
                if b[0] <= 0 <= b[1]:
                    return -INF, INF, True
                r = [x / y for x in a[:2] for y in b[:2]]
        except (OverflowError, ZeroDivisionError):
            return -INF, INF, True
        if any(x != x for x in r):
            return -INF, INF, True
        return math.nextafter(min(r), -INF), math.nextafter(max(r), INF), False
    return -INF, INF, True


def cmp(pred, a, b, facts, fiv):
    """truth value of a comparison, or None"""
    if pred in ('true', 'false'):
        return pred == 'true'
    x, y = rng(a, facts, fiv), rng(b, facts, fiv)
    nan = x[2] or y[2]
    allnan = x[0] > x[1] or y[0] > y[1]
    if pred == 'ord':
        return False if allnan else (None if nan else True)
    if pred == 'uno':
        return True if allnan else (None if nan else False)
    un = pred[0] == 'u'
    if allnan:
        return un
    p = pred[1:]
    if p == 'lt':
        r = True if x[1] < y[0] else False if x[0] >= y[1] else None
    elif p == 'le':
        r = True if x[1] <= y[0] else False if x[0] > y[1] else None
    elif p == 'gt':
        r = True if x[0] > y[1] else False if x[1] <= y[0] else None
    elif p == 'ge':
        r = True if x[0] >= y[1] else False if x[1] < y[0] else None
    elif p in ('eq', 'ne'):
        r = True if x[0] == x[1] == y[0] == y[1] else False if x[1] < y[0] or y[1] < x[0] else None
        if p == 'ne' and r is not None:
            r = not r
    else:
        return None
    if nan and r is not None and r != un:
        return None
    return r
