"""Strings as sequences of pieces.

For rules about what text is produced: a string object refers to a shared list of pieces; constants are merged, numbers
are kept as terms. Pieces: ('c', text), ('n', term, digits or None) for a decimal number written with at least `digits`
digits, ('x', term, digits) for a hexadecimal one, ('t', format, fields) for a formatted time, ('s', region, offset) for
text held in memory, ('?', why). That the string class itself stores what it is given is decided by another rule."""
import re
import dom
import quot
from dom import C, S, Ptr, isc, cv, zext, sext

NS = r'mg::core::CstringT<char>::'


def key(A, st, p):
    r, o = A.to_ptr(st, p)
    return (A.canon(st, r), o)


def lst(A, st, p):
    k = key(A, st, p)
    l = st.ghost.get(('sh', k))
    if l is None:
        l = ('in', k)
        st.ghost[('sh', k)] = l
        st.ghost.setdefault(('sl', l), (('s', k[0], k[1]),))
    return l


def get(A, st, p):
    return st.ghost[('sl', lst(A, st, p))]


def new(A, st, p, pieces=()):
    l = ('l', st.fresh())
    st.ghost[('sh', key(A, st, p))] = l
    st.ghost[('sl', l)] = tuple(x for x in pieces if x != ('c', ''))


def share(A, st, p, q):
    st.ghost[('sh', key(A, st, p))] = lst(A, st, q)


def app(A, st, p, pieces):
    l = lst(A, st, p)
    out = list(st.ghost[('sl', l)])
    for x in pieces:
        if x[0] == 'c' and out and out[-1][0] == 'c':
            out[-1] = ('c', out[-1][1] + x[1])
        elif x != ('c', ''):
            out.append(x)
    st.ghost[('sl', l)] = tuple(out)


def ctext(A, st, p):
    """the constant C string p points to, or None"""
    q = A.to_ptr(st, p)
    if q is None or not isc(q[1]):
        return None
    reg = A.region(st, q[0])
    out = bytearray()
    for i in range(4096):
        b = A.read(st, reg, C(cv(q[1]) + i, 64), 1)
        if not isc(b):
            return None
        if cv(b) == 0:
            return out.decode('latin-1')
        out.append(cv(b))
    return None


def text(A, st, p):
    q = A.to_ptr(st, p)
    if q is None:
        return []
    s = ctext(A, st, p)
    if s is not None:
        return [('c', s)]
    b = st.ghost.get(('cstr', q[0]))
    if b is not None and isc(q[1]) and cv(q[1]) == 0:
        return list(st.ghost[('sl', b)])
    return [('s', q[0], q[1])]


FMT = re.compile(r'%(?:([-+ #]*)(0?)([0-9]*)(?:\.([0-9]+))?(hh|h|ll|l|j|z|t|)([diuxXcsf%]))')


def fmt(A, st, f, args):
    out, pos, args = [], 0, list(args)
    for m in FMT.finditer(f):
        if m.start() > pos:
            out.append(('c', f[pos:m.start()]))
        pos = m.end()
        fl, z, w, pr, ln, cvn = m.groups()
        if cvn == '%':
            out.append(('c', '%'))
            continue
        if not args:
            return out + [('?', 'an argument is missing')]
        v = args.pop(0)
        if cvn in 'diuxX':
            want = {'': 32, 'h': 32, 'hh': 32}.get(ln, 64)
            if v.w != want:
                return out + [('?', 'argument of another size')]
            v = v if want == 64 else sext(v, 64) if cvn in 'di' else zext(v, 64)
            if fl or (w and not z) or pr:
                if w and not z and not fl and not pr and w == '1':
                    pass
                else:
                    out.append(('?', 'padding'))
            out.append(('n' if cvn in 'diu' else 'x', v, int(w) if w else None))
        elif cvn == 's':
            out += text(A, st, v)
        elif cvn == 'c':
            out.append(('c', chr(cv(v) & 255)) if isc(v) else ('ch', v))
        else:
            out.append(('?', 'conversion'))
    if pos < len(f):
        out.append(('c', f[pos:]))
    return out


def install(A):
    h = A.hook

    def ctor0(A, st, ins, args, n):
        new(A, st, args[0])
        return ()

    def ctorc(A, st, ins, args, n):
        new(A, st, args[0], text(A, st, args[1]))
        return ()

    def copy(A, st, ins, args, n):
        share(A, st, args[0], args[1])
        return ()
    h(NS + r'CstringT\(\)', ctor0)
    h(NS + r'CstringT\(unsigned int\)', ctor0)
    h(NS + r'CstringT\(char const\*\)', ctorc)
    h(NS + r'CstringT\(mg::core::CstringT<char> const&\)', copy)
    h(NS + r'~CstringT\(\)', lambda A, st, ins, args, n: ())

    def assign(A, st, ins, args, n):
        share(A, st, args[1], args[2])
        share(A, st, args[0], args[2])
        return ()

    def assignc(A, st, ins, args, n):
        new(A, st, args[1], text(A, st, args[2]))
        share(A, st, args[0], args[1])
        return ()
    h(NS + r'operator=\(mg::core::CstringT<char> const&\)', assign)
    h(NS + r'operator=\(char const\*\)', assignc)

    def addn(signed):
        def f(A, st, ins, args, n):
            v = args[1]
            v = v if v.w == 64 else sext(v, 64) if signed else zext(v, 64)
            app(A, st, args[0], [('n', v, None)])
            return args[0]
        return f
    h(NS + r'operator\+=\((int|long)\)', addn(True))
    h(NS + r'operator\+=\((unsigned int|unsigned long)\)', addn(False))

    def addc(A, st, ins, args, n):
        app(A, st, args[0], text(A, st, args[1]))
        return args[0]
    h(NS + r'operator\+=\(char const\*\)', addc)

    def adds(A, st, ins, args, n):
        app(A, st, args[0], get(A, st, args[1]))
        return args[0]
    h(NS + r'operator\+=\(mg::core::CstringT<char> const&\)', adds)

    def append(A, st, ins, args, n):
        app(A, st, args[1], text(A, st, args[2]))
        share(A, st, args[0], args[1])
        return ()
    h(NS + r'append\(char const\*\)', append)

    def plus(A, st, ins, args, n):
        new(A, st, args[0], get(A, st, args[1]))
        app(A, st, args[0], text(A, st, args[2]) if 'char const*' in A.mod.demangle(n) else get(A, st, args[2]))
        return ()
    h(NS + r'operator\+\((char const\*|mg::core::CstringT<char>)\) const', plus)

    def plus2(A, st, ins, args, n):
        new(A, st, args[0], text(A, st, args[1]))
        app(A, st, args[0], get(A, st, args[2]))
        return ()
    h(r'mg::core::operator\+\(char const\*, mg::core::CstringT<char> const&\)', plus2)

    def clone(A, st, ins, args, n):
        new(A, st, args[0], get(A, st, args[1]))
        return ()
    h(NS + r'clone\(\) const', clone)

    def cstr(A, st, ins, args, n):
        l = lst(A, st, args[0])
        rid = ('cstr', l)
        st.ghost[('cstr', rid)] = l
        return Ptr(rid)
    h(NS + r'operator char\*\(\)(?: const)?', cstr)

    def form(A, st, ins, args, n):
        f = ctext(A, st, args[1])
        app(A, st, args[0], fmt(A, st, f, args[2:]) if f is not None else [('?', 'format')])
        return ()
    h(NS + r'append_format\(char const\*, \.\.\.\)', form)

    def getbuf(A, st, ins, args, n):
        rid = ('strbuf', st.fresh())
        st.ghost[('strbuf', rid)] = lst(A, st, args[0])
        r = A.region(st, rid).clone()
        r.size = dom.add(args[1], C(1, 64))
        st.mem[rid] = r
        if not isc(args[2]) or cv(args[2]):
            app(A, st, args[0], [('?', 'bytes')])
        return Ptr(rid)
    h(NS + r'GetBuffer\(unsigned long, bool\)', getbuf)

    def commit(A, st, ins, args, n):
        l = lst(A, st, args[0])
        p = st.ghost.pop(('pending', l), None)
        if p is not None and st.facts.eq(p[1], args[1]):
            app(A, st, args[0], [p[0]])
        else:
            app(A, st, args[0], [('?', 'bytes')])
        return ()
    h(NS + r'CommitBuffer\(unsigned long\)', commit)

    def clear(A, st, ins, args, n):
        st.ghost[('sl', lst(A, st, args[0]))] = ()
        return ()
    h(NS + r'Clear\(\)', clear)


def digits(st, t):
    """how many digits the number has on this path, when it is known (not negative, up to 6)"""
    f = st.facts
    b0, b1 = quot.bounds(st, t)
    for d in range(1, 7):
        lo, hi = (0 if d == 1 else 10 ** (d - 1)), 10 ** d - 1
        if b0 >= 0 and b1 <= hi or f.ule(t, C(hi, t.w)):
            if b0 >= lo:
                return d
            return d if f.ule(C(lo, t.w), t) else None
    return None


def normal(st, pieces):
    """zeros in front of a number become part of it: ('n', term, number of digits when known, at least)"""
    out = []
    for x in pieces:
        if x[0] == 'n':
            z = 0
            if out and out[-1][0] == 'c':
                s = out[-1][1]
                z = len(s) - len(s.rstrip('0'))
            t = x[1]
            d = digits(st, t)
            if d is not None:
                if x[2] is not None:
                    d = max(d, x[2])
                if z:
                    s = out[-1][1]
                    out[-1] = ('c', s[:len(s) - z])
                    if not out[-1][1]:
                        out.pop()
                out.append(('n', t, d + z))
            elif x[2] is not None and st.facts.ule(t, C(10 ** x[2] - 1, t.w)):
                out.append(('n', t, x[2]))
            else:
                out.append(('n', t, None))
        elif x[0] == 'c' and out and out[-1][0] == 'c':
            out[-1] = ('c', out[-1][1] + x[1])
        else:
            out.append(x)
    return out
