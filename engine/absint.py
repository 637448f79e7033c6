"""Trace-partitioned abstract interpreter over LLVM IR.

Abstract state: call frames, a region-based memory (write log over lazily named
initial contents), path facts (dom.Facts), an event trace and a ghost
dictionary owned by the rule.  Undecided branches split the partition; loops
that are not bounded by constants are widened: every cell the loop changes
becomes either  v0 + c*k  (k = iteration number) or an unknown, and one generic
iteration is analysed; the cell classes are demoted until they are inductive.
No program code is executed and no solver is involved.
"""
import re, itertools
import dom
import fp
from dom import T, C, S, Ptr, NULL, mk, M, isc, cv, sgn, zext, sext, trunc, Facts, BIN
from ir import IRError, Ty, IntTy, PTR, successors


class AnalysisError(Exception):
    pass


class PathEnd(Exception):
    def __init__(self, why):
        self.why = why


class Reg:
    __slots__ = ('rid', 'kind', 'size', 'layers', 'gen', 'bytes', 'alive', 'tag', 'ty')

    def __init__(self, rid, kind, size=None, bytes=False, tag=None):
        self.rid = rid
        self.kind = kind      # 'obj' (alloca/heap/global: distinct object) or 'sym'
        self.size = size
        self.layers = ()
        self.gen = 0
        self.bytes = bytes
        self.alive = True
        self.tag = tag
        self.ty = None

    def clone(self):
        r = Reg.__new__(Reg)
        for k in Reg.__slots__:
            setattr(r, k, getattr(self, k))
        return r


class Frame:
    __slots__ = ('fn', 'blk', 'ip', 'prev', 'env', 'allocas', 'call', 'loops', 'id', 'onret', 'ctx')

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.blk = self.blk
        f.ip = self.ip
        f.prev = self.prev
        f.env = dict(self.env)
        f.allocas = self.allocas
        f.call = self.call
        f.loops = dict(self.loops)
        f.id = self.id
        f.onret = self.onret
        f.ctx = self.ctx
        return f


class State:
    __slots__ = ('frames', 'mem', 'facts', 'trace', 'ghost', 'alias', 'caught', 'uid', 'exc', 'forks', 'note', 'inflight')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.facts = Facts()
        self.trace = None
        self.ghost = {}
        self.alias = {}
        self.caught = ()
        self.uid = 0
        self.exc = None
        self.forks = 0
        self.note = ()
        self.inflight = ()

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.trace = self.trace
        s.ghost = dict(self.ghost)
        s.alias = dict(self.alias)
        s.caught = self.caught
        s.uid = self.uid
        s.exc = self.exc
        s.forks = self.forks
        s.note = self.note
        s.inflight = self.inflight
        return s

    def ev(self, *e):
        self.trace = (e, self.trace)

    def events(self):
        out = []
        t = self.trace
        while t:
            out.append(t[0])
            t = t[1]
        out.reverse()
        return out

    def fresh(self):
        self.uid += 1
        return self.uid


class Outcome:
    def __init__(self, kind, st, val=None, why=None):
        self.kind = kind      # ret | throw | end
        self.st = st
        self.val = val
        self.why = why


OPAQUE = [r'(?:\w[\w ]* )?std::(?:__cxx11::)?basic_(?:string|ostream|istream|stringstream|ostringstream)\b.*',
          r'(?:.* )?std::(?:_Rb_tree|map|set|__detail|locale|ios_base|ctype|deque|_Deque)\b.*',
          r'.*std::operator<<.*',
          ]

CXX_NOTHROW = {'__cxa_free_exception', '__cxa_allocate_exception', '__cxa_begin_catch', '__cxa_end_catch',
               '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm'}


def boolish(t):
    """the condition an undecided value of 0 and 1 stands for"""
    while not isinstance(t, tuple) and t.op == 'zext':
        t = t.a[0]
    return t if not isinstance(t, tuple) and t.w == 1 and not isc(t) else None


class Interp:
    def __init__(self, mod, **opt):
        self.mod = mod
        self.hooks = []           # (regex compiled on demangled | mangled name, handler)
        self.hookcache = {}
        self.opaque = [re.compile(x) for x in OPAQUE]
        self.opcache = {}
        self.on_load = []
        self.on_store = []
        self.on_access = []
        self.on_branch = []
        self.max_states = opt.get('max_states', 40000)
        self.max_steps = opt.get('max_steps', 8000000)
        self.unroll = opt.get('unroll', 600)
        self.maxdepth = opt.get('maxdepth', 60)
        self.alloc_throws = opt.get('alloc_throws', False)
        self.ext_throws = opt.get('ext_throws', True)
        self.loopinfo = {}
        self.memo = {}
        self.tids = {}
        self.steps = 0
        self.nfuncs = set()
        self.ncalls = 0
        self.nstates = 0
        self.restarts = 0
        self.unknown = {}
        self.inited = {}
        self.fn_override = {}
        self._exitcap = {}
        self.nwiden = 0
        self.work = []
        self.reclimit = 4
        self.dirty = False
        self.fiv = {}             # intervals of floating point inputs
        self.ambs = {}
        self.vers = {}

    # ------------------------------------------------------------ utilities
    def hook(self, pat, fn):
        self.hooks.append((re.compile(pat), fn))
        self.hookcache = {}

    def find_hook(self, name):
        h = self.hookcache.get(name, 0)
        if h == 0:
            h = None
            d = self.mod.demangle(name)
            for r, f in self.hooks:
                if r.fullmatch(d) or r.fullmatch(name):
                    h = f
                    break
            self.hookcache[name] = h
        return h

    def is_opaque(self, name):
        o = self.opcache.get(name)
        if o is None:
            d = self.mod.demangle(name)
            o = any(r.fullmatch(d) for r in self.opaque)
            self.opcache[name] = o
        return o

    def loc(self, st, ins=None):
        """source location, preferring the innermost frame that lies in the repository"""
        for f in reversed(st.frames):
            i = ins if (ins is not None and f is st.frames[-1]) else self.cur(f)
            l = f.fn.loc(i) if i is not None else None
            if l and l[0] != '?' and '/usr/' not in l[0] and not l[0].endswith('driver.cpp') and '/c++/' not in l[0]:
                return l
        for f in reversed(st.frames):
            i = self.cur(f)
            l = f.fn.loc(i) if i is not None else None
            if l:
                return l
        return ('?', 0)

    def cur(self, f):
        b = f.fn.blocks[f.blk]
        i = min(max(f.ip - 1, 0), len(b.ins) - 1)
        return b.ins[i]

    def stack(self, st):
        return [self.mod.demangle(f.fn.name) for f in st.frames]

    # ------------------------------------------------------------ regions
    def region(self, st, rid):
        while rid in st.alias:
            rid = st.alias[rid]
        r = st.mem.get(rid)
        if r is None:
            k = rid[0] if isinstance(rid, tuple) else None
            if k == 'g':
                g = self.mod.glob(rid[1])
                r = Reg(rid, 'obj')
                if g and g[0] != 'alias':
                    try:
                        r.size = C(self.mod.sizeof(g[1]), 64)
                    except IRError:
                        pass
            else:
                r = Reg(rid, 'sym')
                tpl = self.region_template(st, rid)
                if tpl:
                    r.size = tpl.get('size')
                    r.bytes = tpl.get('bytes', False)
                    r.tag = tpl.get('tag')
            st.mem[rid] = r
        return r

    templates = None

    def region_template(self, st, rid):
        if self.templates:
            for f in self.templates:
                t = f(st, rid)
                if t:
                    return t
        return None

    def canon(self, st, rid):
        while rid in st.alias:
            rid = st.alias[rid]
        return rid

    def new_region(self, st, kind, name, size=None, bytes=False, tag=None):
        rid = (kind, st.fresh(), name)
        r = Reg(rid, 'obj', size, bytes, tag)
        st.mem[rid] = r
        return rid

    def to_ptr(self, st, t):
        """view a 64-bit term as (rid, off) or None"""
        if t.op == 'ptr':
            rid = self.canon(st, t.a[0])
            return rid, t.a[1]
        if t.op == 'c':
            return None
        if t.op == 'lin':
            cands = [x for x, k in t.a[1] if k == 1 and x.op in ('s', 'base', 'ld')]
            b = [x for x in cands if x.op == 'base'] or cands
            if b:
                x = b[0]
                rest = dom.sub(t, x)
                rid = x.a[0] if x.op == 'base' else ('p', x)
                return self.canon(st, rid), rest
            return None
        if t.op == 'base':
            return self.canon(st, t.a[0]), C(0, 64)
        return self.canon(st, ('p', t)), C(0, 64)

    # ------------------------------------------------------------ memory
    def extract(self, t, k, n):
        """bytes [k,k+n) of little-endian value t"""
        if k == 0 and n * 8 == t.w:
            return t
        if t.op == 'ptr':
            t = dom.p2i(t)
        x = dom.lshr(t, C(8 * k, t.w)) if k else t
        return trunc(x, 8 * n)

    def concat(self, parts):
        w = 8 * len(parts)
        r = None
        for i, p in enumerate(parts):
            x = zext(p, w)
            if i:
                x = dom.shl(x, C(8 * i, w))
            r = x if r is None else dom.add(r, x)
        return r

    def read(self, st, reg, off, n, isptr=False):
        t = self._read(st, reg, len(reg.layers), off, n, isptr)
        return t

    def _amb(self, reg, li, off, n, why):
        # the layers below decide what is read; they are kept alive, so their identities stay unique
        k = tuple(id(x) for x in reg.layers[:li + 1])
        v = self.vers.get(k)
        if v is None:
            v = self.vers[k] = (len(self.vers), reg.layers[:li + 1])
        t = S(('amb', reg.rid, reg.gen, v[0], off, n, why), 8 * n)
        self.ambs[t] = (reg, li, off)
        return t

    def read_cases(self, st, rid, off, limit=64):
        """the byte at a symbolic offset, by cases: list of (state, value), the states covering st"""
        return self.cases(st, self.read(st, self.region(st, rid), off, 1), limit)

    def cases(self, st, v, limit=64):
        """resolve a byte whose source the path left open"""
        work, out = [(st, v)], []
        while work:
            s, v = work.pop()
            if v not in self.ambs:
                out.append((s, v))
                continue
            if len(out) + len(work) > limit:
                raise AnalysisError('too many cases for the content of a region')
            reg, li, o = self.ambs[v]
            v2 = self._read(s, reg, li + 1, o, v.w // 8, False)
            if v2 is not v:
                work.append((s, v2))
                continue
            L = reg.layers[li]
            if isinstance(L, dict):
                rngs = [(C(co, 64), C(cn, 64)) for co, (cn, _) in L.items()]
            else:
                rngs = [(L[1], C(L[2], 64) if L[0] == 'w' else L[2])]
            n = 0
            for wo, wl in rngs:
                lo, hi = dom.cmp('ule', wo, o), dom.cmp('ult', o, dom.add(wo, wl))
                dl, dh = s.facts.decide(lo), s.facts.decide(hi)
                if dl is False or dh is False or (dl and dh):
                    continue
                for a, b in ((True, True), (True, False), (False, None)):
                    s2 = s.copy()
                    if self.assume(s2, lo, a) and (b is None or self.assume(s2, hi, b)) and not s2.facts.contra():
                        work.append((s2, v))
                n += 1
                break
            if not n:
                raise AnalysisError('content of a region cannot be split')
        return out

    def _read(self, st, reg, li, off, n, isptr):
        fc = st.facts
        o = fc.const(off)
        if o is not None:
            o = sgn(o, 64)
            off = C(o, 64)
        while li > 0:
            li -= 1
            L = reg.layers[li]
            if isinstance(L, dict):
                if o is not None:
                    c = L.get(o)
                    if c is not None and c[0] == n:
                        return c[1]
                    # partial?
                    if n == 1:
                        for b in range(0, 16):
                            c = L.get(o - b)
                            if c is not None and c[0] > b:
                                return self.extract(c[1], b, 1)
                        continue
                    hit = False
                    if n <= 64:
                        for b in range(-15, n):
                            c = L.get(o + b)
                            if c is not None and b + c[0] > 0:
                                hit = True
                                break
                    if not hit:
                        continue
                    # covering cell
                    for b in range(0, 16):
                        c = L.get(o - b)
                        if c is not None and c[0] >= b + n:
                            return self.extract(c[1], b, n)
                    parts = [self._read(st, reg, li + 1, C(o + i, 64), 1, False) for i in range(n)]
                    return self.concat(parts)
                bad = False
                for co, (cn, ct) in L.items():
                    cof = C(co, 64)
                    if fc.eq(off, cof) and cn == n:
                        return ct
                    if not self.disjoint(fc, off, n, cof, cn):
                        bad = True
                if bad:
                    return self._amb(reg, li, off, n, 'cells')
                continue
            k = L[0]
            if k == 'w':
                _, wo, wn, wv = L
                if wn == n and (wo is off or fc.eq(wo, off)):
                    return wv
                if self.disjoint(fc, off, n, wo, wn):
                    continue
                d = fc.const(dom.sub(off, wo))
                if d is not None:
                    d = sgn(d, 64)
                    if 0 <= d and d + n <= wn:
                        return self.extract(wv, d, n)
                    if n > 1:
                        return self.concat([self._read(st, reg, li + 1, dom.add(off, C(i, 64)), 1, False) for i in range(n)])
                return self._amb(reg, li, off, n, 'sym')
            if k in ('copy', 'set', 'havoc'):
                wo, wl = L[1], L[2]
                if wl is not None:
                    rel = dom.sub(off, wo)
                    inside = fc.dcmp('ule', dom.add(rel, C(n, 64)), wl) is True and self.nowrap(fc, rel, n, wl)
                    if not inside:
                        if self.disjoint2(fc, off, n, wo, wl):
                            continue
                        if n > 1 and fc.const(wl) is not None and o is not None:
                            return self.concat([self._read(st, reg, li + 1, C(o + i, 64), 1, False) for i in range(n)])
                        return self._amb(reg, li, off, n, k)
                else:
                    rel = off
                if k == 'copy':
                    return self._read(st, L[3], len(L[3].layers), dom.add(L[4], rel), n, isptr)
                if k == 'set':
                    return self.concat([L[3]] * n) if not isc(L[3]) else C(int.from_bytes(bytes([cv(L[3])]) * n, 'little'), 8 * n)
                if k == 'havoc':
                    return self.initial(st, reg, off, n, isptr, L[3])
        return self.initial(st, reg, off, n, isptr, reg.gen)

    def nowrap(self, fc, rel, n, wl):
        return fc.ule(rel, wl)

    def disjoint(self, fc, a, an, b, bn):
        d = fc.const(dom.sub(a, b))
        if d is not None:
            d = sgn(d, 64)
            return d >= bn or d <= -an
        if isc(a) and isc(b):
            return False
        ea, eb = fc.uval(a), fc.uval(b)
        dd = dict(ea[1])
        for x, k in eb[1].items():
            dd[x] = dd.get(x, 0) - k
        dd = {x: k for x, k in dd.items() if k}
        c = ea[0] - eb[0]
        if fc.prove_ge0((c - bn, dd)):
            return True
        return fc.prove_ge0((-c - an, {x: -k for x, k in dd.items()}))

    def disjoint2(self, fc, a, an, b, bl):
        """[a,a+an) vs [b,b+bl) with symbolic length"""
        z = fc.const(bl)
        if z == 0:
            return True
        ea, eb, el = fc.uval(a), fc.uval(b), fc.uval(bl)

        def lin(*parts):
            c, d = 0, {}
            for s, (cc, dd) in parts:
                c += s * cc
                for x, k in dd.items():
                    d[x] = d.get(x, 0) + s * k
            return c, {x: k for x, k in d.items() if k}
        c, d = lin((1, ea), (-1, eb), (-1, el))
        if fc.prove_ge0((c, d)):
            return True
        c, d = lin((1, eb), (-1, ea))
        return fc.prove_ge0((c - an, d))

    def initial(self, st, reg, off, n, isptr, gen):
        rid = reg.rid
        o = cv(off) if isc(off) else None
        if gen == 0 and isinstance(rid, tuple) and rid[0] == 'g':
            v = self.ginit(st, rid[1], off, n, isptr)
            if v is not None:
                return v
        if reg.bytes and n > 1:
            return self.concat([self.initial(st, reg, dom.add(off, C(i, 64)), 1, False, gen) for i in range(n)])
        key = (rid, gen, o if o is not None else off, n)
        m = self.memo.get(key)
        if m is not None:
            return m
        if reg.kind == 'obj' and gen == 0 and rid[0] in ('a', 'h'):
            v = S(('undef', rid, key[2], n), 8 * n)
        elif isptr:
            v = Ptr(('*', rid, gen, key[2]))
        else:
            v = S(('v', rid, gen, key[2], n), 8 * n)
        self.memo[key] = v
        return v

    def ginit(self, st, name, off, n, isptr):
        g = self.mod.glob(name)
        if not g or g[0] == 'alias' or g[2] is None:
            return None
        const, ty, init = g
        if not const and not self.inited.get(name, False):
            return None
        o = st.facts.const(off)
        if o is None:
            return self.gtable(st, name, ty, init, off, n)
        try:
            return self.gread(ty, init, sgn(o, 64), n)
        except IRError:
            return None

    def gtable(self, st, name, ty, init, off, n):
        """symbolic index into a constant table: uninterpreted, keyed by the index"""
        rt = self.mod.resolve(ty)
        if rt.k == 'arr':
            return mk('tab', 8 * n, name, off)
        return None

    def gread(self, ty, init, off, n):
        ty0 = ty
        ty = self.mod.resolve(ty)
        if init[0] == 'zero':
            return C(0, 8 * n)
        if init[0] == 'undef':
            return S(('undef', id(init), off, n), 8 * n)
        if ty.k in ('int', 'ptr', 'fp'):
            sz = self.mod.sizeof(ty)
            v = self.constv(init, ty)
            if off == 0 and n == sz:
                return zext(v, 8 * n) if v.w < 8 * n else v
            if off >= 0 and off + n <= sz:
                return self.extract(v, off, n)
            raise IRError('gread')
        if init[0] == 'cstr':
            b = init[1]
            if off + n <= len(b) and off >= 0:
                return C(int.from_bytes(b[off:off + n], 'little'), 8 * n)
            raise IRError('gread')
        if ty.k in ('arr', 'vec'):
            es = self.mod.sizeof(ty.a[1])
            i = off // es
            if i < 0 or i >= ty.a[0]:
                raise IRError('gread range')
            ety, ev = init[1][i]
            if off % es + n <= es:
                return self.gread(ety, ev, off % es, n)
            return self.concat([self.gread(ty0, init, off + j, 1) for j in range(n)])
        if ty.k == 'struct':
            offs, size, al = self.mod.layout(ty)
            for (ety, ev), eo in zip(init[1], offs):
                s = self.mod.sizeof(ety)
                if eo <= off and off + n <= eo + s:
                    return self.gread(ety, ev, off - eo, n)
            return C(0, 8 * n)
        raise IRError('gread type')

    def write(self, st, rid, off, n, val):
        reg = self.region(st, rid)
        r = reg.clone()
        o = st.facts.const(off)
        if o is not None:
            o = sgn(o, 64)
            if r.layers and isinstance(r.layers[-1], dict):
                top = dict(r.layers[-1])
                base = r.layers[:-1]
            else:
                top = {}
                base = r.layers
            # split overlapping cells
            for b in range(-15, n):
                c = top.get(o + b)
                if c is None or b + c[0] <= 0:
                    continue
                if b == 0 and c[0] == n:
                    continue
                del top[o + b]
                for i in range(c[0]):
                    p = o + b + i
                    if p < o or p >= o + n:
                        top[p] = (1, self.extract(c[1], i, 1))
            top[o] = (n, val)
            r.layers = base + (top,)
        else:
            r.layers = r.layers + (('w', off, n, val),)
            if len(r.layers) > 400:
                raise AnalysisError('write log too long')
        st.mem[reg.rid] = r

    def havoc(self, st, rid, off=None, length=None):
        reg = self.region(st, rid)
        r = reg.clone()
        g = st.fresh()
        if off is None:
            r.layers = ()
            r.gen = g
        else:
            r.layers = r.layers + (('havoc', off, length, g),)
        st.mem[reg.rid] = r

    def copy(self, st, drid, doff, srid, soff, ln):
        src = self.region(st, srid)
        d = self.region(st, drid)
        k = st.facts.const(ln)
        if k == 0:
            return
        so = st.facts.const(soff)
        do = st.facts.const(doff)
        if k is not None and k <= 256 and so is not None and do is not None and src.layers and \
                all(isinstance(L, dict) for L in src.layers) and len(src.layers) == 1:
            # cell-wise copy when the covered cells are whole; the rest through a snapshot layer
            L = src.layers[0]
            so, do = sgn(so, 64), sgn(do, 64)
            r = d.clone()
            snap = src.clone()
            snap.layers = ()
            r.layers = r.layers + (('copy', C(do, 64), C(k, 64), snap, C(so, 64)),)
            st.mem[d.rid] = r
            for co, (cn, ct) in sorted(L.items()):
                if co + cn <= so or co >= so + k:
                    continue
                if co >= so and co + cn <= so + k:
                    self.write(st, d.rid, C(do + co - so, 64), cn, ct)
                else:
                    for i in range(cn):
                        if so <= co + i < so + k:
                            self.write(st, d.rid, C(do + co + i - so, 64), 1, self.extract(ct, i, 1))
            return
        r = d.clone()
        r.layers = r.layers + (('copy', doff, ln, src, soff),)
        st.mem[d.rid] = r

    # typed access -------------------------------------------------------
    def deref(self, st, t, n, ins, rw):
        """check and resolve an access of n bytes (int or Term)"""
        p = self.to_ptr(st, t)
        if p is None:
            st.ev('nullderef', self.loc(st, ins), rw)
            raise PathEnd('null dereference')
        rid, off = p
        if self.isnull(st, rid):
            st.ev('nullderef', self.loc(st, ins), rw)
            raise PathEnd('null dereference')
        reg = self.region(st, rid)
        if not reg.alive:
            st.ev('uaf', self.loc(st, ins), rw, rid)
            raise PathEnd('use after free')
        for h in self.on_access:
            h(self, st, reg, off, n, rw, ins)
        return reg, off

    def isnull(self, st, rid):
        return st.facts.bl.get(mk('isnull', 1, rid)) is True

    def load(self, st, t, ty, ins=None, atomic=False):
        ty = self.mod.resolve(ty)
        n = self.mod.sizeof(ty)
        reg, off = self.deref(st, t, n, ins, 'r')
        if ty.k in ('struct', 'arr', 'vec'):
            if ty.k == 'struct':
                offs, _, _ = self.mod.layout(ty)
                return ('agg', [self.load(st, dom.add(t, C(o, 64)), e, ins) for e, o in zip(ty.a[0], offs)])
            es = self.mod.sizeof(ty.a[1])
            return ('agg', [self.load(st, dom.add(t, C(i * es, 64)), ty.a[1], ins) for i in range(ty.a[0])])
        v = self.read(st, reg, off, n, ty.k == 'ptr')
        if ty.k == 'int' and ty.a < 8 * n:
            v = trunc(v, ty.a)
        for h in self.on_load:
            v2 = h(self, st, reg, off, n, v, ins, atomic)
            if v2 is not None:
                v = v2
        return v

    def store(self, st, t, ty, v, ins=None, atomic=False):
        ty = self.mod.resolve(ty)
        n = self.mod.sizeof(ty)
        if isinstance(v, tuple):
            if ty.k == 'struct':
                offs, _, _ = self.mod.layout(ty)
                for e, o, x in zip(ty.a[0], offs, v[1]):
                    self.store(st, dom.add(t, C(o, 64)), e, x, ins)
            else:
                es = self.mod.sizeof(ty.a[1])
                for i, x in enumerate(v[1]):
                    self.store(st, dom.add(t, C(i * es, 64)), ty.a[1], x, ins)
            return
        reg, off = self.deref(st, t, n, ins, 'w')
        if v.w < 8 * n:
            v = zext(v, 8 * n)
        for h in self.on_store:
            h(self, st, reg, off, n, v, ins, atomic)
        self.write(st, reg.rid, off, n, v)

    # convenience for rules
    def peek(self, st, t, n=8, isptr=False):
        rid, off = self.to_ptr(st, t)
        return self.read(st, self.region(st, rid), off, n, isptr)

    def poke(self, st, t, n, v):
        rid, off = self.to_ptr(st, t)
        self.write(st, rid, off, n, v)

    # ------------------------------------------------------------ values
    def constv(self, v, ty):
        k = v[0]
        if k == 'i':
            return C(v[1], ty.a if ty.k == 'int' else 64)
        if k == 'null':
            return NULL
        if k == 'zero':
            rt = self.mod.resolve(ty)
            if rt.k in ('struct',):
                return ('agg', [self.constv(('zero',), e) for e in rt.a[0]])
            if rt.k == 'arr':
                return ('agg', [self.constv(('zero',), rt.a[1])] * rt.a[0])
            return C(0, 8 * self.mod.sizeof(rt) if rt.k != 'int' else rt.a)
        if k == 'undef':
            rt = self.mod.resolve(ty)
            if rt.k == 'struct':
                return ('agg', [self.constv(('undef',), e) for e in rt.a[0]])
            if rt.k == 'arr':
                return ('agg', [self.constv(('undef',), rt.a[1])] * rt.a[0])
            return mk('undef', rt.a if rt.k == 'int' else 8 * self.mod.sizeof(rt), 0)
        if k == 'f':
            w = 64 if ty.a == 'double' else 32 if ty.a == 'float' else 128
            return fp.lit(v[1], w) or mk('flt', w, v[1])
        if k == 'g':
            n = v[1]
            g = self.mod.glob(n)
            if g is not None:
                if g[0] == 'alias':
                    return self.constv(g[1][1], PTR)
                return Ptr(('g', n))
            return mk('fn', 64, n)
        if k == 'agg':
            rt = self.mod.resolve(ty)
            return ('agg', [self.constv(x, t) for t, x in v[1]])
        if k == 'ce':
            op = v[1]
            if op == 'gep':
                base = self.constv(v[3][0][1], PTR)
                return self.gep(v[2], base, [(t, self.constv(x, t)) for t, x in v[3][1:]])
            if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
                return self.constv(v[2][1], v[2][0])
            if op in ('trunc', 'zext', 'sext'):
                x = self.constv(v[2][1], v[2][0])
                return {'trunc': trunc, 'zext': zext, 'sext': sext}[op](x, v[3].a)
            a = self.constv(v[2][1], v[2][0])
            b = self.constv(v[3][1], v[3][0])
            return BIN[op](a, b)
        if k == 'cstr':
            return ('agg', [C(x, 8) for x in v[1]])
        raise AnalysisError('const %r' % (v,))

    def gep(self, bt, base, idx):
        off = C(0, 64)
        t = bt
        for j, (ty, v) in enumerate(idx):
            if v.w < 64:
                v = sext(v, 64)
            if j == 0:
                off = dom.add(off, dom.mul(v, C(self.mod.sizeof(t), 64)))
                continue
            t = self.mod.resolve(t)
            if t.k == 'struct':
                i = cv(v)
                offs, _, _ = self.mod.layout(t)
                off = dom.add(off, C(offs[i], 64))
                t = t.a[0][i]
            else:
                off = dom.add(off, dom.mul(v, C(self.mod.sizeof(t.a[1]), 64)))
                t = t.a[1]
        return dom.add(base, off)

    def val(self, st, v, ty):
        if v[0] == 'l':
            return st.frames[-1].env[v[1]]
        return self.constv(v, ty)

    # ------------------------------------------------------------ pointers
    def definite(self, rid):
        return isinstance(rid, tuple) and rid[0] in ('a', 'h', 'g')

    def pcmp(self, st, p, a, b):
        """compare 64-bit values where at least one is a pointer"""
        if a.op != 'ptr' and b.op == 'ptr':
            a, b = b, a
            p = dom.SWP[p]
        ra, oa = self.to_ptr(st, a)
        if b.op == 'c':
            if cv(b) == 0 and p in ('eq', 'ne', 'ugt', 'ule'):
                neg = p in ('ne', 'ugt')
                if self.definite(ra):
                    r = C(0, 1)
                elif isc(oa) and cv(oa) == 0:
                    r = mk('isnull', 1, ra)
                    if r in st.facts.bl:
                        r = C(int(st.facts.bl[r]), 1)
                else:
                    r = C(0, 1)
                return dom.xor_(r, C(1, 1)) if neg else r
            return mk('cmp', 1, p, a, b)
        if b.op in ('fn',):
            return mk('cmp', 1, p, a, b)
        pb = self.to_ptr(st, b)
        if pb is None:
            return mk('cmp', 1, p, a, b)
        rb, ob = pb
        if ra == rb:
            if p[0] == 'u' and not (isc(oa) and isc(ob)) and any(
                    x.op == 'lin' and not st.facts.ule(x, C((1 << 62) - 1, 64)) for x in (oa, ob)):
                # a place before the object: the addresses order as the offsets do, with their sign
                p = 's' + p[1:]
            return dom.cmp(p, oa, ob)
        if p in ('eq', 'ne'):
            na, nb = self.isnull(st, ra), self.isnull(st, rb)
            if na and nb:
                return C(int(p == 'eq'), 1)
            if na:
                return self.pcmp(st, p, b, NULL)
            if nb:
                return self.pcmp(st, p, a, NULL)
            da, db = self.definite(ra), self.definite(rb)
            if (da and db) or ((da or db) and 'g' not in (ra[0] if da else '', rb[0] if db else '')):
                return C(int(p == 'ne'), 1)
            x, y = sorted((Ptr(ra, oa), Ptr(rb, ob)), key=lambda t: t.id)
            t = mk('cmp', 1, 'eq', x, y)
            return t if p == 'eq' else dom.xor_(t, C(1, 1))
        if p[0] == 'u' and (self.definite(ra) or self.definite(rb)):
            # pointers into two different objects: only the order of the objects in memory decides
            up = p in ('ugt', 'uge')
            if repr(ra) > repr(rb):
                ra, rb, up = rb, ra, not up
            t = mk('above', 1, ra, rb)
            return t if up else dom.xor_(t, C(1, 1))
        return mk('cmp', 1, p, a, b)

    def assume(self, st, t, v):
        if not st.facts.assume(t, v):
            return False
        # pointer equality -> alias
        x, vv = t, v
        if x.op == 'xor' and isc(x.a[1]):
            x, vv = x.a[0], not vv
        if x.op == 'cmp' and x.a[0] in ('eq', 'ne') and x.a[1].op == 'ptr' and x.a[2].op == 'ptr':
            if (x.a[0] == 'eq') == vv and isc(x.a[1].a[1]) and isc(x.a[2].a[1]) and cv(x.a[1].a[1]) == 0 and cv(x.a[2].a[1]) == 0:
                ra, rb = self.canon(st, x.a[1].a[0]), self.canon(st, x.a[2].a[0])
                if ra != rb:
                    na, nb = self.isnull(st, ra), self.isnull(st, rb)
                    if na != nb:
                        na = True
                    if na or nb:
                        st.facts.bl[mk('isnull', 1, ra)] = True
                        st.facts.bl[mk('isnull', 1, rb)] = True
                    if self.definite(ra):
                        ra, rb = rb, ra
                    st.alias[ra] = rb
        return True

    # ------------------------------------------------------------ driver
    def start(self, fname, args, st=None):
        fn = self.mod.func(fname) if isinstance(fname, str) else fname
        st = st or State()
        self.push(st, fn, args, None)
        return st

    def push(self, st, fn, args, call, onret=None):
        f = Frame()
        f.fn = fn
        f.blk = None
        blocks = fn.blocks
        f.blk = fn.order[0]
        f.ip = 0
        f.prev = None
        f.env = {}
        f.allocas = ()
        f.call = call
        f.loops = {}
        f.onret = onret
        up = st.frames[-1] if st.frames else None
        f.ctx = (up.ctx if up else ()) + ((up.fn.name, up.blk, up.ip) if up else (),)
        f.id = st.fresh()
        for i, (ty, nm, attrs, byval) in enumerate(fn.params):
            if i < len(args):
                v = args[i]
                if byval is not None:
                    p = self.to_ptr(st, v)
                    if p:
                        sz = self.mod.sizeof(byval)
                        rid = self.new_region(st, 'a', 'byval', C(sz, 64))
                        self.copy(st, rid, C(0, 64), p[0], p[1], C(sz, 64))
                        v = Ptr(rid)
                f.env[nm] = v
        st.frames.append(f)
        self.nfuncs.add(fn.name)
        if sum(1 for g in st.frames if g.fn is fn) > self.reclimit:
            st.ev('recursion', fn.name)
            raise PathEnd('recursion')
        if len(st.frames) > self.maxdepth:
            raise AnalysisError('call depth: ' + ' > '.join(self.stack(st)[-6:]))

    def run(self, mkstate):
        """mkstate() -> State with a pushed frame.  Restarts until loop classes are inductive."""
        for r in range(30):
            self.dirty = False
            outs = self._run(mkstate())
            if not self.dirty:
                return outs
            self.restarts += 1
        raise AnalysisError('loop classes do not stabilise')

    def _run(self, st):
        work = [st]
        self.work = work
        outs = []
        n = 0
        while work:
            s = work.pop()
            n += 1
            self.nstates += 1
            if n > self.max_states:
                raise AnalysisError('too many partitions (%s)' % self.stack(s)[-1])
            try:
                self.exec(s, work, outs)
            except PathEnd as e:
                outs.append(Outcome('end', s, why=e.why))
        return outs

    def exec(self, st, work, outs):
        while True:
            if not st.frames:
                return
            self.steps += 1
            if self.steps > self.max_steps:
                raise AnalysisError('step limit in ' + self.stack(st)[-1])
            f = st.frames[-1]
            b = f.fn.blocks[f.blk]
            if f.ip >= len(b.ins):
                raise AnalysisError('fell off block')
            ins = b.ins[f.ip]
            f.ip += 1
            r = self.step(st, f, ins, work, outs)
            if r == 'dead':
                return
            if r == 'done':
                return

    def exitcap(self, fn, h):
        """blocks of loop h from which the loop can be left without passing the header again"""
        k = (fn.name, h)
        r = self._exitcap.get(k)
        if r is None:
            body = fn.loops()[h]
            r = set()
            ch = True
            while ch:
                ch = False
                for b in body:
                    if b in r:
                        continue
                    for s in successors(fn.blocks[b].ins[-1]):
                        if s not in body or (s != h and s in r):
                            r.add(b)
                            ch = True
                            break
            self._exitcap[k] = r
        return r

    def goto(self, st, f, target):
        frm = f.blk
        blk = f.fn.blocks[target]
        loops = f.fn.loops()
        if f.loops:
            for h in list(f.loops):
                rec = f.loops[h]
                if target not in loops[h]:
                    if rec[0] == 'b':
                        return False
                    del f.loops[h]
                elif rec[0] in 'ac' and target != h and target not in self.exitcap(f.fn, h):
                    return False
        if blk.phis:
            vals = []
            for ph in blk.phis:
                for v, l in ph.a:
                    if l == frm:
                        vals.append((ph.res, self.val(st, v, ph.ty)))
                        break
                else:
                    raise AnalysisError('phi without edge')
            for r, v in vals:
                f.env[r] = v
        f.prev = frm
        f.blk = target
        f.ip = 0
        if target in loops:
            return self.header(st, f, target, frm in loops[target])
        return True

    # ------------------------------------------------------------ loops
    # A loop instance is analysed as: the first iteration (exact), then
    #   (a) the exact state after it, followed to the exits only,
    #   (b) the widened state, followed through one generic iteration,
    #   (c) the state after that iteration, followed to the exits only.
    def cells(self, st, f, h):
        return {('phi', ph.res): f.env[ph.res] for ph in f.fn.blocks[h].phis}

    def header(self, st, f, h, back):
        rec = f.loops.get(h)
        if not back or rec is None:
            f.loops[h] = ('n', 0, self.cells(st, f, h), dict(st.mem), st.forks, 0)
            return True
        mode, n, c0, m0, fk, sym = rec
        ctx = (f.fn.name, h, f.ctx)
        if mode in 'ac':
            return False
        if mode == 'n':
            if st.forks == fk and n < self.unroll:
                f.loops[h] = ('n', n + 1, self.cells(st, f, h), dict(st.mem), st.forks, sym)
                return True
            if sym < self.symunroll(f, h):
                f.loops[h] = ('n', n + 1, self.cells(st, f, h), dict(st.mem), st.forks, sym + 1)
                return True
            info = self.loopinfo.setdefault(ctx, {})
            self.classify(st, f, h, c0, m0, info)
            s2 = st.copy()
            f2 = s2.frames[-1]
            f2.loops[h] = ('a', n + 1, None, None, 0, 0)
            self.work.append(s2)
            kk = S(('iter', ctx, st.fresh()), 64, 1, 1 << 40)
            self.widen(st, f, h, c0, m0, info, kk)
            self.nwiden += 1
            f.loops[h] = ('b', n + 1, self.cells(st, f, h), dict(st.mem), st.forks, 0)
            return True
        info = self.loopinfo.setdefault(ctx, {})
        self.classify(st, f, h, c0, m0, info)
        if self.dirty:
            return False
        f.loops[h] = ('c', n + 1, None, None, 0, 0)
        return True

    wide = False

    def zwiden(self, st, x, r):
        """the zero extension of a sum that does not wrap is the sum of the extensions"""
        c, d = st.facts.uval(x)
        if x in d or any(isinstance(y, tuple) for y in d):
            return r
        return dom.mklin(c & dom.M(64), {(zext(y, 64) if y.w < 64 else y): k & dom.M(64) for y, k in d.items()}, 64)

    def symunroll(self, f, h):
        return 0

    def classify(self, st, f, h, c0, m0, info):
        """compare cell values now with the snapshot; record / demote classes"""
        for ph in f.fn.blocks[h].phis:
            self.cls(st, info, ('phi', ph.res), c0[('phi', ph.res)], f.env[ph.res])
        for rid, reg in st.mem.items():
            old = m0.get(rid)
            if old is reg:
                continue
            if old is None:
                continue
            if old.layers is reg.layers and old.gen == reg.gen:
                if old.alive != reg.alive:
                    pass
                continue
            keys = self.changed(old, reg)
            if keys is None:
                self.demote(info, ('reg', rid), 'havoc')
                continue
            for (o, n) in keys:
                a = self.read(st, old, C(o, 64), n)
                b = self.read(st, reg, C(o, 64), n)
                self.cls(st, info, ('mem', rid, o, n), a, b)

    def changed(self, old, reg):
        if old.gen != reg.gen:
            return None
        i = 0
        while i < len(old.layers) and i < len(reg.layers) and old.layers[i] is reg.layers[i]:
            i += 1
        keys = set()
        for L in old.layers[i:]:
            if not isinstance(L, dict):
                return None
            for o, (n, t) in L.items():
                keys.add((o, n))
        for L in reg.layers[i:]:
            if not isinstance(L, dict):
                return None
            for o, (n, t) in L.items():
                keys.add((o, n))
        return keys

    def demote(self, info, key, cls):
        if info.get(key) != cls:
            info[key] = cls
            self.dirty = True

    def cls(self, st, info, key, a, b):
        cur = info.get(key)
        if cur == 'havoc':
            return
        if isinstance(a, tuple) or isinstance(b, tuple):
            if a != b:
                self.demote(info, key, 'havoc')
            return
        if a is b or (a.w == b.w and a.op != 'ptr' and b.op != 'ptr' and st.facts.eq(a, b)):
            d = 0
        elif a.w == b.w:
            dd = dom.sub(b, a) if (a.op != 'ptr' or b.op != 'ptr' or a.a[0] == b.a[0]) else None
            d = st.facts.const(dd) if dd is not None and dd.op != 'ptr' else None
            if d is not None:
                d = sgn(d, a.w)
        else:
            d = None
        if d is None:
            self.demote(info, key, 'havoc')
            return
        if cur is None:
            if d != 0:
                info[key] = d
                self.newcls = True
            else:
                info[key] = 0
            return
        if cur != d:
            self.demote(info, key, 'havoc')

    def widen(self, st, f, h, c0, m0, info, kk):
        for ph in f.fn.blocks[h].phis:
            key = ('phi', ph.res)
            c = info.get(key, 0)
            v0 = c0[key]
            if c == 0:
                continue
            if c == 'havoc':
                f.env[ph.res] = self.havocv(st, f.env[ph.res], ('lp', f.id, h, ph.res))
            else:
                f.env[ph.res] = self.affine(st, v0, c, kk)
        mems = {}
        for key, c in info.items():
            if key[0] == 'reg':
                if self.canon(st, key[1]) in st.mem:
                    self.havoc(st, key[1])
            elif key[0] == 'mem' and c != 0:
                rid, o, n = key[1:]
                if rid not in st.mem or ('reg', rid) in info:
                    continue
                old = m0.get(rid)
                a = self.read(st, old, C(o, 64), n) if old is not None else None
                cur = self.read(st, st.mem[rid], C(o, 64), n)
                if c == 'havoc' or a is None:
                    v = self.havocv(st, cur, ('lm', f.id, h, rid, o))
                else:
                    v = self.affine(st, a, c, kk)
                self.write(st, rid, C(o, 64), n, v)
        # the pre-loop value of affine cells bounds k implicitly through path facts

    def affine(self, st, a, c, kk):
        if a.op == 'ptr':
            return Ptr(a.a[0], dom.add(a.a[1], dom.scale(kk, c)))
        k = kk if a.w == 64 else trunc(kk, a.w) if a.w < 64 else zext(kk, a.w)
        if a.w < 64:
            k = self.narrowk(st, kk, a.w)
        return dom.add(a, dom.scale(k, c))

    def narrowk(self, st, kk, w):
        """iteration count as a w-bit value (the counter itself wraps with the variable)"""
        return S(('iterw', kk, w), w)

    def havocv(self, st, v, name):
        if isinstance(v, tuple):
            return ('agg', [self.havocv(st, x, name + (i,)) for i, x in enumerate(v[1])])
        u = st.fresh()
        if v.op == 'ptr':
            # same object, unknown offset is the common case; different objects -> unknown pointer
            return Ptr(('*', 'hv', u) + name)
        return S(('hv', u) + name, v.w)

    # ------------------------------------------------------------ stepping
    def fork(self, st, cond, work, f, tt, ft, ins):
        """split on an undecided i1"""
        s2 = st.copy()
        s2.forks += 1
        st.forks += 1
        ok2 = self.assume(s2, cond, False)
        ok1 = self.assume(st, cond, True)
        return s2, ok1, ok2

    def step(self, st, f, ins, work, outs):
        op = ins.op
        env = f.env
        mod = self.mod
        if op == 'br':
            a = ins.a
            if a[0] is None:
                return None if self.goto(st, f, a[1]) else 'dead'
            c = self.val(st, a[0], IntTy(1))
            d = st.facts.decide(c)
            for h in self.on_branch:
                h(self, st, c, d, ins)
            if d is None:
                if a[1] == a[2]:
                    return None if self.goto(st, f, a[1]) else 'dead'
                s2, ok1, ok2 = self.fork(st, c, work, f, a[1], a[2], ins)
                if ok2:
                    if self.goto(s2, s2.frames[-1], a[2]):
                        work.append(s2)
                if not ok1:
                    return 'dead'
                return None if self.goto(st, f, a[1]) else 'dead'
            return None if self.goto(st, f, a[1] if d else a[2]) else 'dead'
        if op == 'switch':
            (ty, v), dflt, cases = ins.a
            x = self.val(st, v, ty)
            k = st.facts.const(x)
            if k is not None:
                for n, l in cases:
                    if n & M(x.w) == k:
                        return None if self.goto(st, f, l) else 'dead'
                return None if self.goto(st, f, dflt) else 'dead'
            st.forks += 1
            for n, l in cases:
                t = dom.cmp('eq', x, C(n, x.w))
                if st.facts.decide(t) is False:
                    continue
                s2 = st.copy()
                if self.assume(s2, t, True):
                    if self.goto(s2, s2.frames[-1], l):
                        work.append(s2)
                if not self.assume(st, t, False):
                    return 'dead'
            return None if self.goto(st, f, dflt) else 'dead'
        if op in BIN:
            a = self.val(st, ins.a[0], ins.ty)
            b = self.val(st, ins.a[1], ins.ty)
            env[ins.res] = self.binop(st, op, a, b)
            return None
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            w = 8 * mod.sizeof(ins.ty)
            env[ins.res] = fp.binop(op, w, self.val(st, ins.a[0], ins.ty), self.val(st, ins.a[1], ins.ty))
            return None
        if op == 'fneg':
            env[ins.res] = mk(op, 8 * mod.sizeof(ins.ty), self.val(st, ins.a[0], ins.ty))
            return None
        if op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp',
                  'fpext', 'fptrunc', 'addrspacecast'):
            ty, v = ins.a
            x = self.val(st, v, ty)
            if op == 'trunc':
                r = trunc(x, ins.ty.a)
            elif op == 'zext':
                r = zext(x, ins.ty.a)
                if self.wide and x.op == 'lin' and ins.ty.a == 64:
                    r = self.zwiden(st, x, r)
            elif op == 'sext':
                r = sext(x, ins.ty.a)
            elif op in ('ptrtoint', 'inttoptr', 'addrspacecast'):
                r = x if x.w == 64 else x
                if op == 'ptrtoint' and ins.ty.a < 64:
                    r = trunc(x, ins.ty.a)
                if op == 'inttoptr' and x.w < 64:
                    r = zext(x, 64)
            elif op == 'bitcast':
                r = x
            else:
                w = ins.ty.a if ins.ty.k == 'int' else 8 * mod.sizeof(ins.ty)
                r = fp.conv(op, w, x, st.facts)
                if op in ('fptoui', 'fptosi'):
                    st.ev('fptoint', op, w, x, r, self.loc(st, ins))
            env[ins.res] = r
            return None
        if op == 'icmp':
            pred, ty, a, b = ins.a
            x, y = self.val(st, a, ty), self.val(st, b, ty)
            if pred in ('eq', 'ne') and boolish(x) is not None and boolish(y) is not None:
                # two conditions compared: one of them is decided first
                bx, by = boolish(x), boolish(y)
                d = st.facts.decide(bx)
                if d is None:
                    d = st.facts.decide(by)
                    if d is not None:
                        bx, by = by, bx
                same = by if pred == 'eq' else dom.xor_(by, C(1, 1))
                if d is None:
                    s2, ok1, ok2 = self.fork(st, bx, work, f, None, None, ins)
                    if ok2:
                        s2.frames[-1].env[ins.res] = dom.xor_(same, C(1, 1))
                        work.append(s2)
                    if not ok1:
                        return 'dead'
                    d = True
                env[ins.res] = same if d else dom.xor_(same, C(1, 1))
                return None
            env[ins.res] = self.icmp(st, pred, x, y)
            return None
        if op == 'fcmp':
            pred, ty, a, b = ins.a
            x, y = self.val(st, a, ty), self.val(st, b, ty)
            r = fp.cmp(pred, x, y, st.facts, self.fiv)
            env[ins.res] = C(int(r), 1) if r is not None else mk('fcmp', 1, pred, x, y)
            return None
        if op == 'select':
            (ct, c), (ta, a), (tb, b) = ins.a
            c = self.val(st, c, ct)
            x, y = self.val(st, a, ta), self.val(st, b, tb)
            d = st.facts.decide(c)
            if d is not None:
                env[ins.res] = x if d else y
            elif isinstance(x, tuple) or x.op == 'ptr' or y.op == 'ptr' or x.op == 'fn' or self.split_select(st, ins):
                s2, ok1, ok2 = self.fork(st, c, work, f, None, None, ins)
                if ok2:
                    s2.frames[-1].env[ins.res] = y
                    work.append(s2)
                if not ok1:
                    return 'dead'
                env[ins.res] = x
            else:
                env[ins.res] = dom.select(c, x, y)
            return None
        if op == 'alloca':
            ty, cnt = ins.a
            sz = C(mod.sizeof(ty), 64)
            if cnt is not None:
                k = self.val(st, cnt[1], cnt[0])
                sz = dom.mul(sz, zext(k, 64))
            rid = self.new_region(st, 'a', ins.res, sz)
            st.mem[rid].ty = ty
            f.allocas = f.allocas + (rid,)
            env[ins.res] = Ptr(rid)
            return None
        if op == 'load':
            v = self.load(st, self.val(st, ins.a[0], PTR), ins.ty, ins, bool(ins.a[1]))
            env[ins.res] = v
            return None
        if op == 'store':
            (ty, v), p, at = ins.a
            self.store(st, self.val(st, p, PTR), ty, self.val(st, v, ty), ins, bool(at))
            return None
        if op == 'getelementptr':
            bt, base, idx = ins.a
            b = self.val(st, base, PTR)
            env[ins.res] = self.gep(bt, b, [(t, self.val(st, v, t)) for t, v in idx])
            return None
        if op == 'extractvalue':
            (ty, v), _, idx = ins.a
            x = self.val(st, v, ty)
            for i in idx:
                x = x[1][i]
            env[ins.res] = x
            return None
        if op == 'insertvalue':
            (ty, v), (ety, ev), idx = ins.a
            x = self.val(st, v, ty)
            e = self.val(st, ev, ety)

            def put(a, ix):
                l = list(a[1])
                l[ix[0]] = e if len(ix) == 1 else put(l[ix[0]], ix[1:])
                return ('agg', l)
            env[ins.res] = put(x, idx)
            return None
        if op in ('call', 'invoke'):
            return self.call(st, f, ins, work, outs)
        if op == 'ret':
            v = None
            if ins.a is not None:
                v = self.val(st, ins.a[1], ins.a[0])
            return self.ret(st, v, outs)
        if op == 'resume':
            x = self.val(st, ins.a[1], ins.a[0])
            # continue unwinding the in-flight exception
            st.exc = st.inflight[-1] if st.inflight else (None, None)
            st.inflight = st.inflight[:-1]
            return self.unwind(st, outs, work, pop=True)
        if op == 'landingpad':
            return self.landingpad(st, f, ins, work)
        if op == 'unreachable':
            raise PathEnd('unreachable')
        if op == 'freeze':
            env[ins.res] = self.val(st, ins.a[0], ins.ty)
            return None
        if op == 'fence':
            return None
        if op == 'atomicrmw':
            o, p, (ty, v) = ins.a
            pt = self.val(st, p, PTR)
            old = self.load(st, pt, ty, ins, True)
            x = self.val(st, v, ty)
            new = {'xchg': lambda: x, 'add': lambda: dom.add(old, x), 'sub': lambda: dom.sub(old, x),
                   'and': lambda: dom.and_(old, x), 'or': lambda: dom.or_(old, x), 'xor': lambda: dom.xor_(old, x)}.get(o)
            if new is None:
                raise AnalysisError('atomicrmw ' + o)
            st.ev('rmw', pt, o, old, new(), self.loc(st, ins))
            self.store(st, pt, ty, new(), ins, True)
            env[ins.res] = old
            return None
        if op == 'cmpxchg':
            p, (ty, c), (_, nv) = ins.a
            pt = self.val(st, p, PTR)
            old = self.load(st, pt, ty, ins, True)
            c = self.val(st, c, ty)
            nv = self.val(st, nv, ty)
            eq = self.icmp(st, 'eq', old, c)
            d = st.facts.decide(eq)
            if d is None:
                s2, ok1, ok2 = self.fork(st, eq, work, f, None, None, ins)
                if ok2:
                    s2.frames[-1].env[ins.res] = ('agg', [old, C(0, 1)])
                    work.append(s2)
                if not ok1:
                    return 'dead'
                d = True
            if d:
                st.ev('rmw', pt, 'cas', old, nv, self.loc(st, ins))
                self.store(st, pt, ty, nv, ins, True)
            env[ins.res] = ('agg', [old, C(int(d), 1)])
            return None
        if op == 'va_arg':
            env[ins.res] = S(('va', st.fresh()), 64)
            return None
        raise AnalysisError('instruction ' + op)

    def split_select(self, st, ins):
        return False

    def binop(self, st, op, a, b):
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            kb = st.facts.const(b)
            if kb is not None and not isc(b):
                b = C(kb, b.w)
            if op in ('sdiv', 'srem') and st.facts.ur(a)[1] <= M(a.w - 1) and st.facts.ur(b)[1] <= M(b.w - 1):
                op = 'u' + op[1:]
        elif op in ('shl', 'lshr', 'ashr'):
            kb = st.facts.const(b)
            if kb is not None and not isc(b):
                b = C(kb, b.w)
            if op == 'ashr' and st.facts.ur(a)[1] <= M(a.w - 1):
                op = 'lshr'
        if op == 'mul':
            ka, kb = st.facts.const(a), st.facts.const(b)
            if ka is not None:
                a = C(ka, a.w)
            if kb is not None:
                b = C(kb, b.w)
        if op in ('and', 'or', 'xor', 'mul', 'udiv', 'urem', 'shl', 'lshr', 'ashr') and (a.op == 'ptr' or b.op == 'ptr'):
            a, b = dom.p2i(a), dom.p2i(b)
        return BIN[op](a, b)

    def icmp(self, st, pred, x, y):
        if x.op == 'ptr' or y.op == 'ptr':
            return self.pcmp(st, pred, x, y)
        if x.op == 'fn' or y.op == 'fn':
            if x is y:
                return C(int(pred == 'eq'), 1)
            o = y if x.op == 'fn' else x
            if o.op == 'fn' or (o.op == 'c'):
                return C(int(pred == 'ne'), 1)
            return mk('cmp', 1, pred, x, y)
        if x.w == 64 and y.op == 'c' and cv(y) == 0 and pred in ('eq', 'ne') and x.op == 'base':
            return C(int(pred == 'ne'), 1)
        return dom.cmp(pred, x, y)

    # ------------------------------------------------------------ return / unwind
    def popframe(self, st):
        f = st.frames.pop()
        for rid in f.allocas:
            r = st.mem.get(rid)
            if r is not None:
                r = r.clone()
                r.alive = False
                st.mem[rid] = r
        return f

    def ret(self, st, v, outs):
        f = self.popframe(st)
        if f.onret is not None:
            v = f.onret(self, st, v, f)
        if not st.frames:
            outs.append(Outcome('ret', st, v))
            return 'done'
        return self.finish(st, f.call, v)

    def finish(self, st, ins, v):
        """deliver a call's result in the current top frame"""
        if ins is None:
            return None
        f = st.frames[-1]
        if ins.res is not None:
            f.env[ins.res] = v
        if ins.op == 'invoke':
            return None if self.goto(st, f, ins.a['normal']) else 'dead'
        return None

    def throw(self, st, exc, ti, outs, work):
        if exc is not None and exc.op == 'ptr' and not self.definite(exc.a[0]):
            st.facts.bl[mk('isnull', 1, self.canon(st, exc.a[0]))] = False
        st.exc = (exc, ti)
        return self.unwind(st, outs, work, pop=False)

    def unwind(self, st, outs, work, pop):
        """propagate st.exc: starting in the top frame (pop=False: its current instruction threw)"""
        first = not pop
        while st.frames:
            f = st.frames[-1]
            if first:
                ins = self.cur(f)
                first = False
                tgt = ins.a['unwind'] if ins.op == 'invoke' else None
            else:
                g = self.popframe(st)
                if g.fn.nounwind:
                    st.ev('terminate', self.mod.demangle(g.fn.name))
                    raise PathEnd('terminate')
                if not st.frames:
                    outs.append(Outcome('throw', st, st.exc))
                    return 'done'
                f = st.frames[-1]
                ins = g.call
                if ins is None:
                    tgt = None
                else:
                    tgt = ins.a['unwind'] if ins.op == 'invoke' else None
            if tgt is not None:
                st.inflight = st.inflight + (st.exc,)
                st.exc = None
                return None if self.goto(st, f, tgt) else 'dead'
        outs.append(Outcome('throw', st, st.exc))
        return 'done'

    def typeid(self, name):
        if name not in self.tids:
            self.tids[name] = len(self.tids) + 1
        return C(self.tids[name], 32)

    def isbase(self, ti, base):
        """type_info ti derives from (or is) base; walks the type_info initialisers"""
        seen = set()
        wl = [ti]
        while wl:
            x = wl.pop()
            if x == base:
                return True
            if x in seen:
                continue
            seen.add(x)
            g = self.mod.glob(x)
            if not g or g[0] == 'alias' or g[2] is None or g[2][0] != 'agg':
                continue
            for ty, v in g[2][1][2:]:
                if v[0] == 'g':
                    wl.append(v[1])
        return False

    def landingpad(self, st, f, ins, work):
        cleanup, clauses = ins.a
        exc, ti = st.inflight[-1] if st.inflight else (NULL, None)
        ep = exc if exc is not None else NULL
        names = []
        for kind, v in clauses:
            if kind == 'filter':
                continue
            names.append(None if v[0] == 'null' else v[1] if v[0] == 'g' else None)
        choices = []
        known = ti is not None
        if known:
            for n in names:
                if n is None or self.isbase(ti, n):
                    choices.append(n if n is not None else '...')
                    break
            else:
                choices.append(0)
        else:
            for n in names:
                choices.append(n if n is not None else '...')
                if n is None:
                    break
            else:
                choices.append(0)
        first = True
        for c in choices[1:]:
            s2 = st.copy()
            s2.frames[-1].env[ins.res] = ('agg', [ep, C(0, 32) if c == 0 else self.typeid(c)])
            if c != 0 and c != '...':
                s2.ev('catch-unknown', c)
            work.append(s2)
        c = choices[0]
        f.env[ins.res] = ('agg', [ep, C(0, 32) if c == 0 else self.typeid(c)])
        return None

    # ------------------------------------------------------------ calls
    def call(self, st, f, ins, work, outs):
        a = ins.a
        cal = a['callee']
        args = [self.val(st, x[1], x[0]) if x[0].k != 'metadata' else None for x in a['args']]
        if a['asm']:
            if ins.res:
                f.env[ins.res] = self.freshv(st, ins.ty, 'asm')
            return self.after(st, ins)
        if cal[0] == 'g':
            name = cal[1]
            g = self.mod.glob(name)
            if g is not None and g[0] == 'alias':
                name = g[1][1][1]
            target = ('fn', name)
        else:
            t = self.val(st, cal, PTR)
            if t.op == 'fn':
                target = ('fn', t.a[0])
            else:
                target = ('ind', t)
        return self.invoke(st, f, ins, target, args, work, outs)

    def after(self, st, ins):
        if ins.op == 'invoke':
            return None if self.goto(st, st.frames[-1], ins.a['normal']) else 'dead'
        return None

    def invoke(self, st, f, ins, target, args, work, outs):
        self.ncalls += 1
        if target[0] == 'ind':
            h = self.icall
            r = h(st, f, ins, target[1], args, work, outs)
            return r
        name = target[1]
        if name.startswith('llvm.'):
            return self.intrinsic(st, f, ins, name, args)
        h = self.find_hook(name)
        if h is not None:
            r = h(self, st, ins, args, name)
            if r is not None:
                return self.results(st, f, ins, r, work, outs)
        m = MODELS.get(name)
        if m is not None:
            r = m(self, st, ins, args, name)
            if r is not None:
                return self.results(st, f, ins, r, work, outs)
        fn = self.mod.func(name)
        if fn is not None and fn.defined and not self.is_opaque(name):
            self.push(st, fn, args, ins)
            return None
        return self.external(st, f, ins, name, args, work, outs)

    def results(self, st, f, ins, r, work, outs):
        """r: list of alternatives (kind, state, value): kind ret|throw|dead|push.  A bare Term/None-marker is a return."""
        if isinstance(r, (T,)) or r == ():
            r = [('ret', st, None if r == () else r)]
        elif isinstance(r, tuple) and r and r[0] == 'agg':
            r = [('ret', st, r)]
        out = None
        mine = 'dead'
        for k, s, v in r:
            if k == 'ret':
                rr = self.finish(s, ins, v)
            elif k == 'throw':
                rr = self.throw(s, v[0], v[1], outs, work)
            elif k == 'push':
                self.push(s, v[0], v[1], ins, v[2] if len(v) > 2 else None)
                rr = None
            else:
                continue
            if rr in ('dead', 'done'):
                continue
            if s is st:
                mine = None
            else:
                work.append(s)
        return mine

    def freshv(self, st, ty, why):
        ty = self.mod.resolve(ty)
        if ty.k == 'void':
            return None
        u = st.fresh()
        if ty.k == 'ptr':
            return Ptr(('*', 'ret', why, u))
        if ty.k == 'struct':
            return ('agg', [self.freshv(st, e, why) for e in ty.a[0]])
        if ty.k in ('arr', 'vec'):
            return ('agg', [self.freshv(st, ty.a[1], why) for i in range(ty.a[0])])
        return S(('ret', why, u), ty.a if ty.k == 'int' else 8 * self.mod.sizeof(ty))

    def may_throw(self, name, ins):
        if 'nounwind' in ins.a['attrs'].split():
            return False
        fn = self.mod.func(name)
        if fn is not None and fn.nounwind:
            return False
        return name.startswith('_Z')

    def external(self, st, f, ins, name, args, work, outs):
        self.unknown[name] = self.unknown.get(name, 0) + 1
        v = self.freshv(st, ins.ty, name)
        st.ev('call', name, args, v, self.loc(st, ins))
        self.clobber(st, args, name)
        if self.ext_throws and self.may_throw(name, ins):
            s2 = st.copy()
            s2.ev('extthrow', name)
            r = self.throw(s2, Ptr(('*', 'exc', name, s2.fresh())), None, outs, work)
            if r not in ('dead', 'done'):
                work.append(s2)
        return self.results(st, f, ins, [('ret', st, v)], work, outs)

    def clobber(self, st, args, name):
        """contents of regions passed by pointer to unmodelled code become unknown"""
        for t in args:
            if isinstance(t, T) and t.op == 'ptr':
                rid = self.canon(st, t.a[0])
                if rid[0] == 'g':
                    g = self.mod.glob(rid[1])
                    if g and g[0] is True:
                        continue
                if self.isnull(st, rid):
                    continue
                self.havoc(st, rid)

    def icall(self, st, f, ins, t, args, work, outs):
        """call through an unresolved pointer: an event with an unknown result that may throw"""
        v = self.freshv(st, ins.ty, 'icall')
        st.ev('icall', t, args, v, self.loc(st, ins))
        if self.ext_throws and 'nounwind' not in ins.a['attrs'].split():
            s2 = st.copy()
            s2.ev('extthrow', 'icall')
            r = self.throw(s2, Ptr(('*', 'exc', 'icall', s2.fresh())), None, outs, work)
            if r not in ('dead', 'done'):
                work.append(s2)
        return self.results(st, f, ins, [('ret', st, v)], work, outs)

    def intrinsic(self, st, f, ins, name, args):
        env = f.env
        if name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.donothing', 'llvm.va_', 'llvm.stack',
                            'llvm.experimental.noalias')):
            if name.startswith(('llvm.va_start', 'llvm.va_end')):
                st.ev('va', name[8:11], args[0])
            if ins.res is not None:
                env[ins.res] = S(('intr', st.fresh()), 64)
            return self.after(st, ins)
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.memcpy(st, args[0], args[1], args[2], ins)
            return self.after(st, ins)
        if name.startswith('llvm.memset'):
            self.memset(st, args[0], args[1], args[2], ins)
            return self.after(st, ins)
        if name.startswith('llvm.eh.typeid.for'):
            v = ins.a['args'][0][1]
            env[ins.res] = self.typeid('...' if v[0] == 'null' else v[1])
            return self.after(st, ins)
        if name.startswith('llvm.umul.with.overflow'):
            a, b = args
            p = dom.mul(a, b)
            ka, kb = st.facts.ur(a)[1], st.facts.ur(b)[1]
            ov = C(0, 1) if ka * kb <= M(a.w) else mk('umulo', 1, a, b)
            env[ins.res] = ('agg', [p, ov])
            return self.after(st, ins)
        if name.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
            p = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[name[5:9]]
            env[ins.res] = dom.select(dom.cmp(p, args[0], args[1]), args[0], args[1])
            return self.after(st, ins)
        if name.startswith('llvm.bswap'):
            n = args[0].w // 8
            env[ins.res] = self.concat([self.extract(args[0], n - 1 - i, 1) for i in range(n)])
            return self.after(st, ins)
        if name.startswith(('llvm.fmuladd',)):
            env[ins.res] = mk('fmuladd', args[0].w, *args)
            return self.after(st, ins)
        if name.startswith(('llvm.type.test', 'llvm.public.type.test')):
            env[ins.res] = C(1, 1)
            return self.after(st, ins)
        if name.startswith('llvm.is.constant'):
            env[ins.res] = C(0, 1)
            return self.after(st, ins)
        if name.startswith(('llvm.expect',)):
            env[ins.res] = args[0]
            return self.after(st, ins)
        if name.startswith('llvm.trap'):
            st.ev('trap', self.loc(st, ins))
            raise PathEnd('trap')
        if name.startswith(('llvm.floor', 'llvm.ceil', 'llvm.fabs', 'llvm.rint', 'llvm.round', 'llvm.trunc', 'llvm.pow', 'llvm.sqrt')):
            env[ins.res] = mk(name.split('.')[1], args[0].w, *args)
            return self.after(st, ins)
        if name.startswith(('llvm.ctlz', 'llvm.cttz', 'llvm.ctpop')):
            env[ins.res] = mk(name.split('.')[1], args[0].w, args[0])
            return self.after(st, ins)
        raise AnalysisError('intrinsic ' + name)

    def memcpy(self, st, d, s, n, ins):
        if st.facts.const(n) == 0:
            return
        dr, do = self.deref(st, d, n, ins, 'w')
        sr, so = self.deref(st, s, n, ins, 'r')
        self.copy(st, dr.rid, do, sr.rid, so, n)
        if self.on_store:
            for h in self.on_store:
                h(self, st, dr, do, n, None, ins, False)

    def memset(self, st, d, v, n, ins):
        if st.facts.const(n) == 0:
            return
        dr, do = self.deref(st, d, n, ins, 'w')
        r = self.region(st, dr.rid).clone()
        r.layers = r.layers + (('set', do, n, trunc(v, 8)),)
        st.mem[dr.rid] = r
        if self.on_store:
            for h in self.on_store:
                h(self, st, dr, do, n, None, ins, False)

    # call a function from a rule/model context
    def fname(self, pat):
        l = self.mod.find(pat)
        if not l:
            raise AnalysisError('anchor vanished: ' + pat)
        return l


# ---------------------------------------------------------------- models
def m_new(A, st, ins, args, name):
    rid = A.new_region(st, 'h', 'new', zext(args[0], 64) if args[0].w < 64 else args[0])
    st.ev('new', rid, args[0], A.loc(st, ins))
    v = Ptr(rid)
    if A.alloc_throws:
        s2 = st.copy()
        s2.ev('badalloc')
        del s2.mem[rid]
        return [('throw', s2, (Ptr(('*', 'exc', 'bad_alloc', s2.fresh())), '_ZTISt9bad_alloc')), ('ret', st, v)]
    return v


def m_malloc(A, st, ins, args, name):
    rid = A.new_region(st, 'h', 'malloc', args[0])
    st.ev('new', rid, args[0], A.loc(st, ins))
    return Ptr(rid)


def m_free(A, st, ins, args, name):
    p = A.to_ptr(st, args[0])
    if p is None or A.isnull(st, p[0]):
        return ()
    rid, off = p
    reg = A.region(st, rid)
    st.ev('free', rid, off, A.loc(st, ins), name)
    if not reg.alive:
        st.ev('doublefree', A.loc(st, ins), rid)
        raise PathEnd('double free')
    r = reg.clone()
    r.alive = False
    st.mem[rid] = r
    return ()


def m_memcpy(A, st, ins, args, name):
    A.memcpy(st, args[0], args[1], args[2], ins)
    return args[0]


def m_memset(A, st, ins, args, name):
    A.memset(st, args[0], args[1], args[2], ins)
    return args[0]


def m_strlen(A, st, ins, args, name):
    p = A.to_ptr(st, args[0])
    if p is None or A.isnull(st, p[0]):
        st.ev('nullderef', A.loc(st, ins), 'r')
        raise PathEnd('strlen(null)')
    reg, off = A.deref(st, args[0], 1, ins, 'r')
    # constant string
    o = st.facts.const(off)
    if o is not None:
        for i in range(0, 4096):
            b = A.read(st, reg, C(o + i, 64), 1)
            if not isc(b):
                break
            if cv(b) == 0:
                return C(i, 64)
    t = A.strlen_sym(st, reg, off) if hasattr(A, 'strlen_sym') else None
    if t is not None:
        return t
    return S(('strlen', reg.rid, reg.gen, len(reg.layers), off), 64, 0, 1 << 40)


def m_alloc_exc(A, st, ins, args, name):
    rid = A.new_region(st, 'h', 'exc', args[0])
    return Ptr(rid)


def m_throw(A, st, ins, args, name):
    ti = args[1].a[0][1] if args[1].op == 'ptr' and args[1].a[0][0] == 'g' else None
    st.ev('throw', ti, args[0], A.loc(st, ins))
    return [('throw', st, (args[0], ti))]


def m_rethrow(A, st, ins, args, name):
    e = st.caught[-1] if st.caught else (NULL, None)
    st.ev('rethrow', A.loc(st, ins))
    return [('throw', st, e)]


def m_begin_catch(A, st, ins, args, name):
    e = st.inflight[-1] if st.inflight else (args[0], None)
    st.inflight = st.inflight[:-1]
    st.caught = st.caught + (e,)
    st.ev('catch', e, A.loc(st, ins))
    return args[0]


def m_end_catch(A, st, ins, args, name):
    st.caught = st.caught[:-1]
    return ()


def m_get_exc(A, st, ins, args, name):
    return args[0]


def m_terminate(A, st, ins, args, name):
    st.ev('terminate', A.loc(st, ins))
    raise PathEnd('terminate')


def m_abort(A, st, ins, args, name):
    st.ev('abort', A.loc(st, ins))
    raise PathEnd('abort')


def m_throw_std(exc):
    def m(A, st, ins, args, name):
        st.ev('throw', exc, None, A.loc(st, ins))
        return [('throw', st, (Ptr(('*', 'exc', exc, st.fresh())), exc))]
    return m


def m_pure(w=None):
    def m(A, st, ins, args, name):
        return A.freshv(st, ins.ty, name) if ins.ty.k != 'void' else ()
    return m


def m_memcmp(A, st, ins, args, name):
    k = st.facts.const(args[2])
    if k is not None and k <= 64:
        try:
            ra, oa = A.deref(st, args[0], k, ins, 'r')
            rb, ob = A.deref(st, args[1], k, ins, 'r')
        except TypeError:
            return None
        eq = True
        for i in range(k):
            x = A.read(st, ra, dom.add(oa, C(i, 64)), 1)
            y = A.read(st, rb, dom.add(ob, C(i, 64)), 1)
            if isc(x) and isc(y):
                if cv(x) != cv(y):
                    return C(1 if cv(x) > cv(y) else -1, 32)
            elif x is not y:
                eq = False
        if eq:
            return C(0, 32)
    return A.freshv(st, ins.ty, name)


MODELS = {
    '_Znwm': m_new, '_Znam': m_new, 'malloc': m_malloc, 'free': m_free,
    '_ZdlPv': m_free, '_ZdaPv': m_free, '_ZdlPvm': m_free, '_ZdaPvm': m_free,
    'memcpy': m_memcpy, 'memmove': m_memcpy, 'memset': m_memset, 'strlen': m_strlen, 'memcmp': m_memcmp,
    '__cxa_allocate_exception': m_alloc_exc, '__cxa_free_exception': lambda A, st, ins, args, n: (),
    '__cxa_throw': m_throw, '__cxa_rethrow': m_rethrow, '__cxa_begin_catch': m_begin_catch,
    '__cxa_end_catch': m_end_catch, '__cxa_get_exception_ptr': m_get_exc,
    '__clang_call_terminate': m_terminate, '_ZSt9terminatev': m_terminate, 'abort': m_abort,
    '__assert_fail': m_abort,
    '_ZSt25__throw_bad_function_callv': m_throw_std('_ZTISt17bad_function_call'),
    '_ZSt17__throw_bad_allocv': m_throw_std('_ZTISt9bad_alloc'),
    '_ZSt20__throw_length_errorPKc': m_throw_std('_ZTISt12length_error'),
    '_ZSt20__throw_out_of_rangePKc': m_throw_std('_ZTISt12out_of_range'),
    '_ZSt24__throw_out_of_range_fmtPKcz': m_throw_std('_ZTISt12out_of_range'),
    '_ZSt28__throw_bad_array_new_lengthv': m_throw_std('_ZTISt20bad_array_new_length'),
    '__cxa_guard_acquire': lambda A, st, ins, args, n: C(0, 32),
}
