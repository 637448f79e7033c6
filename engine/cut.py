"""Loops cut by an invariant that is found, not given.

Every target of a retreating edge (reducible or not) of the functions concerned is a cut point: an arrival closes a
segment of the path there, and the analysis goes on from one generic state per cut point. The rule describes its own
bookkeeping (ghost) of a segment and a set of named candidate terms over it; which cell (phi or live value) equals which
candidate is inferred by elimination (Houdini): a relation is kept while every arrival satisfies it, and the analysis is
repeated until nothing is dropped. What fits no candidate is forgotten. So the result is an inductive invariant whatever
the variables are called and however the loop is written."""
import re
import dom
from dom import C, S, Ptr, isc, cv, zext, trunc
from absint import Interp, AnalysisError, Outcome


def _uses(x, acc):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'l' and isinstance(x[1], str):
            acc.add(x[1])
        else:
            for y in x:
                _uses(y, acc)
    elif isinstance(x, (list, set)):
        for y in x:
            _uses(y, acc)
    elif isinstance(x, dict):
        for y in x.values():
            _uses(y, acc)


def livein(fn):
    """block -> values live when it is entered (its phis' results not included)"""
    if hasattr(fn, '_livein'):
        return fn._livein
    from ir import successors
    use, dfn, pe = {}, {}, {}
    for b, blk in fn.blocks.items():
        u, d = set(), {p.res for p in blk.phis}
        for i in blk.ins:
            a = set()
            _uses(i.a, a)
            u |= a - d
            if i.res is not None:
                d.add(i.res)
        use[b], dfn[b] = u, d
        for p in blk.phis:
            for v, l in p.a:
                a = set()
                _uses(v, a)
                pe.setdefault((l, b), set()).update(a)
    live = {b: set(use[b]) for b in fn.blocks}
    ch = True
    while ch:
        ch = False
        for b, blk in fn.blocks.items():
            out = set()
            for s in successors(blk.ins[-1]):
                out |= (live[s] - {p.res for p in fn.blocks[s].phis}) | pe.get((b, s), set())
            n = use[b] | (out - dfn[b])
            if n != live[b]:
                live[b] = n
                ch = True
    fn._livein = {b: live[b] for b in live}
    return fn._livein


def liveat(fn, b, ip):
    """values that instructions from ip on of the block, or what follows it, may use"""
    from ir import successors
    ins = fn.blocks[b].ins
    live = set()
    for s in successors(ins[-1]):
        live |= livein(fn)[s] - {p.res for p in fn.blocks[s].phis}
        for p in fn.blocks[s].phis:
            for v, l in p.a:
                if l == b:
                    _uses(v, live)
    for i in reversed(ins[ip:]):
        live.discard(i.res)
        _uses(i.a, live)
    return live


class CutAt(Interp):
    cutpat = None            # which functions (demangled name)
    named = False            # a candidate is used rather than the value it equals
    handled = ()             # regions the rule looks after itself
    slopes = ()              # a value may grow by so much whenever the candidate 'k' grows by one

    def __init__(self, mod, **opt):
        Interp.__init__(self, mod, **opt)
        self.rel = {}
        self.hm = {}
        self.done = set()
        self.problems = []
        self.ncut = set()

    # ---- to be given by the rule
    def segment(self, st, key):
        """close the segment that ends here: update the ghost, report problems; the phase (hashable), or None to stop"""
        raise NotImplementedError

    def candidates(self, st):
        """name -> term, over the ghost"""
        raise NotImplementedError

    def generic(self, st, key, phase):
        """turn st into an arbitrary state of this cut point: new ghost, new facts; False if there is none"""
        raise NotImplementedError

    # ----
    def problem(self, what, where):
        self.problems.append((what, where))

    def _run(self, st):
        self.done = set()
        self.snap = {}
        self.problems = []
        return Interp._run(self, st)

    def iscut(self, fn):
        r = getattr(fn, '_iscut', None)
        if r is None or r[0] is not self.cutpat:
            r = fn._iscut = (self.cutpat, bool(re.fullmatch(self.cutpat, self.mod.demangle(fn.name))))
        return r[1]

    def goto(self, st, f, target):
        if not self.iscut(f.fn):
            return Interp.goto(self, st, f, target)
        blk = f.fn.blocks[target]
        if blk.phis:
            vals = []
            for ph in blk.phis:
                for v, l in ph.a:
                    if l == f.blk:
                        vals.append((ph.res, self.val(st, v, ph.ty)))
                        break
                else:
                    raise AnalysisError('phi without edge')
            for r, v in vals:
                f.env[r] = v
        f.prev, f.blk, f.ip = f.blk, target, 0
        if target in f.fn.loops():
            return self.arrive(st, f, target)
        return True

    def eqv(self, st, a, b):
        if a is b:
            return True
        if isinstance(a, tuple) or isinstance(b, tuple):
            return a == b
        if a.op == 'ptr' or b.op == 'ptr':
            return a.op == b.op and self.canon(st, a.a[0]) == self.canon(st, b.a[0]) and self.eqv(st, a.a[1], b.a[1])
        return a.w == b.w and (dom.same(a, b) or st.facts.eq(a, b))

    def fit(self, st, v, t):
        """the candidate as a value of the same kind, or None"""
        if isinstance(v, tuple):
            return None
        if (v.op == 'ptr') != (t.op == 'ptr'):
            return None
        if v.op == 'ptr' or v.w == t.w:
            return t
        return trunc(t, v.w) if v.w < t.w else zext(t, v.w)

    def related(self, st, v, c, t, cand):
        """what the relation (c, t) says the value v of a cell is, or None"""
        if c == '=':
            return t
        if isinstance(c, tuple):
            return self.grown(st, t, c[1], cand)
        return self.fit(st, v, cand[c]) if c in cand else None

    def grown(self, st, v, by, cand):
        k = cand.get('k')
        if k is None or isinstance(v, tuple) or v.op == 'ptr' or v.w < 8:
            return None
        k = self.fit(st, v, k)
        return dom.add(v, dom.mul(k, C(by % (1 << v.w), v.w)))

    def arrive(self, st, f, h):
        where = self.loc(st)
        key = (f.ctx, f.fn.name, h)
        phase = self.segment(st, key)
        if phase is None:
            return False
        key = key + (phase,)
        self.ncut.add((f.fn.name, h))
        names = sorted({p.res for p in f.fn.blocks[h].phis} | livein(f.fn)[h])
        cells = {n: f.env[n] for n in names if n in f.env}
        # and of the functions that called this one
        for i, fr in enumerate(st.frames[:-1]):
            for n in liveat(fr.fn, fr.blk, fr.ip):
                if n in fr.env:
                    cells[i, n] = fr.env[n]
        cand = self.candidates(st)
        rel = self.rel.setdefault(key, {})
        fresh = key not in self.done
        for n, v in cells.items():
            if n not in rel:
                ok = [('=', v)]
                for c, t in cand.items():
                    t = self.fit(st, v, t)
                    if t is not None and self.eqv(st, v, t):
                        ok.append((c, None))
                for by in self.slopes:
                    t = self.grown(st, v, by, cand)
                    if t is not None and self.eqv(st, v, t):
                        ok.append((('~', by), v))
                rel[n] = ok
                continue
            ok = []
            for c, o in rel[n]:
                t = self.related(st, v, c, o, cand)
                if t is not None and self.eqv(st, v, t):
                    ok.append((c, o))
            if len(ok) != len(rel[n]):
                rel[n] = ok
                self.dirty = True
        # memory the rule does not look after
        snap = self.snap.get(key)
        hm = self.hm.setdefault(key, set())
        if snap is None:
            self.snap[key] = dict(st.mem)
        else:
            for rid, reg in st.mem.items():
                if rid in self.handled or rid in hm or rid[0] in ('g',) and self.mod.glob(rid[1]) is None:
                    continue
                o = snap.get(rid)
                if o is None or o is reg or (o.layers is reg.layers or o.layers == reg.layers) and o.gen == reg.gen and o.alive == reg.alive:
                    continue
                hm.add(rid)
                self.dirty = True
        if not fresh:
            return False
        self.done.add(key)
        s = st.copy()
        fr = s.frames[-1]
        if not self.generic(s, key, phase):
            return False
        for rid in hm:
            if rid in s.mem:
                self.havoc(s, rid)
        cand = self.candidates(s)
        for n, v in cells.items():
            new = None
            def late(r):
                # a constant the others can be said to equal comes first, otherwise it comes last
                return r[0] == '=' and (self.named and not (isinstance(r[1], dom.T) and r[1].op == 'bv') or any(cand[c].op == 'bv' or cand[c].op == 's' and cand[c].w < 64 for c, _ in rel[n] if c in cand))
            for c, t in sorted(rel[n], key=late) if isinstance(n, str) else rel[n]:
                t = self.related(s, v, c, t, cand)
                if t is None:
                    continue
                if new is None:
                    new = t
                elif not isinstance(t, tuple) and t is not new:
                    # all that held at every arrival holds here
                    x, y = (t.a[1], new.a[1]) if t.op == 'ptr' else (t, new)
                    if x.op != 'bv' and y.op != 'bv' and not self.assume(s, dom.cmp('eq', x, y), True):
                        return False
            e = fr.env if isinstance(n, str) else s.frames[n[0]].env
            e[n if isinstance(n, str) else n[1]] = new if new is not None else self.havocv(s, v, ('cut', f.fn.name, h, n))
        s.trace = None
        self.work.append(s)
        return False


def lookup(A, st, reg, off, esz, n):
    """entry of a table held in memory, at a symbolic index, when the table is linear over GF(2); None if it is not"""
    ib = dom.bits(off)
    w = [i for i, b in enumerate(ib) if b and b != dom.B1]
    c = sum(1 << i for i, b in enumerate(ib) if b == dom.B1)
    if not w or len(w) > 12 or max(w) > 24:
        return None
    key = (id(reg.layers), reg.gen, c, n, tuple(w))
    memo = A.__dict__.setdefault('_tabs', {})
    r = memo.get(key)
    if r is None:
        def at(o):
            v = A.read(st, reg, C(c + o, 64), n)
            return cv(v) if isc(v) else None
        base = at(0)
        cols = [at(1 << i) for i in w]
        ok = base is not None and all(x is not None for x in cols)
        if ok:
            # every entry is the base xor the columns of the bits set
            for m in range(1 << len(w)):
                o = sum(1 << w[j] for j in range(len(w)) if m >> j & 1)
                e = base
                for j in range(len(w)):
                    if m >> j & 1:
                        e ^= cols[j] ^ base
                if at(o) != e:
                    ok = False
                    break
        r = memo[key] = (reg.layers, base, cols) if ok else (reg.layers, None, None)
    if r[1] is None:
        return None
    out = []
    for i in range(8 * n):
        b = dom.B1 if r[1] >> i & 1 else dom.B0
        for j, cj in enumerate(r[2]):
            if (cj ^ r[1]) >> i & 1:
                b = b ^ ib[w[j]]
        out.append(b)
    return dom.frombits(out)


def maxoff(off):
    """the largest value the bits allow"""
    return sum(1 << i for i, b in enumerate(dom.bits(off)) if b)


def distance(st, a, b, most=64):
    """b - a, when the path knows it"""
    d = st.facts.const(dom.sub(b, a))
    if d is not None:
        return dom.sgn(d, 64)
    for i in range(most):
        if st.facts.eq(b, dom.add(a, C(i, 64))):
            return i
    return None
