"""The tables of a transport stream list exactly the streams added, under a checksum of exactly their bytes.

`CTSWrite` is interpreted with the memory stream its sections are written to, for every number of streams up to a bound and lists that take
more than one packet; types, pids and counters are symbols. The packets written are read back as those of rule C25, and their payload as sections:
lengths, identifiers, one entry for each stream in the order added, and as checksum the result of `crc_32` (rule C17) for exactly the bytes before it."""
import dom
from dom import C, S, Ptr, isc, cv, zext, trunc
from absint import State, AnalysisError, Reg
import models, flavor
import c25
from c25 import Fields, Unclear, OBJ, REC, FL

LEVEL = 'other'
FLOOR = 500
UNITS = ['mg/core/thread.cpp', 'mg/core/uvbase.cpp', 'mg/core/bitstream.cpp', 'mg/media/wincrc.cpp']
MORE = r'''
extern "C" {
void s_add(CTSWrite * w, int pid, int type, int idx) { w->add_pam(pid, type, idx); }
void s_clock(CTSWrite * w, int pid) { w->set_pcr_pid(pid); }
void s_from(CTSWrite * w, unsigned char c) { w->set_sections_tables_continuity(c); }
void s_out(CTSWrite * w, RecW * t) { w->output_sections_tables(*t); }
}
'''
ASSUMPTIONS = ['streams are added before the tables are written first', 'pids have 13 bits, types 8']
AT = c25.AT


class Tab(c25.Ts):
    def __init__(self, mod):
        c25.Ts.__init__(self, mod, C(0, 32))
        models.install_locks(self)
        models.install_signal_event(self)
        self.hook(r'CWinCrc::crc_32\(.*', Tab.crc)
        self.hook(r'std::map<int, unsigned char.*>::~?map\(\)', lambda A, st, ins, args, fn: ())
        self.sums, self.problems = {}, []

    def counter(A, st, ins, args, fn):
        k = args[1]
        if k.op == 'ptr':
            k = A.read(st, A.region(st, k.a[0]), k.a[1], 4)
        c = st.facts.const(k)
        rid = ('h', 'cnt', c if c is not None else 'of a stream')
        if rid not in st.mem:
            st.mem[rid] = Reg(rid, 'obj', C(1, 64))
        return Ptr(rid, C(0, 64))

    def crc(A, st, ins, args, fn):
        p, n = args[1], st.facts.const(args[2])
        if n is None or not isc(p.a[1]) or st.facts.const(args[3]) != 0xffffffff:
            A.problem('the checksum is not that of a section', A.loc(st, ins))
            return S(('crc', st.fresh()), 32)
        reg = A.region(st, A.canon(st, p.a[0]))
        data = tuple(A.read(st, reg, dom.add(p.a[1], C(i, 64)), 1) for i in range(n))
        r = S(('crc', st.fresh()), 32)
        A.sums[r] = data
        return r


def check(cx):
    try:
        mod = cx.build(UNITS, c25.driver() + MORE)
    except flavor.FlavorError as e:
        cx.anchor(False, 'classes of %s: %s' % (FL, e))
        return
    for f in ('s_add', 's_out', 't_new'):
        cx.anchor(mod.func(f) is not None, f)

    def one(cx, n):
        A = cx.use(Tab(mod))
        inst = '%d streams' % n
        ob = lambda rule, ok, what: cx.ob(rule, inst, bool(ok), AT, '%s (%s)' % (what, inst), rule + '|' + what)
        pids = [S(('pid', i), 32, 0, 0x1fff) for i in range(n)]
        types = [S(('type', i), 32, 0, 255) for i in range(n)]
        clk, cc = S('clock', 32, 0, 0x1fff), S('counter', 8)
        st = State()
        st.mem[OBJ] = Reg(OBJ, 'obj', C(65536, 64))
        st.mem[REC] = Reg(REC, 'obj', C(256, 64))
        st.ghost.update(out=())
        seq = [('r_new', [Ptr(REC)]), ('t_new', [Ptr(OBJ)])] + [('s_add', [Ptr(OBJ), pids[i], types[i], C(i, 32)]) for i in range(n)]
        seq += [('s_clock', [Ptr(OBJ), clk]), ('s_from', [Ptr(OBJ), cc])] + [('s_out', [Ptr(OBJ), Ptr(REC)])] * 2
        for fn, args in seq:
            def mk(fn=fn, args=args, st=st):
                s = st.copy()
                s.trace, s.frames = None, []
                A.start(fn, args, s)
                return s
            outs = A.run(mk)
            good = [o for o in outs if o.kind == 'ret' and not any(v[0] in ('uaf', 'nullderef', 'doublefree') for v in o.st.events())]
            ob('returns', len(good) == len(outs) == 1, 'writing the tables fails')
            if len(good) != len(outs) or len(good) != 1:
                if len(outs) > 1 and len(good) == len(outs):
                    raise AnalysisError('more than one way through ' + fn)
                return
            st = good[0].st
        for w, at in dict.fromkeys(A.problems):
            cx.ob('written', inst, False, at or AT, '%s (%s)' % (w, inst), 'written|' + w)
        q = Fields(st, st.ghost['out'])
        last = {}
        for again in (0, 1):
            for pid, check in ((0, pas), (0x1000, pam)):
                try:
                    sec = section(A, st, q, pid, last, cc, ob)
                    if sec is not None:
                        check(A, st, sec, ob, n, pids, types, clk)
                except EOFError:
                    ob('section', False, 'a table is incomplete')
                except Unclear as e:
                    ob('section', False, '%s of a table is not the one it has to be' % e)
        ob('section', not q.left(), 'more than the tables is written')

    def section(A, st, q, pid, last, cc, ob):
        """the bytes of a section, taken out of its packets"""
        data, first, need = [], True, 1
        while len(data) < need:
            ob('packet', q.num(8, 'the sync byte') == 0x47, 'a packet does not begin with the sync byte')
            f = q.num(3, 'the flags')
            ob('packet', f == (2 if first else 0), 'the flags of a packet are wrong')
            ob('packet', q.num(13, 'the pid') == pid, 'a packet has not the pid of its table')
            ob('packet', q.num(2, 'scrambling') == 0, 'a packet is marked as scrambled')
            a = q.num(2, 'the adaptation flags')
            ob('packet', a & 1, 'a packet of a table has no payload')
            want = dom.add(cc, C(last.get(pid, 0), 8))
            got = q.take(4)
            ob('packet', A.eqv(st, got, trunc(want, 4)), 'the counter of a packet does not follow that of the packet before')
            last[pid] = last.get(pid, 0) + 1
            left = 184
            if a & 2:
                k = q.num(8, 'the length of the adaptation field')
                left -= 1 + k
                if left < 0:
                    ob('packet', False, 'an adaptation field is longer than its packet')
                    return None
                for _ in range(k):
                    q.take(8)
            new = [q.take(8) for _ in range(left)]
            if first:
                p = st.facts.const(new[0])
                ob('section', p == 0, 'the section does not follow its pointer')
                if p != 0:
                    return None
                new = new[1:]
                lo = st.facts.const(new[2])
                hi = Fields(st, ((new[1], 8),))
                ob('section', hi.num(2, 'the syntax mark') == 2, 'the marks of a section are wrong')
                hi.take(2)
                hi = hi.num(4, 'the length of the section')
                if lo is None:
                    raise Unclear('the length of the section')
                need = 3 + (hi << 8 | lo)
            first = False
            data += new
        ob('section', all(st.facts.const(trunc(b, 8)) == 255 for b in data[need:]), 'the bytes of a section are not as many as it tells')
        data = data[:need]
        s = None
        for i in range(4):
            b = trunc(data[need - 4 + i], 8)
            s = zext(b, 32) if s is None else dom.or_(dom.shl(s, C(8, 32)), zext(b, 32))
        r = next((v for v in A.sums if v is s or dom.same(v, s)), None)
        ob('sum', r is not None, 'a section does not end with a checksum')
        if r is not None:
            d = A.sums[r]
            ob('sum', len(d) == need - 4 and all(A.eqv(st, trunc(x, 8), trunc(y, 8)) for x, y in zip(d, data)), 'the checksum is not that of the bytes before it')
        return Fields(st, tuple((b, 8) for b in data[:-4]))

    def head(q, ob, table, ident):
        ob('table', q.num(8, 'the table') == table, 'a table has not its number')
        q.take(16)
        ob('table', q.num(16, 'the number of the program') == ident, 'a table has not the number of its program')
        q.take(2)
        ob('table', q.num(5, 'the version') == 0 and q.num(1, 'the validity') == 1, 'version or validity of a table are wrong')
        ob('table', q.num(16, 'the section number') == 0, 'the section is not the first and last')

    def pas(A, st, q, ob, n, pids, types, clk):
        head(q, ob, 0, 1)
        ob('pas', q.num(16, 'the program') == 1, 'the program is not listed')
        q.take(3)
        ob('pas', q.num(13, 'the pid of the program') == 0x1000, 'the program is listed with another pid than its table has')
        ob('pas', not q.left(), 'more than the program is listed')

    def pam(A, st, q, ob, n, pids, types, clk):
        head(q, ob, 2, 1)
        same = lambda a, b: A.eqv(st, a, trunc(b, a.w))
        q.take(3)
        ob('pam', same(q.take(13), clk), 'the clock is said to be in another stream')
        q.take(4)
        ob('pam', q.num(12, 'the length of descriptions') == 0, 'descriptions are told of')
        for p, t in zip(pids, types):
            ob('pam', same(q.take(8), t), 'a stream is listed with another type')
            q.take(3)
            ob('pam', same(q.take(13), p), 'a stream is listed with another pid')
            q.take(4)
            ob('pam', q.num(12, 'the length of descriptions') == 0, 'descriptions are told of')
        ob('pam', not q.left(), 'more streams are listed than were added')
    cx.pmap(list(range(203)) if cx.thorough else list(range(41)) + [64, 72, 80, 128, 202], one)
