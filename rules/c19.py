"""Times and durations.

The arithmetic of the time classes is read off the IR as integer expressions, path by path, and compared in the canonical
form of truncating quotients (engine/quot.py), so that any way of writing the same arithmetic has the same value. The
library calls below (clock, calendar conversion, formatting, scanning) are uninterpreted: what matters is which instant
and which fields they are given, and where their results end up. The text produced is compared as a sequence of pieces
(engine/strmodel.py): constants, numbers with their number of digits, formatted dates."""
import dom
import quot
import strmodel
from dom import C, S, Ptr, isc, cv, zext, sext
from absint import Interp, State, AnalysisError
import models

LEVEL = 'proof'
FLOOR = 60
UNITS = ['mg/core/nx/ctime.cpp']
DRIVER = r'''
#include "mgcore.h"
#include "mg/media/hnano.h"
#include <new>
#include <stddef.h>
using namespace mg::core;
extern "C" {
void t_now(void* w, bool local) { new (w) Ctime(local); }
void t_reset(Ctime* t, bool local) { t->ResetToNow(local); }
void t_date(void* w, unsigned short y, unsigned short m, unsigned short d) { new (w) Ctime(y, m, d); }
void t_parse(void* w, const char* s, bool local) { new (w) Ctime(s, local); }
void t_parsef(void* w, const char* s, bool local, const char* f) { new (w) Ctime(s, local, f); }
long t_ms(const Ctime* t, const SYSTEMTIME* b) { return t->MilliSeconds(b); }
long t_sec(const Ctime* t, const SYSTEMTIME* b) { return t->Seconds(b); }
long t_min(const Ctime* t, const SYSTEMTIME* b) { return t->Minutes(b); }
long t_hours(const Ctime* t, const SYSTEMTIME* b) { return t->Hours(b); }
long t_days(const Ctime* t, const SYSTEMTIME* b) { return t->Days(b); }
long t_hoursn(const Ctime* t) { return t->Hours(); }
long t_daysn(const Ctime* t) { return t->Days(); }
long t_total(const Ctime* t) { return t->TotalHNano(); }
long t_totalms(const Ctime* t) { return t->TotalMilliseconds(); }
long t_add(const Ctime* t, long n) { return t->AddMilliSeconds(n); }
long t_off(const Ctime* t) { return t->GetUTCOffset(); }
long t_local() { return Ctime::GetLocalOffset(); }
const SYSTEMTIME* t_get(const Ctime* t) { return &t->get_Time(); }
unsigned long t_elapsed(Ctime* t, bool r) { return clock_elapsed(*t, r); }
void t_time(const Ctime* t, void* w) { new (w) Cstring(t->ToTimeString()); }
void t_datestr(const Ctime* t, void* w) { new (w) Cstring(t->ToDateString()); }
void t_datef(const Ctime* t, void* w, const char* f) { new (w) Cstring(t->ToDateString(f)); }
void t_timef(const Ctime* t, void* w, const char* f) { new (w) Cstring(t->ToTimeString(f)); }
void t_millis(const Ctime* t, void* w) { new (w) Cstring(t->get_MillisecondsString()); }
void t_xml(const Ctime* t, void* w) { new (w) Cstring(t->ToXml()); }
void h_make(void* w, long h, long m, long s, long ml) { new (w) HundredNano(h, m, s, ml); }
void h_raw(void* w, long n) { new (w) HundredNano(n); }
long h_h(HundredNano* h) { return h->H(); }
long h_m(HundredNano* h) { return h->M(); }
long h_s(HundredNano* h) { return h->S(); }
long h_ml(HundredNano* h) { return h->ML(); }
long h_val(HundredNano* h) { return *h; }
void h_str(HundredNano* h, void* w) { new (w) Cstring(h->ToString()); }
void h_hns(void* w, long n) { new (w) Cstring(hns(n)); }
unsigned long f_year() { return offsetof(SYSTEMTIME, wYear); }
unsigned long f_month() { return offsetof(SYSTEMTIME, wMonth); }
unsigned long f_wday() { return offsetof(SYSTEMTIME, wDayOfWeek); }
unsigned long f_mday() { return offsetof(SYSTEMTIME, wDay); }
unsigned long f_hour() { return offsetof(SYSTEMTIME, wHour); }
unsigned long f_min() { return offsetof(SYSTEMTIME, wMinute); }
unsigned long f_sec() { return offsetof(SYSTEMTIME, wSecond); }
unsigned long f_ms() { return offsetof(SYSTEMTIME, wMilliseconds); }
unsigned long f_total() { return offsetof(SYSTEMTIME, total_hnano); }
unsigned long f_size() { return sizeof(SYSTEMTIME); }
unsigned long f_csize() { return sizeof(Ctime); }
unsigned long g_sec() { return offsetof(tm, tm_sec); }
unsigned long g_min() { return offsetof(tm, tm_min); }
unsigned long g_hour() { return offsetof(tm, tm_hour); }
unsigned long g_mday() { return offsetof(tm, tm_mday); }
unsigned long g_mon() { return offsetof(tm, tm_mon); }
unsigned long g_year() { return offsetof(tm, tm_year); }
unsigned long g_wday() { return offsetof(tm, tm_wday); }
unsigned long g_isdst() { return offsetof(tm, tm_isdst); }
}
'''
ASSUMPTIONS = ['the C library clock, calendar conversions, strftime and sscanf as documented; times within +-29000 years of 1970',
               'offsets from UTC of less than a day, durations of less than 2^62 hundred nanoseconds',
               'that the string class stores what it is given is not decided here']
OBJ, OBJ2, OUT, STR, FM, HOBJ = ('time',), ('time2',), ('out',), ('text',), ('format',), ('hn',)
TMF = ('sec', 'min', 'hour', 'mday', 'mon', 'year', 'wday')
SYF = ('year', 'month', 'wday', 'mday', 'hour', 'min', 'sec', 'ms')
BIG = 1 << 62
WHERE = ('src/mg/core/nx/ctime.cpp', 0)
HWHERE = ('src/mg/media/hnano.h', 0)


def signed(st, A, t, b):
    """-b <= t <= b as a signed number"""
    c = C(b, t.w)
    quot.declare(st, t, -b, b)
    return A.assume(st, dom.cmp('ule', dom.add(t, c), C(2 * b, t.w)), True)


class Time(Interp):
    def __init__(self, mod, off=None):
        Interp.__init__(self, mod)
        self.off = off
        models.install_std(self)
        strmodel.install(self)
        h = self.hook
        h('clock_gettime', Time.clock)
        h('time', Time.time)
        h('localtime_r', lambda A, st, ins, a, n: A.cal(st, a[0], a[1], 'local'))
        h('gmtime_r', lambda A, st, ins, a, n: A.cal(st, a[0], a[1], 'utc'))
        h('gmtime', lambda A, st, ins, a, n: A.cal(st, a[0], Ptr(('static tm',)), 'utc'))
        h('localtime', lambda A, st, ins, a, n: A.cal(st, a[0], Ptr(('static tm',)), 'local'))
        h('mktime', Time.mktime)
        h('timegm', lambda A, st, ins, a, n: A.mk2(st, a[0], 'timegm'))
        h('difftime', Time.difftime)
        h('strftime', Time.strftime)
        h(r'(__isoc\d\d_)?sscanf', Time.sscanf)
        h(r'mg::core::Ctime::_GetUTCOffset\(\)', Time.offset)
        h(r'.*(last_error|throw_error|base_exception|mgexception|errors).*', lambda A, st, ins, a, n: None)
        self.on_access.append(Time.inb)
        self.stub_off = True

    def run(self, mk):
        return [o for o in Interp.run(self, mk) if quot.feasible(o.st)]

    def offset(A, st, ins, args, n):
        if not A.stub_off:
            return None
        o = S('utcoffset', 64)
        signed(st, A, o, 24 * 60 - 1)
        return o

    def inb(A, st, reg, off, n, rw, ins):
        if reg.size is None:
            return
        end = dom.add(off, C(n, 64) if isinstance(n, int) else n)
        if not (st.facts.ule(end, reg.size) and st.facts.ule(off, reg.size)):
            st.ev('oob', reg.rid, A.loc(st, ins), rw)

    def instant(A, st):
        k = st.ghost.get('nclock', 0)
        st.ghost['nclock'] = k + 1
        s = S(('now', k), 64)
        A.assume(st, dom.cmp('ule', s, C(1 << 39, 64)), True)
        quot.declare(st, s, 0, 1 << 39)
        return s, k

    def clock(A, st, ins, args, n):
        st.ev('clock', args[0], A.loc(st, ins))
        if not (isc(args[0]) and cv(args[0]) == 0):
            st.ev('bad', 'another clock than the time of day is read', A.loc(st, ins))
        s, k = A.instant(st)
        ns = S(('nsec', k), 64, 0, 999999999)
        A.poke(st, args[1], 8, s)
        A.poke(st, dom.add(args[1], C(8, 64)), 8, ns)
        return C(0, 32)

    def time(A, st, ins, args, n):
        s, k = A.instant(st)
        p = A.to_ptr(st, args[0])
        if p is not None:
            A.poke(st, args[0], 8, s)
        return s

    def cal(A, st, pt, ptm, zone):
        t = A.peek(st, pt, 8)
        for f in TMF:
            v = S(('tm', zone, t, f), 32)
            signed(st, A, v, 40000)
            A.poke(st, dom.add(ptm, C(A.F['tm'][f], 64)), 4, v)
        A.poke(st, dom.add(ptm, C(A.F['tm']['isdst'], 64)), 4, S(('tm', zone, t, 'isdst'), 32))
        return ptm

    def fields(A, st, p):
        return tuple(A.peek(st, dom.add(p, C(A.F['tm'][f], 64)), 4) for f in TMF[:-1])

    def mk2(A, st, p, kind):
        fl = A.fields(st, p)
        s = S((kind,) + fl, 64)
        signed(st, A, s, 1 << 39)
        return s

    def mk2f(A, st, fl):
        s = S(('mktime',) + tuple(fl), 64)
        return s

    def mktime(A, st, ins, args, n):
        d = A.peek(st, dom.add(args[0], C(A.F['tm']['isdst'], 64)), 4)
        if not (isc(d) and dom.sgn(cv(d), 32) == -1):
            st.ev('bad', 'a time is converted without asking for daylight saving', A.loc(st, ins))
        return A.mk2(st, args[0], 'mktime')

    def difftime(A, st, ins, args, n):
        return S(('difftime', args[0], args[1]), 64)

    def strftime(A, st, ins, args, n):
        reg, off = A.to_ptr(st, args[0])
        l = st.ghost.get(('strbuf', reg))
        L = S(('strftime', st.fresh()), 64, 0, 1 << 20)
        A.assume(st, dom.cmp('ult', L, args[1]), True)
        r = A.region(st, reg)
        if r.size is not None and not st.facts.ule(dom.add(off, args[1]), r.size):
            st.ev('oob', reg, A.loc(st, ins), 'w')
        if l is not None:
            f = strmodel.ctext(A, st, args[2])
            q = A.to_ptr(st, args[2])
            st.ghost[('pending', l)] = (('t', f if f is not None else (q[0], q[1]), A.fields(st, args[3])), L)
        return L

    def sscanf(A, st, ins, args, n):
        st.ev('scan', args[0], args[1])
        f = strmodel.ctext(A, st, args[1])
        st.ghost['scanf'] = f
        for i, p in enumerate(args[2:]):
            v = S(('scan', i), 32)
            signed(st, A, v, 40000)
            q = A.to_ptr(st, p)
            reg, off = A.deref(st, p, 4, ins, 'w')
            A.poke(st, p, 4, v)
        return S('scanned', 32, 0, 7)


def go(A, fn, args, st):
    A.start(fn, args, st)
    return st


def const(cx, mod, fn):
    A = cx.use(Interp(mod))
    o = A.run(lambda: go(A, fn, [], State()))
    cx.anchor(len(o) == 1 and isc(o[0].val), fn)
    return cv(o[0].val)


class Cx:
    pass


def base(A, R, fields='counted', obj=OBJ, tag=''):
    """an arbitrary time: 'counted' (with its distance from 1970) or 'given' (by its fields)"""
    def fill(st):
        F = A.F['sys']
        r = A.region(st, obj).clone()
        r.size = C(A.F['csize'] if obj == OBJ else A.F['size'], 64)
        st.mem[obj] = r
        for f in SYF:
            v = S(('field', f, tag), 16, 0, 9999 if f == 'year' else 999 if f == 'ms' else 60)
            if f == 'year':
                A.assume(st, dom.cmp('ule', C(1, 16), v), True)
            if f in ('month', 'mday'):
                A.assume(st, dom.cmp('ule', C(1, 16), v), True)
            A.poke(st, Ptr(obj, C(F[f], 64)), 2, v)
        if fields == 'counted':
            T = S(('total', tag), 64)
            signed(st, A, T, 1 << 61)
            A.assume(st, dom.cmp('ne', T, C(-1, 64)), True)
            # the sentinel for a time given by its fields is no instant in the range analysed
        else:
            T = C(-1, 64)
        A.poke(st, Ptr(obj, C(F['total'], 64)), 8, T)
        return st
    return fill


def given(A, tag=''):
    """the instant the C library has for the fields, and the milliseconds"""
    fl = {f: S(('field', f, tag), 16) for f in SYF}
    z = lambda f: zext(fl[f], 32)
    order = {'sec': z('sec'), 'min': z('min'), 'hour': z('hour'), 'mday': z('mday'), 'mon': dom.sub(z('month'), C(1, 32)), 'year': dom.sub(z('year'), C(1900, 32))}
    return S(('mktime',) + tuple(order[f] for f in TMF[:-1]), 64), zext(fl['ms'], 64), tuple(order[f] for f in TMF[:-1])


def total(A, kind, tag=''):
    if kind == 'counted':
        return S(('total', tag), 64)
    s, ms, _ = given(A, tag)
    return dom.add(dom.scale(s, 10000000), dom.scale(ms, 10000))


def check(cx):
    mod = cx.build(UNITS, DRIVER)
    Time.F = {'sys': {f: const(cx, mod, 'f_' + f) for f in SYF + ('total',)}, 'size': const(cx, mod, 'f_size'), 'csize': const(cx, mod, 'f_csize'),
              'tm': {f: const(cx, mod, 'g_' + f) for f in TMF + ('isdst',)}}
    # where a time keeps its fields, its zone and its offset
    A = cx.use(Time(mod))
    o = A.run(lambda: go(A, 't_get', [Ptr(OBJ)], State()))
    cx.anchor(len(o) == 1 and A.to_ptr(o[0].st, o[0].val)[0] == OBJ, 'fields of a time')
    sysoff = cv(A.to_ptr(o[0].st, o[0].val)[1])
    F = Time.F['sys']
    for f in F:
        F[f] += sysoff
    Time.F['sysoff'] = sysoff

    def ob(rule, inst, c, what, where=WHERE):
        cx.ob(rule, inst, c, where, '%s (%s)' % (what, inst), '%s|%s' % (rule, what))

    def runs(fn, args, setup, A=None):
        A = A or cx.use(Time(mod))

        def mk():
            st = State()
            for s in setup(A):
                s(st)
            return go(A, fn, args, st)
        outs = A.run(mk)
        for o in outs:
            for e in o.st.events():
                if e[0] in ('oob', 'bad', 'nullderef'):
                    what = {'oob': 'writes or reads outside its memory', 'nullderef': 'uses nothing as a pointer'}.get(e[0]) or e[1]
                    cx.ob('memory', fn, False, e[2] if e[0] != 'nullderef' else e[1], '%s: %s' % (fn, what), 'mem|%s|%s' % (fn, what))
        cx.ob('returns', fn, bool(outs) and all(o.kind == 'ret' or o.kind == 'throw' for o in outs), WHERE, '%s does not return' % fn, 'ret|' + fn)
        return A, outs

    runs.mod = mod
    # ---- distances
    BASE = Ptr(OBJ2)
    for k1 in ('counted', 'given'):
        for k2 in ('counted', 'given'):
            for fn, d in (('t_ms', 10000), ('t_sec', 10000000), ('t_min', 600000000), ('t_hours', 36000000000), ('t_days', 864000000000)):
                inst = '%s, %s to %s' % (fn[2:], k2, k1)

                def setup(A):
                    saved = dict(F)
                    f1 = base(A, None, k1)

                    def f2(st):
                        for f in F:
                            F[f] -= sysoff
                        base(A, None, k2, OBJ2, 'b')(st)
                        F.update(saved)
                    return [f1, f2]
                A, outs = runs(fn, [Ptr(OBJ), BASE], setup)
                for o in outs:
                    ob('distance', inst, o.kind == 'ret', 'raises an error')
                    if o.kind != 'ret':
                        continue
                    if k1 == k2:
                        diff = quot.addf(quot.form(o.st, total(A, k1)), quot.form(o.st, total(A, k2, 'b')), -1)
                        want = quot.div(diff, d)
                        ob('distance', inst, quot.equal(o.st, o.val, want), 'the distance of two times is not their difference in the unit asked for')
                    else:
                        s1, s2 = given(A)[0], given(A, 'b')[0]
                        w1 = quot.form(o.st, s1)
                        w2 = quot.form(o.st, s2)
                        # one of the two has no fraction: whole seconds of both fields
                        want = quot.div(quot.addf(Form1000(w1), Form1000(w2), -1), d // 10000)
                        ob('distance', inst, quot.equal(o.st, o.val, want), 'the distance of a given and a counted time is not that of their seconds')
    # ---- totals
    for k in ('counted', 'given'):
        for fn, w in (('t_total', lambda A: quot_id(total(A, k))), ('t_totalms', lambda A: (total(A, k), 10000)), ('t_add', lambda A: (total(A, k), 10000))):
            n = S('n', 64)

            def setup(A):
                return [base(A, None, k), lambda st: signed(st, A, n, 1 << 60)]
            A, outs = runs(fn, [Ptr(OBJ)] + ([n] if fn == 't_add' else []), setup)
            for o in outs:
                t, d = w(A)
                want = quot.div(quot.form(o.st, t), d)
                if fn == 't_add':
                    want = quot.addf(want, quot.form(o.st, n))
                ob('total', '%s, %s' % (fn[2:], k), o.kind == 'ret' and quot.equal(o.st, o.val, want), 'the value is not the time in the unit asked for')
    # ---- the current time
    zone, offs = {}, {}
    for fn in ('t_now', 't_reset'):
        for local in (1, 0):
            inst = '%s time (%s)' % ('local' if local else 'UTC', fn[2:])

            def setup(A):
                def size(st):
                    r = A.region(st, OBJ).clone()
                    r.size = C(Time.F['csize'], 64)
                    st.mem[OBJ] = r
                return [size]
            A, outs = runs(fn, [Ptr(OBJ), C(local, 1)], setup)
            for o in outs:
                st = o.st
                ob('now', inst, o.kind == 'ret', 'the current time is never got')
                if o.kind != 'ret':
                    continue
                t, ns = S(('now', 0), 64), S(('nsec', 0), 64)
                for f, g, d in (('year', 'year', 1900), ('month', 'mon', 1), ('wday', 'wday', 0), ('mday', 'mday', 0), ('hour', 'hour', 0),
                                ('min', 'min', 0), ('sec', 'sec', 0)):
                    v = A.peek(st, Ptr(OBJ, C(F[f], 64)), 2)
                    want = dom.trunc(dom.add(S(('tm', 'local' if local else 'utc', t, g), 32), C(d, 32)), 16)
                    ob('now', inst, st.facts.eq(v, want), 'the %s is not that of the instant in its zone' % f)
                v = A.peek(st, Ptr(OBJ, C(F['total'], 64)), 8)
                want = quot.addf(quot.form(st, dom.scale(t, 10000000)), quot.div(quot.form(st, ns), 100))
                ob('now', inst, quot.equal(st, v, want), 'the distance from 1970 is not that of the clock')
                zone.setdefault(local, []).append((A, st))
    # ---- given dates
    y, m, d = S('y', 16, 0, 9999), S('m', 16, 0, 12), S('d', 16, 0, 31)
    A, outs = runs('t_date', [Ptr(OBJ), y, m, d], lambda A: [])
    for o in outs:
        want = {'year': y, 'month': m, 'mday': d}
        bad = [f for f in SYF if f != 'wday' and not o.st.facts.eq(A.peek(o.st, Ptr(OBJ, C(F[f], 64)), 2), want.get(f, C(0, 16)))]
        ob('given', 'date', o.kind == 'ret' and not bad, 'the fields of a date are not those given: %s' % ', '.join(bad))
        ob('given', 'date sentinel', eqc(A, o.st, Ptr(OBJ, C(F['total'], 64)), -1), 'a date given by its fields claims to know its distance from 1970')
    for fn in ('t_parse', 't_parsef'):
        for local in (1, 0):
            inst = 'text%s, %s' % (' with a format' if fn == 't_parsef' else '', 'local' if local else 'UTC')
            A, outs = runs(fn, [Ptr(OBJ), Ptr(STR), C(local, 1)] + ([Ptr(FM)] if fn == 't_parsef' else []), lambda A: [])
            for o in outs:
                st = o.st
                sc = [e for e in st.events() if e[0] == 'scan']
                ok = o.kind == 'ret' and len(sc) == 1 and A.to_ptr(st, sc[0][1])[0] == STR
                ob('given', inst, ok, 'the text is not scanned once')
                if not ok:
                    continue
                if fn == 't_parsef':
                    ob('given', inst, A.to_ptr(st, sc[0][2])[0] == FM, 'another format than the one given is used')
                else:
                    convs = strmodel.FMT.findall(st.ghost.get('scanf') or '')
                    ob('given', inst, len(convs) == 7 and all(c[5] in 'du' and c[4] == '' for c in convs), 'the default format does not scan seven integers')
                for i, f in enumerate(('year', 'month', 'mday', 'hour', 'min', 'sec', 'ms')):
                    v = A.peek(st, Ptr(OBJ, C(F[f], 64)), 2)
                    ob('given', inst, st.facts.eq(v, dom.trunc(S(('scan', i), 32), 16)), 'the %s is not the number scanned for it' % f)
                ob('given', inst, eqc(A, st, Ptr(OBJ, C(F['total'], 64)), -1), 'a time given by its fields claims to know its distance from 1970')
                zone.setdefault(local, []).append((A, st))
    # ---- offset from UTC
    for local, l in zone.items():
        for A0, st in l:
            s = st.copy()
            A = cx.use(Time(mod))
            outs = A.run(lambda: go(A, 't_off', [Ptr(OBJ)], s.copy()))
            for o in outs:
                want = S('utcoffset', 64) if local else C(0, 64)
                ob('offset', 'local' if local else 'UTC', o.kind == 'ret' and o.st.facts.eq(o.val, want), 'the offset from UTC of a time is not that of its zone')
    # ---- elapsed
    for r in (1, 0):
        A, outs = runs('t_elapsed', [Ptr(OBJ), C(r, 1)], lambda A: [base(A, None)])
        for o in outs:
            st = o.st
            t, ns = S(('now', 0), 64), S(('nsec', 0), 64)
            want = quot.addf(quot.addf(quot.form(st, dom.scale(t, 10000000)), quot.div(quot.form(st, ns), 100)), quot.form(st, total(A, 'counted')), -1)
            ob('elapsed', 'reset' if r else 'keep', o.kind == 'ret' and quot.equal(st, o.val, want), 'the time elapsed is not the distance from the start to now')
            v = A.peek(st, Ptr(OBJ, C(F['total'], 64)), 8)
            k = st.ghost.get('nclock', 0) - 1
            want = quot.addf(quot.form(st, dom.scale(S(('now', k), 64), 10000000)), quot.div(quot.form(st, S(('nsec', k), 64)), 100)) if r else quot.form(st, total(A, 'counted'))
            ob('elapsed', 'reset' if r else 'keep', quot.equal(st, v, want), 'the start of the clock is not moved as asked')
    for fn, unit in (('t_hoursn', 36000000000), ('t_daysn', 864000000000)):
        A, outs = runs(fn, [Ptr(OBJ)], lambda A: [base(A, None)])
        for o in outs:
            st = o.st
            now = quot.addf(quot.form(st, dom.scale(S(('now', 0), 64), 10000000)), quot.div(quot.form(st, S(('nsec', 0), 64)), 100))
            want = quot.div(quot.addf(now, quot.form(st, total(A, 'counted')), -1), unit)
            ob('distance', fn[2:] + ' to now', o.kind == 'ret' and quot.equal(st, o.val, want), 'the distance to now is not the difference in the unit asked for')
    # ---- offset of the local zone: minutes between UTC and local clock reading of one instant
    A = cx.use(Time(mod))
    A.stub_off = False
    A, outs = runs('t_local', [], lambda A: [], A)
    for o in outs:
        t = S(('now', 0), 64)
        g = S(('mktime',) + tuple(S(('tm', 'utc', t, f), 32) for f in TMF[:-1]), 64)
        ob('local-offset', 'now', o.kind == 'ret' and is_offset(o.st, o.val, t, g), 'the offset of the local zone is not the distance of the two clocks in minutes')
    texts(cx, ob, runs, F, zone)
    xml(cx, mod, ob, zone)
    durations(cx, ob, runs)


def quot_id(t):
    return (t, 1)


def Form1000(f):
    return quot.Form({x: c * 1000 for x, c in f.items()})


def eqc(A, st, p, n):
    return st.facts.eq(A.peek(st, p, 8), C(n, 64))


def is_offset(st, v, t, g):
    """v = (t - g) / 60, by whatever route through a double"""
    s = str(dom.show(v))
    if quot.equal(st, v, quot.div(quot.addf(quot.form(st, t), quot.form(st, g), -1), 60)):
        return True
    d = S(('difftime', t, g), 64)
    seen = []

    def walk(x):
        if isinstance(x, dom.T):
            seen.append(x)
            for y in x.a:
                walk(y)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
    walk(v)
    c60 = any(isc(x) and cv(x) == 0x404E000000000000 for x in seen)
    return any(x is d for x in seen) and c60


def out_text(A, o):
    return strmodel.normal(o.st, strmodel.get(A, o.st, Ptr(OUT)))


def texts(cx, ob, runs, F, zone):
    for k in ('counted', 'given'):
        for fn, want in (('t_time', '%H:%M:%S'), ('t_datestr', '%Y-%m-%d'), ('t_datef', None), ('t_timef', None)):
            A, outs = runs(fn, [Ptr(OBJ), Ptr(OUT)] + ([Ptr(FM)] if want is None else []), lambda A: [base(A, None, k), formatobj(A)])
            for o in outs:
                if o.kind == 'throw':
                    continue
                fl = given(A)[2]
                p = strmodel.get(A, o.st, Ptr(OUT))
                ok = o.kind == 'ret' and len(p) == 1 and p[0][0] == 't' and len(p[0][2]) == len(fl) and \
                    all(o.st.facts.eq(x, y) for x, y in zip(p[0][2], fl))
                ob('text', '%s, %s' % (fn[2:], k), ok, 'the text is not made of the fields of the time')
                if ok:
                    w = p[0][1]
                    same = w == want or want == '%H:%M:%S' and w == '%T' or want == '%Y-%m-%d' and w == '%F' if want is not None else \
                        isinstance(w, tuple) and w[0] == FM
                    ob('text', '%s, %s' % (fn[2:], k), same, 'the text has another format')
            ob('text', '%s, %s' % (fn[2:], k), any(o.kind == 'ret' for o in outs), 'never gives a text')
        A, outs = runs('t_millis', [Ptr(OBJ), Ptr(OUT)], lambda A: [base(A, None, k)])
        for o in outs:
            ob('text', 'milliseconds, ' + k, o.kind == 'ret' and ismillis(A, o.st, out_text(A, o), k), 'the milliseconds are not written as three digits')


def formatobj(A):
    def f(st):
        A.assume(st, dom.mk('isnull', 1, FM), False)
    return f


def ismillis(A, st, p, k, t=None):
    """three digits: the milliseconds since the last whole second (of the instant, also before 1970)"""
    if len(p) != 1 or p[0][0] != 'n' or p[0][2] != 3:
        return False
    t = quot.form(st, total(A, k)) if t is None else t
    M = 10000000
    rem = quot.addf(t, quot.div(t, M), -M)
    up = quot.addf(rem, quot.Form({(): M}))
    v = quot.form(st, p[0][1])
    return v in (quot.div(rem, 10000), quot.div(up, 10000))


def nval(st, x, want, digits):
    """a number of exactly so many digits with this value"""
    return x[0] == 'n' and x[2] == digits and quot.equal(st, x[1], want)


def xml(cx, mod, ob, zone):
    """date T time . milliseconds zone"""
    for local, l in zone.items():
        for A0, st in l:
            counted = not eqc(A0, st, Ptr(OBJ, C(A0.F['sys']['total'], 64)), -1)
            inst = '%s, %s' % ('local' if local else 'UTC', 'now' if counted else 'given')
            A = cx.use(Time(mod))
            s0 = st.copy()
            s0.trace = None
            outs = A.run(lambda: go(A, 't_xml', [Ptr(OBJ), Ptr(OUT)], s0.copy()))
            ob('xml', inst, any(o.kind == 'ret' for o in outs), 'the text of a time is never given')
            for o in outs:
                if o.kind == 'throw':
                    continue
                s = o.st
                F = A.F['sys']
                fl = [zext(A.peek(s, Ptr(OBJ, C(F[f], 64)), 2), 32) for f in ('sec', 'min', 'hour', 'mday', 'month', 'year')]
                fl[4], fl[5] = dom.sub(fl[4], C(1, 32)), dom.sub(fl[5], C(1900, 32))
                p = out_text(A, o)
                ok = o.kind == 'ret' and len(p) >= 6 and [x[0] for x in p[:6]] == ['t', 'c', 't', 'c', 'n', 'c'] and \
                    p[0][1] in ('%Y-%m-%d', '%F') and p[1][1] == 'T' and p[2][1] in ('%H:%M:%S', '%T') and p[3][1] == '.' and \
                    all(s.facts.eq(x, y) for t in (p[0][2], p[2][2]) for x, y in zip(t, fl))
                ob('xml', inst, ok, 'the text is not date, T, time, dot, milliseconds, zone')
                if not ok:
                    continue
                T = A.peek(s, Ptr(OBJ, C(F['total'], 64)), 8)
                if counted:
                    t = quot.form(s, T)
                else:
                    t = quot.form(s, dom.add(dom.scale(A.mk2f(s, fl), 10000000), dom.scale(zext(A.peek(s, Ptr(OBJ, C(F['ms'], 64)), 2), 64), 10000)))
                ob('xml', inst, ismillis(A, s, [p[4]], None, t), 'the milliseconds are not three digits of the instant')
                z = p[5:]
                off = S('utcoffset', 64)
                if not local or s.facts.eq(off, C(0, 64)):
                    ob('xml', inst, z == [('c', 'Z')], 'a time of UTC does not end with Z')
                    continue
                for neg in (False, True):
                    s2 = s.copy()
                    if not A.assume(s2, dom.cmp('slt', off, C(0, 64)), neg) or not A.assume(s2, dom.cmp('eq', off, C(0, 64)), False) or s2.facts.contra():
                        continue
                    a = quot.form(s2, dom.neg(off) if neg else off)
                    h = quot.div(a, 60)
                    m = quot.addf(a, h, -60)
                    good = len(z) == 4 and z[0] == ('c', '-' if neg else '+') and z[2] == ('c', ':') and \
                        nval(s2, z[1], h, 2) and nval(s2, z[3], m, 2)
                    ob('xml', inst, good, 'the zone is not sign, hours and minutes of the offset')


def durations(cx, ob, runs):
    n = S('n', 64)
    H, M, SEC, MS = 36000000000, 600000000, 10000000, 10000
    arg = [S(x, 64) for x in ('h', 'm', 's', 'ml')]
    A, outs = runs('h_make', [Ptr(HOBJ)] + arg, lambda A: [lambda st: [signed(st, A, x, 1 << 20) for x in arg]])
    want = C(0, 64)
    for x, k in zip(arg, (H, M, SEC, MS)):
        want = dom.add(want, dom.scale(x, k))
    made = [o for o in outs if o.kind == 'ret']
    for o in made:
        for q in A.run(lambda: go(A, 'h_val', [Ptr(HOBJ)], o.st.copy())):
            ob('duration', 'from hours, minutes, seconds, milliseconds', q.kind == 'ret' and q.st.facts.eq(q.val, want), 'the duration is not the sum of its parts', HWHERE)
    ob('duration', 'made', bool(made), 'a duration is never made', HWHERE)

    def raw(st, A, v):
        o = A.run(lambda: go(A, 'h_raw', [Ptr(HOBJ), v], st.copy()))
        if len(o) != 1 or o[0].kind != 'ret':
            raise AnalysisError('a duration of so many units')
        return o[0].st
    for neg in (False, True):
        A = cx.use(Time(runs.mod))
        st0 = State()
        A.assume(st0, dom.cmp('ule', dom.neg(n) if neg else n, C(BIG, 64)), True)
        quot.declare(st0, n, -BIG if neg else 0, 0 if neg else BIG)
        st = raw(st0, A, n)
        f = quot.form(st, n)
        parts = {'h_h': quot.div(f, H), 'h_m': quot.addf(quot.div(f, M), quot.div(f, H), -60),
                 'h_s': quot.addf(quot.div(f, SEC), quot.div(f, M), -60), 'h_ml': quot.addf(quot.div(f, MS), quot.div(f, SEC), -1000), 'h_val': f}
        for fn, w in parts.items():
            outs = A.run(lambda: go(A, fn, [Ptr(HOBJ)], st.copy()))
            for o in outs:
                ob('duration', fn[2:] + (' negative' if neg else ''), o.kind == 'ret' and quot.equal(o.st, o.val, w), 'the parts of a duration do not add up to it', HWHERE)
        for fn, args in (('h_str', [Ptr(HOBJ), Ptr(OUT)]), ('h_hns', [Ptr(OUT), n])):
            if neg and fn == 'h_str':
                continue
            outs = A.run(lambda: go(A, fn, args, st.copy()))
            ob('duration-text', fn[2:], any(o.kind == 'ret' for o in outs), 'a duration is never written', HWHERE)
            for o in outs:
                s = o.st
                p = out_text(A, o)
                if neg:
                    if quot.bounds(s, n)[0] >= 0:
                        continue            # 0, with the others
                    if p and p[0][0] == 'c' and p[0][1][:1] == '-':
                        p = ([('c', p[0][1][1:])] if p[0][1] != '-' else []) + p[1:]
                    else:
                        p = None
                g = quot.form(s, dom.neg(n) if neg else n)
                w = [quot.div(g, H), quot.addf(quot.div(g, M), quot.div(g, H), -60), quot.addf(quot.div(g, SEC), quot.div(g, M), -60),
                     quot.addf(quot.div(g, MS), quot.div(g, SEC), -1000)]
                ok = o.kind == 'ret' and p is not None and [x[0] for x in p] == ['n', 'c', 'n', 'c', 'n', 'c', 'n'] and \
                    p[1][1] == ':' and p[3][1] == ':' and p[5][1] == '.' and nval(s, p[2], w[1], 2) and nval(s, p[4], w[2], 2) and nval(s, p[6], w[3], 3) \
                    and quot.equal(s, p[0][1], w[0]) and (p[0][2] is not None and p[0][2] >= 2 or p[0][2] is None and s.facts.ule(C(10, 64), p[0][1]))
                ob('duration-text', fn[2:] + (' negative' if neg else ''), ok, 'a duration is not written as hours:minutes:seconds.milliseconds', HWHERE)
