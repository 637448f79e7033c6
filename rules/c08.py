"""No failure of the system is ignored, and each keeps its error number. Error-flow analysis: every call into the event
loop, thread and file primitives that can fail is replaced by its contract (success, or failure with any error number),
and all paths of the operations that make such calls are interpreted. On each path on which a call failed the operation
must raise an error carrying that number, unless the failure is one of the listed answers (lock busy, timed out, file not
there yet when it is to be created, directory already there). The exception itself is analysed too: every way to build or
copy it keeps the number."""
import re
import dom
from dom import C, S, Ptr, NULL, isc, cv, mk
from absint import Interp, State
import models
from c05 import start, lastloc
from c06 import rets

LEVEL = 'proof'
ASSUMPTIONS = ['error numbers are between 1 and 4095, negative for libuv, positive for pthread',
               'closing a loop that is still busy and errors while destroying a lock are not reported (destructors)']
FLOOR = 45
UNITS = ['mg/core/file.cpp', 'mg/core/thread.cpp', 'mg/core/uvbase.cpp', 'mg/core/nx/util.cpp']
DRIVER = r'''
#include "mgcore.h"
#include "util.h"
#include <stddef.h>
using namespace mg::core;
using namespace mg::uv;
template class mg::core::CResource<uvloop>;
template class mg::core::CResource<uvloopthread>;
template class mg::core::CResource<uv_fs_t>;
template class mg::core::CResource<CBuffer<unsigned char> >;
extern "C" {
void e_lock_new(void* w) { new (w) critical_section(); }
bool e_trylock(critical_section* c) { return c->critical_section::try_lock(); }
void e_event_new(void* w) { new (w) signal_event(); }
bool e_event_wait(signal_event* e, unsigned ms) { return e->signal_event::wait(ms); }
void e_loop_new(void* w) { new (w) uvloop(); }
bool e_loop_run(uvloop* l) { return l->run(UV_RUN_DEFAULT); }
void e_thread_new(void* w) { new (w) uvloopthread(); }
void e_thread_start(uvloopthread* t) { t->uvloopthread::start(); }
void e_thread_join(uvloopthread* t) { t->join(); }
void e_setup(void* wl, void* wf) { new (wl) loopthread(new uvloopthread()); new (wf) cfile(*(loopthread*)wl); }
void e_open(cfile* f, const char* path, int flags) { f->open(path, flags, true); }
void e_open_sync(cfile* f, const char* path, int flags) { f->open_sync(path, flags); }
void e_open_write(cfile* f, const char* path) { f->open_write_sync(path); }
void e_close(cfile* f) { f->close(true); }
void e_close_sync(cfile* f) { f->close(false); }
void e_read(cfile* f, unsigned n) { f->read(n); }
void e_write(cfile* f, const unsigned char* p, unsigned n) { f->write(p, n); }
void e_sf_new(void* w) { new (w) sync_file_bitstream(); }
void e_sf_open(sync_file_bitstream* f, const char* path, bool rd) { f->open(path, rd); }
void e_delete(const char* p) { delete_file(p); }
void e_mkdir(const char* p) { create_directory(p); }
int x_a(void* w, int n) { new (w) mgexception(n, "f", 1); return ((mgexception*)w)->get_error_number(); }
int x_b(void* w, int n) { new (w) mgexception(n, "m", "f", 1); return ((mgexception*)w)->get_error_number(); }
int x_c(void* w, void* v, int n) { mgexception* a = new (v) mgexception(n, "m", "f", 1); new (w) mgexception(*a); return ((mgexception*)w)->get_error_number(); }
int x_d(void* w, int n) { new (w) mgexceptionbase(n); return ((mgexceptionbase*)w)->get_error_number(); }
void x_check(int n) { MGCHECK(n); }
void x_uvcheck(int n) { UVCHECK(n); }
void x_uvcheckl(long n) { UVCHECK(n); }
void x_basecheck(int n) { MGBASECHECK(n); }
unsigned long o_result() { return offsetof(uv_fs_t, result); }
int k_enoent() { return UV_ENOENT; } int k_creat() { return O_CREAT; } int k_eexist() { return EEXIST; } int k_timedout() { return UV_ETIMEDOUT; }
}
'''
F, LT = ('file',), ('lt',)
UV32 = r'uv_mutex_init|uv_mutex_init_recursive|uv_cond_init|uv_loop_init|uv_run|uv_thread_create|uv_thread_create_ex|uv_thread_join'
PT = r'pthread_mutex_init|pthread_cond_init|pthread_create|pthread_join'


def interp(cx, mod, kk=None, ok=False, real_exc=False):
    """ok: every call succeeds (to build a state)"""
    A = cx.use(Interp(mod))
    k, enoent, eexist = kk.result, kk.enoent, kk.eexist
    models.install_std(A)
    models.install_locks(A)

    def twait(A, st, ins, args, n):
        s2 = st.copy()
        e = S(('err', n, s2.fresh()), 32, (1 << 32) - 4095, (1 << 32) - 1)
        to = C(kk.timedout & 0xffffffff, 32)
        s2.facts.assume(dom.cmp('eq', e, to), False)
        s2.ev('fails', n, e, -1, A.loc(s2, ins), args)
        return [('ret', st, to), ('ret', s2, e)]
    A.hook('uv_cond_timedwait', twait)
    A.hooks.insert(0, A.hooks.pop())
    if not real_exc:
        models.install_exc(A)
    models.install_streams(A)

    def fallible(kind, name, sgn):
        def f(A, st, ins, args, n):
            loc = A.loc(st, ins)
            good = C(0, 32)
            if n == 'uv_run':
                good = S(('uvrun', st.fresh()), 32, 0, 0x7fffffff)
            if ok:
                return C(0, 32)
            s2 = st.copy()
            e = S(('err', n, s2.fresh()), 32, (1 << 32) - 4095, (1 << 32) - 1) if sgn < 0 else S(('err', n, s2.fresh()), 32, 1, 4095)
            s2.ev('fails', n, e, sgn, loc, args)
            st.ev('works', n, loc)
            return [('ret', st, good), ('ret', s2, e)]
        return f
    A.hooks.insert(0, (re.compile('(?:%s)' % UV32), fallible('uv', '', -1)))
    A.hooks.insert(0, (re.compile('(?:%s)' % PT), fallible('pthread', '', 1)))
    A.hookcache = {}
    A.hook('uv_loop_close|uv_loop_alive', lambda A, st, ins, args, n: C(0, 32))
    A.hook('uv_stop', lambda A, st, ins, args, n: ())
    A.hook('uv_hrtime', lambda A, st, ins, args, n: C(1000, 64))
    A.hook('uv_strerror', lambda A, st, ins, args, n: Ptr(('*', 'strerror')))
    A.hook('uv_default_loop', lambda A, st, ins, args, n: Ptr(('*', 'loop')))
    A.hook('uv_fs_req_cleanup', lambda A, st, ins, args, n: ())

    def fs(A, st, ins, args, n):
        loc = A.loc(st, ins)
        req, cb = args[1], args[-1]
        sync = cb.op == 'c' and cv(cb) == 0
        s2 = st.copy()
        at = Ptr(req.a[0], dom.add(req.a[1], C(k, 64)))
        r = S(('fs', st.fresh()), 32, 1, 0x7fffffff) if n == 'uv_fs_open' and sync else C(0, 32)
        e = S(('err', n, s2.fresh()), 32, (1 << 32) - 4095, (1 << 32) - 1)
        if sync:
            A.poke(st, at, 8, dom.zext(r, 64))
            A.poke(s2, at, 8, dom.sext(e, 64))
        if ok:
            return r
        s2.ev('fails', n, e, -1, loc, args)
        st.ev('works', n, loc)
        if n != 'uv_fs_stat':
            return [('ret', st, r), ('ret', s2, e)]
        # a file that is not there, and any other failure
        s3 = st.copy()
        s3.trace = s2.trace
        e3 = C(enoent & 0xffffffff, 32)
        A.poke(s3, at, 8, dom.sext(e3, 64))
        s3.trace = s3.trace[1]
        s3.ev('fails', n, e3, -1, loc, args)
        s2.facts.assume(dom.cmp('eq', e, e3), False)
        return [('ret', st, r), ('ret', s2, e), ('ret', s3, e3)]
    A.hook(r'uv_fs_(?:open|close|read|write|stat|fsync|ftruncate)', fs)

    def libc(A, st, ins, args, n):
        loc = A.loc(st, ins)
        s2 = st.copy()
        en = S(('errno', s2.fresh()), 32, 1, 4095)
        s2.ghost['errno'] = en
        A.poke(s2, Ptr(('errno',)), 4, en)
        s2.ev('fails', n, en, 0, loc, args)
        s3 = s2.copy()
        s3.trace = s3.trace[1]
        ee = C(eexist, 32)
        A.poke(s3, Ptr(('errno',)), 4, ee)
        s3.ev('fails', n, ee, 0, loc, args)
        s2.facts.assume(dom.cmp('eq', en, ee), False)
        st.ev('works', n, loc)
        return [('ret', st, C(0, 32)), ('ret', s2, C(0xffffffff, 32)), ('ret', s3, C(0xffffffff, 32))]
    A.hook('mkdir|remove|unlink|rmdir', libc)
    A.hook('__errno_location', lambda A, st, ins, args, n: Ptr(('errno',)))

    def fopen(A, st, ins, args, n):
        s2 = st.copy()
        s2.ev('fails', n, None, 0, A.loc(st, ins), args)
        st.ev('works', n, A.loc(st, ins))
        st.facts.bl[mk('isnull', 1, ('FILE',))] = False
        return [('ret', st, Ptr(('FILE',))), ('ret', s2, NULL)]
    A.hook('fopen|fopen64', fopen)
    A.templates = [lambda st, rid: {'size': C(256, 64)} if rid in (('FILE',), ('errno',)) else None]
    return A


def allowed(k, st, e, flags):
    """failures that are an answer, not an error"""
    n, v = e[1], e[2]
    f = st.facts
    if n == 'uv_fs_stat' and f.decide(dom.cmp('eq', v, C(k.enoent & 0xffffffff, 32))) is True:
        return True
    if n == 'mkdir' and f.decide(dom.cmp('eq', v, C(k.eexist, 32))) is True:
        return True
    return False


class K:
    pass


def check(cx):
    mod = cx.build(UNITS, DRIVER)
    k = K()
    A = cx.use(Interp(mod))
    for n in ('o_result', 'k_enoent', 'k_creat', 'k_eexist', 'k_timedout'):
        setattr(k, n[2:], cv(rets(A.run(lambda: start(A, n, [], State())))[0].val))
    A = interp(cx, mod, k, ok=True)
    o = rets(A.run(lambda: start(A, 'e_setup', [Ptr(LT), Ptr(F)], State())))
    cx.anchor(o, 'construction of loop thread and file')
    st0 = o[0].st
    base = len(list(st0.events()))
    thr = None
    A = interp(cx, mod, k, ok=True)
    to = rets(A.run(lambda: start(A, 'e_thread_new', [Ptr(('t',))], State())))
    stt = to[0].st
    A = interp(cx, mod, k, ok=True)
    tj = rets(A.run(lambda: start(A, 'e_thread_start', [Ptr(('t',))], stt.copy())))[0].st
    A = interp(cx, mod, k, ok=True)
    op = rets(A.run(lambda: start(A, 'e_open_sync', [Ptr(F), Ptr(('path',)), C(0, 32)], st0.copy())))
    cx.anchor(op, 'an opened file')
    opened = op[0].st
    A = interp(cx, mod, k, ok=True)
    ev0 = rets(A.run(lambda: start(A, 'e_event_new', [Ptr(('e',))], State())))[0].st
    A = interp(cx, mod, k, ok=True)
    cs0 = rets(A.run(lambda: start(A, 'e_lock_new', [Ptr(('c',))], State())))[0].st
    A = interp(cx, mod, k, ok=True)
    lp0 = rets(A.run(lambda: start(A, 'e_loop_new', [Ptr(('l',))], State())))[0].st
    A = interp(cx, mod, k, ok=True)
    sf0 = rets(A.run(lambda: start(A, 'e_sf_new', [Ptr(('sf',))], State())))
    cx.anchor(sf0, 'construction of a synchronous file')
    sf0 = sf0[0].st
    path = Ptr(('path',))
    scen = [('lock creation', 'e_lock_new', [Ptr(('c',))], State()), ('event creation', 'e_event_new', [Ptr(('e',))], State()),
            ('timed wait', 'e_event_wait', [Ptr(('e',)), C(10, 32)], ev0),
            ('loop creation', 'e_loop_new', [Ptr(('l',))], State()), ('loop run', 'e_loop_run', [Ptr(('l',))], lp0),
            ('loop thread creation', 'e_thread_new', [Ptr(('t',))], State()), ('thread start', 'e_thread_start', [Ptr(('t',))], stt),
            ('thread join', 'e_thread_join', [Ptr(('t',))], tj)]
    for fl, nm in ((0, 'read only'), (k.creat | 1, 'create')):
        scen += [('open %s' % nm, 'e_open', [Ptr(F), path, C(fl, 32)], st0), ('synchronous open %s' % nm, 'e_open_sync', [Ptr(F), path, C(fl, 32)], st0)]
    scen += [('open for writing', 'e_open_write', [Ptr(F), path], st0), ('close', 'e_close', [Ptr(F)], opened),
             ('synchronous close', 'e_close_sync', [Ptr(F)], opened), ('read', 'e_read', [Ptr(F), C(5, 32)], opened),
             ('write', 'e_write', [Ptr(F), Ptr(('src',)), C(5, 32)], opened),
             ('stdio open to read', 'e_sf_open', [Ptr(('sf',)), path, C(1, 1)], sf0), ('stdio open to write', 'e_sf_open', [Ptr(('sf',)), path, C(0, 1)], sf0),
             ('delete file', 'e_delete', [path], State()), ('create directory', 'e_mkdir', [path], State())]
    sites = {}
    for name, fn, args, st in scen:
        flow(cx, mod, k, name, fn, args, st, sites)
    for kk, n in sorted(sites.items()):
        cx.notes.append('%s at %s:%d analysed failing on %d paths' % (kk[0], kk[1][0], kk[1][1], n))
    # an answer, not an error: busy lock
    A = interp(cx, mod, k)
    for o in A.run(lambda: start(A, 'e_trylock', [Ptr(('c',))], cs0.copy())):
        if o.kind == 'end':
            continue
        busy = any(e[0] == 'trylock-fail' for e in o.st.events())
        cx.ob('answer', 'busy lock' if busy else 'free lock', o.kind == 'ret' and isc(o.val) and cv(o.val) == (0 if busy else 1), None,
              'try_lock does not answer whether it took the lock', 'C08|trylock')
    exceptions(cx, mod, k)


def flow(cx, mod, k, name, fn, args, st, sites):
    A = interp(cx, mod, k)
    base = len(list(st.events()))
    nfail = 0
    for o in A.run(lambda: start(A, fn, args, st.copy())):
        ev = list(o.st.events())[base:]
        fails = [e for e in ev if e[0] == 'fails']
        if o.kind == 'end':
            for e in ev:
                if e[0] in ('uaf', 'nullderef', 'doublefree'):
                    cx.ob('error-path', '%s at %s:%d' % ((name,) + e[1]), False, e[1], '%s: a failure leads to %s' % (name, e[0]), 'C08|mem|' + name)
            continue
        for e in fails:
            sites[(e[1], e[4])] = sites.get((e[1], e[4]), 0) + 1
        if not fails:
            if o.kind == 'throw':
                cx.ob('no-false-error', name, any(e[0] == 'badalloc' for e in ev) or any(e[0] == 'extthrow' for e in ev), lastloc(ev),
                      '%s raises an error although nothing failed' % name, 'C08|false|' + name)
            continue
        nfail += 1
        for i, e in enumerate(fails):
            if allowed(k, o.st, e, args):
                if o.kind == 'ret' and e[1] == 'uv_fs_stat':
                    cx.ob('answer', '%s: not there' % name, any(x[0] in ('works', 'fails') and x[1] == 'uv_fs_open' for x in ev), e[4],
                          '%s ends quietly although the file is not there' % name, 'C08|answer|' + name)
                    continue
                if e[1] != 'uv_fs_stat':
                    if i == len(fails) - 1:
                        cx.ob('answer', '%s: %s' % (name, e[1]), o.kind == 'ret', e[4], '%s raises an error for an answer that is none' % name, 'C08|answer|' + name)
                    continue
                if i < len(fails) - 1:
                    continue
            if not cx.ob('raised', '%s: %s fails' % (name, e[1]), o.kind == 'throw' and i == len(fails) - 1, e[4],
                         '%s goes on although %s failed' % (name, e[1]), 'C08|ignored|%s|%s' % (name, e[1])):
                continue
            num = o.st.ghost.get(('mgerr', A.canon(o.st, o.val[0].a[0]))) if o.val[0] is not None and o.val[0].op == 'ptr' else None
            if e[3] == 0:
                cx.ob('number', '%s: %s' % (name, e[1]), num is not None and o.st.facts.decide(dom.cmp('slt', num, C(0, 32))) is True, e[4],
                      '%s: the error of %s is raised with a number that is no error' % (name, e[1]), 'C08|number|' + name)
            else:
                want = e[2] if e[3] < 0 else dom.sub(C(0, 32), e[2])
                cx.ob('number', '%s: %s' % (name, e[1]), num is not None and dom.same(num, want), e[4],
                      '%s: %s fails with one number and another one is raised' % (name, e[1]), 'C08|number|' + name)
    cx.ob('covered', name, nfail > 0, None, '%s: no failing path' % name, 'C08|covered|' + name)


def exceptions(cx, mod, k):
    n = S(('num',), 32)

    def strings(A):
        def f(A, st, ins, args, nm):
            return args[0] if ins.ty.k == 'ptr' and args else () if ins.ty.k == 'void' else A.freshv(st, ins.ty, 'str')
        A.hook(r'(?:.* )?mg::core::CstringT<.*>::.*', f)
        A.hook(r'(?:.* )?mg::core::operator[+=<>!]+.*Cstring.*', f)
    for fn, args in (('x_a', [Ptr(('x',)), n]), ('x_b', [Ptr(('x',)), n]), ('x_c', [Ptr(('x',)), Ptr(('y',)), n]), ('x_d', [Ptr(('x',)), n])):
        A = interp(cx, mod, k, real_exc=True)
        strings(A)
        outs = [o for o in A.run(lambda: start(A, fn, args, State())) if o.kind != 'end']
        cx.ob('exception', fn, outs and all(o.kind == 'ret' and dom.same(o.val, n) for o in outs), None,
              'an exception does not carry the number it was built with', 'C08|exc|' + fn)
    for fn, w in (('x_check', 32), ('x_uvcheck', 32), ('x_uvcheckl', 64), ('x_basecheck', 32)):
        A = interp(cx, mod, k)
        A.hook(r'mg::core::mgexceptionbase::mgexceptionbase\(int\)', lambda A, st, ins, args, nm: (
            st.ghost.__setitem__(('mgerr', A.canon(st, args[0].a[0])), args[1]), ())[1])
        for lo, hi, neg in ((0, (1 << (w - 1)) - 1, False), ((1 << w) - 4095, (1 << w) - 1, True)):
            v = S(('v', neg), w, lo, hi)
            for o in A.run(lambda: start(A, fn, [v], State())):
                if o.kind == 'end':
                    continue
                num = o.st.ghost.get(('mgerr', A.canon(o.st, o.val[0].a[0]))) if o.kind == 'throw' else None
                want = dom.trunc(v, 32) if w == 64 else v
                cx.ob('check', '%s %s' % (fn, 'negative' if neg else 'not negative'), (o.kind == 'throw') == neg and (
                    not neg or (num is not None and dom.same(num, want))), None, 'the error check misses errors, raises where there is none or changes the number',
                    'C08|check|' + fn)
