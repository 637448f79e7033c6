"""The loop thread: runs callbacks only under its lock, keeps what they throw for the owner, ends only when asked to.
Typestate and lock-set analysis of the thread's entry point (as handed to the thread library) and of its owner-side
operations, each interpreted from the state its constructor leaves, with the loop returning any status or throwing, and
with the stop flag changing under the thread at any time: (1) every run and query of the loop holds the loop lock, and
the lock nests; (2) nothing thrown in the loop escapes the thread; it is stored, and the owner's end() raises it once,
after joining; (3) the end of the thread is always signalled; (4) the thread ends normally only after a stop was seen, and
then drains the loop; (5) a thread is joined exactly once and only if it was started, before anything it uses is
destroyed; (6) what both sides touch is atomic, under a common lock, or separated by the join."""
import re
import dom
from dom import C, S, Ptr, NULL, isc, cv, mk
from absint import Interp, State
import models
from c05 import start, lastloc

LEVEL = 'proof'
ASSUMPTIONS = ['libuv runs callbacks only inside uv_run', 'the signal event behaves as in C05', 'console output does not fail']
FLOOR = 60
DRIVER = r'''
#include "mgcore.h"
using namespace mg::core;
using namespace mg::uv;
template class mg::core::CResource<uvloop>;
template class mg::core::CResource<uvloopthread>;
typedef uvloopthread U;
extern "C" {
void cs_new(void* w) { new (w) critical_section(); }
void cs_lock(critical_section* c) { c->critical_section::lock(); }
void cs_unlock(critical_section* c) { c->critical_section::unLock(); }
bool cs_try(critical_section* c) { return c->critical_section::try_lock(); }
void inside();
void al(critical_section* c) { auto_lock l(*c); inside(); }
void ut_new(void* w) { new (w) U(); }
void ut_del(U* t) { t->U::~U(); }
void ut_start(U* t) { t->U::start(); }
void ut_stop(U* t) { t->U::stop(); }
void ut_join(U* t) { t->join(); }
void ut_end(U* t, bool check) { t->end(check); }
void ut_wait(U* t, uint32_t n) { t->set_wait_time(n); }
void ut_now(U* t) { t->loop_now(); }
bool ut_done(U* t, uint32_t ms) { return t->U::is_done(ms); }
void ut_set(U* t, std::exception_ptr* e) { t->set_exception(*e); }
void* ut_lock(U* t) { return &t->loop_lock(); }
void* ut_loop(U* t) { return t->get_loop(); }
unsigned long ut_size() { return sizeof(U); }
}
'''
OBJ = ('ut',)


def interp(cx, mod):
    A = cx.use(Interp(mod))
    models.install_std(A)
    models.install_locks(A)
    models.install_exc(A)
    models.install_streams(A)
    models.install_signal_event(A)

    def heldset(st):
        return tuple(k for k, d in st.ghost.items() if k[0] == 'lock' and d > 0)

    def uv_run(A, st, ins, args, n):
        mode = args[1]
        s2 = st.copy()
        s3 = st.copy()
        x = Ptr(('*', 'exc', 'callback'))
        st.ev('loop', 'run', mode, heldset(st), A.loc(st, ins), 'idle', args[0])
        s3.ev('loop', 'run', mode, heldset(s3), A.loc(s3, ins), 'stopped', args[0])
        s2.ev('loop', 'run', mode, heldset(s2), A.loc(s2, ins), 'threw', args[0])
        r = S(('uvrun', s3.fresh()), 32, 1, 0x7fffffff)
        return [('ret', st, C(0, 32)), ('ret', s3, r), ('throw', s2, (x, None))]

    def alive(A, st, ins, args, n):
        s2 = st.copy()
        st.ev('loop', 'alive', None, heldset(st), A.loc(st, ins), 'no', args[0])
        s2.ev('loop', 'alive', None, heldset(s2), A.loc(s2, ins), 'yes', args[0])
        return [('ret', st, C(0, 32)), ('ret', s2, S(('alive', s2.fresh()), 32, 1, 0x7fffffff))]
    A.hook('uv_run', uv_run)
    A.hook('uv_loop_alive', alive)

    def ok32(what):
        def f(A, st, ins, args, n):
            st.ev(what, args[0] if args else None, A.loc(st, ins), args)
            return C(0, 32) if ins.ty.k == 'int' else ()
        return f
    A.hook('uv_loop_init', ok32('loop-init'))
    A.hook('uv_loop_close', ok32('loop-close'))
    A.hook('uv_stop', ok32('loop-stop'))

    def create(A, st, ins, args, n):
        s2 = st.copy()
        st.ev('thread-create', args[1], args[2], A.loc(st, ins))
        e = S(('tcreate', s2.fresh()), 32, (1 << 32) - 4095, (1 << 32) - 1)
        s2.ev('thread-fail', e)
        return [('ret', st, C(0, 32)), ('ret', s2, e)]
    A.hook('uv_thread_create|uv_thread_create_ex', create)

    def join(A, st, ins, args, n):
        st.ev('thread-join', args[0], A.loc(st, ins))
        for h in getattr(A, 'on_join', ()):
            h(A, st)
        return C(0, 32)
    A.hook('uv_thread_join', join)
    A.on_join = []

    def inside(A, st, ins, args, n):
        st.ev('inside', heldset(st))
        s2 = st.copy()
        return [('ret', st, None), ('throw', s2, (Ptr(('*', 'exc', 'inside')), None))]
    A.hook('inside', inside)
    return A


def rets(outs):
    return [o for o in outs if o.kind == 'ret']


def locks(cx, mod):
    """the lock itself: nests, locks what it unlocks, scoped lock is released on every exit"""
    A = interp(cx, mod)
    outs = rets(A.run(lambda: start(A, 'cs_new', [Ptr(('cs',))], State())))
    cx.anchor(outs, 'lock construction')
    st0 = outs[0].st
    ev = list(st0.events())
    rec = any(e[0] == 'init' and e[1] == 'uv_mutex_init_recursive' for e in ev) or (
        any(e[0] == 'attr' and e[1] == 'pthread_mutexattr_settype' and cv(e[2][1]) == 1 for e in ev if len(e) > 2))
    cx.ob('nests', 'lock is recursive', rec, lastloc(ev), 'the lock is not recursive: an operation started in a callback deadlocks', 'C06|recursive')
    for fn, want in (('cs_lock', 1), ('cs_unlock', 0), ('cs_try', None)):
        A = interp(cx, mod)
        base = len(list(st0.events()))

        def init():
            st = st0.copy()
            for e in list(st0.events()):
                if e[0] == 'init' and 'mutex_init' in e[1]:
                    r, o = A.to_ptr(st, e[2])
                    st.ghost[('lock', r, cv(o))] = 1 if fn == 'cs_unlock' else 0
            return start(A, fn, [Ptr(('cs',))], st)
        for o in rets(A.run(init)):
            d = [v for k, v in o.st.ghost.items() if k[0] == 'lock']
            if want is None:
                got = d[0] if d else 0
                ok = o.st.facts.decide(dom.cmp('eq', o.val, C(got, 1))) is True
                cx.ob('try', 'try_lock reports %d' % got, ok, None, 'try_lock reports the opposite of what happened', 'C06|try')
            else:
                cx.ob('lock-effect', fn, d == [want], None, '%s leaves the mutex with depth %s' % (fn, d), 'C06|' + fn)
    A = interp(cx, mod)
    for o in A.run(lambda: start(A, 'al', [Ptr(('cs',))], st0.copy())):
        if o.kind == 'end':
            continue
        ev = list(o.st.events())
        ins = [e for e in ev if e[0] == 'inside']
        cx.ob('scoped', 'scope holds the lock', ins and len(ins[0][1]) == 1, None, 'a scoped lock does not hold the lock', 'C06|scoped')
        cx.ob('scoped', 'exit by ' + o.kind, not models.unbalanced(o.st), None,
              'a scoped lock is still held after leaving its scope by %s' % o.kind, 'C06|scoped-exit')


def check(cx):
    mod = cx.build(['mg/core/thread.cpp', 'mg/core/uvbase.cpp'], DRIVER)
    locks(cx, mod)
    A = interp(cx, mod)
    size = cv(rets(A.run(lambda: start(A, 'ut_size', [], State())))[0].val)
    outs = rets(A.run(lambda: start(A, 'ut_new', [Ptr(OBJ)], State())))
    cx.anchor(outs, 'loop thread construction')
    st0 = outs[0].st
    A = interp(cx, mod)
    lk = rets(A.run(lambda: start(A, 'ut_lock', [Ptr(OBJ)], st0.copy())))[0]
    lr, lo = A.to_ptr(lk.st, lk.val)
    muts = [cv(e[2].a[1]) for e in st0.events() if e[0] == 'init' and 'mutex_init' in e[1] and e[2].op == 'ptr'
            and A.canon(st0, e[2].a[0]) == lr]
    mut = [m for m in muts if cv(lo) <= m < cv(lo) + 16]
    cx.anchor(mut, 'mutex of the loop lock')
    LK = ('lock', lr, mut[0])
    # start
    A = interp(cx, mod)
    started = None
    for o in A.run(lambda: start(A, 'ut_start', [Ptr(OBJ)], st0.copy())):
        ev = list(o.st.events())
        tc = [e for e in ev if e[0] == 'thread-create']
        if o.kind == 'ret':
            cx.ob('start', 'start creates one thread', len(tc) == 1, lastloc(ev), 'start() returns having created %d threads' % len(tc), 'C06|start')
            if tc:
                started = o.st
                entry = (tc[0][1], tc[0][2])
        elif o.kind == 'throw':
            cx.ob('start', 'start fails only when the thread cannot be created', any(e[0] == 'thread-fail' for e in ev), lastloc(ev),
                  'start() fails although the thread was created', 'C06|startfail')
    if not cx.ob('start', 'a started thread', started is not None, None, 'start() never creates a thread', 'C06|start'):
        return
    cx.anchor(entry[0].op in ('fn', 'ptr'), 'thread entry')
    fname = entry[0].a[0] if entry[0].op == 'fn' else entry[0].a[0][1]
    # the stop flag: bytes of the object changed by stop()
    A = interp(cx, mod)
    so = rets(A.run(lambda: start(A, 'ut_stop', [Ptr(OBJ)], started.copy())))
    cx.anchor(so, 'stop')
    flag = set()
    for o in so:
        for b in range(size):
            x, y = A.peek(started, Ptr(OBJ, C(b, 64)), 1), A.peek(o.st, Ptr(OBJ, C(b, 64)), 1)
            if not dom.same(x, y):
                flag.add(b)
        ev = list(o.st.events())
        cx.ob('stop', 'stop interrupts the loop', any(e[0] == 'loop-stop' for e in ev), None,
              'stop() does not stop the loop', 'C06|stop')
    cx.ob('stop', 'stop leaves a request', bool(flag), None, 'stop() leaves no trace for the thread to see', 'C06|stopflag')
    clear = {b: A.peek(started, Ptr(OBJ, C(b, 64)), 1) for b in flag}
    # ---- the thread itself
    A = interp(cx, mod)
    thread_acc = {}

    def note(store, acc):
        def f(A, st, reg, off, n, v, ins, at):
            if reg.rid != OBJ or ins is None or not isc(off):
                return None
            nn = n if isinstance(n, int) else (cv(n) if isc(n) else 8)
            held = tuple(k for k, d in st.ghost.items() if k[0] == 'lock' and d > 0)
            for b in range(cv(off), cv(off) + nn):
                acc.setdefault(b, []).append((store, at, held, A.loc(st, ins), any(e[0] == 'thread-join' for e in st.events())))
            if not store and any(cv(off) <= b < cv(off) + nn for b in flag) and not getattr(A, 'frozen', False):
                r = S(('flag', st.fresh()), v.w, 0, 1)
                st.ev('flagread', r)
                return r
            return None
        return f
    A.on_load.append(note(False, thread_acc))
    A.on_store.append(note(True, thread_acc))
    outs = A.run(lambda: start(A, fname, [entry[1]], started.copy()))
    threw = None
    exccell = set()
    n0 = 0
    for o in outs:
        ev = list(o.st.events())
        for e in ev:
            if e[0] == 'loop':
                cx.ob('under-loop-lock', '%s at %s:%d' % (e[1], e[4][0], e[4][1]), LK in e[3], e[4],
                      'the loop is %s without the loop lock' % ('run' if e[1] == 'run' else 'queried'), 'C06|looplock|' + e[1])
            if e[0] in ('ev-wait',):
                cx.ob('waits-unlocked', 'wait at %s:%d' % e[2], not e[5], e[2], 'the thread waits while holding a lock', 'C06|waitlock')
        term = [e for e in ev if e[0] in ('terminate', 'abort')]
        cx.ob('no-escape', 'thread exit', o.kind != 'throw' and not term, lastloc(ev),
              'what a callback throws leaves the thread and ends the program', 'C06|escape')
        if o.kind != 'ret':
            continue
        n0 += 1
        loopev = [e for e in ev if e[0] == 'loop']
        bad = [e for e in loopev if e[5] == 'threw']
        sig = [e for e in ev if e[0] == 'ev-signal' and e[1][0] == OBJ]
        cx.ob('balanced', 'thread exit', not models.unbalanced(o.st), lastloc(ev), 'the thread ends holding a lock', 'C06|balance')
        doneoff = done_event(cx, mod, started)
        cx.ob('end-signalled', 'thread exit', any(e[1] == (OBJ, doneoff) for e in sig), lastloc(ev),
              'the thread ends without telling those who wait for its end', 'C06|ended')
        if bad:
            slots = []
            for b in range(0, size - 7, 8):
                v = A.peek(o.st, Ptr(OBJ, C(b, 64)), 8, True)
                if v.op == 'ptr' and v.a[0][:2] == ('*', 'exc'):
                    slots.append(b)
            cx.ob('kept', 'a thrown exception is kept', bool(slots), bad[-1][4],
                  'what a callback threw is dropped', 'C06|kept')
            exccell.update(slots)
        else:
            asked = any(e[5] == 'stopped' for e in loopev) or any(
                e[0] == 'flagread' and o.st.facts.decide(dom.cmp('ne', e[1], C(0, e[1].w))) is True for e in ev)
            cx.ob('asked', 'the thread ends only when asked to', asked, lastloc(ev),
                  'the thread ends although nobody stopped it (an idle loop is taken for the end)', 'C06|asked')
            runs = [e for e in loopev if e[1] == 'run']
            last = loopev[-1] if loopev else None
            drained = last is not None and ((last[1] == 'alive' and last[5] == 'no') or (
                last[1] == 'run' and len(runs) > 1 and isc(last[2]) and cv(last[2]) == 0))
            cx.ob('drained', 'the loop is drained before the thread ends', drained, lastloc(ev),
                  'the thread ends with operations still pending in the loop', 'C06|drained')
    cx.anchor(n0, 'an exit of the thread')
    if not cx.ob('kept', 'an exception slot', bool(exccell), None, 'what a callback threw is dropped', 'C06|kept'):
        return
    xc = min(exccell)
    # once stopped, the thread ends: with the request set from the start and an idle loop it goes round a bounded number of times
    A = interp(cx, mod)
    A.frozen = True

    def idle_run(A, st, ins, args, n):
        st.ev('loop', 'run', args[1], (), A.loc(st, ins), 'idle', args[0])
        if sum(1 for e in st.events() if e[0] == 'loop' and e[1] == 'run') > 6:
            st.ev('endless', A.loc(st, ins))
            endless.append(A.loc(st, ins))
            return [('dead', st, None)]
        return C(0, 32)
    endless = []
    A.hooks.insert(0, (re.compile('uv_run'), idle_run))
    A.hooks.insert(0, (re.compile('uv_loop_alive'), lambda A, st, ins, args, n: C(0, 32)))
    A.hookcache = {}

    def flagged():
        st = started.copy()
        for b in flag:
            A.poke(st, Ptr(OBJ, C(b, 64)), 1, C(1, 8))
        return start(A, fname, [entry[1]], st)
    k = sum(1 for o in A.run(flagged) if o.kind == 'ret')
    cx.ob('ends', 'a stopped thread ends', k and not endless, endless[0] if endless else None,
          'the thread goes on running an idle loop after it was stopped: end() waits for ever', 'C06|endless')
    # ---- owner side
    api_acc = {}
    for nme, fn, args in (('stop', 'ut_stop', []), ('loop_now', 'ut_now', []), ('set_wait_time', 'ut_wait', [S(('n',), 32)]),
                          ('is_done', 'ut_done', [S(('ms',), 32)]), ('get_loop', 'ut_loop', []), ('loop_lock', 'ut_lock', [])):
        A = interp(cx, mod)
        A.frozen = True
        acc = {}
        A.on_load.append(note(False, acc))
        A.on_store.append(note(True, acc))
        A.run(lambda: start(A, fn, [Ptr(OBJ)] + args, started.copy()))
        for b, l in acc.items():
            api_acc.setdefault(b, []).extend((nme,) + x for x in l)
    for b in sorted(set(api_acc) & set(thread_acc)):
        for nme, s1, a1, h1, l1, _ in api_acc[b]:
            for s2, a2, h2, l2, _ in thread_acc[b]:
                if not (s1 or s2):
                    continue
                ok = (a1 and a2) or bool(set(h1) & set(h2))
                cx.ob('shared', '%s and the thread at byte %d' % (nme, b), ok, l1 if not a1 else l2,
                      '%s %s what the thread %s at %s:%d, without atomics or a common lock' % (
                          nme, 'writes' if s1 else 'reads', 'writes' if s2 else 'reads', l2[0], l2[1]), 'C06|shared|' + nme)
    E = Ptr(('*', 'exc', 'callback'))

    def put(A, st, v):
        st.facts.bl[mk('isnull', 1, E.a[0])] = False
        A.poke(st, Ptr(OBJ, C(xc, 64)), 8, v)
    for pend in (True, False):
        for fl in (0, 1):
            for chk in (0, 1):
                A = interp(cx, mod)
                A.frozen = True

                def onjoin(A, st):
                    put(A, st, E if pend else NULL)
                A.on_join = [onjoin]

                def early(A, st, reg, off, n, v, ins, at):
                    if reg.rid == OBJ and isc(off) and cv(off) < xc + 8 and cv(off) + n > xc and ins is not None \
                            and not any(e[0] == 'thread-join' for e in st.events()):
                        st.ev('early', A.loc(st, ins))
                A.on_load.append(early)

                def init():
                    st = started.copy()
                    for b in flag:
                        A.poke(st, Ptr(OBJ, C(b, 64)), 1, C(1, 8) if fl else clear[b])
                    return start(A, 'ut_end', [Ptr(OBJ), C(chk, 1)], st)
                inst = 'end(%s), %s, %s' % ('check' if chk else '', 'stopped' if fl else 'running', 'exception pending' if pend else 'no exception')
                for o in A.run(init):
                    if o.kind == 'end':
                        continue
                    ev = list(o.st.events())
                    js = [i for i, e in enumerate(ev) if e[0] == 'thread-join']
                    cx.ob('joins', inst, len(js) == 1, lastloc(ev), 'end() joins the thread %d times' % len(js), 'C06|join')
                    if not fl:
                        ok = js and all(dom.same(A.peek(o.st, Ptr(OBJ, C(b, 64)), 1), C(1, 8)) for b in flag) and any(
                            e[0] == 'loop-stop' for e in ev[:js[0]])
                        cx.ob('stops-first', inst, ok, lastloc(ev), 'end() waits for a thread it has not stopped', 'C06|stopfirst')
                    er = [e for e in ev if e[0] == 'early'] + [('early', e[2]) for e in ev[:js[0] if js else 0] if e[0] == 'exc-read' and e[1] == (OBJ, xc)]
                    cx.ob('after-join', inst, not er, er[0][1] if er else None,
                          'end() looks at the exception before the thread has ended', 'C06|early')
                    unc = [e for e in ev if e[0] == 'call']
                    left = A.peek(o.st, Ptr(OBJ, C(xc, 64)), 8, True)
                    empty = dom.same(left, NULL)
                    if o.kind == 'throw':
                        cx.ob('raises', inst, pend and o.val[0] is E and empty, lastloc(ev),
                              'end() raises %s' % ('the exception but keeps it to raise it again' if pend and o.val[0] is E else 'something the loop did not throw'),
                              'C06|raise')
                    elif pend and not chk:
                        cx.ob('raises', inst, False, lastloc(ev), 'end() returns although a callback threw', 'C06|swallow')
                    elif pend:
                        cx.ob('raises', inst, not empty, lastloc(ev), 'end() drops the exception of the loop', 'C06|swallow')
                    else:
                        cx.ob('raises', inst, True)
                    cx.ob('balanced', inst, not models.unbalanced(o.st), lastloc(ev), 'end() leaves a lock held', 'C06|balance')
                if pend:
                    pass
    # with a pending exception and no other one in flight, end(check) must raise
    A = interp(cx, mod)
    A.on_join = [lambda A, st: put(A, st, E)]
    A.hooks.insert(0, (re.compile(r'std::uncaught_exceptions?\(\)'), lambda A, st, ins, args, n: C(0, ins.ty.a)))
    A.hookcache = {}
    for o in A.run(lambda: start(A, 'ut_end', [Ptr(OBJ), C(1, 1)], started.copy())):
        if o.kind != 'end':
            cx.ob('raises', 'end(check), nothing else in flight', o.kind == 'throw', None,
                  'end(check) returns although a callback threw', 'C06|swallow')
    # joining
    for nme, seq, want in (('never started', [], 0), ('started', ['ut_start'], 1)):
        A = interp(cx, mod)
        st = started if seq else st0
        for o in A.run(lambda: start(A, 'ut_join', [Ptr(OBJ)], st.copy())):
            if o.kind != 'ret':
                continue
            k = sum(1 for e in o.st.events() if e[0] == 'thread-join')
            cx.ob('join', nme, k == want, lastloc(list(o.st.events())), '%s: join() joins %d times' % (nme, k), 'C06|join|' + nme)
            A2 = interp(cx, mod)
            for o2 in A2.run(lambda: start(A2, 'ut_join', [Ptr(OBJ)], o.st.copy())):
                if o2.kind == 'ret':
                    k = sum(1 for e in o2.st.events() if e[0] == 'thread-join')
                    cx.ob('join', nme + ', twice', k == want, lastloc(list(o2.st.events())), '%s: joining twice joins the thread %d times' % (nme, k), 'C06|join2')
    for nme, st in (('started', started), ('never started', st0)):
        A = interp(cx, mod)
        A.on_join = [lambda A, st: A.poke(st, Ptr(OBJ, C(xc, 64)), 8, NULL)]
        for o in A.run(lambda: start(A, 'ut_del', [Ptr(OBJ)], st.copy())):
            if o.kind != 'ret':
                continue
            ev = list(o.st.events())
            js = [i for i, e in enumerate(ev) if e[0] == 'thread-join']
            de = [i for i, e in enumerate(ev) if e[0] in ('destroy', 'loop-close', 'free')]
            if nme == 'started':
                cx.ob('dtor', 'joins before destroying', len(js) == 1 and (not de or js[0] < de[0]), lastloc(ev),
                      'the destructor destroys what the thread uses before joining it', 'C06|dtor')
            else:
                cx.ob('dtor', 'does not join a thread never started', not js, ev[js[0]][2] if js else None,
                      'destroying a thread that was never started joins it', 'C06|dtor2')
            cl = [e for e in ev if e[0] == 'loop-close']
            cx.ob('dtor', nme + ': loop closed once', len(cl) == 1, None, 'the loop is closed %d times' % len(cl), 'C06|close')
    cx.notes.append('stop flag bytes %s, exception slot %d, thread entry %s' % (sorted(flag), xc, mod.demangle(fname)))


_done = {}


def done_event(cx, mod, st):
    """offset of the event is_done() waits on"""
    if id(mod) not in _done:
        A = interp(cx, mod)
        o = rets(A.run(lambda: start(A, 'ut_done', [Ptr(OBJ), C(5, 32)], st.copy())))[0]
        w = [e for e in o.st.events() if e[0] == 'ev-wait']
        cx.ob('is-done', 'is_done waits on one event and reports it', len(w) == 1 and w[0][1][0] == OBJ and dom.same(o.val, w[0][3]) and
              (w[0][4] is None or dom.same(w[0][4], C(5, 32))), None, 'is_done() does not report its event', 'C06|isdone')
        _done[id(mod)] = w[0][1][1] if w else None
    return _done[id(mod)]
