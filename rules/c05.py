"""A signalled event is seen by every waiter: monitor-discipline analysis of the signal event.
The state cell, the mutex and the condition variable of the event are discovered from its own constructor and from the
effect of signalling. Every operation is then interpreted from an arbitrary state, with other threads free to change the
state whenever the mutex is not held and waits free to wake for no reason: (1) each access of the state holds the mutex
or is atomic; (2) a wait returns, and a timed wait reports success, only on a path that observed the state signalled, and
reports failure only after a time-out (or, for a zero time, after observing it clear); (3) signalling stores the state in
the mutex and wakes all waiters through the condition variable they wait on; (4) waits give the mutex up exactly once;
(5) every exit leaves the mutex as it found it; (6) the time asked for is the time waited for."""
import re
import dom
from dom import C, S, Ptr, isc, cv, mk
from absint import Interp, State
import models

LEVEL = 'proof'
ASSUMPTIONS = ['libuv mutexes exclude, its condition variables wake as documented']
FLOOR = 30
DRIVER = r'''
#include "mgcore.h"
using namespace mg::core;
extern "C" {
void se_new(void* w) { new (w) signal_event(); }
void se_del(signal_event* e) { e->signal_event::~signal_event(); }
void se_signal(signal_event* e) { e->signal_event::signal(); }
void se_reset(signal_event* e) { e->signal_event::reset(); }
void se_wait(signal_event* e) { e->signal_event::wait(); }
bool se_waitms(signal_event* e, uint32_t ms) { return e->signal_event::wait(ms); }
bool se_is(signal_event* e) { return e->signal_event::is_signaled(); }
unsigned long se_size() { return sizeof(signal_event); }
}
'''
OBJ = ('se',)
MUT, CND = 40, 48


class Mon:
    pass


def interp(cx, mod, m=None, clock=None):
    A = cx.use(Interp(mod))
    models.install_std(A)
    models.install_locks(A)
    models.install_exc(A)

    def hr(A, st, ins, args, n):
        if clock is not None:
            return C(clock, 64)
        st.ev('clock')
        return S(('hr', st.fresh()), 64, 1, 1 << 62)
    A.hook('uv_hrtime|uv_now', hr)
    A.templates = [lambda st, rid: {'size': C(m.size, 64)} if rid == OBJ and m else None]
    if m is None or m.cell is None:
        return A
    off, n, clear, sett = m.cell
    lo, hi = min(clear, sett), max(clear, sett)

    def heldnow(st):
        return st.ghost.get(('lock', OBJ, m.mutex), 0) > 0

    def acq(A, st, k):
        if k[1:] == (OBJ, m.mutex):
            A.quiet = True
            A.poke(st, Ptr(OBJ, C(off, 64)), n, S(('sig', st.fresh()), 8 * n, lo, hi))
            A.quiet = False
            st.ev('changed')
    A.on_acquire = [acq]
    A.quiet = False

    def covers(o, k):
        return isc(o) and isinstance(k, int) and cv(o) < off + n and cv(o) + k > off

    def ld(A, st, reg, o, k, v, ins, at):
        if reg.rid == OBJ and not A.quiet and ins is not None and covers(o, k):
            st.facts.assume(dom.cmp('ule', v, C(hi, v.w)), True)
            st.facts.assume(dom.cmp('uge', v, C(lo, v.w)), True)
            st.ev('obs', v, heldnow(st), at, A.loc(st, ins))

    def sto(A, st, reg, o, k, v, ins, at):
        if reg.rid == OBJ and not A.quiet and ins is not None and covers(o, k):
            st.ev('put', v, heldnow(st), at, A.loc(st, ins))
    A.on_load.append(ld)
    A.on_store.append(sto)
    return A


def learn(cx, mod):
    m = Mon()
    m.cell = None
    A = interp(cx, mod)
    m.size = cv([o for o in A.run(lambda: start(A, 'se_size', [], State())) if o.kind == 'ret'][0].val)
    A = interp(cx, mod, m)
    outs = [o for o in A.run(lambda: start(A, 'se_new', [Ptr(OBJ)], State())) if o.kind == 'ret']
    cx.anchor(outs, 'signal event construction')
    st0 = outs[0].st
    inits = [(e[1], e[2]) for e in st0.events() if e[0] == 'init' and isinstance(e[2], dom.T) and e[2].op == 'ptr'
             and A.canon(st0, e[2].a[0]) == OBJ]
    mu = [cv(p.a[1]) for nme, p in inits if 'mutex_init' in nme]
    co = [cv(p.a[1]) for nme, p in inits if 'cond_init' in nme]
    cx.ob('one-monitor', 'one mutex and one condition variable initialised', len(mu) == 1 and len(co) == 1, None,
          'the event initialises %d mutexes and %d condition variables' % (len(mu), len(co)))
    if not mu or not co:
        return None, None
    m.mutex, m.cond = mu[0], co[0]
    outs1 = [o for o in A.run(lambda: start(A, 'se_signal', [Ptr(OBJ)], st0.copy())) if o.kind == 'ret']
    diff = set()
    for o in outs1:
        for b in range(m.size):
            if m.mutex <= b < m.mutex + MUT or m.cond <= b < m.cond + CND:
                continue
            x, y = A.peek(st0, Ptr(OBJ, C(b, 64)), 1), A.peek(o.st, Ptr(OBJ, C(b, 64)), 1)
            if x is not y and not dom.same(x, y):
                diff.add(b)
    if not cx.ob('state-cell', 'signalling changes the state of the event', bool(diff), None,
                 'signalling a new event leaves its state unchanged'):
        return None, None
    lo, hi = min(diff), max(diff)
    n = hi - lo + 1
    n = 1 if n == 1 else 4 if n <= 4 else 8
    x, y = A.peek(st0, Ptr(OBJ, C(lo, 64)), n), A.peek(outs1[0].st, Ptr(OBJ, C(lo, 64)), n)
    cx.anchor(isc(x) and isc(y), 'constant clear and signalled states')
    m.cell = (lo, n, cv(x), cv(y))
    return m, st0


def start(A, fn, args, st):
    A.start(fn, args, st)
    return st


def check(cx):
    mod = cx.build(['mg/core/thread.cpp'], DRIVER)
    m, st0 = learn(cx, mod)
    if m is None:
        return
    off, n, clear, sett = m.cell

    def arbitrary(A, prev=None):
        st = st0.copy()
        st.trace = None
        A.quiet = True
        A.poke(st, Ptr(OBJ, C(off, 64)), n, prev if prev is not None else S(('sig', 0), 8 * n, min(clear, sett), max(clear, sett)))
        A.quiet = False
        return st

    def ops(name, args, prev=None, clock=None):
        A = interp(cx, mod, m, clock)
        base = len(list(st0.events()))
        outs = A.run(lambda: start(A, name, [Ptr(OBJ)] + args, arbitrary(A, prev)))
        res = []
        for o in outs:
            ev = list(o.st.events())
            res.append((o, ev))
        return A, res

    def fact(st, t):
        return st.facts.decide(t)

    def is_set(st, v):
        return fact(st, dom.cmp('eq', v, C(sett, v.w)))

    MS = S(('ms',), 32)
    table = [('signal', 'se_signal', []), ('reset', 'se_reset', []), ('wait', 'se_wait', []),
             ('timed wait', 'se_waitms', [MS]), ('is signalled', 'se_is', [])]
    for nme, fn, args in table:
        A, res = ops(fn, args)
        cx.anchor([1 for o, ev in res if o.kind == 'ret'], nme + ' returns')
        for o, ev in res:
            st = o.st
            for e in ev:
                if e[0] in ('obs', 'put'):
                    cx.ob('under-lock', '%s: %s at %s:%d' % (nme, 'read' if e[0] == 'obs' else 'write', e[4][0], e[4][1]),
                          e[2] or e[3], e[4], '%s: the state of the event is %s without its lock' % (
                              nme, 'read' if e[0] == 'obs' else 'written'), 'C05|unlocked|%s|%s' % (nme, e[0]))
                if e[0] == 'cond_wait':
                    good = e[1] == (OBJ, m.cond) and e[2] == ('lock', OBJ, m.mutex)
                    cx.ob('same-monitor', nme, good, e[4], nme + ': waits on another condition variable or lock than the one signalled',
                          'C05|monitor|' + nme)
                    cx.ob('gives-lock-up', nme, e[3] == 1, e[4],
                          '%s: waits while holding the lock %d times, so nobody can signal' % (nme, e[3]), 'C05|depth|' + nme)
            if o.kind == 'end':
                continue
            un = [d for k, d in models.unbalanced(st)]
            cx.ob('balanced', '%s exit by %s' % (nme, o.kind), not un, lastloc(ev), '%s: the lock is left with depth %s at exit by %s' % (
                nme, un, o.kind), 'C05|balance|' + nme)
            if o.kind == 'throw':
                err = [e for e in ev if e[0] == 'timedwait' and e[2] == 'error']
                cx.ob('throws-on-error', nme, bool(err), lastloc(ev), nme + ': fails although no call failed', 'C05|throw|' + nme)
                continue
            if nme in ('signal', 'reset'):
                puts = [i for i, e in enumerate(ev) if e[0] == 'put']
                seen = [e for e in ev if e[0] == 'obs' and (e[2] or e[3]) and is_set(st, e[1]) is (nme == 'signal')]
                want = sett if nme == 'signal' else clear
                if not puts:
                    cx.ob('effect', nme, bool(seen), lastloc(ev), '%s: a path leaves the state as it was' % nme, 'C05|effect|' + nme)
                    continue
                last = ev[puts[-1]]
                cx.ob('effect', nme, fact(st, dom.cmp('eq', last[1], C(want, last[1].w))) is True, last[4],
                      '%s: stores the wrong state' % nme, 'C05|effect|' + nme)
                if nme == 'signal':
                    br = [i for i, e in enumerate(ev) if e[0] == 'broadcast' and e[1] == (OBJ, m.cond)]
                    one = [e for e in ev if e[0] == 'signal' and e[1] == (OBJ, m.cond)]
                    ok = False
                    for b in br:
                        for i, e in enumerate(ev):
                            if e[0] == 'lock' and e[1] == ('lock', OBJ, m.mutex) and e[2] == 1 and i < b:
                                end = next((j for j in range(i, len(ev)) if ev[j][0] == 'unlock' and ev[j][1] == e[1] and ev[j][2] == 0), len(ev))
                                if i < puts[-1] < end or (puts[-1] < i and last[3]):
                                    ok = True
                    cx.ob('wakes-all', 'signal', ok, (one[0][3] if one else last[4]),
                          'signal: the change of state is not followed by waking every waiter (%s)' % (
                              'one waiter is woken' if one else 'no waiter is woken' if not br else 'waiters are woken before the change'),
                          'C05|wake')
                continue
            # waits
            if nme == 'wait':
                cx.ob('observed', 'wait returns', any(e[0] == 'obs' and (e[2] or e[3]) and is_set(st, e[1]) for e in ev), lastloc(ev),
                      'wait: returns on a path that has not observed the event signalled (a wake-up is taken for a signal)', 'C05|observed|wait')
                continue
            err = [e for e in ev if e[0] == 'timedwait' and e[2] == 'error']
            for want in (1, 0):
                s2 = st.copy()
                try:
                    if s2.facts.decide(dom.cmp('eq', o.val, C(want, o.val.w))) is False:
                        continue
                    if s2.facts.assume(dom.cmp('eq', o.val, C(want, o.val.w)), True) is False:
                        continue
                except Exception:
                    continue
                if want:
                    cx.ob('observed', nme + ' reports signalled', any(e[0] == 'obs' and (e[2] or e[3]) and is_set(s2, e[1]) for e in ev),
                          lastloc(ev), nme + ': reports the event signalled on a path that has not observed it', 'C05|observed|' + nme)
                else:
                    obs = [e for e in ev if e[0] == 'obs']
                    zero = nme != 'timed wait' or fact(s2, dom.cmp('eq', MS, C(0, 32))) is True
                    ok = any(e[0] == 'timedwait' and e[2] == 'timedout' for e in ev) or (
                        zero and any(is_set(s2, e[1]) is False and (e[2] or e[3]) for e in obs))
                    ok = ok and not (obs and is_set(s2, obs[-1][1]) is True)
                    cx.ob('timeout', nme + ' reports not signalled', ok, lastloc(ev),
                          nme + ': reports the event not signalled before the time is over', 'C05|timeout|' + nme)
            if nme == 'is signalled':
                blk = [e for e in ev if e[0] == 'cond_wait']
                tim = [e for e in ev if e[0] == 'timedwait']
                cx.ob('no-block', nme, len(blk) <= len(tim), lastloc(ev), nme + ': waits without limit', 'C05|block')
    # times: nothing signalled, clock standing still
    for ms in (0, 1, 1500, 0xffffffff):
        A = interp(cx, mod, m, 10 ** 15)
        first = []

        def tw(A, st, ins, args, nm):
            first.append((args[2], A.loc(st, ins)))
            return [('dead', st, None)]
        A.hooks.insert(0, (re.compile('uv_cond_timedwait'), tw))
        A.hookcache = {}
        A.run(lambda: start(A, 'se_waitms', [Ptr(OBJ), C(ms, 32)], arbitrary(A, C(clear, 8 * n))))
        for t, loc in first:
            if isc(t):
                cx.ob('time', 'wait(%d ms)' % ms, cv(t) == ms * 1000000, loc,
                      'waiting for %d ms asks for %d ns' % (ms, cv(t)), 'C05|time')
    # life cycle
    A = interp(cx, mod, m)
    base = len(list(st0.events()))
    outs = A.run(lambda: start(A, 'se_del', [Ptr(OBJ)], st0.copy()))
    for o in outs:
        if o.kind != 'ret':
            continue
        d = [(('m' if 'mutex' in e[1] else 'c'), cv(e[2].a[1])) for e in o.st.events() if e[0] == 'destroy' and A.canon(o.st, e[2].a[0]) == OBJ]
        cx.ob('destroyed', 'destructor', sorted(d) == sorted([('m', m.mutex), ('c', m.cond)]), None,
              'the destructor does not destroy the mutex and the condition variable exactly once: %s' % d, 'C05|destroy')
    cx.notes.append('state cell at offset %d, clear=%d signalled=%d' % (off, clear, sett))


def lastloc(ev):
    for e in reversed(ev):
        for x in reversed(e):
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and isinstance(x[1], int) and '/' in x[0]:
                return x
    return None
