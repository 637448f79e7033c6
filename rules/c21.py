"""Copying a stream: copy_stream over abstract storages.

The copy is interpreted against a source and a destination that answer each request at once or later. What is answered later
runs between any two steps of the copying thread (the analysis enumerates the orders: deliveries in the order of the
requests, completions of writes in any order). Positions, lengths, the limits of the copy and the contents are symbols; events are
the monitors of C05. Checked on every path: each request is for the bytes after the last one, inside the limits; what is
delivered is written once, unchanged and in order; the copy returns or raises only when nothing is on its way and the last
completion has left the lock; all of it was copied; one flush at the end; it never waits for something that cannot come;
what both threads touch is guarded by one lock."""
import dom
from dom import C, S, Ptr, NULL, isc, cv, zext
from absint import Interp, State, AnalysisError
import models

LEVEL = 'other'
FLOOR = 100
UNITS = ['mg/core/bitstream.cpp', 'mg/core/thread.cpp', 'mg/core/uvbase.cpp']
DRIVER = r'''
#include "mgcore.h"
#include <new>
using namespace mg::core;
extern "C" {
int sched(); const unsigned char* s_ptr(); uint32_t s_len(); Ibitstream_cb* s_cb();
int s_req(uint32_t n, Ibitstream_cb* cb); bool s_eof(); uint64_t s_pos(); void s_seek(uint64_t p); void s_more();
int d_req(const unsigned char* p, uint32_t n, Ibitstream_cb* cb); void d_flush(); void d_bad(); void cb_end();
bool e_set(void* e); void e_clear(void* e);
void yield() {
  for (;;) {
    int k = sched();
    if (k == 0) return;
    if (k == 1) s_cb()->read_cb(s_ptr(), s_len()); else s_cb()->write_cb(s_len());
    cb_end();
  }
}
}
struct Src : Ibitstream_storage {
  void read(uint32_t n, Ibitstream_cb* cb) override { yield(); int k = s_req(n, cb); if (k == 2) throw 1; if (k == 1) { cb->read_cb(s_ptr(), s_len()); s_more(); } }
  void write(const unsigned char*, uint32_t, Ibitstream_cb*) override { d_bad(); }
  bool eof() override { yield(); return s_eof(); }
  void flush() override { d_bad(); }
  uint64_t get_position() const override { yield(); return s_pos(); }
  void set_position(uint64_t p) override { s_seek(p); }
  void idle() override { yield(); }
};
struct Dst : Ibitstream_storage {
  void read(uint32_t, Ibitstream_cb*) override { d_bad(); }
  void write(const unsigned char* p, uint32_t n, Ibitstream_cb* cb) override { int k = d_req(p, n, cb); if (k == 2) throw 2; if (k == 1) cb->write_cb(n); }
  bool eof() override { return false; }
  void flush() override { d_flush(); }
  uint64_t get_position() const override { return 0; }
  void set_position(uint64_t) override { d_bad(); }
  void idle() override { yield(); }
};
extern "C" {
void e_block(void* e) { do yield(); while (!e_set(e)); }
void e_reset(void* e) { yield(); e_clear(e); }
bool e_timed(void* e) { yield(); if (e_set(e)) return true; return false; }
void go(Src* s, Dst* d, uint32_t chunk, uint64_t a, uint64_t b) { copy_stream(*s, *d, chunk, a, b); }
void both_new(void* s, void* d) { new (s) Src; new (d) Dst; }
}
'''
ASSUMPTIONS = ['storages answer each request once, deliveries in the order of the requests, and move the position when a read is requested (C20, C07)',
               'nothing that was accepted fails later', 'contents and limits below 2^40 bytes, chunks of 1 byte at least']
SRC, DST = ('source',), ('destination',)
W = ('src/mg/core/bitstream.cpp', 0)
BIG = 1 << 40


class Stuck(Exception):
    pass


class Copy(Interp):
    """policy: function (state, kind) -> tuple of alternatives among 'now', 'late', 'raise'"""
    def __init__(self, mod, cfg):
        Interp.__init__(self, mod)
        self.cfg = cfg
        self.max_states = 400000
        self.max_steps = 40000000
        models.install_std(self)
        models.install_locks(self)
        models.install_exc(self)
        models.install_streams(self)
        self.locksets = {}
        g = self.hook
        E = r'mg::core::signal_event::'

        def me(A, st, p):
            r, o = A.to_ptr(st, p)
            return ('event', r, cv(o) if isc(o) else o)
        def born(A, st, ins, a, n):
            st.ghost[me(A, st, a[0])] = 0
            for v in mod.globals if isinstance(mod.globals, dict) else ():
                if v.endswith('12signal_eventE') and v.startswith('_ZTV'):
                    A.poke(st, a[0], 8, Ptr(('g', v), C(16, 64)))
            return ()
        g(E + r'signal_event\(\)', born)
        g(E + r'~signal_event\(\)', lambda A, st, ins, a, n: (st.ghost.__setitem__(me(A, st, a[0]), None), ())[1])

        def sig(v):
            def f(A, st, ins, a, n):
                k = me(A, st, a[0])
                if st.ghost.get(k) is None or not A.region(st, k[1]).alive:
                    st.ev('dead-event', A.loc(st, ins))
                st.ghost[k] = v
                st.ev('ev-signal' if v else 'ev-reset', k, A.loc(st, ins), bool(models.held(st)), st.ghost.get('in', 0))
                return ()
            return f
        g(E + r'signal\(\)', sig(1))
        g('e_clear', sig(0))
        # others can run before the event is cleared
        g(E + r'reset\(\)', lambda A, st, ins, a, n: [('push', st, (A.mod.func('e_reset'), [a[0]]))])

        def isset(A, st, ins, a, n):
            v = st.ghost.get(me(A, st, a[0]))
            if v is None:
                st.ev('dead-event', A.loc(st, ins))
            return C(1 if v else 0, ins.ty.a if ins.ty.k == 'int' else 8)
        g('e_set', lambda A, st, ins, a, n: self.eset(st, isset(A, st, ins, a, n), st.ghost.get('timed')))
        g(E + r'is_signaled\(\)', isset)

        def wait(A, st, ins, a, n):
            st.ev('wait', me(A, st, a[0]), A.loc(st, ins), bool(models.held(st)))
            timed = len(a) > 1
            st.ghost['timed'] = timed
            return [('push', st, (A.mod.func('e_timed' if timed else 'e_block'), [a[0]]))]
        g(E + r'wait\(.*\)', wait)
        for n in ('sched', 's_ptr', 's_len', 's_cb', 's_req', 's_eof', 's_pos', 's_seek', 's_more', 'd_req', 'd_flush', 'd_bad', 'cb_end'):
            g(n, getattr(self, n))

        def acc(A, st, reg, off, n, rw, ins):
            cb = st.ghost.get('cb')
            if cb is None or reg.rid != cb[0] or not isc(off):
                return
            if st.ghost.get('gone'):
                return
            held = tuple(k[2] for k in models.held(st) if k[1] == cb[0])
            t = st.ghost.get('in', 0)
            if not t and not st.ghost['pend']:
                return      # nothing else runs
            who = 'late' if t else 'client' if st.ghost.get('client') else 'copy'
            for b in range(cv(off), cv(off) + (n if isinstance(n, int) else 1)):
                self.locksets.setdefault(b, set()).add((who, st.ghost.get('client'), rw, held))
            if t:
                st.ghost['last'] = (bool(held), A.loc(st, ins))
        self.on_access.append(acc)

    def symunroll(self, f, h):
        return 1000

    def eset(self, st, v, timed):
        if not cv(v) and not timed and not st.ghost['pend'] and st.ghost.get('in', 0) == 0:
            st.ev('forever')
            raise_end('waits for ever')
        if not cv(v) and timed:
            # a timed wait that ended without an answer: something has to happen before the next one
            st.ghost['idle'] = st.ghost.get('idle', 0) + 1
            if not st.ghost['pend']:
                st.ghost['tries'] = st.ghost.get('tries', 0) + 1
                if st.ghost['tries'] > 3:
                    st.ev('forever')
                    raise_end('waits for ever')
        return v

    # ---- the scheduler
    def sched(self, A, st, ins, a, n):
        g = st.ghost
        if g.get('in', 0):
            return C(0, 32)
        pend = g['pend']
        must = pend and (g.pop('idle', 0) or g.get('drain') or self.blocked(st))
        if not pend:
            g['drain'] = 0
        budget = g.get('budget', 99)
        opts = []
        if not must:
            opts.append(None)
        if pend and (must or budget > 0):
            r = [i for i, p in enumerate(pend) if p[0] == 'r'][:1]
            w = [i for i, p in enumerate(pend) if p[0] == 'w']
            if self.cfg.get('fifo') or budget <= 0:
                w = w[:1]
            # a wait that cannot go on: one completion after the other, unless the scenario looks at all orders
            if not must and budget > 0 and len(pend) > 1:
                opts.append('all')
            opts += (w + r)[:1] if budget <= 0 or must and (self.cfg.get('fifo') or g.get('drain')) else r + w
        out = []
        for o in opts:
            s = st if o is opts[-1] else st.copy()
            if o is None:
                out.append(('ret', s, C(0, 32)))
                continue
            if o == 'all':
                s.ghost['drain'] = 1
                s.ghost['budget'] = budget - 1
                o = 0
            k, cb, p, ln = pend[o]
            s.ghost['pend'] = pend[:o] + pend[o + 1:]
            s.ghost['cur'] = (p, ln, cb)
            s.ghost['in'] = 1
            s.ghost['client'] = k
            s.ghost['last'] = None
            if not must:
                s.ghost['budget'] = budget - 1
            s.ev('run', k, p, ln)
            out.append(('ret', s, C(1 if k == 'r' else 2, 32)))
        return out

    def blocked(self, st):
        """inside a wait that cannot go on"""
        for f in reversed(st.frames):
            if f.fn.name == 'e_block':
                ev = f.env.get(f.fn.params[0][1])
                r, o = self.to_ptr(st, ev)
                return not st.ghost.get(('event', r, cv(o) if isc(o) else o))
        return False

    def cb_end(self, A, st, ins, a, n):
        st.ghost['in'] = 0
        st.ghost['client'] = None
        st.ev('ran', st.ghost.get('last'))
        return ()

    def s_ptr(self, A, st, ins, a, n):
        return st.ghost['cur'][0]

    def s_len(self, A, st, ins, a, n):
        return st.ghost['cur'][1]

    def s_cb(self, A, st, ins, a, n):
        return st.ghost['cur'][2]

    def s_more(self, A, st, ins, a, n):
        st.ghost['client'] = None
        return ()

    # ---- the source
    def s_seek(self, A, st, ins, a, n):
        st.ev('seek', a[0], A.loc(st, ins))
        st.ghost['pos'] = a[0]
        return ()

    def s_pos(self, A, st, ins, a, n):
        return st.ghost['pos']

    def s_eof(self, A, st, ins, a, n):
        L = st.ghost['L']
        pos = st.ghost['pos']
        if self.cfg.get('feof'):
            return C(int(st.ghost.get('short', 0)), 1)
        if st.ghost['reads'] >= self.cfg['reads'] and not st.facts.decide(dom.cmp('uge', pos, L)):
            # no more requests are looked at in this scenario: the data end here
            if not self.assume(st, dom.cmp('uge', pos, L), True):
                raise_end('longer than the scenario')
        c = dom.cmp('uge', pos, L)
        d = st.facts.decide(c)
        if d is None:
            s2 = st.copy()
            ok1, ok2 = self.assume(st, c, True), self.assume(s2, c, False)
            return ([('ret', st, C(1, 1))] if ok1 else []) + ([('ret', s2, C(0, 1))] if ok2 else [])
        return C(int(d), 1)

    def s_req(self, A, st, ins, a, n):
        g = st.ghost
        loc = A.loc(st, ins)
        want, cb = zext(a[0], 64), a[1]
        r = A.to_ptr(st, cb)
        g['cb'] = (r[0], cv(r[1]))
        g['tries'] = 0
        st.ev('request', g['pos'], want, loc)
        g['reads'] += 1
        if g['reads'] > self.cfg['reads']:
            raise_end('longer than the scenario')
        k = g['reads']
        pos, L = g['pos'], g['L']
        full = dom.sub(L, pos)
        out = []
        cases = []
        c = dom.cmp('ule', want, full)
        s2 = st.copy()
        rel = 'ule' if self.cfg.get('feof') else 'ult'
        if A.assume(st, dom.cmp(rel, pos, L), True) and A.assume(st, c, True):
            cases.append((st, want))
        if A.assume(s2, dom.cmp(rel, pos, L), True) and A.assume(s2, c, False):
            s2.ghost['short'] = 1
            cases.append((s2, full))
        for s, got in cases:
            p = Ptr(('piece', k))
            ln = dom.trunc(got, 32)
            alts = []
            for alt in self.cfg['source'](k):
                t = s.copy()
                t.ghost['pos'] = dom.add(pos, want if self.cfg.get('past') else got)
                if alt == 'raise':
                    t.ghost['pos'] = pos
                    t.ghost['raised'] = 1
                    alts.append(('ret', t, C(2, 32)))
                    continue
                t.ghost['asked'] = t.ghost['asked'] + ((k, got),)
                if alt == 'now':
                    t.ghost['cur'] = (p, ln, cb)
                    t.ghost['client'] = 'r'
                    t.ev('deliver', k)
                    alts.append(('ret', t, C(1, 32)))
                else:
                    t.ghost['pend'] = t.ghost['pend'] + (('r', cb, p, ln),)
                    alts.append(('ret', t, C(0, 32)))
            out += alts
        if not out:
            raise_end('nothing to read')
        return out

    # ---- the destination
    def d_req(self, A, st, ins, a, n):
        g = st.ghost
        g['last'] = None
        p, ln, cb = a
        st.ev('write', p, ln, cb, A.loc(st, ins))
        k = len(g['wrote']) + 1
        out = []
        for alt in self.cfg['dest'](k):
            t = st.copy()
            if alt == 'raise':
                t.ghost['raised'] = 2
                out.append(('ret', t, C(2, 32)))
                continue
            t.ghost['wrote'] = t.ghost['wrote'] + ((p, ln),)
            r = A.to_ptr(t, cb)
            if g.get('cb') != (r[0], cv(r[1])):
                t.ev('other-client')
            if alt == 'now':
                out.append(('ret', t, C(1, 32)))
            else:
                t.ghost['pend'] = t.ghost['pend'] + (('w', cb, NULL, ln),)
                out.append(('ret', t, C(0, 32)))
        return out

    def d_flush(self, A, st, ins, a, n):
        st.ev('flush', len(st.ghost['pend']), st.ghost.get('in', 0))
        return ()

    def d_bad(self, A, st, ins, a, n):
        st.ev('misuse', A.loc(st, ins))
        return ()


def raise_end(why):
    from absint import PathEnd
    raise PathEnd(why)


def scenario(mod, cx, inst, cfg):
    A = cx.use(Copy(mod, cfg))
    start, end, L = S(('start', inst), 64, 0, BIG), S(('end', inst), 64, 0, BIG), S(('length', inst), 64, 0, BIG)
    chunk = S(('chunk', inst), 32, 1, (1 << 32) - 1)
    if 'fixed' in cfg:
        start, end, L, chunk = C(0, 64), C(cfg['fixed'][1], 64), C(cfg['fixed'][0], 64), C(cfg['fixed'][2], 32)

    def mk():
        B = Interp(mod)
        models.install_std(B)
        s = State()
        B.start('both_new', [Ptr(SRC), Ptr(DST)], s)
        o = [o for o in B.run(lambda: s) if o.kind == 'ret'][0]
        s = o.st
        s.frames = []
        s.trace = None
        s.ghost.update(pend=(), pos=S(('somewhere', inst), 64), L=L, reads=0, asked=(), wrote=())
        s.ghost['in'] = 0
        s.ghost['budget'] = cfg.get('budget', 99)
        if cfg.get('noend'):
            s.facts.assume(dom.cmp('eq', end, C(0, 64)), True)
        A.start('go', [Ptr(SRC), Ptr(DST), chunk, start, end], s)
        return s
    outs = A.run(mk)
    done = 0
    for o in outs:
        evs = o.st.events()
        g, fc = o.st.ghost, o.st.facts
        for e in evs:
            if e[0] in ('uaf', 'nullderef', 'bad-free', 'oob'):
                cx.ob('memory', inst, False, e[1], 'a completion uses the state of a copy that has ended', 'C21|memory')
            if e[0] == 'forever':
                cx.ob('ends', inst, False, W, 'the copy waits for a completion that cannot come (%s)' % inst, 'C21|ends')
            if e[0] == 'misuse':
                cx.ob('use', inst, False, e[1], 'the storages are used the wrong way round', 'C21|use')
            if e[0] == 'dead-event':
                cx.ob('memory', inst, False, e[1], 'an event is used after the end of the copy', 'C21|memory')
        # requests
        want = start
        limit = False
        for e in evs:
            if e[0] == 'seek':
                cx.ob('start', inst, fc.eq(e[1], start), e[2], 'the copy does not begin at the position asked for', 'C21|start')
            if e[0] == 'request':
                cx.ob('next', inst, fc.eq(e[1], want), e[3], 'a request is not for the bytes after the last one', 'C21|next')
                cx.ob('chunk', inst, fc.decide(dom.cmp('ule', e[2], zext(chunk, 64))) is True and fc.decide(dom.cmp('ne', e[2], C(0, 64))) is True, e[3],
                      'a request is larger than the chunk, or empty', 'C21|chunk')
                last = dom.add(e[1], e[2])
                cx.ob('limit', inst, fc.decide(dom.cmp('eq', end, C(0, 64))) is True or fc.decide(dom.cmp('ule', last, end)) is True, e[3],
                      'a request goes over the end asked for', 'C21|limit')
                want = last
        # what was delivered is what was written, in order
        order = []
        for e in evs:
            if e[0] == 'run' and e[1] == 'r':
                order.append(e[2].a[0])
            if e[0] == 'deliver':
                order.append(('piece', e[1]))
        asked = dict(g['asked'])
        # nothing can be written when nothing was delivered
        nil = {k for k, n in asked.items() if fc.eq(n, C(0, 64))}
        order = [x for x in order if x[1] not in nil]
        writes = [e for e in evs if e[0] == 'write' and not (e[1].op == 'ptr' and e[1].a[0][0] == 'piece' and e[1].a[0][1] in nil and fc.eq(e[2], C(0, 32)))]
        for i, e in enumerate(writes):
            ok = i < len(order) and e[1].op == 'ptr' and o.st.frames is not None and e[1].a[0] == order[i] and fc.eq(e[1].a[1], C(0, 64)) and \
                fc.eq(zext(e[2], 64), asked[order[i][1]])
            cx.ob('bytes', inst, ok, e[4], 'what is written is not what was delivered', 'C21|bytes')
        if o.kind == 'end':
            continue
        done += 1
        cx.ob('raises', inst, (o.kind == 'throw') == bool(g.get('raised')), W, 'the copy %s' % (
            'hides an error of a storage' if g.get('raised') else 'fails although no storage did'), 'C21|raises')
        cx.ob('complete', inst, not g['pend'], W, 'the copy ends with requests on their way', 'C21|complete')
        # the last completion on the other thread has left the object before it goes
        runs = [i for i, e in enumerate(evs) if e[0] == 'ran']
        if runs:
            after = [e for e in evs[runs[-1]:] if e[0] == 'lock']
            cx.ob('left', inst, bool(after), W, 'the copy may end before the last completion has left the lock', 'C21|left')
        for e in evs:
            if e[0] == 'ran':
                cx.ob('under-lock', inst, e[1] is None or e[1][0], e[1][1] if e[1] else W, 'a completion touches the copy after it gave up the lock', 'C21|under')
        if o.kind == 'throw':
            continue
        cx.ob('written', inst, len(writes) == len(asked) - len(nil), W, 'not everything delivered is written once', 'C21|written')
        pos = g['pos']
        fin = fc.decide(dom.cmp('uge', pos, L)) is True or (fc.decide(dom.cmp('ne', end, C(0, 64))) is True and fc.decide(dom.cmp('uge', pos, end)) is True)
        cx.ob('all', inst, fin, W, 'the copy ends before the end of the data and before the end asked for', 'C21|all')
        fl = [i for i, e in enumerate(evs) if e[0] == 'flush']
        lastw = max([i for i, e in enumerate(evs) if e[0] in ('write', 'ran', 'request')], default=-1)
        cx.ob('flush', inst, len(fl) == 1 and fl[0] > lastw and evs[fl[0]][1] == 0, W, 'the destination is not flushed once after everything was written', 'C21|flush')
        seeks = [i for i, e in enumerate(evs) if e[0] == 'seek']
        first = min([i for i, e in enumerate(evs) if e[0] == 'request'], default=None)
        cx.ob('start', inst, first is None or (len(seeks) == 1 and seeks[0] < first), W, 'the position of the copy is not set once, before it begins', 'C21|start')
    cx.ob('covered', inst, done > 0, W, 'no copy ends in ' + inst, 'C21|covered')
    # one lock for what both sides touch
    for b, s in sorted(A.locksets.items()):
        for x in s:
            for y in s:
                # the copying thread, or a delivery at once on it, against a completion on another thread
                # (a storage does not answer two requests at the same time)
                if y[0] == 'late' and (x[0] == 'copy' or x[0] == 'client' and x[1] != y[1]) and 'w' in (x[2], y[2]):
                    cx.ob('guarded', 'byte %d of the copy' % b, bool(set(x[3]) & set(y[3])), W,
                          'the copying thread and the completions share state without a common lock', 'C21|guarded')
    return done


def check(cx):
    mod = cx.build(UNITS, DRIVER)
    late, now = (lambda k: ('late',)), (lambda k: ('now',))
    any_ = lambda k: ('now', 'late')

    def fails(n, other):
        return lambda k: ('raise',) if k == n else other(k)
    deep = cx.thorough
    items = []
    for past in (0, 1):
        items += [('everything late, %d' % past, dict(reads=2, source=late, dest=late, past=past)),
                  ('anything, %d' % past, dict(reads=2, source=any_, dest=any_, past=past, budget=2 if not deep else 4)),
                  ('at once, %d' % past, dict(reads=4, source=now, dest=now, past=past)),
                  ('writes late, %d' % past, dict(reads=3, source=now, dest=late, past=past, budget=2 if not deep else 5)),
                  ('reads late, %d' % past, dict(reads=3, source=late, dest=now, past=past, budget=2 if not deep else 5)),
                  ('three late, %d' % past, dict(reads=3, source=late, dest=late, past=past, budget=2 if not deep else 4, noend=not deep))]
    for n in (1, 2, 3):
        for nm, o in (('late', late), ('now', now)):
            items += [('source fails at %d, %s' % (n, nm), dict(reads=3, source=fails(n, o), dest=late, budget=2, noend=True)),
                      ]
    for n in (1, 2):
        items.append(('destination fails at %d' % n, dict(reads=3, source=now, dest=fails(n, late), budget=2, noend=True)))
    # more requests than may be outstanding at once
    for nm, so, de in (('late', late, late), ('reads at once', now, late), ('writes at once', late, now)):
        items.append(('many, ' + nm, dict(reads=16, source=so, dest=de, budget=1 if not deep else 2, fifo=not deep, fixed=(14, 0, 1))))
    # the end is only seen by a read that gives less than was asked for
    items += [('end seen by reading, %s' % nm, dict(reads=3, source=now, dest=d, budget=2, feof=True)) for nm, d in (('at once', now), ('late', late))]

    def one(c, it):
        scenario(mod, c, *it)
    cx.pmap(items, one)
