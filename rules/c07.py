"""Every file operation completes exactly once, with its own result. Protocol (typestate) analysis of the asynchronous
file over the submit/complete boundary with the event loop. Operations are issued and completed by abstract
interpretation in every order of completion, with arbitrary results; what the loop does is replaced by its contract
(a submitted request is called back once, with its result; a rejected one never). Obligations: (1) each request is
submitted once, under the loop lock, with the file's position, the caller's bytes and memory that lives until completion;
(2) each operation's handler runs exactly once, with that operation's own data or error number; reads are delivered in the
order issued; (3) request, control block and buffers are released exactly once and the request is cleaned up; (4) the
number of outstanding operations returns to zero, and is only touched under the loop lock; (5) a rejected submission
raises its error and leaves nothing behind; (6) closing waits for outstanding operations and closes an open file once."""
import itertools
import re
import dom
from dom import C, S, Ptr, NULL, isc, cv, mk
from absint import Interp, State
import models
from c05 import start, lastloc
from c06 import rets

LEVEL = 'proof'
ASSUMPTIONS = ['libuv calls back each accepted request once, from the loop, and never a rejected one',
               'handlers of operations return; what happens after one throws is the loop thread\'s matter (C06)',
               'a file is used for transfers only after its opening completed', 'fewer than 2^32 operations per file']
FLOOR = 200
DRIVER = r'''
#include "mgcore.h"
#include <stddef.h>
using namespace mg::core;
using namespace mg::uv;
template class mg::core::CResource<uvloop>;
template class mg::core::CResource<uvloopthread>;
template class mg::core::CResource<uv_fs_t>;
template class mg::core::CResource<CBuffer<unsigned char> >;
typedef CBuffer<unsigned char> B;
extern "C" {
void got(int k, unsigned char* p, unsigned long n, B* b); void done(int k, long result); bool failed(int k, std::exception_ptr* e);
}
struct GotB { int k; void operator()(CResource<B>& b) const { B* p = b; got(k, p->get(), p->size(), p); } };
struct GotR { int k; void operator()(CResource<uv_fs_t>& r) const { done(k, r->result); } };
struct Fail { int k; bool operator()(std::exception_ptr e) const { return failed(k, &e); } };
extern "C" {
void setup(void* wl, void* wf) { new (wl) loopthread(new uvloopthread()); new (wf) cfile(*(loopthread*)wl); }
void* lt_lock(loopthread* l) { return &(*l)->loop_lock(); }
void f_open(cfile* f, const char* path, int flags) { GotR g; g.k = 0; f->open(path, flags, true)->set_cb(g); }
void f_open_sync(cfile* f, const char* path, int flags) { f->open_sync(path, flags); }
void f_close(cfile* f) { CResource<CPromise<uv_fs_t> > p = f->close(true); if (p) { GotR g; g.k = 1; p->set_cb(g); } }
void f_close_sync(cfile* f) { f->close(false); }
void f_del(cfile* f) { f->cfile::~cfile(); }
void f_read(cfile* f, int k, unsigned n) { GotB g; g.k = k; Fail e; e.k = k; CResource<CPromise<B> > p = f->read(n); p->set_er(e); p->set_cb(g); }
void f_read_plain(cfile* f, int k, unsigned n) { GotB g; g.k = k; f->read(n)->set_cb(g); }
void f_write(cfile* f, int k, const unsigned char* p, unsigned n) { GotR g; g.k = k; f->write(p, n)->set_cb(g); }
int f_out(cfile* f) { return f->cfile::outstanding(); }
unsigned long f_pos(cfile* f) { return f->cfile::get_position(); }
void f_setpos(cfile* f, unsigned long p) { f->cfile::set_position(p); }
unsigned long f_size(cfile* f) { return f->size(); }
unsigned long sz_file() { return sizeof(cfile); }
unsigned long o_result() { return offsetof(uv_fs_t, result); }
unsigned long o_data() { return offsetof(uv_fs_t, data); }
unsigned long o_type() { return offsetof(uv_fs_t, fs_type); }
unsigned long o_size() { return offsetof(uv_fs_t, statbuf) + offsetof(uv_stat_t, st_size); }
unsigned long o_base() { return offsetof(uv_buf_t, base); }
unsigned long o_len() { return offsetof(uv_buf_t, len); }
int k_read() { return UV_FS_READ; } int k_write() { return UV_FS_WRITE; } int k_open() { return UV_FS_OPEN; } int k_close() { return UV_FS_CLOSE; }
int k_enoent() { return UV_ENOENT; } int k_creat() { return O_CREAT; } int k_trunc() { return O_TRUNC; }
}
'''
UNITS = ['mg/core/file.cpp', 'mg/core/thread.cpp', 'mg/core/uvbase.cpp']
LT, F = ('lt',), ('file',)
ERRLO = (1 << 64) - 4095


class K:
    pass


def konst(cx, mod):
    k = K()
    A = cx.use(Interp(mod))
    for n in ('sz_file', 'o_result', 'o_data', 'o_type', 'o_size', 'o_base', 'o_len', 'k_read', 'k_write', 'k_open', 'k_close',
              'k_enoent', 'k_creat', 'k_trunc'):
        setattr(k, n, cv(rets(A.run(lambda: start(A, n, [], State())))[0].val))
    return k


def heldset(st):
    return tuple(k for k, d in st.ghost.items() if k[0] == 'lock' and d > 0)


def interp(cx, mod, k, fail=None, syncfail=None):
    """fail: which submissions are rejected ('all' | None)"""
    A = cx.use(Interp(mod))
    models.install_std(A)
    models.install_locks(A)
    models.install_exc(A)
    models.install_streams(A)
    models.install_signal_event(A)
    A.hook('uv_loop_init|uv_loop_close', lambda A, st, ins, args, n: C(0, 32))
    A.hook('uv_stop', lambda A, st, ins, args, n: ())
    A.hook('uv_buf_init', lambda A, st, ins, args, n: ('agg', [args[0], dom.zext(args[1], 64)]))
    A.hook('uv_strerror', lambda A, st, ins, args, n: Ptr(('*', 'strerror')))

    def fs(kind):
        def f(A, st, ins, args, n):
            req, cb = args[1], args[-1]
            loc = A.loc(st, ins)
            if cb.op == 'c' and cv(cb) == 0:
                out = []
                s2 = st.copy()
                v = S(('res', kind, st.fresh()), 64, 0 if kind in ('stat', 'close') else 1, 0 if kind in ('stat', 'close') else 0x7fffffff)
                if not isc(v) and kind in ('stat', 'close'):
                    v = C(0, 64)
                A.poke(st, dom.add(req, C(k.o_result, 64)) if req.op != 'ptr' else Ptr(req.a[0], dom.add(req.a[1], C(k.o_result, 64))), 8, v)
                if kind == 'stat':
                    sz = S(('st_size',), 64, 0, 1 << 62)
                    A.poke(st, Ptr(req.a[0], dom.add(req.a[1], C(k.o_size, 64))), 8, sz)
                st.ev('sync', kind, args[:-1], loc, v, heldset(st))
                out.append(('ret', st, dom.trunc(v, 32)))
                e = S(('err', kind, s2.fresh()), 64, ERRLO, (1 << 64) - 1)
                A.poke(s2, Ptr(req.a[0], dom.add(req.a[1], C(k.o_result, 64))), 8, e)
                s2.ev('sync', kind, args[:-1], loc, e, heldset(s2))
                out.append(('ret', s2, dom.trunc(e, 32)))
                return out
            d = A.peek(st, Ptr(req.a[0], dom.add(req.a[1], C(k.o_data, 64))), 8, True)
            bufs = None
            if kind in ('read', 'write'):
                b = args[3]
                bufs = (A.peek(st, Ptr(b.a[0], dom.add(b.a[1], C(k.o_base, 64))), 8, True),
                        A.peek(st, Ptr(b.a[0], dom.add(b.a[1], C(k.o_len, 64))), 8), args[4], args[5])
            t = {'read': k.k_read, 'write': k.k_write, 'open': k.k_open, 'close': k.k_close}[kind]
            A.poke(st, Ptr(req.a[0], dom.add(req.a[1], C(k.o_type, 64))), 4, C(t, 32))
            if fail:
                e = S(('reject', st.fresh()), 32, (1 << 32) - 4095, (1 << 32) - 1)
                st.ev('rejected', kind, req, e, loc, heldset(st))
                return e
            st.ev('submit', kind, req, cb, d, bufs, loc, heldset(st), args)
            return C(0, 32)
        return f
    for kind in ('open', 'close', 'read', 'write', 'stat'):
        A.hook('uv_fs_' + kind, fs(kind))

    def cleanup(A, st, ins, args, n):
        st.ev('cleanup', A.canon(st, args[0].a[0]), A.loc(st, ins))
        return ()
    A.hook('uv_fs_req_cleanup', cleanup)

    def got(A, st, ins, args, n):
        st.ev('got', cv(args[0]), args[1], args[2])
        return ()

    def done(A, st, ins, args, n):
        st.ev('done', cv(args[0]), args[1])
        return ()

    def failed(A, st, ins, args, n):
        x = A.peek(st, args[1], 8, True)
        st.ev('failed', cv(args[0]), errno(A, st, x))
        return C(1, 1)
    A.hook('got', got)
    A.hook('done', done)
    A.hook('failed', failed)
    return A


def errno(A, st, x):
    return st.ghost.get(('mgerr', A.canon(st, x.a[0]))) if x is not None and x.op == 'ptr' else None


def acc(A, log):
    def f(store):
        def g(A, st, reg, off, n, v, ins, at):
            if reg.rid == F and ins is not None and isc(off):
                log.append((store, cv(off), n if isinstance(n, int) else 8, heldset(st), at, A.loc(st, ins)))
        return g
    A.on_load.append(f(False))
    A.on_store.append(f(True))


def mkstate(cx, mod, k):
    A = interp(cx, mod, k)
    o = rets(A.run(lambda: start(A, 'setup', [Ptr(LT), Ptr(F)], State())))
    cx.anchor(o, 'construction of loop thread and file')
    st0 = o[0].st
    A = interp(cx, mod, k)
    o = rets(A.run(lambda: start(A, 'lt_lock', [Ptr(LT)], st0.copy())))[0]
    r, off = A.to_ptr(o.st, o.val)
    muts = [m for e in st0.events() if e[0] == 'init' and 'mutex_init' in e[1] and e[2].op == 'ptr'
            and A.canon(st0, e[2].a[0]) == r for m in [cv(e[2].a[1])] if cv(off) <= m < cv(off) + 16]
    cx.anchor(muts, 'mutex of the loop lock')
    return st0, ('lock', r, muts[0])


def then(cx, mod, k, states, fn, args, hook=None, **kw):
    """interpret fn from each state; returns outcomes"""
    res = []
    for st in states:
        A = interp(cx, mod, k, **kw)
        if hook:
            hook(A)
        s1 = st.copy()
        res += alive(cx, A.run(lambda: start(A, fn, args(A, s1) if callable(args) else args, s1)))
    return res


def alive(cx, outs):
    """outcomes that go on; a path that ends in a use of freed memory is a violation"""
    res = []
    for o in outs:
        if o.kind != 'end':
            res.append(o)
            continue
        for e in o.st.events():
            if e[0] in ('uaf', 'nullderef', 'doublefree'):
                cx.ob('memory', '%s:%d' % e[1], False, e[1], {'uaf': 'memory used after it was freed', 'nullderef': 'null pointer used',
                      'doublefree': 'released twice'}[e[0]], 'C07|' + e[0])
    return res


def submits(st):
    return [e for e in st.events() if e[0] == 'submit']


def cbname(e):
    return e[3].a[0] if e[3].op == 'fn' else e[3].a[0][1]


def deliver(cx, mod, k, st, e, result, LK, hook=None):
    """the loop calls back request e with the given result, holding the loop lock"""
    A = interp(cx, mod, k)
    if hook:
        hook(A)
    s1 = st.copy()
    s1.ghost[LK] = s1.ghost.get(LK, 0) + 1
    req = e[2]
    A.poke(s1, Ptr(req.a[0], dom.add(req.a[1], C(k.o_result, 64))), 8, result)
    s1.ev('complete', e[2])
    outs = alive(cx, A.run(lambda: start(A, cbname(e), [req], s1)))
    for o in outs:
        o.st.ghost[LK] = o.st.ghost.get(LK, 0) - 1
    return outs


def memory(cx, st, base, inst, what, allow=()):
    """memory events since trace entry number base: errors and leaks"""
    ev = list(st.events())
    for e in ev:
        if e[0] in ('uaf', 'nullderef'):
            cx.ob('memory', inst, False, e[1], '%s: %s' % (inst, 'memory used after it was freed' if e[0] == 'uaf' else 'null pointer used'),
                  'C07|%s|%s' % (e[0], what))
        if e[0] == 'doublefree':
            cx.ob('memory', inst, False, e[1], inst + ': released twice', 'C07|doublefree|' + what)
    new = {}
    for e in ev[base:]:
        if e[0] == 'new':
            new[e[1]] = e[3] if len(e) > 3 else None
        elif e[0] == 'free':
            new.pop(e[1], None)
    left = {r: l for r, l in new.items() if r not in allow}
    cx.ob('no-leak', inst, not left, next(iter(left.values()), None), '%s: memory is never released' % inst, 'C07|leak|' + what)


def nev(st):
    return len(list(st.events()))


def check(cx):
    mod = cx.build(UNITS, DRIVER)
    k = konst(cx, mod)
    st0, LK = mkstate(cx, mod, k)
    opened = opening(cx, mod, k, st0, LK)
    if not opened:
        return
    issue(cx, mod, k, opened, LK)
    counters = order(cx, mod, k, opened, LK)
    mixed(cx, mod, k, opened, LK)
    rejected(cx, mod, k, st0, opened, LK)
    guarded(cx, mod, k, opened, LK, counters)
    closing(cx, mod, k, st0, opened, LK)


def outstanding(cx, mod, k, st):
    A = interp(cx, mod, k)
    o = rets(A.run(lambda: start(A, 'f_out', [Ptr(F)], st.copy())))
    return {cv(x.val) if isc(x.val) else x.val for x in o}


def opening(cx, mod, k, st0, LK):
    opened = []
    good = 0
    for flags in (0, k.k_creat | 1, k.k_creat | k.k_trunc | 1):
        outs = then(cx, mod, k, [st0], 'f_open', [Ptr(F), Ptr(('path',)), C(flags, 32)])
        for o in outs:
            ev = list(o.st.events())
            sy = [e for e in ev if e[0] == 'sync' and e[1] == 'stat']
            failed = any(dom.cmp('slt', e[4], C(0, 64)) is C(1, 1) or o.st.facts.decide(dom.cmp('slt', e[4], C(0, 64))) is True for e in sy)
            sub = submits(o.st)
            inst = 'open flags %#x' % flags
            if o.kind == 'throw':
                num = errno(None, o.st, o.val[0]) if False else o.st.ghost.get(('mgerr', o.val[0].a[0]))
                ok = failed and num is not None and any(dom.same(num, dom.trunc(e[4], 32)) for e in sy)
                cx.ob('open-error', inst, ok, lastloc(ev), 'opening raises something else than the error of the file system', 'C07|openerr')
                continue
            if not sub:
                cx.ob('open-error', inst, failed, lastloc(ev), 'opening returns without having opened the file', 'C07|noopen')
                continue
            cx.ob('submit', inst, len(sub) == 1 and sub[0][1] == 'open', sub[0][6], 'opening submits %d requests' % len(sub), 'C07|opensub')
            e = sub[0]
            cx.ob('submit-locked', inst, LK in e[7], e[6], 'the request is submitted without the loop lock: it can complete while it is being set up', 'C07|sublock')
            fd = S(('fd',), 64, 1, 0x7fffffff)
            for o2 in deliver(cx, mod, k, o.st, e, fd, LK):
                dn = [x for x in o2.st.events() if x[0] == 'done']
                ok = o2.kind == 'ret' and len(dn) == 1 and dn[0][1] == 0 and dom.same(dn[0][2], fd)
                if not cx.ob('completes', inst + ', ok', ok, e[6], 'a completed opening is reported %d times' % len(dn), 'C07|opencb'):
                    continue
                cleaned(cx, o2.st, [e], inst)
                memory(cx, o2.st, 0, inst, 'open', allow=objs(st0))
                cx.ob('outstanding', inst, outstanding(cx, mod, k, o2.st) == {0}, e[6], 'a completed opening stays outstanding', 'C07|out')
                good += 1
                if flags == 0 or not opened:
                    opened.append(o2.st)
                for ap in ('f_read', 'f_write'):
                    a = [Ptr(F), C(3, 32)] + ([Ptr(('src',))] if ap == 'f_write' else []) + [C(5, 32)]
                    for o3 in then(cx, mod, k, [o2.st], ap, a):
                        for x in submits(o3.st)[1:]:
                            cx.ob('handle', inst + ' then ' + ap[2:], dom.same(x[8][2], dom.trunc(fd, 32)), x[6],
                                  '%s uses another file handle than the one opened' % ap[2:], 'C07|fd')
            er = S(('oerr',), 64, ERRLO, (1 << 64) - 1)
            for o2 in deliver(cx, mod, k, o.st, e, er, LK):
                reported(cx, o2, 0, er, inst, e)
    cx.anchor(good, 'an opened file')
    return opened[:1]


def objs(st):
    """what exists in the state (allocated and not freed)"""
    new = set()
    for e in st.events():
        if e[0] == 'new':
            new.add(e[1])
        elif e[0] == 'free':
            new.discard(e[1])
    return new


def reported(cx, o, kk, er, inst, e):
    """a failed operation reaches its error handler or, without one, the owner of the loop, with its number"""
    fl = [x for x in o.st.events() if x[0] == 'failed' and x[1] == kk]
    okv = [x for x in o.st.events() if x[0] in ('got', 'done') and x[1] == kk]
    nums = [x[2] for x in fl]
    if o.kind == 'throw':
        nums.append(o.st.ghost.get(('mgerr', o.val[0].a[0])) if o.val[0].op == 'ptr' else None)
    ok = len(nums) == 1 and nums[0] is not None and dom.same(nums[0], dom.trunc(er, 32)) and not okv
    cx.ob('failure', inst + ', error', ok, e[6],
          'a failed %s is %s' % (e[1], 'reported as a success' if okv else 'never reported' if not nums else
                                 'reported %d times' % len(nums) if len(nums) > 1 else 'reported with another number'), 'C07|fail|' + e[1])


def cleaned(cx, st, subs, inst):
    for e in subs:
        rid = st.alias.get(e[2].a[0], e[2].a[0])
        c = [x for x in st.events() if x[0] == 'cleanup' and x[1] == rid]
        cx.ob('cleanup', inst, len(c) == 1, e[6], 'the request of %s is cleaned up %d times' % (e[1], len(c)), 'C07|cleanup|' + e[1])


def issue(cx, mod, k, opened, LK):
    """what is handed to the loop: position, length, bytes"""
    pos = S(('pos',), 64, 0, 1 << 62)
    st1 = then(cx, mod, k, opened, 'f_setpos', [Ptr(F), pos])
    for o in st1:
        A = interp(cx, mod, k)
        p = rets(A.run(lambda: start(A, 'f_pos', [Ptr(F)], o.st.copy())))
        cx.ob('position', 'set then get', all(dom.same(x.val, pos) for x in p), None, 'the position read back is not the one set', 'C07|setpos')
        n = S(('n',), 32, 1, 1 << 20)
        A = interp(cx, mod, k)
        A2 = None
        for kind in ('read', 'write'):
            a = [Ptr(F), C(3, 32)] + ([Ptr(('src',))] if kind == 'write' else []) + [n]
            for o2 in then(cx, mod, k, [o.st], 'f_' + kind, a):
                if o2.kind != 'ret':
                    cx.ob('issue', kind, any(e[0] == 'badalloc' for e in o2.st.events()), None, kind + ' fails before it is submitted', 'C07|issue')
                    continue
                sub = [e for e in submits(o2.st) if e[1] != 'open']
                if not cx.ob('issue', kind, len(sub) == 1 and sub[0][1] == kind, lastloc(list(o2.st.events())), '%s submits %d requests' % (kind, len(sub)), 'C07|sub1'):
                    continue
                e = sub[0]
                base, ln, nb, off = e[5]
                cx.ob('issue', kind + ' at the current position', dom.same(off, pos), e[6], kind + ' is submitted for another position', 'C07|pos|' + kind)
                cx.ob('issue', kind + ' one buffer', isc(nb) and cv(nb) == 1, e[6], 'buffer count', 'C07|nbufs')
                full = dom.zext(n, 64)
                f = o2.st.facts
                if kind == 'write':
                    cx.ob('issue', 'write length', dom.same(ln, full), e[6], 'not every byte is written', 'C07|len|write')
                else:
                    cx.ob('issue', 'read length', f.decide(dom.cmp('ule', ln, full)) is True, e[6], 'more is read than asked for', 'C07|len|read')
                    rs = A_size(cx, o2.st, base, ln)
                    cx.ob('issue', 'read fits its buffer', rs, e[6], 'the read can run past the end of its buffer', 'C07|fit')
                cx.ob('submit-locked', kind, LK in e[7], e[6], 'the request is submitted without the loop lock: it can complete while it is being set up', 'C07|sublock')
                # position afterwards
                A = interp(cx, mod, k)
                for p in rets(A.run(lambda: start(A, 'f_pos', [Ptr(F)], o2.st.copy()))):
                    if kind == 'write':
                        cx.ob('position', 'after write', dom.same(p.val, dom.add(pos, full)), e[6], 'a write does not advance the position by its length', 'C07|adv|write')
                    else:
                        cx.ob('position', 'after read', readpos(cx, mod, k, o2.st, p.val, pos, full), e[6],
                              'a read does not advance the position by what it can read', 'C07|adv|read')


def readpos(cx, mod, k, st, newpos, pos, full):
    """after a read of n at pos: pos + n, or the end of the file if that is nearer"""
    want = dom.add(pos, full)
    for o in then(cx, mod, k, [st], 'f_setpos', [Ptr(F), pos]):
        for z in then(cx, mod, k, [o.st], 'f_size', [Ptr(F)]):
            for past in (True, False):
                s = z.st.copy()
                if s.facts.decide(dom.cmp('ugt', want, z.val)) is (not past):
                    continue
                if not s.facts.assume(dom.cmp('ugt', want, z.val), past):
                    continue
                rem = dom.zext(dom.trunc(dom.sub(z.val, pos), 32), 64)
                ok = dom.same(newpos, want) if not past else (dom.same(newpos, z.val) or dom.same(newpos, dom.add(pos, rem)))
                if not ok and s.facts.decide(dom.cmp('eq', newpos, want if not past else z.val)) is not True:
                    return False
    return True


def A_size(cx, st, base, ln):
    if base.op != 'ptr':
        return False
    rid = base.a[0]
    while rid in st.alias:
        rid = st.alias[rid]
    r = st.mem.get(rid)
    if r is None or r.size is None:
        return False
    end = dom.add(base.a[1], ln)
    return dom.same(end, r.size) or st.facts.decide(dom.cmp('ule', end, r.size)) is True


def order(cx, mod, k, opened, LK):
    """reads in every order of completion, with arbitrary results"""
    N = 4 if cx.thorough else 3
    base = {id(s): nev(s) for s in opened}
    counters = set()
    for st in opened:
        b0 = nev(st)
        live0 = objs(st)
        cur = [st]
        for i in range(N):
            cur = [o.st for o in then(cx, mod, k, cur, 'f_read', [Ptr(F), C(10 + i, 32), C(5 + i, 32)]) if o.kind == 'ret']
        cx.anchor(cur, 'reads issued')
        for s in cur[:3]:
            sub = [e for e in submits(s) if e[1] == 'read']
            if not cx.ob('order', '%d reads issued' % N, len(sub) == N, None, '%d reads submit %d requests' % (N, len(sub)), 'C07|nreads'):
                continue
            for perm in itertools.permutations(range(N)):
                signs = list(itertools.product((True, False), repeat=N))
                if not cx.thorough:
                    signs = [x for x in signs if sum(x) >= N - 1]
                elif N > 3:
                    signs = [x for x in signs if sum(x) >= N - 1]
                for sg in signs:
                    res = [S(('r', i), 64, 0, 5 + i) if sg[i] else S(('r', i), 64, ERRLO, (1 << 64) - 1) for i in range(N)]
                    run_order(cx, mod, k, s, sub, perm, sg, res, LK, b0, live0, counters, st)
    return counters


def run_order(cx, mod, k, s, sub, perm, sg, res, LK, b0, live0, counters, before):
    N = len(sub)
    inst = 'reads completed %s%s' % (''.join(map(str, perm)), '' if all(sg) else ', failing ' + ''.join(str(i) for i in range(N) if not sg[i]))
    states = [s]

    def hk(A):
        def h(A, st, reg, off, n, v, ins, at):
            if reg.rid == F and ins is not None and isc(off):
                counters.update(range(cv(off), cv(off) + (n if isinstance(n, int) else 8)))
        A.on_store.append(h)
    for step, i in enumerate(perm):
        nxt = []
        for x in states:
            # the bytes read land in the buffer of the request, which must still be there
            base = sub[i][5][0]
            rid = base.a[0]
            while rid in x.alias:
                rid = x.alias[rid]
            alive = x.mem.get(rid) is not None and x.mem[rid].alive
            cx.ob('alive', inst, alive, sub[i][6], 'the buffer of a read is released before the read completes', 'C07|alive')
            for o in deliver(cx, mod, k, x, sub[i], res[i], LK, hk):
                if o.kind == 'throw':
                    cx.ob('completes', inst, False, sub[i][6], 'the completion of a read throws although its handlers return', 'C07|cbthrow')
                else:
                    nxt.append(o.st)
        states = nxt
    cx.ob('completes', inst, bool(states), None, 'no path completes', 'C07|nopath')
    for x in states:
        ev = list(x.events())
        dl = [e for e in ev if e[0] in ('got', 'failed')]
        seq = [e[1] - 10 for e in dl]
        cx.ob('exactly-once', inst, sorted(seq) == list(range(N)), sub[0][6], '%s: handlers ran for %s' % (inst, seq), 'C07|once')
        cx.ob('in-order', inst, seq == sorted(seq), sub[0][6], '%s: delivered in the order %s' % (inst, seq), 'C07|order')
        for e in dl:
            i = e[1] - 10
            if e[0] == 'got':
                ok = sg[i] and dom.same(e[2], sub[i][5][0]) and dom.same(e[3], res[i])
                cx.ob('own-result', inst, ok, sub[0][6], '%s: read %d is delivered with the data or length of another' % (inst, i) if sg[i]
                      else '%s: failed read %d is delivered as data' % (inst, i), 'C07|own')
            else:
                ok = not sg[i] and e[2] is not None and dom.same(e[2], dom.trunc(res[i], 32))
                cx.ob('own-result', inst, ok, sub[0][6], '%s: read %d fails with the error of another' % (inst, i), 'C07|ownerr')
        cleaned(cx, x, sub, inst)
        memory(cx, x, b0, inst, 'read', allow=live0)
        cx.ob('outstanding', inst, outstanding(cx, mod, k, x) == {0}, sub[0][6], inst + ': operations stay outstanding', 'C07|out')
        cx.ob('balanced', inst, not models.unbalanced(x), None, 'a lock is left held', 'C07|balance')


def mixed(cx, mod, k, opened, LK):
    """a read and writes: each completes once with its own result, short writes are not reported as complete"""
    for st in opened:
        live0, b0 = objs(st), nev(st)
        st1 = st.copy()
        A0 = interp(cx, mod, k)
        data = [S(('byte', i), 8) for i in range(4)]
        for i, d in enumerate(data):
            A0.poke(st1, Ptr(('src',), C(i, 64)), 1, d)
        for ops in (('w', 'w'), ('w', 'r'), ('r', 'w')) + ((('w', 'r', 'w'), ('r', 'w', 'r')) if cx.thorough else ()):
            cur = [st1]
            for i, op in enumerate(ops):
                a = [Ptr(F), C(20 + i, 32)] + ([Ptr(('src',))] if op == 'w' else []) + [C(4, 32)]
                cur = [o.st for o in then(cx, mod, k, cur, 'f_read' if op == 'r' else 'f_write', a) if o.kind == 'ret']
            cx.anchor(cur, 'mixed operations')
            s = cur[0]
            sub = [e for e in submits(s) if e[1] != 'open']
            if not cx.ob('mixed', ''.join(ops), len(sub) == len(ops), None, 'requests', 'C07|nmixed'):
                continue
            for i, op in enumerate(ops):
                if op == 'w':
                    b = sub[i][5][0]
                    got = [A0.peek(s, Ptr(b.a[0], dom.add(b.a[1], C(j, 64))), 1) for j in range(4)]
                    cx.ob('bytes', '%s write %d' % (''.join(ops), i), all(dom.same(x, y) for x, y in zip(got, data)), sub[i][6],
                          'the bytes handed to the file system are not those given', 'C07|bytes')
                    # the caller's memory may be reused at once
                    cx.ob('bytes', 'own copy', b.a[0] != ('src',), sub[i][6], 'the write uses memory of the caller after it returned', 'C07|copy')
            for perm in itertools.permutations(range(len(ops))):
                states = [s]
                res = [C(4, 64) if op == 'w' else S(('m', i), 64, 0, 4) for i, op in enumerate(ops)]
                inst = 'operations %s completed %s' % (''.join(ops), ''.join(map(str, perm)))
                for i in perm:
                    nxt = []
                    for x in states:
                        b = sub[i][5][0].a[0]
                        while b in x.alias:
                            b = x.alias[b]
                        cx.ob('alive', inst, x.mem.get(b) is not None and x.mem[b].alive, sub[i][6],
                              'the buffer of an operation is released before it completes', 'C07|alive')
                        for o in deliver(cx, mod, k, x, sub[i], res[i], LK):
                            if o.kind == 'throw':
                                cx.ob('completes', inst, False, sub[i][6], 'a completion throws', 'C07|cbthrow')
                            else:
                                nxt.append(o.st)
                    states = nxt
                for x in states:
                    dl = [e for e in x.events() if e[0] in ('got', 'done', 'failed') and e[1] >= 20]
                    cx.ob('exactly-once', inst, sorted(e[1] - 20 for e in dl) == list(range(len(ops))), sub[0][6],
                          '%s: handlers ran for %s' % (inst, [e[1] - 20 for e in dl]), 'C07|once')
                    for e in dl:
                        i = e[1] - 20
                        ok = (e[0] == 'done' and ops[i] == 'w' and dom.same(e[2], res[i])) or (
                            e[0] == 'got' and ops[i] == 'r' and dom.same(e[2], sub[i][5][0]) and dom.same(e[3], res[i]))
                        cx.ob('own-result', inst, ok, sub[i][6], inst + ': operation %d gets the result of another' % i, 'C07|own')
                    cleaned(cx, x, sub, inst)
                    memory(cx, x, b0, inst, 'mixed', allow=live0)
                    cx.ob('outstanding', inst, outstanding(cx, mod, k, x) == {0}, sub[0][6], inst + ': operations stay outstanding', 'C07|out')
        # a failed and a short write
        s = [o.st for o in then(cx, mod, k, [st1], 'f_write', [Ptr(F), C(20, 32), Ptr(('src',)), C(4, 32)]) if o.kind == 'ret'][0]
        e = [e for e in submits(s) if e[1] == 'write'][0]
        er = S(('werr',), 64, ERRLO, (1 << 64) - 1)
        for o in deliver(cx, mod, k, s, e, er, LK):
            reported(cx, o, 20, er, 'write', e)
        short = S(('short',), 64, 0, 3)
        for o in deliver(cx, mod, k, s, e, short, LK):
            ok = o.kind == 'throw' or any(x[0] == 'failed' for x in o.st.events())
            cx.ob('short-write', 'write of fewer bytes', ok and not any(x[0] == 'done' and x[1] == 20 for x in o.st.events()), e[6],
                  'a write that wrote only part of the bytes is reported as complete', 'C07|short')
        # a read whose owner registered no error handler
        s = [o.st for o in then(cx, mod, k, [st1], 'f_read_plain', [Ptr(F), C(21, 32), C(4, 32)]) if o.kind == 'ret'][0]
        e = [e for e in submits(s) if e[1] == 'read'][0]
        for o in deliver(cx, mod, k, s, e, er, LK):
            reported(cx, o, 21, er, 'read without error handler', e)


def rejected(cx, mod, k, st0, opened, LK):
    for name, fn, args, states in (('open', 'f_open', [Ptr(F), Ptr(('path',)), C(0, 32)], [st0]),
                                   ('read', 'f_read', [Ptr(F), C(3, 32), C(5, 32)], opened),
                                   ('write', 'f_write', [Ptr(F), C(3, 32), Ptr(('src',)), C(5, 32)], opened),
                                   ('close', 'f_close', [Ptr(F)], opened)):
        for s in states:
            live0, b0 = objs(s), nev(s)
            out0 = outstanding(cx, mod, k, s)
            n = 0
            for o in then(cx, mod, k, [s], fn, args, fail='all'):
                rj = [e for e in o.st.events() if e[0] == 'rejected']
                if not rj:
                    continue
                n += 1
                inst = 'rejected ' + name
                num = o.st.ghost.get(('mgerr', o.val[0].a[0])) if o.kind == 'throw' else None
                cx.ob('rejected', inst + ' is reported', o.kind == 'throw' and num is not None and dom.same(num, rj[-1][3]), rj[-1][4],
                      'a %s that the loop rejects is not reported with its error' % name, 'C07|rej|' + name)
                if o.kind == 'throw':
                    x = o.val[0].a[0]
                    memory(cx, o.st, b0, inst, 'rejected ' + name, allow=live0 | {x} | {e[1] for e in o.st.events() if e[0] == 'new' and e[1] == x})
                cx.ob('rejected', inst + ' is not outstanding', outstanding(cx, mod, k, o.st) == out0, rj[-1][4],
                      'a rejected %s stays outstanding: closing waits for it for ever' % name, 'C07|rejout|' + name)
                cx.ob('balanced', inst, not models.unbalanced(o.st), rj[-1][4], 'a lock is left held', 'C07|balance')
            cx.ob('rejected', name, n > 0, None, 'a rejected %s neither returns nor raises' % name, 'C07|rejend|' + name)


def quiet(cx, mod, k, A, st):
    """no operation in flight on this path"""
    s1 = st.copy()
    s1.frames = []
    return outstanding(cx, mod, k, s1) == {0}


def guarded(cx, mod, k, opened, LK, counters):
    """fields the loop thread changes on completion are used by the owner only under the loop lock, or when nothing is in flight"""
    cx.ob('guarded', 'completion changes the file', bool(counters), None, 'completions leave no trace in the file', 'C07|trace')
    for st in opened:
        pend = [o.st for o in then(cx, mod, k, [st], 'f_read', [Ptr(F), C(30, 32), C(5, 32)]) if o.kind == 'ret'][:1]
        for fn, args in (('f_read', [Ptr(F), C(3, 32), C(5, 32)]), ('f_write', [Ptr(F), C(3, 32), Ptr(('src',)), C(5, 32)]),
                         ('f_out', [Ptr(F)]), ('f_close', [Ptr(F)]), ('f_close_sync', [Ptr(F)]), ('f_del', [Ptr(F)])):
            for s in pend:
                A = interp(cx, mod, k)
                log = {}

                def h(store):
                    def g(A, st, reg, off, n, v, ins, at):
                        if reg.rid != F or ins is None or not isc(off) or at or LK in heldset(st):
                            return None
                        if set(range(cv(off), cv(off) + (n if isinstance(n, int) else 8))) & counters and not quiet(cx, mod, k, A, st):
                            log[A.loc(st, ins)] = store
                        return None
                    return g
                A.on_load.append(h(False))
                A.on_store.append(h(True))
                finisher(cx, mod, k, A, submits(s)[-1], LK)
                A.run(lambda: start(A, fn, args, s.copy()))
                cx.ob('guarded', fn[2:], True)
                for loc, store in log.items():
                    cx.ob('guarded', '%s at %s:%d' % ((fn[2:],) + loc), False, loc, '%s %s what the loop thread changes, without the loop lock' % (
                        fn[2:], 'changes' if store else 'reads'), 'C07|guard|' + fn)


def closing(cx, mod, k, st0, opened, LK):
    # nothing open: nothing is closed
    for fn in ('f_close', 'f_close_sync', 'f_del'):
        for o in then(cx, mod, k, [st0], fn, [Ptr(F)]):
            cl = [e for e in o.st.events() if (e[0] == 'submit' or e[0] == 'sync') and e[1] == 'close']
            cx.ob('close', fn[2:] + ' of a file never opened', not cl and o.kind == 'ret', lastloc(list(o.st.events())),
                  'a file that was never opened is closed', 'C07|closenone')
    for st in opened:
        fd = S(('fd',), 64, 1, 0x7fffffff)
        # asynchronous close, then again
        for o in then(cx, mod, k, [st], 'f_close', [Ptr(F)]):
            sub = [e for e in submits(o.st) if e[1] == 'close']
            if not cx.ob('close', 'one request', o.kind == 'ret' and len(sub) == 1, lastloc(list(o.st.events())), 'closing submits %d requests' % len(sub), 'C07|close1'):
                continue
            e = sub[0]
            cx.ob('close', 'the file opened', dom.same(e[8][2], dom.trunc(fd, 32)), e[6], 'another file is closed', 'C07|closefd')
            cx.ob('submit-locked', 'close', LK in e[7], e[6], 'the request is submitted without the loop lock', 'C07|sublock')
            for o2 in deliver(cx, mod, k, o.st, e, C(0, 64), LK):
                dn = [x for x in o2.st.events() if x[0] == 'done' and x[1] == 1]
                cx.ob('close', 'reported once', o2.kind == 'ret' and len(dn) == 1, e[6], 'a completed close is reported %d times' % len(dn), 'C07|closecb')
                cleaned(cx, o2.st, [e], 'close')
                memory(cx, o2.st, nev(st), 'close', 'close', allow=objs(st))
                for fn in ('f_close', 'f_del'):
                    for o3 in then(cx, mod, k, [o2.st], fn, [Ptr(F)]):
                        n = sum(1 for x in o3.st.events() if x[0] in ('submit', 'sync') and x[1] == 'close')
                        cx.ob('close', 'closed once, then ' + fn[2:], n == 1, e[6], 'a closed file is closed again', 'C07|twice')
            er = S(('cerr',), 64, ERRLO, (1 << 64) - 1)
            for o2 in deliver(cx, mod, k, o.st, e, er, LK):
                reported(cx, o2, 1, er, 'close', e)
        for fn in ('f_close_sync', 'f_del'):
            for o in then(cx, mod, k, [st], fn, [Ptr(F)]):
                cl = [e for e in o.st.events() if e[0] in ('submit', 'sync') and e[1] == 'close']
                bad = any(e[0] == 'sync' and e[1] == 'close' and o.st.facts.decide(dom.cmp('slt', e[4], C(0, 64))) is True for e in cl)
                cx.ob('close', fn[2:] + ' closes once', len(cl) == 1 and cl[0][0] == 'sync' and dom.same(cl[0][2][2], dom.trunc(fd, 32)),
                      lastloc(list(o.st.events())), '%s of an open file closes it %d times' % (fn[2:], len(cl)), 'C07|dclose')
                if fn == 'f_close_sync':
                    cx.ob('close', 'error of a synchronous close', (o.kind == 'throw') == bad, cl[0][3] if cl else None,
                          'a synchronous close does not report its error', 'C07|closeerr')
        # waiting: with operations outstanding the file is not closed until the loop has finished them
        cur = [o.st for o in then(cx, mod, k, [st], 'f_read', [Ptr(F), C(30, 32), C(5, 32)]) if o.kind == 'ret'][:1]
        for s in cur:
            for fn in ('f_close', 'f_close_sync', 'f_del'):
                waiting(cx, mod, k, s, fn, LK)
    # a file destroyed while it is being opened
    for o in then(cx, mod, k, [st0], 'f_open', [Ptr(F), Ptr(('path',)), C(0, 32)]):
        if o.kind == 'ret' and submits(o.st):
            waiting(cx, mod, k, o.st, 'f_del', LK, opening=True)


def waiting(cx, mod, k, s, fn, LK, opening=False):
    """the loop finishes the outstanding request during one of the waits; nothing may be closed before"""
    pend = submits(s)[-1]
    A = interp(cx, mod, k)
    seen = []

    def hookwait(A, st, ins, args, n):
        held = heldset(st)
        nn = sum(1 for e in st.events() if e[0] == 'waited')
        st.ev('waited', held)
        seen.append(held)
        r = S(('event', st.fresh()), 1)
        if nn < 1:
            return () if ins.ty.k == 'void' else r
        return [('dead', st, None)]
    A.hooks.insert(0, (re.compile(r'mg::core::signal_event::wait\(.*\)'), hookwait))
    A.hookcache = {}
    outs = [o for o in A.run(lambda: start(A, fn, [Ptr(F)], s.copy())) if o.kind != 'end']
    inst = '%s with %s outstanding' % (fn[2:], pend[1])
    for o in outs:
        cx.ob('waits', inst, False, lastloc(list(o.st.events())), '%s: does not wait for it' % inst, 'C07|nowait|' + fn)
    cx.ob('waits', inst, bool(seen), None, '%s: does not wait' % inst, 'C07|nowait|' + fn)
    cx.ob('waits', inst + ' without the lock', all(LK not in h for h in seen), None,
          '%s: waits holding the loop lock, which the loop needs to finish' % inst, 'C07|deadlock')
    # finished during the first wait: then it goes on
    A = interp(cx, mod, k)
    finisher(cx, mod, k, A, pend, LK)
    outs = [o for o in A.run(lambda: start(A, fn, [Ptr(F)], s.copy())) if o.kind != 'end']
    n = 0
    for o in outs:
        if o.kind != 'ret':
            continue
        n += 1
        ev = list(o.st.events())
        for e in ev:
            if e[0] in ('uaf', 'nullderef'):
                cx.ob('memory', inst, False, e[1], inst + ': memory used after it was freed', 'C07|uaf|wait')
        cl = [e for e in ev if e[0] in ('submit', 'sync') and e[1] == 'close']
        cx.ob('waits', inst + ', then closes', len(cl) == 1, lastloc(ev), '%s: afterwards the file is closed %d times' % (inst, len(cl)), 'C07|after')
    cx.ob('waits', inst + ', then ends', n > 0, None, inst + ': never ends', 'C07|neverends')


def finisher(cx, mod, k, A, pend, LK):
    """the first wait for the loop lets it finish the pending request"""
    def finish(A, st, ins, args, n):
        nn = sum(1 for e in st.events() if e[0] == 'waited')
        st.ev('waited', heldset(st))
        r = S(('event', st.fresh()), 1)
        if nn >= 1:
            return [('dead', st, None)]
        B = interp(cx, mod, k)
        s1 = st.copy()
        s1.frames = []
        s1.ghost[LK] = s1.ghost.get(LK, 0) + 1
        A.poke(s1, Ptr(pend[2].a[0], dom.add(pend[2].a[1], C(k.o_result, 64))), 8, S(('late',), 64, 1, 5))
        outs = []
        for o in B.run(lambda: start(B, cbname(pend), [pend[2]], s1)):
            if o.kind == 'ret':
                o.st.ghost[LK] -= 1
                o.st.frames = st.copy().frames
                outs.append(('ret', o.st, None if ins.ty.k == 'void' else r))
        return outs
    A.hooks.insert(0, (re.compile(r'mg::core::signal_event::wait\(.*\)'), finish))
    A.hookcache = {}
