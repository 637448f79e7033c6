"""Storages: the places the streams read from and write to.

Every storage class is interpreted from an arbitrary state: the memory storages from every position, content and capacity
that satisfy their invariant (established by construction, preserved by every operation), the synchronous file with the
C library's files replaced by their contract (any result, any failure). An abstract client records what it is given; it has to be
the bytes of the storage at its position, as many as asked for unless the data end, once per request; a write has to
change exactly the bytes at the position. Positions are 64-bit terms, so a truncation shows."""
import dom
from dom import C, S, Ptr, NULL, isc, cv, zext, sext
from absint import Interp, State, AnalysisError
import models
import c07
import c12
from c12 import go, same

LEVEL = 'proof'
FLOOR = 60
UNITS = ['mg/core/file.cpp', 'mg/core/thread.cpp', 'mg/core/uvbase.cpp']
DRIVER = r'''
#include "mgcore.h"
#include "mg/media/TBitstream.h"
#include <new>
#include <stddef.h>
extern "C" { void on_read(const unsigned char* p, uint32_t n); void on_write(uint32_t n); }
struct Cb : Ibitstream_cb {
  void read_cb(const unsigned char* p, uint32_t n) override { on_read(p, n); }
  void write_cb(uint32_t n) override { on_write(n); }
};
#define OPS(N, T) void N##_read(T* s, uint32_t n, Cb* c) { static_cast<Ibitstream_storage*>(s)->read(n, c); } \
void N##_write(T* s, const unsigned char* p, uint32_t n, Cb* c) { static_cast<Ibitstream_storage*>(s)->write(p, n, c); } \
bool N##_eof(T* s) { return static_cast<Ibitstream_storage*>(s)->eof(); } \
void N##_flush(T* s) { static_cast<Ibitstream_storage*>(s)->flush(); } \
void N##_idle(T* s) { static_cast<Ibitstream_storage*>(s)->idle(); } \
uint64_t N##_pos(T* s) { return static_cast<Ibitstream_storage*>(s)->get_position(); } \
void N##_seek(T* s, uint64_t p) { static_cast<Ibitstream_storage*>(s)->set_position(p); } \
void N##_del(T* s) { s->~T(); }
extern "C" {
void cb_new(void* w) { new (w) Cb; }
void fr_new(void* w, const unsigned char* p, size_t n) { new (w) fixed_memory_read(p, n); }
OPS(fr, fixed_memory_read)
void fw_new(void* w, uint32_t n) { new (w) fixed_memory_write(n); }
unsigned char* fw_mem(fixed_memory_write* s) { return s->get_buffer(); }
uint64_t fw_size(fixed_memory_write* s) { return s->size(); }
OPS(fw, fixed_memory_write)
void sf_new(void* w) { new (w) sync_file_bitstream; }
void sf_new2(void* w, const TCHAR* p, bool r) { new (w) sync_file_bitstream(p, r); }
void sf_open(sync_file_bitstream* s, const TCHAR* p, bool r) { s->open(p, r); }
void sf_close(sync_file_bitstream* s) { s->close(); }
uint64_t sf_size(sync_file_bitstream* s) { return s->size(); }
size_t sf_read2(sync_file_bitstream* s, uint32_t n, unsigned char* p) { return s->read(n, p); }
size_t sf_write2(sync_file_bitstream* s, const unsigned char* p, uint32_t n) { return s->write(p, n); }
OPS(sf, sync_file_bitstream)
typedef CBuffer<unsigned char> B;
void b_new(void* w, size_t n) { new (w) B(n); }
unsigned char* b_get(B* b) { return b->get(); }
size_t b_full(B* b) { return b->getFull(); }
size_t b_size(B* b) { return b->getSize(); }
void af_new(void* l, void* w) { new (l) mg::uv::loopthread(new mg::uv::uvloopthread()); new (w) file_bitstream(*(mg::uv::loopthread*)l); }
void af_open(file_bitstream* s, const TCHAR* p, int f) { s->open_sync(p, f); }
uint64_t af_size(file_bitstream* s) { return s->size(); }
OPS(af, file_bitstream)
}
''' + c07.DRIVER
ASSUMPTIONS = ['the client neither raises nor uses the storage again inside its call', 'positions set lie in the data (at its end at most) for memory that is written',
               'contents below 2^62 bytes, memory written below 2^40 bytes', 'C library files as documented']
OBJ, CB, DATA, USER, FH = ('store',), ('client',), ('data',), ('user',), ('h', 'FILE', 'fopen')
TBS = ('src/mg/media/TBitstream.h', 0)
FILEH = ('src/mg/core/file.h', 0)


class St(c12.Buf):
    def __init__(self, mod):
        c12.Buf.__init__(self, mod)
        models.install_exc(self)
        self.alloc_throws = False

        def rd(A, st, ins, args, n):
            st.ev('read_cb', args[0], args[1], A.loc(st, ins))
            # what the client sees now
            st.ghost['seen'] = st.ghost.get('seen', ()) + (('r', st.copy()),)
            return ()

        def wr(A, st, ins, args, n):
            st.ev('write_cb', args[0], A.loc(st, ins))
            return ()
        self.hook('on_read', rd)
        self.hook('on_write', wr)


def one(A, outs, what):
    r = [o for o in outs if o.kind == 'ret']
    if len(r) != 1:
        raise AnalysisError(what + ': %d ways to return' % len(r))
    return r[0]


def cells(A, st, rid):
    out = {}
    for L in A.region(st, rid).layers:
        if not isinstance(L, dict):
            raise AnalysisError('layout of ' + str(rid))
        out.update(L)
    return out


def loads(cx, cls, mod, fn, args, st, rid=OBJ):
    seen = set()
    B = cx.use(cls(mod))
    B.on_load.append(lambda A, s, reg, off, n, v, ins, at: seen.add((cv(off), n)) if reg.rid == rid and isc(off) and not (v.op == 'ptr' and v.a[0][0] == 'g') else None)
    B.run(lambda: go(B, fn, args, st.copy()))
    return seen


def region(A, st, rid, size, kind='obj'):
    r = A.region(st, rid).clone()
    r.size, r.kind = size, kind
    st.mem[rid] = r


def value(A, mod, fn, st, obj=OBJ):
    """what a query answers in this state, by path"""
    s = st.copy()
    s.trace = None
    outs = A.run(lambda: go(A, fn, [Ptr(obj)], s.copy()))
    return [o for o in outs if o.kind == 'ret']


def memory_ok(cx, A, st, inst, where):
    for e in st.events():
        if e[0] in ('oob', 'userwrite', 'uaf', 'doublefree', 'nullderef', 'abort', 'terminate'):
            what = {'oob': 'leaves the memory it may use', 'userwrite': 'changes what it was given', 'uaf': 'uses memory it released',
                    'doublefree': 'releases memory twice'}.get(e[0], e[0])
            cx.ob('memory', inst, False, e[2] if e[0] == 'oob' else e[1], '%s %s' % (inst, what), 'mem|%s|%s' % (inst, what))
            return False
    cx.ob('memory', inst, True)
    return True


def calls(st, name):
    return [e for e in st.events() if e[0] == name]


def reading(cx, mod):
    """memory that is read"""
    A = cx.use(St(mod))
    L = S('length', 64, 0, 1 << 62)
    st = State()
    region(A, st, DATA, L)
    st = one(A, A.run(lambda: go(A, 'cb_new', [Ptr(CB)], st.copy())), 'client').st
    st0 = one(A, A.run(lambda: go(A, 'fr_new', [Ptr(OBJ), Ptr(DATA), L], st.copy())), 'construction').st
    pos = loads(cx, St, mod, 'fr_pos', [Ptr(OBJ)], st0)
    cx.anchor(len(pos) == 1, 'the position of the memory that is read')
    pos = pos.pop()
    c0 = cells(A, st0, OBJ)
    v = A.peek(st0, Ptr(OBJ, C(pos[0], 64)), pos[1])
    cx.ob('start', 'memory that is read', isc(v) and cv(v) == 0, TBS, 'memory that is read does not start at position 0', 'fr|start')
    P = S('position', 64, 0, (1 << 63) - 1)

    def generic():
        s = st0.copy()
        s.trace = None
        s.facts = type(s.facts)()
        A.poke(s, Ptr(OBJ, C(pos[0], 64)), pos[1], P)
        return s
    n = S('n', 32)
    to = S('to', 64, 0, (1 << 63) - 1)
    for op, args in (('read', [n, Ptr(CB)]), ('seek', [to]), ('eof', []), ('pos', []), ('flush', []), ('idle', []), ('write', [Ptr(USER), n, Ptr(CB)])):
        inst = '%s (memory that is read)' % op

        def init():
            s = generic()
            if op == 'write':
                region(A, s, USER, zext(n, 64))
            return go(A, 'fr_' + op, [Ptr(OBJ)] + args, s)
        outs = A.run(init)
        cx.ob('ends', inst, all(o.kind in ('ret', 'throw') for o in outs) and outs, TBS, inst + ' does not end', inst + '|ends')
        for o in outs:
            s, f = o.st, o.st.facts
            memory_ok(cx, A, s, inst, TBS)
            if op == 'write':
                cx.ob('write', inst, o.kind == 'throw' and not calls(s, 'write_cb'), TBS, 'writing into memory that is read is not refused', inst + '|refuse')
            else:
                cx.ob('raise', inst, o.kind == 'ret', TBS, inst + ' raises an error', inst + '|raise')
            rc = calls(s, 'read_cb')
            np = A.peek(s, Ptr(OBJ, C(pos[0], 64)), pos[1])
            want = P
            if op == 'read' and o.kind == 'ret':
                cx.ob('once', inst, len(rc) == 1, TBS, 'a read is not answered once', inst + '|once')
                for e in rc[:1]:
                    N = zext(n, 64)
                    for kind in ('inside', 'part', 'end'):
                        s2 = s.copy()
                        if kind == 'end':
                            ok = A.assume(s2, dom.cmp('ule', L, P), True)
                        else:
                            ok = A.assume(s2, dom.cmp('ule', P, L), True) and A.assume(s2, dom.cmp('ule', dom.add(P, N), L), kind == 'inside')
                        if not ok or s2.facts.contra():
                            continue
                        m = {'inside': N, 'part': dom.sub(L, P), 'end': C(0, 64)}[kind]
                        got = zext(e[2], 64)
                        cx.ob('length', inst + ' ' + kind, s2.facts.eq(got, m), e[3], 'a read delivers another number of bytes than is there and asked for', inst + '|len')
                        cx.ob('position', inst + ' ' + kind, s2.facts.eq(np, dom.add(P, m)), e[3], 'a read does not move the position by what it delivers', inst + '|pos')
                        q = A.to_ptr(s2, e[1])
                        cx.ob('bytes', inst + ' ' + kind, s2.facts.eq(m, C(0, 64)) or q is not None and q[0] == DATA and s2.facts.eq(q[1], P), e[3],
                              'a read delivers other bytes than those at the position', inst + '|bytes')
                continue
            cx.ob('once', inst, not rc, TBS, inst + ' delivers bytes', inst + '|stray')
            if op == 'seek':
                want = to
            cx.ob('position', inst, f.eq(np, want), TBS, 'the position after %s is wrong' % inst, inst + '|pos')
            rest = {k: v for k, v in cells(A, s, OBJ).items() if k != pos[0]}
            ref = {k: v for k, v in c0.items() if k != pos[0]}
            cx.ob('state', inst, all(k in rest and rest[k][1] is ref[k][1] or (k in rest and f.eq(rest[k][1], ref[k][1])) for k in ref), TBS,
                  '%s changes which memory is read' % inst, inst + '|state')
            if op == 'pos' and o.kind == 'ret':
                cx.ob('value', inst, f.eq(o.val, P), TBS, 'the position told is not the position', inst + '|value')
            if op == 'eof' and o.kind == 'ret':
                for v in (1, 0):
                    s2 = s.copy()
                    if A.assume(s2, dom.cmp('eq', dom.trunc(o.val, 1), C(v, 1)), True) and not s2.facts.contra():
                        cx.ob('value', inst, (s2.facts.ule(L, P) if v else s2.facts.ult(P, L)), TBS, 'the end is told at another place than the end', inst + '|value')


def writing(cx, mod):
    """memory that is written"""
    A = cx.use(St(mod))
    N0 = S('N', 32, 1, (1 << 32) - 1)
    st = one(A, A.run(lambda: go(A, 'cb_new', [Ptr(CB)], State())), 'client').st
    st0 = one(A, A.run(lambda: go(A, 'fw_new', [Ptr(OBJ), N0], st.copy())), 'construction').st
    # the layout of the buffer, from a buffer of its own
    stb = one(A, A.run(lambda: go(A, 'b_new', [Ptr(('b',)), C(16, 64)], State())), 'buffer').st
    lay = {}
    for role in ('get', 'full', 'size'):
        l = loads(cx, St, mod, 'b_' + role, [Ptr(('b',))], stb, ('b',))
        cx.anchor(len(l) == 1, 'the buffer of the memory that is written')
        lay[role] = l.pop()
    mem = [x for x in loads(cx, St, mod, 'fw_mem', [Ptr(OBJ)], st0) if x[1] == 8]
    cx.anchor(len(mem) == 1, 'the storage of the memory that is written')
    base = mem[0][0] - lay['get'][0]
    R = {r: (base + lay[r][0], lay[r][1]) for r in lay}
    for r, fn in (('pos', 'fw_pos'), ('end', 'fw_size')):
        l = loads(cx, St, mod, fn, [Ptr(OBJ)], st0)
        cx.anchor(len(l) == 1, 'what %s reads' % fn)
        R[r] = l.pop()
    cx.anchor(len(set(R.values())) == 5, 'the roles of the memory that is written')
    get = lambda s, r: A.peek(s, Ptr(OBJ, C(R[r][0], 64)), R[r][1], r == 'get')
    inst = 'construction (memory that is written)'
    f = st0.facts
    cx.ob('start', inst, f.eq(get(st0, 'pos'), C(0, 64)) and f.eq(get(st0, 'end'), C(0, 64)) and f.eq(get(st0, 'full'), C(0, 64)) and
          f.eq(get(st0, 'size'), zext(N0, 64)), TBS, 'new memory is not empty, at its start and of the size asked for', 'fw|start')
    MAX = 1 << 40
    P, Z, K = S('position', 64, 0, MAX), S('end', 64, 0, MAX), S('capacity', 64, 1, MAX)
    old = A.to_ptr(st0, get(st0, 'get'))[0]
    step = [k for k, (n, v) in cells(A, st0, OBJ).items() if n == 8 and v.op != 'ptr' and f.eq(v, zext(N0, 64)) and (k, n) != R['size']]

    def generic():
        s = st0.copy()
        s.trace = None
        s.facts = type(s.facts)()
        rid = ('h', 'old', 'new')
        r = A.region(st0, old).clone()
        r.rid, r.layers, r.gen, r.size, r.alive = rid, (), 1, K, True
        del s.mem[old]
        s.mem[rid] = r
        for role, v in (('get', Ptr(rid)), ('full', P), ('size', K), ('pos', P), ('end', Z)):
            A.poke(s, Ptr(OBJ, C(R[role][0], 64)), R[role][1], v)
        for k in step:
            A.poke(s, Ptr(OBJ, C(k, 64)), 8, S('step', 64, 1, MAX))
        A.assume(s, dom.cmp('ule', P, Z), True)
        A.assume(s, dom.cmp('ule', Z, K), True)
        return s
    n = S('n', 32, 0, 1 << 31)
    to = S('to', 64, 0, MAX)
    OLD = ('h', 'old', 'new')

    def inv(s, inst):
        f = s.facts
        p, z, k = get(s, 'pos'), get(s, 'end'), get(s, 'size')
        q = A.to_ptr(s, get(s, 'get'))
        bad = []
        if not f.eq(p, get(s, 'full')):
            bad.append('the position and what is committed differ')
        if not f.ule(p, z):
            bad.append('the position is after the end')
        if not f.ule(z, k):
            bad.append('the end is after the memory')
        if q is None or q[0] not in s.mem or not s.mem[q[0]].alive or not f.eq(s.mem[q[0]].size, k) or not f.eq(q[1], C(0, 64)):
            bad.append('the memory is not a block of the size it says')
        cx.ob('invariant', inst, not bad, TBS, 'after %s: %s' % (inst, '; '.join(bad)), 'inv|%s|%s' % (inst, ';'.join(bad)))
        return not bad
    inv(st0, inst)
    for op, args in (('read', [n, Ptr(CB)]), ('write', [Ptr(USER), n, Ptr(CB)]), ('seek', [to]), ('eof', []), ('pos', []), ('flush', []), ('idle', []), ('size', []), ('mem', [])):
        inst = '%s (memory that is written)' % op

        def init():
            s = generic()
            if op == 'write':
                region(A, s, USER, zext(n, 64))
            if op == 'seek' and not A.assume(s, dom.cmp('ule', to, Z), True):
                raise AnalysisError('precondition')
            return go(A, 'fw_' + op, [Ptr(OBJ)] + args, s)
        outs = A.run(init)
        cx.ob('ends', inst, any(o.kind == 'ret' for o in outs), TBS, inst + ' does not end', inst + '|ends')
        for o in outs:
            s, f = o.st, o.st.facts
            if o.kind == 'end' and o.why == 'recursion':
                cx.notes.append(inst + ': growth in more steps than were unfolded')
                continue
            if not memory_ok(cx, A, s, inst, TBS):
                continue
            cx.ob('raise', inst, o.kind == 'ret', TBS, inst + ' raises an error or ends abnormally', inst + '|raise')
            if o.kind != 'ret' or not inv(s, inst):
                continue
            rc, wc = calls(s, 'read_cb'), calls(s, 'write_cb')
            N = zext(n, 64)
            cx.ob('once', inst, len(rc) == (op == 'read') and len(wc) == (op == 'write'), TBS, '%s is not answered once' % inst, inst + '|once')
            if len(rc) != (op == 'read') or len(wc) != (op == 'write'):
                continue
            p1, z1 = get(s, 'pos'), get(s, 'end')
            q = A.to_ptr(s, get(s, 'get'))
            i = S('i', 64, 0, 1 << 60)

            def content(s, lo, hi, src, what, key):
                for s2, v in c12.bytes_(A, s, (q[0], dom.add(q[1], lo)), i, dom.sub(hi, lo)):
                    cx.ob('content', inst, same(v, src[0], dom.add(src[1], i), s2.facts), TBS, '%s: %s' % (inst, what), inst + '|' + key)
            if op == 'write':
                cx.ob('answer', inst, f.eq(zext(wc[0][1], 64), N), wc[0][2], 'a write reports another number than it wrote', inst + '|n')
                cx.ob('position', inst, f.eq(p1, dom.add(P, N)), TBS, 'a write does not move the position by what was written', inst + '|pos')
                content(s, C(0, 64), P, (OLD, C(0, 64)), 'what is before the position is lost', 'before')
                content(s, P, dom.add(P, N), (USER, C(0, 64)), 'what is written is not what was given', 'given')
                for beyond in (True, False):
                    s2 = s.copy()
                    if not A.assume(s2, dom.cmp('ule', Z, dom.add(P, N)), beyond) or s2.facts.contra():
                        continue
                    cx.ob('end', inst, s2.facts.eq(z1, dom.add(P, N) if beyond else Z), TBS, 'the end after a write is wrong', inst + '|end')
                    if not beyond:
                        content(s2, dom.add(P, N), Z, (OLD, dom.add(P, N)), 'what is after the bytes written is lost', 'after')
                live = [r for r, reg in s.mem.items() if r[0] == 'h' and reg.alive and r[2] in ('new', 'malloc')]
                cx.ob('leak', inst, set(live) == {q[0]}, TBS, 'a write keeps memory it has no use for', inst + '|leak')
                continue
            cx.ob('same', inst, q[0] == OLD and f.eq(z1, Z), TBS, '%s changes the memory or its end' % inst, inst + '|same')
            content(s, C(0, 64), Z, (OLD, C(0, 64)), 'changes the content', 'content')
            if op == 'read':
                for whole in (True, False):
                    s2 = s.copy()
                    if not A.assume(s2, dom.cmp('ule', dom.add(P, N), Z), whole) or s2.facts.contra():
                        continue
                    m = N if whole else dom.sub(Z, P)
                    e = rc[0]
                    cx.ob('length', inst, s2.facts.eq(zext(e[2], 64), m), e[3], 'a read delivers another number of bytes than is there and asked for', inst + '|len')
                    cx.ob('position', inst, s2.facts.eq(p1, dom.add(P, m)), e[3], 'a read does not move the position by what it delivers', inst + '|pos')
                    a = A.to_ptr(s2, e[1])
                    cx.ob('bytes', inst, s2.facts.eq(m, C(0, 64)) or a is not None and a[0] == OLD and s2.facts.eq(a[1], P), e[3],
                          'a read delivers other bytes than those at the position', inst + '|bytes')
                continue
            cx.ob('position', inst, f.eq(p1, to if op == 'seek' else P), TBS, 'the position after %s is wrong' % inst, inst + '|pos')
            if op in ('pos', 'size'):
                cx.ob('value', inst, f.eq(o.val, P if op == 'pos' else Z), TBS, '%s tells another number' % inst, inst + '|value')
            if op == 'mem':
                a = A.to_ptr(s, o.val)
                cx.ob('value', inst, a is not None and a[0] == OLD and f.eq(a[1], C(0, 64)), TBS, 'the memory told is another', inst + '|value')
            if op == 'eof':
                for v in (1, 0):
                    s2 = s.copy()
                    if A.assume(s2, dom.cmp('eq', dom.trunc(o.val, 1), C(v, 1)), True) and not s2.facts.contra():
                        cx.ob('value', inst, s2.facts.ule(Z, P) if v else s2.facts.ult(P, Z), TBS, 'the end is told at another place than the end', inst + '|value')
    outs = A.run(lambda: go(A, 'fw_del', [Ptr(OBJ)], generic()))
    for o in outs:
        cx.ob('destruction', 'memory that is written', o.kind == 'ret' and not A.region(o.st, OLD).alive and memory_ok(cx, A, o.st, 'destruction', TBS), TBS,
              'the memory is not released once', 'fw|del')


class Sf(St):
    def __init__(self, mod, osize=0):
        St.__init__(self, mod)
        models.install_locks(self)
        ptr = lambda t: t.op == 'ptr' and t.a[0] == FH

        def two(A, st, ins, name, good, bad):
            s2 = st.copy()
            st.ev(name, 'ok', A.loc(st, ins))
            s2.ev(name, 'failed', A.loc(s2, ins))
            return [('ret', st, good), ('ret', s2, bad)]

        def use(A, st, ins, name, f):
            st.ev('file', name, bool(ptr(f)) and st.ghost.get('open', 0) > 0, A.loc(st, ins))

        def fopen(A, st, ins, args, n):
            s2 = st.copy()
            st.ghost['open'] = st.ghost.get('open', 0) + 1
            region(A, st, FH, C(216, 64))
            mode = None
            q = A.to_ptr(st, args[1])
            if q is not None:
                mode = ''
                for k in range(4):
                    b = A.peek(st, Ptr(q[0], dom.add(q[1], C(k, 64))), 1)
                    if not isc(b):
                        mode = None
                        break
                    if cv(b) == 0:
                        break
                    mode += chr(cv(b))
            st.ev('fopen', args[0], mode, A.loc(st, ins))
            s2.ev('failed', 'fopen', A.loc(s2, ins))
            return [('ret', st, Ptr(FH)), ('ret', s2, NULL)]

        def fclose(A, st, ins, args, n):
            use(A, st, ins, 'fclose', args[0])
            st.ghost['open'] = st.ghost.get('open', 0) - 1
            st.ev('fclose', A.loc(st, ins))
            return C(0, 32)

        def fread(A, st, ins, args, n):
            use(A, st, ins, 'fread', args[3])
            total = args[2] if isc(args[1]) and cv(args[1]) == 1 else args[1] if isc(args[2]) and cv(args[2]) == 1 else None
            if total is None:
                raise AnalysisError('fread of other than single bytes')
            q = A.to_ptr(st, args[0])
            reg = A.region(st, q[0])
            for h in A.on_access:
                h(A, st, reg, q[1], total, 'w', ins)
            out = []
            for how in ('all', 'end', 'failed'):
                s = st.copy()
                r = total if how == 'all' else S(('fread', how, s.fresh()), 64, 0, (1 << 32) - 1)
                if how != 'all':
                    if not A.assume(s, dom.cmp('ult', r, total), True) or s.facts.contra():
                        continue
                s.ghost['feof'], s.ghost['ferror'] = how == 'end', how == 'failed'
                A.havoc(s, q[0], q[1], total)
                s.ev('fread', args[0], total, r, how, A.loc(s, ins))
                if how == 'failed':
                    s.ev('failed', 'fread', A.loc(s, ins))
                # one item of n bytes: 1 or 0
                out.append(('ret', s, r if isc(args[1]) and cv(args[1]) == 1 else C(1 if how == 'all' else 0, 64)))
            return out

        def fwrite(A, st, ins, args, n):
            use(A, st, ins, 'fwrite', args[3])
            total = args[2] if isc(args[1]) and cv(args[1]) == 1 else None
            if total is None:
                raise AnalysisError('fwrite of other than single bytes')
            q = A.to_ptr(st, args[0])
            for h in A.on_access:
                h(A, st, A.region(st, q[0]), q[1], total, 'r', ins)
            s2 = st.copy()
            st.ev('fwrite', args[0], total, total, A.loc(st, ins))
            r = S(('fwrite', s2.fresh()), 64, 0, (1 << 32) - 1)
            out = [('ret', st, total)]
            if A.assume(s2, dom.cmp('ult', r, total), True) and not s2.facts.contra():
                s2.ev('fwrite', args[0], total, r, A.loc(s2, ins))
                s2.ev('failed', 'fwrite', A.loc(s2, ins))
                out.append(('ret', s2, r))
            return out

        def fseek(A, st, ins, args, n):
            use(A, st, ins, 'fseek', args[0])
            s2 = st.copy()
            st.ev('fseek', args[1], args[2], A.loc(st, ins))
            s2.ev('failed', 'fseek', A.loc(s2, ins))
            return [('ret', st, C(0, 32)), ('ret', s2, C(-1 & 0xffffffff, 32))]

        def ftell(A, st, ins, args, n):
            use(A, st, ins, 'ftell', args[0])
            s2 = st.copy()
            v = S('tell', 64, 0, (1 << 63) - 1)
            st.ev('ftell', v)
            s2.ev('failed', 'ftell', A.loc(s2, ins))
            return [('ret', st, v), ('ret', s2, C((1 << 64) - 1, 64))]

        def flag(name):
            def h(A, st, ins, args, n):
                use(A, st, ins, name, args[0])
                v = st.ghost.get(name)
                if v is None:
                    t = S(name, 32)
                    st.ghost[name + '?'] = t
                    return t
                return C(1 if v else 0, 32)
            return h

        def fflush(A, st, ins, args, n):
            use(A, st, ins, 'fflush', args[0])
            s2 = st.copy()
            st.ev('fflush')
            s2.ev('failed', 'fflush', A.loc(s2, ins))
            return [('ret', st, C(0, 32)), ('ret', s2, C((1 << 32) - 1, 32))]

        def stat(A, st, ins, args, n):
            s2 = st.copy()
            q = A.to_ptr(st, args[1])
            z = S('st_size', 64, 0, (1 << 63) - 1)
            A.poke(st, Ptr(q[0], dom.add(q[1], C(osize, 64))), 8, z)
            st.ev('stat', args[2])
            e = S(('err', s2.fresh()), 32, (1 << 32) - 4095, (1 << 32) - 1)
            s2.ev('failed', 'stat', A.loc(s2, ins))
            return [('ret', st, C(0, 32)), ('ret', s2, e)]
        self.hook('fopen(64)?', fopen)
        self.hook('fclose', fclose)
        self.hook('fread(_unlocked)?', fread)
        self.hook('fwrite(_unlocked)?', fwrite)
        self.hook('fseeko?(64)?', fseek)
        self.hook('ftello?(64)?', ftell)
        self.hook('feof(_unlocked)?', flag('feof'))
        self.hook('ferror(_unlocked)?', flag('ferror'))
        self.hook('fflush', fflush)
        self.hook('uv_fs_stat', stat)
        self.hook('uv_default_loop', lambda A, st, ins, args, n: Ptr(('*', 'loop')))
        self.hook('uv_fs_req_cleanup', lambda A, st, ins, args, n: ())
        self.hook('uv_strerror', lambda A, st, ins, args, n: Ptr(('*', 'strerror')))
        self.hook('clearerr', lambda A, st, ins, args, n: ())


def syncfile(cx, mod):
    B = cx.use(Interp(mod))
    osize = cv(one(B, B.run(lambda: go(B, 'o_size', [], State())), 'offset').val)
    A = cx.use(Sf(mod, osize))
    NAME = ('name',)
    st = one(A, A.run(lambda: go(A, 'cb_new', [Ptr(CB)], State())), 'client').st
    closed = one(A, A.run(lambda: go(A, 'sf_new', [Ptr(OBJ)], st.copy())), 'construction').st

    def ob(rule, inst, c, what, where=FILEH):
        cx.ob(rule, inst, c, where, '%s: %s' % (inst, what), '%s|%s' % (inst, what))

    def judge(o, inst, quiet=()):
        """files are used while open, failures raise, memory is left alone; True when it returned"""
        s = o.st
        good = memory_ok(cx, A, s, inst, FILEH)
        for e in calls(s, 'file'):
            ob('file', inst, e[2], 'a file is used that is not open (%s)' % e[1], e[3])
        fl = [e for e in calls(s, 'failed') if e[1] not in quiet]
        ob('failure', inst, not fl or o.kind == 'throw', 'the failure of %s is not reported' % (fl[0][1] if fl else ''), fl[0][2] if fl else FILEH)
        ob('raise', inst, o.kind == 'ret' or o.kind == 'throw' and fl, 'raises an error or ends abnormally although nothing failed')
        return good and o.kind == 'ret'
    opened = {}
    for how, val in (('read', 1), ('write', 0)):
        for fn, args, base in (('sf_open', [Ptr(OBJ), Ptr(NAME), C(val, 1)], closed), ('sf_new2', [Ptr(OBJ), Ptr(NAME), C(val, 1)], st)):
            inst = 'opening to %s (%s)' % (how, fn)
            n = 0
            for o in A.run(lambda: go(A, fn, args, base.copy())):
                if judge(o, inst):
                    n += 1
                    fo = calls(o.st, 'fopen')
                    ob('open', inst, len(fo) == 1 and fo[0][1].op == 'ptr' and fo[0][1].a[0] == NAME and fo[0][2] in (('rb', 'r') if val else ('wb', 'w')),
                       'the file is opened otherwise than asked for', fo[0][3] if fo else FILEH)
                    opened[how] = o.st
            ob('open', inst, n > 0, 'never succeeds')
    # closing, destruction
    for name, base, want in (('closed', closed, 0), ('open', opened['read'], 1)):
        for fn in ('sf_close', 'sf_del'):
            inst = '%s of a file that is %s' % (fn, name)
            for o in A.run(lambda: go(A, fn, [Ptr(OBJ)], clean(base))):
                judge(o, inst)
                ob('close', inst, len(calls(o.st, 'fclose')) == want, 'the file is not closed once')
                if fn == 'sf_close':
                    for o2 in A.run(lambda: go(A, 'sf_del', [Ptr(OBJ)], o.st.copy())):
                        ob('close', inst, len(calls(o2.st, 'fclose')) == want, 'the file is not closed once')
    # the buffer of the reads
    stb = one(A, A.run(lambda: go(A, 'b_new', [Ptr(('b',)), C(16, 64)], State())), 'buffer').st
    lay = {r: loads(cx, St, mod, 'b_' + r, [Ptr(('b',))], stb, ('b',)).pop() for r in ('get', 'full', 'size')}
    base = None
    cs = cells(A, closed, OBJ)
    for k, (w, v) in cs.items():
        if w == 8 and v.op == 'ptr' and v.a[0][0] == 'h' and k - lay['get'][0] >= 0:
            base = k - lay['get'][0]
    cx.anchor(base is not None, 'the buffer of the synchronous file')
    R = {r: (base + lay[r][0], lay[r][1]) for r in lay}
    K = S('capacity', 64, 1, 1 << 40)
    OLD = ('h', 'old', 'new')

    def generic(how):
        s = clean(opened[how])
        o = A.to_ptr(s, A.peek(s, Ptr(OBJ, C(R['get'][0], 64)), 8, True))[0]
        r = A.region(s, o).clone()
        r.rid, r.layers, r.gen, r.size, r.alive = OLD, (), 1, K, True
        del s.mem[o]
        s.mem[OLD] = r
        A.poke(s, Ptr(OBJ, C(R['get'][0], 64)), 8, Ptr(OLD))
        A.poke(s, Ptr(OBJ, C(R['size'][0], 64)), R['size'][1], K)
        return s
    n = S('n', 32, 0, 1 << 31)
    to = S('to', 64, 0, (1 << 63) - 1)
    N = zext(n, 64)
    for how in ('read', 'write'):
        for op, args in (('read', [n, Ptr(CB)]), ('read2', [n, Ptr(USER)]), ('write', [Ptr(USER), n, Ptr(CB)]), ('write2', [Ptr(USER), n]), ('seek', [to]),
                         ('eof', []), ('pos', []), ('flush', []), ('idle', [])):
            if op.startswith('read') and how == 'write' or op.startswith('write') and how == 'read':
                continue
            inst = '%s (synchronous file to %s)' % (op, how)

            def init():
                s = generic(how)
                s.ghost['userw'] = op == 'read2'
                if 'USER' in str(args) or any(a.op == 'ptr' and a.a[0] == USER for a in args if isinstance(a, dom.T)):
                    region(A, s, USER, N)
                return go(A, 'sf_' + op, [Ptr(OBJ)] + args, s)
            outs = A.run(init)
            ob('ends', inst, any(o.kind == 'ret' for o in outs), 'never returns')
            for o in outs:
                s, f = o.st, o.st.facts
                if o.kind == 'end' and o.why == 'recursion':
                    continue
                returned = judge(o, inst, quiet=('fread', 'fwrite') if op in ('read2', 'write2') else ('ftell',))
                rc, wc = calls(s, 'read_cb'), calls(s, 'write_cb')
                ob('once', inst, len(rc) == (1 if op == 'read' and returned else 0) and len(wc) == (1 if op == 'write' and returned else 0), 'the request is not answered once')
                if not returned:
                    continue
                fr, fw, fs = calls(s, 'fread'), calls(s, 'fwrite'), calls(s, 'fseek')
                ob('effect', inst, len(fr) == op.startswith('read') and len(fw) == op.startswith('write') and len(fs) == (op == 'seek') and
                   not calls(s, 'fopen') and not calls(s, 'fclose'), 'does something else to the file')
                if op.startswith('read') and len(fr) == 1:
                    ob('length', inst, f.eq(fr[0][2], N), 'another number of bytes is read than asked for', fr[0][5])
                    if op == 'read' and len(rc) == 1:
                        a, b = A.to_ptr(s, rc[0][1]), A.to_ptr(s, fr[0][1])
                        ob('bytes', inst, a is not None and a[0] == b[0] and f.eq(a[1], b[1]) and A.region(s, a[0]).alive, 'other bytes are delivered than were read', rc[0][3])
                        ob('length', inst, f.eq(zext(rc[0][2], 64), fr[0][3]), 'another number of bytes is delivered than was read', rc[0][3])
                    if op == 'read2':
                        ob('value', inst, f.eq(o.val, fr[0][3]), 'reports another number than was read')
                        a = A.to_ptr(s, fr[0][1])
                        ob('bytes', inst, a[0] == USER and f.eq(a[1], C(0, 64)), 'reads to another place', fr[0][5])
                if op.startswith('write') and len(fw) == 1:
                    a = A.to_ptr(s, fw[0][1])
                    ob('bytes', inst, a is not None and a[0] == USER and f.eq(a[1], C(0, 64)) and f.eq(fw[0][2], N), 'other bytes are written than those given', fw[0][4])
                    if op == 'write' and len(wc) == 1:
                        ob('answer', inst, f.eq(zext(wc[0][1], 64), fw[0][3]), 'reports another number than was written', wc[0][2])
                    if op == 'write2':
                        ob('answer', inst, f.eq(o.val, fw[0][3]), 'reports another number than was written')
                if op == 'seek' and len(fs) == 1:
                    ob('position', inst, f.eq(fs[0][1], to) and isc(fs[0][2]) and cv(fs[0][2]) == 0, 'moves to another position', fs[0][3])
                if op == 'pos':
                    t = calls(s, 'ftell')
                    ob('position', inst, not t or f.eq(o.val, t[0][1]), 'tells another position')
                if op == 'eof':
                    t = s.ghost.get('feof?')
                    for v in (1, 0):
                        s2 = s.copy()
                        if t is None or A.assume(s2, dom.cmp('eq', dom.trunc(o.val, 1), C(v, 1)), True) and not s2.facts.contra():
                            ob('value', inst, t is not None and s2.facts.decide(dom.cmp('eq', t, C(0, 32))) is (not v), 'the end is told when it was not met, or not when it was')
                if op == 'flush':
                    ob('effect', inst, len(calls(s, 'fflush')) == 1, 'nothing is flushed')
    z = [o for o in A.run(lambda: go(A, 'sf_size', [Ptr(OBJ)], clean(opened['read']))) if o.kind == 'ret']
    ob('value', 'size (synchronous file)', len(z) == 1 and z[0].st.facts.eq(z[0].val, S('st_size', 64, 0, (1 << 63) - 1)), 'the size is not the one of the file')


def asyncfile(cx, mod):
    """the asynchronous file as a storage: requests at its position, each answered with its own result (what happens between
    is C07's matter)"""
    k = c07.konst(cx, mod)
    FC = ('src/mg/core/file.cpp', 0)

    def ob(rule, inst, c, what, where=FILEH):
        cx.ob(rule, inst, c, where, '%s: %s' % (inst, what), '%s|%s' % (inst, what))

    def interp():
        A = c07.interp(cx, mod, k)
        A.on_access.append(c12.Buf.inb)
        for nm, ev in (('on_read', 'read_cb'), ('on_write', 'write_cb')):
            A.hook(nm, (lambda ev: lambda A, st, ins, args, n: st.ev(ev, *args, A.loc(st, ins)) or ())(ev))
        return A

    def go1(fn, args, st):
        A = interp()
        return A, A.run(lambda: go(A, fn, args, st.copy()))
    A = interp()
    st = one(A, A.run(lambda: go(A, 'cb_new', [Ptr(CB)], State())), 'client').st
    A = interp()
    st0 = one(A, A.run(lambda: go(A, 'af_new', [Ptr(c07.LT), Ptr(OBJ)], st.copy())), 'construction').st
    A, outs = go1('af_open', [Ptr(OBJ), Ptr(('name',)), C(0, 32)], st0)
    opened = [o.st for o in outs if o.kind == 'ret' and all(o.st.facts.decide(dom.cmp('slt', e[4], C(0, 64))) is not True for e in calls(o.st, 'sync'))]
    cx.anchor(opened, 'opening of an asynchronous file')
    n = S('n', 32, 1, 1 << 20)
    N = zext(n, 64)
    for base, P in [(b, p) for b in opened[:1] for p in (C(0, 64), S('position', 64, 1, 1 << 62))]:
        A, outs = go1('af_seek', [Ptr(OBJ), P], clean(base))
        for o in outs:
            ob('position', 'seek (asynchronous file)', o.kind == 'ret', 'raises an error')
            A, q = go1('af_pos', [Ptr(OBJ)], o.st)
            ob('position', 'seek (asynchronous file)', all(x.kind == 'ret' and x.st.facts.eq(x.val, P) for x in q), 'the position told is not the one set')
            A, q = go1('af_eof', [Ptr(OBJ)], o.st)
            Z = S(('st_size',), 64, 0, 1 << 62)
            for x in q:
                for v in (1, 0):
                    s2 = x.st.copy()
                    if x.kind == 'ret' and A.assume(s2, dom.cmp('eq', dom.trunc(x.val, 1), C(v, 1)), True) and not s2.facts.contra():
                        ob('value', 'eof (asynchronous file)', s2.facts.ule(Z, P) if v else s2.facts.ult(P, Z), 'the end is told at another place than the end')
            for op, args in (('read', [n, Ptr(CB)]), ('write', [Ptr(USER), n, Ptr(CB)])):
                inst = '%s (asynchronous file)' % op
                s = clean(o.st)
                if op == 'write':
                    region(A, s, USER, N)
                A, outs2 = go1('af_' + op, [Ptr(OBJ)] + args, s)
                for o2 in outs2:
                    if o2.kind != 'ret':
                        continue
                    sub = [e for e in c07.submits(o2.st)]
                    ob('effect', inst, len(sub) == 1 and sub[0][1] == op, 'is not one request')
                    ob('once', inst, not calls(o2.st, 'read_cb') and not calls(o2.st, 'write_cb'), 'is answered before it is done')
                    if len(sub) != 1 or sub[0][1] != op:
                        continue
                    e = sub[0]
                    mem, ln, nb, off = e[5]
                    f = o2.st.facts
                    ob('position', inst, f.eq(off, P), 'is done at another position', e[6])
                    A, q = go1('af_pos', [Ptr(OBJ)], o2.st)
                    for x in q:
                        adv = dom.sub(x.val, P)
                        fx = x.st.facts
                        ob('length', inst, fx.ule(ln, N) and fx.ule(adv, ln) and (op == 'read' or fx.eq(adv, N) and fx.eq(ln, N)),
                           'moves the position over bytes that are not transferred', e[6])
                    res = S(('result',), 64, 0, 1 << 20)
                    s3 = o2.st.copy()
                    if not A.assume(s3, dom.cmp('ule', res, ln), True):
                        continue
                    if op == 'write':
                        res = N
                    A3 = interp()
                    req = e[2]
                    A3.poke(s3, Ptr(req.a[0], dom.add(req.a[1], C(k.o_result, 64))), 8, res)
                    for o3 in A3.run(lambda: go(A3, c07.cbname(e), [req], s3.copy())):
                        c = calls(o3.st, op + '_cb')
                        ob('once', inst, o3.kind == 'ret' and len(c) == 1, 'is not answered once when it is done')
                        if len(c) != 1:
                            continue
                        f3 = o3.st.facts
                        ob('answer', inst, f3.eq(zext(c[0][-2], 64), res), 'is answered with another number of bytes than were transferred', c[0][-1])
                        if op == 'read':
                            a, b = A3.to_ptr(o3.st, c[0][1]), A3.to_ptr(o3.st, mem)
                            ob('bytes', inst, a is not None and A3.canon(o3.st, a[0]) == A3.canon(o3.st, b[0]) and f3.eq(a[1], b[1]), 'other bytes are delivered than were read', c[0][-1])


def clean(st):
    s = st.copy()
    s.trace = None
    return s


def check(cx):
    mod = cx.build(UNITS, DRIVER)
    reading(cx, mod)
    writing(cx, mod)
    syncfile(cx, mod)
    asyncfile(cx, mod)
