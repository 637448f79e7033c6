"""Option letters: each letter of a command line reaches its own handler once, with exactly the values behind it.

`Cmdline` is interpreted with a driver whose handlers only record what they are given. Every shape of a command line up to a length is
taken (which arguments are options, which values, options by either sign), the letter every one of the 256 bytes, in turn for each option; what the values say is not known. Checked on every path: the handlers called, their order, the number and the place of the values,
nothing left of a letter for the next; the other entries (usage, help, letters without a handler)."""
import itertools
import dom
from dom import C, S, Ptr, NULL, isc, cv
from absint import Interp, State, AnalysisError, Reg
import models

LEVEL = 'other'
FLOOR = 60
UNITS = ['mg/core/thread.cpp', 'mg/core/uvbase.cpp']
LET = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
DRIVER = r'''#include "mgcore.h"
#include <new>
using namespace mg::core;
#include "mg/cmdline.h"
extern "C" void seen(int letter, int n, TCHAR ** v, int cmd);
struct Options : Cmdline {
  Options() {}
#define ON(X) void X(int n, TCHAR * v[]) override { seen((unsigned char)#X[0], n, v, 0); }
''' + ' '.join('ON(%s)' % c for c in LET) + r'''
  void Usage() override { seen('u', 0, 0, 0); }
  void Defaul_T(int n, TCHAR * v[], TCHAR c) override { seen('d', n, v, (unsigned char)c); }
};
extern "C" {
void k_new(void * w) { new (w) Options; }
void k_process(Options * q, int n, TCHAR ** v) { q->process(n, v); }
bool k_help(Options * q) { return q->help(); }
}
'''
ASSUMPTIONS = ['a value does not begin with a minus sign or a slash: what does is an option', 'handlers do not read the command line further by themselves']
AT = ('src/mg/cmdline.h', 0)
OBJ, ARGV = ('a', 'options'), ('a', 'argv')


class Opt(Interp):
    def __init__(self, mod):
        Interp.__init__(self, mod)
        models.install_std(self)
        self.hook('seen', Opt.seen)

    def symunroll(self, f, h):
        return 40

    def seen(A, st, ins, a, n):
        st.ghost['calls'] = st.ghost.get('calls', ()) + (tuple(a),)
        return ()


def check(cx):
    mod = cx.build(UNITS, DRIVER)
    for f in ('k_new', 'k_process', 'k_help'):
        cx.anchor(mod.func(f) is not None, f)
    most = 5 if cx.thorough else 4

    def one(cx, item):
        shape, sym, again, letter = item
        A = cx.use(Opt(mod))
        # letters of the options that are not the unknown one
        given, k = {}, 0
        for i, c in enumerate(shape):
            if c in '-/':
                given[i] = 'bKyz'[k % 4]
                k += 1
        L = C(letter, 8)

        def mk():
            st = State()
            st.mem[OBJ] = Reg(OBJ, 'obj', C(256, 64))
            A.start('k_new', [Ptr(OBJ)], st)
            return st
        o = A.run(mk)
        if len(o) != 1 or o[0].kind != 'ret':
            raise AnalysisError('options cannot be constructed')
        s0 = o[0].st
        prev = s0

        def line(st, tag, shape, sym):
            argv = ('a', 'argv ' + tag)
            st.mem[argv] = Reg(argv, 'obj', C(8 * (len(shape) + 2), 64))
            for i, c in enumerate('p' + shape):
                r = ('a', 'arg %s %d' % (tag, i))
                st.mem[r] = Reg(r, 'obj', C(1 << 20, 64))
                A.havoc(st, r)
                A.poke(st, Ptr(argv, C(8 * i, 64)), 8, Ptr(r))
                if i == 0:
                    continue
                if c == 'v':
                    x = S(('first', tag, i), 8)
                    for y in b'-/':
                        A.assume(st, dom.cmp('eq', x, C(y, 8)), False)
                    A.poke(st, Ptr(r), 1, x)
                else:
                    A.poke(st, Ptr(r), 1, C(ord(c), 8))
                    A.poke(st, Ptr(r, C(1, 64)), 1, L if i - 1 == sym else C(ord(given[i - 1]), 8))
            A.poke(st, Ptr(argv, C(8 * (len(shape) + 1), 64)), 8, NULL)
            return argv

        def expected(c):
            """[(letter, how many, place, the letter as written)] when the unknown one is c"""
            r = []
            for i, x in enumerate(shape):
                if x not in '-/':
                    continue
                l = c if i == sym else ord(given[i])
                n = 0
                while i + 1 + n < len(shape) and shape[i + 1 + n] == 'v':
                    n += 1
                if l == 0:
                    continue
                u = chr(l).upper() if l < 128 else ''
                if l == ord('?'):
                    r.append((ord('u'), 0, None, 0))
                elif u and u in LET:
                    r.append((ord(u), n, i + 2 if n else None, 0))
                else:
                    r.append((ord('d'), n, i + 2 if n else None, l))
            if not shape:
                r.append((ord('u'), 0, None, 0))
            return r

        def judge(st, argv, calls, inst):
            ob = lambda rule, ok, what: cx.ob(rule, inst, ok, AT, '%s (%s)' % (what, inst), rule + '|' + what)
            f = st.facts
            for c in (letter,):
                e = expected(c)
                if not ob_len(ob, calls, e):
                    return c
                for got, (l, n, at, w) in zip(calls, e):
                    h = f.const(got[0])
                    ob('handler', h == l, 'an option reaches another handler than its own')
                    if h != l:
                        return c
                    if l == ord('u'):
                        continue
                    ob('values', f.const(got[1]) == n, 'an option is given another number of values than are behind it')
                    v = got[2]
                    if at is None:
                        ob('values', v.op != 'ptr' or A.isnull(st, v.a[0]) or v is NULL or v.a[0] == NULL.a[0], 'an option without values is given some')
                    else:
                        p = A.to_ptr(st, v)
                        ob('values', p is not None and p[0] == argv and f.const(p[1]) == 8 * (at - 0) , 'an option is given other values than those behind it')
                    if l == ord('d'):
                        ob('handler', f.const(got[3]) == w, 'the letter without a handler is told wrongly')
            return None

        def ob_len(ob, calls, e):
            ob('handler', len(calls) >= len(e), 'an option reaches no handler')
            ob('handler', len(calls) <= len(e), 'a handler is called for no option')
            return len(calls) == len(e)

        inst = '%s%s' % (' '.join('value' if c == 'v' else c + ('%c' % letter if i == sym and 32 < letter < 127 else '<%d>' % letter if i == sym else given[i]) for i, c in enumerate(shape)) or 'nothing', ', again' if again else '')
        box = {}

        def mk2():
            st = prev.copy()
            st.frames = []
            argv = line(st, 'now', shape, sym)
            box['argv'] = argv
            A.start('k_process', [Ptr(OBJ), C(len(shape) + 1, 32), Ptr(argv)], st)
            return st
        outs = A.run(mk2)
        if again == 'again':
            # read twice: the second as if it were the first
            nxt = []
            for o in outs:
                if o.kind != 'ret':
                    nxt.append(o)
                    continue

                def mk3(st=o.st):
                    st = st.copy()
                    st.frames = []
                    st.ghost['calls'] = ()
                    box['argv'] = line(st, 'again', shape, sym)
                    A.start('k_process', [Ptr(OBJ), C(len(shape) + 1, 32), Ptr(box['argv'])], st)
                    return st
                nxt += A.run(mk3)
            outs = nxt
        seen = set()
        for o in outs:
            ok = o.kind == 'ret' and not any(e[0] in ('uaf', 'nullderef') for e in o.st.events())
            cx.ob('read', inst, ok, AT, 'reading the command line fails (%s)' % inst, 'fails')
            if not ok:
                continue
            calls = o.st.ghost.get('calls', ())
            judge(o.st, box['argv'], calls, inst)
            if True:
                # help was asked for
                def mk4(st=o.st):
                    st = st.copy()
                    st.frames = []
                    A.start('k_help', [Ptr(OBJ)], st)
                    return st
                for h in A.run(mk4):
                    ask = any(h.st.facts.const(x[0]) == ord('u') for x in calls) and bool(shape)
                    cx.ob('help', inst, h.kind == 'ret' and h.st.facts.const(dom.zext(h.val, 8)) == (1 if ask or again == 'again' and ask else 0), AT,
                          'whether help was asked for is told wrongly (%s)' % inst, 'help')
        cx.ob('read', inst, bool(outs), AT, 'no way through (%s)' % inst, 'none')

    items = []
    for n in range(most + 1):
        for sh in itertools.product('-v' if n > 2 else '-/v', repeat=n):
            sh = ''.join(sh)
            opts = [i for i, c in enumerate(sh) if c in '-/']
            for sym in opts or [None]:
                some = range(256) if n < 3 or cx.thorough else sorted(set(b'AZzqTt?@[`{/-0') | {0, 128, 225, 255} | {65 + len(items) % 26, 97 + len(items) % 26})
                for l in some if opts else [0]:
                    items.append((sh, sym, '', l))
                    if n == 2 and (not opts or sym == opts[-1]):
                        items.append((sh, sym, 'again', l))
    groups = [items[i::32] for i in range(32)]
    cx.pmap([g for g in groups if g], lambda cx, g: [one(cx, i) for i in g] and None)
