"""Promise delivery: every order of registering the value callback, the error callback, chaining a further promise and
completing (value or error) is interpreted abstractly with callbacks that may return or throw; the callback events must
be exactly those the contract prescribes (each once, with the completed value/error, early completions kept until the
handler arrives, a throwing callback turned into an error, errors passed on only when the handler says so)."""
import promise_scn as ps
from dom import Ptr, cv
from absint import State

LEVEL = 'proof'
ASSUMPTIONS = ['error callbacks return a verdict and do not themselves throw, except the built-in rethrowing one',
               'each handler is registered once and a promise is completed once', 'the completed value is a non-null handle']
FLOOR = 150
LOC = 'src/mg/promises.h'


def expected(q, throws, verdict):
    """contract: list of callback events for sequence q.  throws[w]: callback w throws; verdict[w]: error handler result.
    returns (events, escape)  - events as tuples ('cb',w) / ('er',w,which)"""
    ev = []
    # per promise: 1 = the promise, 2 = the chained one
    has = {'cb1': False, 'er1': None, 'fwd': None}
    st = {'val': False, 'err': None, 'done': False}

    class Esc(Exception):
        pass

    def err2(x):
        if has['fwd'] == 'A':
            raise Esc(x)
        ev.append(('er', 2, x))

    def val2():
        ev.append(('cb', 2))
        if throws.get(2):
            err2('cb2')

    def err1(x):
        if has['er1'] is None:
            st['err'] = x
            return
        if has['er1'] == 'D':
            raise Esc(x)
        ev.append(('er', 1, x))
        if verdict.get(1) and has['fwd']:
            err2(x)

    def val1():
        ev.append(('cb', 1))
        if throws.get(1):
            err1('cb1')
            return
        if has['fwd']:
            try:
                val2()
            except Esc as e:
                # the chained promise's default handler rethrows: the failure belongs to this promise
                err1(e.args[0])

    try:
        for c in q:
            if c == 'S':
                has['cb1'] = True
                if st['val']:
                    val1()
            elif c in 'ED':
                has['er1'] = c
                if st['err'] is not None:
                    err1(st['err'])
            elif c in 'FA':
                has['fwd'] = c
            elif c == 'V':
                if has['cb1']:
                    val1()
                else:
                    st['val'] = True
            elif c == 'X':
                err1('E0')
    except Esc as e:
        return ev, e.args[0]
    return ev, None


def check(cx):
    seqs = ps.sequences(cx.thorough)
    mod = cx.build(['mg/core/thread.cpp'], ps.driver(seqs))
    loc = None
    for f in mod.find(r'mg::core::CPromise<Payload>::call_cb\(.*\)'):
        loc = '%s:%d' % mod.func_loc(f)
    cx.anchor(loc, 'promise value delivery (call_cb)')
    for q in seqs:
        A = ps.interp(cx, mod)

        def mkst():
            st = ps.init(A, q)
            A.poke(st, Ptr(('hv',)), 8, Ptr(('dummy',)))
            return st
        outs = run_seq(A, 'sq_' + q)
        n = 0
        for o in outs:
            ev = o.st.events()
            bad = [e for e in ev if e[0] in ('nullderef', 'uaf', 'doublefree', 'terminate', 'abort')]
            if bad:
                cx.ob('no-crash', q, False, loc, 'order %s: %s' % (pretty(q), bad[0][0]), 'C03|crash|' + bad[0][0])
                continue
            if o.kind == 'end':
                continue
            n += 1
            throws = {}
            verdict = {}
            got = []
            for e in ev:
                if e[0] == 'cb':
                    okv = e[2].op == 'ptr' and e[2].a[0] == ('pay', 0)
                    cx.ob('value-identity', q, okv, loc, 'order %s: the callback receives a different value' % pretty(q), 'C03|value')
                    got.append(('cb', e[1]))
                elif e[0] == 'cb-throws':
                    throws[e[1]] = True
                elif e[0] == 'er':
                    verdict[e[1]] = e[3]
                    got.append(('er', e[1], xname(A, o.st, e[2])))
            want, esc = expected(q, throws, verdict)
            cx.ob('delivery', '%s throws=%s verdict=%s' % (q, sorted(throws), verdict), got == want, loc,
                  'order %s%s: handlers called %s, contract says %s' % (
                      pretty(q), ''.join(', callback %d throws' % w for w in throws) +
                      ''.join(', error handler %d answers %s' % (k, v) for k, v in verdict.items()), show(got), show(want)),
                  'C03|delivery|' + kind(got, want))
            gesc = xname(A, o.st, o.val[0]) if o.kind == 'throw' else None
            cx.ob('escape', '%s throws=%s' % (q, sorted(throws)), gesc == esc, loc,
                  'order %s: error leaving the promise is %s, contract says %s' % (pretty(q), gesc, esc), 'C03|escape')
        cx.anchor(n, 'outcome of order ' + q)
    for fn, want in (('sq_has', 1), ('sq_hasnot', 0)):
        A = ps.interp(cx, mod)
        for o in run_seq(A, fn, 2):
            if o.kind == 'ret':
                cx.ob('has-value', fn, o.st.facts.const(o.val) == want, loc, 'has_value() wrong: ' + fn, 'C03|has')


def run_seq(A, fn, nargs=3):
    def mkst():
        st = ps.init(A, fn)
        hb = ('hblk',)
        return st
    # build the value handle with the program's own constructor first
    st0 = ps.init(A, fn)
    f = A.mod.find(r'mg::core::CResource<Payload>::CResource\(Payload\*\)')
    f = [x for x in f if x.defined]
    outs = A.run(lambda: A.start(f[-1], [Ptr(('hv',)), Ptr(('pay', 0))], ps.init(A, fn)))
    base = [o for o in outs if o.kind == 'ret'][0].st

    def start():
        s = base.copy()
        s.trace = None
        return A.start(fn, [Ptr(('prom',)), Ptr(('hv',)), Ptr(('eptr',))][:nargs], s)
    return A.run(start)


def xname(A, st, v):
    if v is None or v.op != 'ptr':
        return str(v)
    r = A.canon(st, v.a[0])
    if r == ('E0',):
        return 'E0'
    if r[:2] == ('*', 'exc'):
        return r[2]
    return str(r)


def pretty(q):
    return ' > '.join({'S': 'set_cb', 'E': 'set_er', 'D': 'set_er()', 'F': 'chain', 'A': 'chain(auto)', 'V': 'value', 'X': 'error'}[c] for c in q)


def show(l):
    return '[' + ', '.join('%s%d%s' % ('cb' if e[0] == 'cb' else 'er', e[1], '(%s)' % e[2] if len(e) > 2 else '') for e in l) + ']'


def kind(got, want):
    if len(got) > len(want):
        return 'extra'
    if len(got) < len(want):
        return 'missing'
    return 'different'
