"""Models of libstdc++ exception pointers, libuv and pthread primitives for the interpreter."""
import dom
from dom import C, S, Ptr, NULL, mk, isc, cv, T


def excti(A, st, v):
    if v is not None and isinstance(v, T) and v.op == 'ptr':
        return st.ghost.get(('exti', A.canon(st, v.a[0])))
    return None


def install_std(A):
    EP = r'std::__exception_ptr::exception_ptr::'

    def rd(A, st, ins, p):
        r, o = A.to_ptr(st, p)
        st.ev('exc-read', (A.canon(st, r), cv(o) if isc(o) else o), A.loc(st, ins))
        return A.peek(st, p, 8, True)

    def ep_default(A, st, ins, args, n):
        A.poke(st, args[0], 8, NULL)
        return ()

    def ep_copy(A, st, ins, args, n):
        A.poke(st, args[0], 8, rd(A, st, ins, args[1]))
        return ()

    def ep_move(A, st, ins, args, n):
        v = rd(A, st, ins, args[1])
        A.poke(st, args[1], 8, NULL)
        A.poke(st, args[0], 8, v)
        return ()

    def ep_assign(A, st, ins, args, n):
        A.poke(st, args[0], 8, rd(A, st, ins, args[1]))
        return args[0]

    def ep_massign(A, st, ins, args, n):
        v = rd(A, st, ins, args[1])
        A.poke(st, args[1], 8, NULL)
        A.poke(st, args[0], 8, v)
        return args[0]

    def ep_void(A, st, ins, args, n):
        A.poke(st, args[0], 8, args[1])
        return ()

    def ep_swap(A, st, ins, args, n):
        a, b = rd(A, st, ins, args[0]), rd(A, st, ins, args[1])
        A.poke(st, args[0], 8, b)
        A.poke(st, args[1], 8, a)
        return ()

    def ep_bool(A, st, ins, args, n):
        v = rd(A, st, ins, args[0])
        r = A.icmp(st, 'ne', v, NULL)
        return r if 'not' not in n and 'operator!' not in A.mod.demangle(n) else dom.xor_(r, C(1, 1))

    A.hook(EP + r'exception_ptr\(\)', ep_default)
    A.hook(EP + r'exception_ptr\((?:std::nullptr_t|decltype\(nullptr\)|std::__exception_ptr::exception_ptr::.*nullptr.*)\)', ep_default)
    A.hook(EP + r'exception_ptr\(std::__exception_ptr::exception_ptr const&\)', ep_copy)
    A.hook(EP + r'exception_ptr\(std::__exception_ptr::exception_ptr&&\)', ep_move)
    A.hook(EP + r'exception_ptr\(void\*\)', ep_void)
    A.hook(EP + r'~exception_ptr\(\)', lambda A, st, ins, args, n: ())
    A.hook(EP + r'operator=\(std::__exception_ptr::exception_ptr const&\)', ep_assign)
    A.hook(EP + r'operator=\(std::__exception_ptr::exception_ptr&&\)', ep_massign)
    A.hook(EP + r'swap\(.*\)', ep_swap)
    A.hook(EP + r'operator bool\(\) const', ep_bool)
    A.hook(EP + r'operator!\(\) const', ep_bool)

    def ep_eq(A, st, ins, args, n):
        a, b = rd(A, st, ins, args[0]), rd(A, st, ins, args[1])
        r = A.icmp(st, 'eq', a, b)
        return r if 'operator==' in A.mod.demangle(n) else dom.xor_(r, C(1, 1))
    A.hook(r'(?:bool )?std::__exception_ptr::operator[=!]=\(.*\)', ep_eq)

    def current(A, st, ins, args, n):
        v = st.caught[-1][0] if st.caught else NULL
        if st.caught and v.op == 'ptr':
            st.ghost[('exti', A.canon(st, v.a[0]))] = st.caught[-1][1]
        A.poke(st, args[0], 8, v)
        st.ev('current_exception', v)
        return ()
    A.hook(r'std::current_exception\(\)', current)

    def rethrow(A, st, ins, args, n):
        v = rd(A, st, ins, args[0])
        st.ev('rethrow_exception', v, A.loc(st, ins))
        return [('throw', st, (v, excti(A, st, v)))]
    A.hook(r'std::rethrow_exception\(std::__exception_ptr::exception_ptr\)', rethrow)

    def initprim(A, st, ins, args, n):
        ti = args[1].a[0][1] if args[1].op == 'ptr' and args[1].a[0][0] == 'g' else None
        st.ghost[('exti', A.canon(st, args[0].a[0]))] = ti
        st.ev('make_exc', ti, args[0])
        return args[0]
    A.hook(r'__cxa_init_primary_exception', initprim)
    A.hook(r'std::uncaught_exceptions?\(\)', lambda A, st, ins, args, n: A.freshv(st, ins.ty, 'uncaught'))
    A.hook(r'std::exception::~exception\(\)', lambda A, st, ins, args, n: ())
    A.hook(r'std::ios_base::Init::.*', lambda A, st, ins, args, n: ())


# ---- locks ------------------------------------------------------------------
def lk(A, st, p):
    r, o = A.to_ptr(st, p)
    return (r, cv(o) if isc(o) else o)


def install_locks(A, havoc_on_wait=None):
    def lock(A, st, ins, args, n):
        k = ('lock',) + lk(A, st, args[0])
        d = st.ghost.get(k, 0) + 1
        st.ghost[k] = d
        st.ev('lock', k, d, A.loc(st, ins))
        if d == 1:
            for h in getattr(A, 'on_acquire', ()):
                h(A, st, k)
        return () if ins.ty.k == 'void' else C(0, 32)

    def unlock(A, st, ins, args, n):
        k = ('lock',) + lk(A, st, args[0])
        d = st.ghost.get(k, 0) - 1
        st.ghost[k] = d
        st.ev('unlock', k, d, A.loc(st, ins))
        return () if ins.ty.k == 'void' else C(0, 32)

    def trylock(A, st, ins, args, n):
        k = ('lock',) + lk(A, st, args[0])
        s2 = st.copy()
        s2.ghost[k] = s2.ghost.get(k, 0) + 1
        s2.ev('lock', k, s2.ghost[k], A.loc(s2, ins))
        if s2.ghost[k] == 1:
            for h in getattr(A, 'on_acquire', ()):
                h(A, s2, k)
        st.ev('trylock-fail', k)
        e = S(('trylock', st.fresh()), 32)
        st.facts.assume(dom.cmp('ne', e, C(0, 32)), True)
        st.facts.assume(dom.cmp('slt', e, C(0, 32)), True)
        return [('ret', s2, C(0, 32)), ('ret', st, e)]

    def cond_wait(A, st, ins, args, n):
        k = ('lock',) + lk(A, st, args[1])
        st.ev('cond_wait', lk(A, st, args[0]), k, st.ghost.get(k, 0), A.loc(st, ins))
        for h in getattr(A, 'on_acquire', ()):
            h(A, st, k)
        if 'timed' not in n:
            return () if ins.ty.k == 'void' else C(0, 32)
        # woken (perhaps for no reason), timed out, or another error
        sign = -1 if n.startswith('uv_') else 1
        s2, s3 = st.copy(), st.copy()
        st.ev('timedwait', args[2], 'woken', A.loc(st, ins))
        s2.ev('timedwait', args[2], 'timedout', A.loc(s2, ins))
        e = S(('condwait', s3.fresh()), 32, *((1, 4095) if sign > 0 else ((1 << 32) - 4095, (1 << 32) - 1)))
        s3.facts.assume(dom.cmp('eq', e, C(sign * 110 & 0xffffffff, 32)), False)
        s3.ev('timedwait', args[2], 'error', A.loc(s3, ins), e)
        return [('ret', st, C(0, 32)), ('ret', s2, C(sign * 110 & 0xffffffff, 32)), ('ret', s3, e)]

    def cond_sig(A, st, ins, args, n):
        held = tuple(k for k, d in st.ghost.items() if k[0] == 'lock' and d > 0)
        st.ev('broadcast' if 'broadcast' in n else 'signal', lk(A, st, args[0]), held, A.loc(st, ins))
        return () if ins.ty.k == 'void' else C(0, 32)

    for n in ('uv_mutex_lock', 'pthread_mutex_lock'):
        A.hook(n, lock)
    for n in ('uv_mutex_unlock', 'pthread_mutex_unlock'):
        A.hook(n, unlock)
    for n in ('uv_mutex_trylock', 'pthread_mutex_trylock'):
        A.hook(n, trylock)
    for n in ('uv_cond_wait', 'uv_cond_timedwait', 'pthread_cond_wait', 'pthread_cond_timedwait'):
        A.hook(n, cond_wait)
    for n in ('uv_cond_signal', 'uv_cond_broadcast', 'pthread_cond_signal', 'pthread_cond_broadcast'):
        A.hook(n, cond_sig)

    def init_ok(A, st, ins, args, n):
        st.ev('init', n, args[0])
        return C(0, 32)
    for n in ('pthread_mutexattr_init', 'pthread_mutexattr_destroy', 'uv_mutex_init', 'uv_mutex_init_recursive',
              'pthread_mutex_init', 'uv_cond_init', 'pthread_cond_init'):
        A.hook(n, init_ok)

    def attr(A, st, ins, args, n):
        st.ev('attr', n, args)
        return C(0, 32)
    A.hook('pthread_mutexattr_settype', attr)

    def destroy(A, st, ins, args, n):
        st.ev('destroy', n, args[0])
        return () if ins.ty.k == 'void' else C(0, 32)
    for n in ('uv_mutex_destroy', 'pthread_mutex_destroy', 'uv_cond_destroy', 'pthread_cond_destroy'):
        A.hook(n, destroy)


def held(st):
    return [k for k, d in st.ghost.items() if k[0] == 'lock' and d > 0]


def unbalanced(st):
    return [(k, d) for k, d in st.ghost.items() if k[0] == 'lock' and d != 0]


def install_exc(A):
    """mgexception construction is summarised by its error number (rule C08 analyses the constructors themselves)"""
    def ctor(A, st, ins, args, n):
        st.ev('mgexc', args[0], args[1], A.loc(st, ins))
        A.poke(st, dom.add(args[0], C(8, 64)) if args[0].op != 'ptr' else Ptr(args[0].a[0], dom.add(args[0].a[1], C(8, 64))), 4, args[1])
        st.ghost[('mgerr', A.canon(st, args[0].a[0]))] = args[1]
        return ()
    A.hook(r'mg::core::mgexception::mgexception\(int, char const\*, (?:char const\*, )?int\)', ctor)
    def copy(A, st, ins, args, n):
        at = [Ptr(x.a[0], dom.add(x.a[1], C(8, 64))) for x in args[:2]]
        A.poke(st, at[0], 4, A.peek(st, at[1], 4))
        g = ('mgerr', A.canon(st, args[1].a[0]))
        if g in st.ghost:
            st.ghost[('mgerr', A.canon(st, args[0].a[0]))] = st.ghost[g]
        return ()
    A.hook(r'mg::core::mgexception::mgexception\(mg::core::mgexception(?: const)?&&?\)', copy)
    A.hook(r'mg::core::mgexception::~mgexception\(\)', lambda A, st, ins, args, n: ())


def install_streams(A):
    """console output does not fail and touches nothing"""
    def out(A, st, ins, args, n):
        return args[0] if ins.ty.k == 'ptr' else A.freshv(st, ins.ty, 'ostream')
    A.hook(r'std::(?:basic_)?ostream(?:<.*>)?::operator<<\(.*\)', out)
    A.hook(r'(?:std::.* )?std::operator<<\s?(?:<.*>)?\(std::(?:basic_)?ostream.*\)', out)
    A.hook(r'(?:std::.* )?std::(?:endl|flush|ends)(?:<.*>)?\(.*\)', out)


def install_signal_event(A):
    """the event of rule C05, summarised: waiting, signalling and resetting are single steps"""
    SE = r'mg::core::signal_event::'

    def me(A, st, p):
        r, o = A.to_ptr(st, p)
        return (r, cv(o) if isc(o) else o)

    def step(kind):
        def f(A, st, ins, args, n):
            st.ev(kind, me(A, st, args[0]), A.loc(st, ins), tuple(k for k, d in st.ghost.items() if k[0] == 'lock' and d > 0))
            return ()
        return f

    def wait(A, st, ins, args, n):
        r = S(('event', st.fresh()), 1)
        st.ev('ev-wait', me(A, st, args[0]), A.loc(st, ins), r, args[1] if len(args) > 1 else None,
              tuple(k for k, d in st.ghost.items() if k[0] == 'lock' and d > 0))
        for h in getattr(A, 'on_event_wait', ()):
            h(A, st)
        return () if ins.ty.k == 'void' else r
    A.hook(SE + r'signal\(\)', step('ev-signal'))
    A.hook(SE + r'reset\(\)', step('ev-reset'))
    A.hook(SE + r'wait\(.*\)', wait)
    A.hook(SE + r'is_signaled\(\)', wait)
