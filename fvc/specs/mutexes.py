"""C01, C02, C03: the four mutex classes."""
from ..lib import *
from . import timed as timed_ops
PROPS = ['C01', 'C02', 'C03']
def prop(pid):
    return dict(srcs=['mutex.cpp', 'timed_mutex.cpp', 'recursive_mutex.cpp', 'recursive_timed_mutex.cpp', 'tu/mutexes.cpp', 'tu/timed.cpp'], cands=['mutex: a free mutex has depth zero'], units=lambda lay: units(lay, {pid}),
                trusted=['contract of detail::spinlock (mutual exclusion; proved separately as C23)', 'contracts of wait_queue::suspend_and_wait(_until)/notify_one (proved separately as C16)',
                         'contract of context::active()/yield(): the calling fiber keeps its identity', 'std::unique_lock<spinlock>, std::chrono: verified inline from their headers'],
                assumptions=['recursion depth stays below 2^63', 'the clock values handed out stay below 2^62 ns'])
NS = 'boost::fibers::'
EDEADLK, EPERM = 35, 1

def mutex_monitor(ex, lay, cls, base, recursive, props):
    f = finfo(lay, cls, 'owner_', *(['count_'] if recursive else []))
    wq = lay.off(cls, 'wait_queue_')
    me = ex.ME
    def own(v): return ex.ptr_eq(v.owner_, me)
    def free(v): return ex.ptr_eq(v.owner_, NULL)
    def inv(ex, v):
        return z3.Implies(z3.Not(free(v)), v.count_ != 0) if recursive else z3.BoolVal(True)
    def rely(ex, o, n):
        c = [own(o) == own(n)]
        # machine arithmetic: the nesting depth never reaches 2^63 (one increment per call)
        if recursive: c.append(z3.Implies(own(o), o.count_ == n.count_)); c.append(z3.ULT(n.count_, bv(1 << 63)))
        return z3.And(*c)
    def guar(ex, st, a, n, evs):
        l = []
        same = ex.ptr_eq(a.owner_, n.owner_)
        if props & {'C01', 'C02'}:
            l.append(('owner changes only from free to the caller or from the caller to free',
                      z3.Or(same, z3.And(free(a), own(n)), z3.And(own(a), free(n)))))
            if recursive:
                l.append(('depth changes by exactly one level and only for the owner',
                    z3.Or(z3.And(same, n.count_ == a.count_),
                          z3.And(own(a), own(n), n.count_ == a.count_ + 1),
                          z3.And(own(a), own(n), n.count_ == a.count_ - 1, n.count_ != 0),
                          z3.And(free(a), own(n), n.count_ == 1),
                          z3.And(own(a), free(n), a.count_ == 1))))
        if 'C03' in props:
            l.append(('a release of the mutex notifies a waiter in the same critical section',
                      z3.Implies(z3.And(z3.Not(free(a)), free(n)), notified(evs, 'wait_queue_'))))
            b = st.g.get(('baton', m.name, base, 'wait_queue_'))
            if b:
                l.append(('a woken waiter that finds the mutex free takes it or wakes the next waiter',
                          z3.Or(z3.Not(free(n)), notified(evs, 'wait_queue_'))))
        return l
    def block(ex, st, a, v, q):
        return [('a fiber blocks only while another fiber owns the mutex', z3.And(z3.Not(free(v)), True if timed_self_ok(ex) else z3.Not(own(v))))]
    def timed_self_ok(ex): return getattr(ex, 'timed', False) and not recursive
    m = Monitor('mutex', cls, lay.off(cls, 'wait_queue_splk_'), f, inv=inv, rely=rely, guar=guar, block=block,
                racy=('owner_',), bases={base}, labels={'owner_': CTX}, wqs={wq: 'wait_queue_'},
                cands={'a free mutex has depth zero': lambda ex, v: z3.Implies(free(v), v.count_ == 0)} if recursive else None)
    def on_release(ex, st, base, a, n, evs, how):
        st.g[('baton', m.name, base, 'wait_queue_')] = None
        # ghost: net change of the caller's own depth
    m.on_release = on_release
    m.own = own; m.free = free
    return m

def error_units(us):
    """the exceptions carry the error code they are made from"""
    def contracts(ex):
        setup_me(ex); std_contracts(ex)
        def base(ex, st, c): st.g['made'] = st.g.get('made', ()) + (tuple(c.args),); return [Out('ret', st, None)]
        ex.contract(r'std::_V2::(system|generic)_category\(\)', lambda ex, st, c: [Out('ret', st, ex.symobj('std category', 'cat', True))])
        ex.contract(r'(std::system_error::system_error|boost::fibers::fiber_error::fiber_error)\(std::error_code.*', base, first=True)
    for cls, what in (('fiber_error', False), ('fiber_error', True), ('lock_error', False), ('lock_error', True), ('future_error', False)):
        fn = '%s%s::%s(std::error_code%s)' % (NS, cls, cls, ', char const*' if what else '')
        def setup(ex, st, cls=cls, what=what):
            ex.this = ex.symobj('this', NS + cls, True); ex.code = freshbv('code', 32); ex.cat = ex.symobj('category', 'cat', True); ex.what = ex.symobj('what', 'str', True)
            return [ex.this, ex.code, ex.cat] + ([ex.what] if what else [])
        def post(ex, o, fn=fn, what=what):
            P = lambda n, c: ex.prove(o.st, n, c, fn); m = o.st.g.get('made', ()); ok = o.kind == 'ret' and len(m) == 1
            P('the exception carries the error code it is made from', z3.And(ex.ptr_eq(m[0][0], ex.this), m[0][1] == ex.code, ex.ptr_eq(m[0][2], ex.cat)) if ok else False); ex.cover('made', o.st)
        us.append(Unit('%s(code%s)' % (cls, ', text' if what else ''), fn, setup, post, ('made',), contracts))

def units(lay, props):
    us = []
    for cls, recursive, timed in (('mutex', False, False), ('timed_mutex', False, True), ('recursive_mutex', True, False), ('recursive_timed_mutex', True, True)):
        if 'C01' in props and recursive and not (props - {'C01'}): continue
        if props == {'C02'} and not recursive: continue
        C = NS + cls
        def mk(op, post_kind, cls=cls, C=C, recursive=recursive, timed=timed):
            fn = '%s::%s' % (C, op)
            def setup(ex, st):
                ex.contract(r'boost::fibers::context::yield\(\)', c_yield)
                this = ex.symobj('this', C)
                m = mutex_monitor(ex, lay, C, this.base, recursive, props)
                use_monitors(ex, m); ex.m = m; ex.this = this
                ex.timed = 'until' in op
                v = m.view(ex, st, this.base)
                st.assume(m.inv(ex, v))
                if recursive: st.assume(z3.ULT(v.count_, bv(1 << 63)))
                ex.own0 = m.own(v)
                if recursive: ex.cnt0 = z3.If(ex.own0, v.count_, bv(0))
                if post_kind == 'until':
                    tp = ex.symobj('timeout_time', 'time_point'); ex.deadline = ex.load1(st, tp, ('i', 64))
                    return [this, tp]
                return [this]
            def post(ex, o):
                m = ex.m; st = o.st; v = m.view(ex, st, ex.this.base)
                own = m.own(v); own0 = ex.own0
                base = ex.this.base
                acq = st.g.get(('lastacq', 'mutex', base)); a = viewtup(m, base, acq) if acq is not None else None
                ex.prove(st, 'no internal lock is left held', z3.BoolVal(len(held(st)) == 0), fn)
                if 'C03' in props:
                    b = st.g.get(('baton', 'mutex', base, 'wait_queue_'))
                    if o.kind != 'stop':
                        ex.prove(st, 'a wake-up received while waiting is not dropped on return' + (' after the deadline' if b == 'timeout' else ''), z3.BoolVal(not b), fn)
                if not (props & {'C01', 'C02'}):
                    ex.cover('return', st)
                    ex.cover(post_kind, st); return
                if o.kind == 'stop':
                    ex.prove(st, 'the function does not terminate the program', False, fn); return
                cnt = z3.If(own, v.count_, bv(0)) if recursive else None
                if o.kind == 'exc':
                    e = o.val
                    ex.cover('throws', st)
                    want = EPERM if post_kind == 'unlock' else EDEADLK
                    ex.prove(st, 'only lock_error is thrown', z3.BoolVal(e.tinfo == '_ZTIN5boost6fibers10lock_errorE'), fn)
                    code = e.data.get('code')
                    ex.prove(st, 'the error code is the documented one', (code == want) if code is not None else False, fn)
                    if post_kind == 'unlock': ex.prove(st, 'unlock throws only if the caller is not the owner', z3.Not(own0), fn)
                    else: ex.prove(st, 'a deadlock is reported only if the caller already owned the mutex', own0 if not recursive else z3.BoolVal(False), fn)
                    ex.prove(st, 'ownership is unchanged by the failing call', own == own0, fn)
                    if recursive: ex.prove(st, 'depth is unchanged by the failing call', cnt == ex.cnt0, fn)
                    return
                ex.cover('returns', st)
                if post_kind == 'lock':
                    ex.prove(st, 'lock returns only as owner', own, fn)
                    if recursive: ex.prove(st, 'lock adds exactly one level', cnt == ex.cnt0 + 1, fn)
                    else: ex.prove(st, 'locking an owned mutex does not succeed', z3.Not(own0), fn)
                elif post_kind == 'unlock':
                    ex.prove(st, 'unlock succeeds only for the owner', own0, fn)
                    if recursive:
                        ex.prove(st, 'unlock removes exactly one level', cnt == ex.cnt0 - 1, fn)
                        ex.prove(st, 'the mutex is free exactly when the depth reaches zero', own == (ex.cnt0 != 1), fn)
                    else: ex.prove(st, 'after unlock the caller is not the owner', z3.Not(own), fn)
                else:
                    r = o.val
                    ex.cover('true', st if ex.check(st, r) == z3.sat else DEAD)
                    ex.cover('false', st if ex.check(st, z3.Not(r)) == z3.sat else DEAD)
                    if recursive:
                        ex.prove(st, 'true is returned exactly when one level was acquired, otherwise nothing changes', cnt == ex.cnt0 + z3.If(r, bv(1), bv(0)), fn)
                        if acq is None: ex.prove(st, 'the mutex is tried at least once', False, fn)
                        else: ex.prove(st, 'failure is reported only if another fiber owned the mutex', z3.Implies(z3.Not(r), z3.And(z3.Not(m.free(a)), z3.Not(m.own(a)))), fn)
                    else:
                        if post_kind == 'try': ex.prove(st, 'try_lock on an owned mutex does not return normally', z3.Not(own0), fn)
                        ex.prove(st, 'true is returned exactly when ownership was acquired', own == z3.Or(own0, r), fn)
                        ex.prove(st, 'success is not reported for a mutex already owned', z3.Implies(own0, z3.Not(r)), fn)
                        if acq is None: ex.prove(st, 'the mutex is tried at least once', False, fn)
                        else: ex.prove(st, 'failure is reported only if the mutex was owned', z3.Implies(z3.Not(r), z3.Not(m.free(a))), fn)
            covers = ()
            if props & {'C01', 'C02'}:
                covers = {'lock': ('returns',) + (() if recursive else ('throws',)), 'try': ('true', 'false') + (() if recursive else ('throws',)),
                          'until': ('true', 'false'), 'unlock': ('returns', 'throws')}[post_kind]
            return Unit('%s::%s' % (cls, op.split('(')[0]), fn, setup, post, covers, std_contracts)
        if not (props & {'C03'}):
            def ctor(cls=cls, C=C, recursive=recursive):
                fn = '%s::%s()' % (C, cls)
                def setup(ex, st): ex.this = ex.symobj('this', C, True); ex.m = mutex_monitor(ex, lay, C, ex.this.base, recursive, props); ex.monitors = []; return [ex.this]
                def post(ex, o):
                    ex.prove(o.st, 'the constructor returns normally', z3.BoolVal(o.kind == 'ret'), fn)
                    if o.kind != 'ret': return
                    v = ex.m.view(ex, o.st, ex.this.base); ex.m.prove_inv(ex, o.st, v, 'after construction', fn); ex.prove(o.st, 'a new mutex is free', ex.m.free(v), fn); ex.cover('returns', o.st)
                def contracts(ex):
                    std_contracts(ex)
                    for k in ('spinlock(_\\w+)?::spinlock(_\\w+)?', 'wait_queue::wait_queue'): ex.contract(r'boost::fibers::(detail::)?%s\(\)' % k, lambda ex, st, c: [Out('ret', st, None)], first=True)
                return Unit('%s constructor' % cls, fn, setup, post, ('returns',), contracts)
            us.append(ctor())
        us.append(mk('lock()', 'lock')); us.append(mk('try_lock()', 'try')); us.append(mk('unlock()', 'unlock'))
        if timed: us.append(mk('try_lock_until_(std::chrono::time_point<std::chrono::_V2::steady_clock, std::chrono::duration<long, std::ratio<1l, 1000000000l>>> const&)', 'until'))
    if props == {'C01'}: us = [u for u in us if 'recursive' not in u.name]
    if 'C01' in props: error_units(us)
    if props & {'C01', 'C02'}: timed_ops.mutex_units(us, [c for c, p in (('timed_mutex', 'C01'), ('recursive_timed_mutex', 'C02')) if p in props])
    return us
DEAD = State().assume(z3.BoolVal(False))
