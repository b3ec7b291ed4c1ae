"""C04 condition variables, C05 barrier."""
from ..lib import *
from ..core import _ctr, memfun
PROPS = ['C04', 'C05']
NS = 'boost::fibers::'
CVA = NS + 'condition_variable_any'; CV = NS + 'condition_variable'; MTX = NS + 'mutex'; BAR = NS + 'barrier'
def prop(pid):
    if pid == 'C04':
        return dict(srcs=['condition_variable.cpp', 'tu/condition.cpp'], units=units04,
                    trusted=['contract of detail::spinlock (proved as C23)', 'contracts of wait_queue (proved as C16)', 'contracts of mutex::lock/unlock (proved as C01, C03)',
                             'opaque user lock and predicate types: lock(), unlock() and the predicate may throw; a throwing unlock() leaves the lock held'],
                    assumptions=['the caller holds the lock it passes (documented precondition)', 'user lock types do not throw the forced-unwind exception of boost.context themselves'])
    return dict(srcs=['barrier.cpp', 'condition_variable.cpp'], units=units05,
                trusted=['contracts of mutex::lock/unlock (proved as C01)', 'contracts of condition_variable_any::wait and notify_all (proved as C04)'],
                assumptions=['the 64 bit cycle counter does not wrap around', 'the calling fiber does not already own the private mutex of the barrier'])

# ---------------------------------------------------------------------------------- C04
def units04(lay):
    us = []
    SP = lay.off(CVA, 'wait_queue_splk_'); WQ_ = lay.off(CVA, 'wait_queue_')
    def ulock(ex, st): return st.g['ul']
    def do_unlock(ex, st, c, throws):
        m = ex.m
        ex.prove(st, 'only a held user lock is released', z3.BoolVal(st.g['ul']))
        if throws:
            e = st.fork(); e.note('user unlock() throws')
        ex.prove(st, 'the user lock is released only while the queue of waiters is locked', z3.BoolVal(is_held(st, m, ex.base)))
        st.g['ul'] = False; st.g['lastpred'] = None
        return [Out('ret', st, None)] + ([ex.throw(e, None, tag='user')] if throws else [])
    def do_lock(ex, st, c, throws):
        ex.prove(st, 'the user lock is not locked twice', z3.BoolVal(not st.g['ul']))
        no_spinlock(ex, st, 'the user lock is acquired')
        outs = []
        if throws: e = st.fork(); e.g['lockthrew'] = True; e.note('user lock() throws'); x = ex.throw(e, None, tag='user'); x.val.never = ('_ZTIN10__cxxabiv115__forced_unwindE',); outs.append(x)
        st.g['ul'] = True
        return outs + [Out('ret', st, None)]
    def c_pred(ex, st, c):
        ex.prove(st, 'the predicate is evaluated only with the user lock held', z3.BoolVal(st.g['ul']))
        no_spinlock(ex, st, 'the predicate is evaluated')
        e = st.fork(); e.note('predicate throws')
        v = fresh('pred', z3.BoolSort()); st.g['lastpred'] = v
        return [Out('ret', st, v), ex.throw(e, None, tag='user')]
    def pred_cands(ex, fn, st0, phi0, H):
        # a local holds the last value of the predicate
        l = []; lp = lambda s: s.g.get('lastpred')
        if lp(st0) is None or isinstance(lp(st0), bool): return l
        for r, v in phi0.items():
            if ('phi', r) not in H or isinstance(v, Ptr): continue
            if z3.is_bool(v): l.append(('predicate %s' % r, lambda s, ph, r=r: ph[r] == lp(s) if lp(s) is not None else z3.BoolVal(False)))
            elif v.size() == 8: l.append(('predicate %s' % r, lambda s, ph, r=r: ph[r] == z3.If(lp(s), bv(1, 8), bv(0, 8)) if lp(s) is not None else z3.BoolVal(False)))
        for x in H:
            if x[0] == 'cell' and x[3] == 1: l.append(('predicate %s' % (x[1],), lambda s, ph, x=x: ex.load1(s, Ptr(x[1], x[2]), ('i', 8)) == z3.If(lp(s), bv(1, 8), bv(0, 8)) if lp(s) is not None else z3.BoolVal(False)))
        return l
    def contracts(ex):
        std_contracts(ex); C = ex.contract
        C(r'Lock::unlock\(\)', lambda ex, st, c: do_unlock(ex, st, c, True)); C(r'Lock::lock\(\)', lambda ex, st, c: do_lock(ex, st, c, True))
        def mchk(ex, st, c): ex.prove(st, 'the mutex of the user lock is the one that is locked and unlocked', ex.ptr_eq(c.args[0], ex.mtx))
        C(r'boost::fibers::mutex::unlock\(\)', lambda ex, st, c: (mchk(ex, st, c), do_unlock(ex, st, c, False))[1]); C(r'boost::fibers::mutex::lock\(\)', lambda ex, st, c: (mchk(ex, st, c), do_lock(ex, st, c, False))[1])
        C(r'Pred::operator\(\)\(\)', c_pred)
        ex.auto_cands = getattr(ex, 'auto_cands', []) + [pred_cands]
    def monitor(ex, base):
        m = Monitor('condition_variable', CVA, SP, {}, bases={base}, wqs={WQ_: 'wait_queue_'})
        def guar(ex, st, a, n, evs):
            # a fiber that gave up the user lock leaves the critical section only by being queued and suspended
            l = []
            if ex.waits: l.append(('after the user lock was released the fiber leaves the critical section only by being suspended', z3.BoolVal(st.g['ul'] or any(e[0] == 'suspend' for e in evs))))
            return l
        m._guar = guar
        m._block = lambda ex, st, a, v, q: [('a waiter suspends only after it released the user lock', z3.BoolVal(not st.g['ul']))]
        def on_release(ex, st, base, a, n, evs, how):
            if how == 'suspend': st.g['nsusp'] = min(2, st.g.get('nsusp', 0) + 1)
        m.on_release = on_release
        return m
    def unit(name, rx, kind, pred, std, timed=None):
        def setup(ex, st):
            ex.this = ex.symobj('this', CVA); ex.base = ex.this.base; ex.waits = True
            ex.m = monitor(ex, ex.base); use_monitors(ex, ex.m)
            st.g['ul'] = True; st.g['lastpred'] = None; ex.mtx = None
            args = [ex.this]
            if std:
                ex.lk = ex.symobj('lk', 'unique_lock'); ex.mtx = ex.symobj('mtx', MTX)
                ex.store(st, ex.lk, ex.mtx, 8); ex.store(st, ex.lk.add(8), bv(1, 8), 1)
            else: ex.lk = ex.symobj('lk', 'Lock')
            args.append(ex.lk)
            if timed:
                t = ex.symobj('timeout', 'tp'); ex.tv = ex.load1(st, t, ('i', 64)); args.append(t)
                if timed == 'until': ex.deadline = ex.tv
                if timed == 'for':
                    st.assume(ex.tv > -(1 << 40)); st.assume(ex.tv < (1 << 40))
                    ex.deadline = lambda st: simp(st.g['firstnow'] + ex.tv * 1000000) if 'firstnow' in st.g else bv(0)
            if pred: args.append(ex.symobj('predarg', 'predx'))
            return args
        def post(ex, o):
            st = o.st; P = lambda n, c: ex.prove(st, n, c, rx)
            if o.kind == 'stop':
                P('the program is terminated only if relocking the user lock fails', z3.BoolVal(bool(st.g.get('lockthrew')))); return
            P('the user lock is held again on every return', z3.BoolVal(st.g['ul']))
            if std: P('the lock object owns its mutex again on every return', ex.load1(st, ex.lk.add(8), ('i', 8)) == 1)
            P('no internal lock is left held', z3.BoolVal(len(held(st)) == 0))
            if o.kind == 'exc': ex.cover('throws', st); return
            ex.cover('returns', st)
            to = st.g.get('resumed', (None,))[0] == 'timeout'
            if not pred:
                P('the fiber waits exactly once', z3.BoolVal(st.g.get('nsusp', 0) == 1))
                if timed:
                    P('timeout is reported exactly when the wait timed out', o.val == (2 if to else 1)); ex.cover('timeout' if to else 'woken', st)
            else:
                lp = st.g['lastpred']
                if not timed: P('wait returns only with the predicate true', lp if lp is not None else False)
                else:
                    P('the value of the predicate is returned', o.val == lp if lp is not None else False)
                    if lp is not None and not to: P('a false predicate is reported only after the deadline', lp)
        us.append(Unit(name, rx, setup, post, (() if not (timed and not pred) else ('timeout', 'woken')) + ('returns',), contracts, fnre=True))
    ANY = r'.*boost::fibers::condition_variable_any::'; STD = r'.*boost::fibers::condition_variable::'; UL = r'std::unique_lock<boost::fibers::mutex>&'
    SC = r'std::chrono::_V2::steady_clock'
    unit('condition_variable_any::wait', ANY + r'wait<Lock>\(Lock&\)', 'wait', False, False)
    unit('condition_variable_any::wait(pred)', ANY + r'wait<Lock, Pred>\(Lock&, Pred\)', 'wait', True, False)
    unit('condition_variable_any::wait_until', ANY + r'wait_until<Lock, %s, [^P]*>\(Lock&.*' % SC, 'wait', False, False, 'until')
    unit('condition_variable_any::wait_until(system_clock)', ANY + r'wait_until<Lock, std::chrono::_V2::system_clock, [^P]*>\(Lock&.*', 'wait', False, False, 'other')
    unit('condition_variable_any::wait_until(pred)', ANY + r'wait_until<Lock, %s, .*, Pred>\(Lock&.*' % SC, 'wait', True, False, 'until')
    unit('condition_variable_any::wait_for', ANY + r'wait_for<Lock, [^P]*>\(Lock&.*', 'wait', False, False, 'for')
    unit('condition_variable_any::wait_for(pred)', ANY + r'wait_for<Lock, .*, Pred>\(Lock&.*', 'wait', True, False, 'for')
    unit('condition_variable::wait', STD + r'wait\(%s\)' % UL, 'wait', False, True)
    unit('condition_variable::wait(pred)', STD + r'wait<Pred>\(%s, Pred\)' % UL, 'wait', True, True)
    unit('condition_variable::wait_until', STD + r'wait_until<%s, [^P]*>\(%s.*' % (SC, UL), 'wait', False, True, 'until')
    unit('condition_variable::wait_until(pred)', STD + r'wait_until<%s, .*, Pred>\(%s.*' % (SC, UL), 'wait', True, True, 'until')
    unit('condition_variable::wait_for', STD + r'wait_for<[^P]*>\(%s.*' % UL, 'wait', False, True, 'for')
    unit('condition_variable::wait_for(pred)', STD + r'wait_for<.*, Pred>\(%s.*' % UL, 'wait', True, True, 'for')
    for cls in (CVA, CV):
        for op in ('notify_one', 'notify_all'):
            def mk(cls=cls, op=op):
                fn = '%s::%s()' % (cls, op)
                def setup(ex, st):
                    ex.this = ex.symobj('this', cls); ex.base = ex.this.base; ex.waits = False; st.g['ul'] = True
                    ex.m = monitor(ex, ex.base); use_monitors(ex, ex.m); return [ex.this]
                def post(ex, o):
                    st = o.st; P = lambda n, c: ex.prove(st, n, c, fn)
                    P('the call returns normally', z3.BoolVal(o.kind == 'ret'))
                    P('no internal lock is left held', z3.BoolVal(len(held(st)) == 0))
                    l = st.g.get('_log', ())
                    n1 = sum(e[0] == 'notify_one' for e in l); na = sum(e[0] == 'notify_all' for e in l)
                    lastcs = st.g.get(('lastcs', 'condition_variable', ex.base), ())
                    if op == 'notify_one':
                        P('at most one waiter is woken', z3.BoolVal(n1 <= 1 and na == 0))
                        P('a waiter is woken, unless none waits', notified(lastcs, 'wait_queue_'))
                    else: P('every waiter queued at that time is woken', notified(lastcs, 'wait_queue_', all=True))
                us.append(Unit('%s::%s' % (cls.split('::')[-1], op), fn, setup, post, (), contracts))
            mk()
    return us

# ---------------------------------------------------------------------------------- C05
def units05(lay):
    us = []
    F = finfo(lay, BAR, 'initial_', 'current_', 'cycle_'); MO = lay.off(BAR, 'mtx_'); CO = lay.off(BAR, 'cond_')
    def monitor(ex, base):
        def inv(ex, v): return z3.And(z3.UGE(v.current_, bv(1)), z3.ULE(v.current_, v.initial_))
        def rely(ex, o, n): return z3.And(o.initial_ == n.initial_, z3.UGE(n.cycle_, o.cycle_), z3.ULT(n.cycle_, bv(1 << 63)), z3.Implies(n.cycle_ == o.cycle_, z3.ULE(n.current_, o.current_)))
        def guar(ex, st, a, n, evs):
            same = z3.And(a.current_ == n.current_, a.cycle_ == n.cycle_)
            if st.g['arrived'] is not None: return [('a call counts as one arrival only', same)]
            return [('each call counts as exactly one arrival: the count drops by one, or the last arrival starts a new cycle with all parties expected',
                     z3.Or(z3.And(a.current_ != 1, n.current_ == a.current_ - 1, n.cycle_ == a.cycle_), z3.And(a.current_ == 1, n.current_ == a.initial_, n.cycle_ == a.cycle_ + 1)))]
        m = Monitor('barrier', BAR, MO, F, inv=inv, rely=rely, guar=guar, bases={base}, frozen=('initial_',))
        def on_release(ex, st, base, a, n, evs, how):
            if st.g['arrived'] is None:
                st.g['arrived'] = (a.cycle_, a.current_)
                st.g['owed'] = simp(z3.And(a.cycle_ != n.cycle_, z3.BoolVal(not any(e[0] == 'notify_all' for e in evs))))
        m.on_release = on_release
        return m
    def cvchk(ex, st, c): ex.prove(st, 'the condition variable of the barrier is used', ex.ptr_eq(c.args[0], ex.this.add(CO)))
    def c_wait(ex, st, c):
        m = ex.m; lk = c.args[1]; cvchk(ex, st, c)
        mp, owns = lk_lock_ptr(ex, st, lk)
        ex.prove(st, 'the mutex of the barrier is held when the fiber waits', z3.And(ex.ptr_eq(mp, ex.this.add(MO)), owns != 0, z3.BoolVal(is_held(st, m, ex.this.base))))
        if is_held(st, m, ex.this.base):
            v = m.view(ex, st, ex.this.base); a = viewtup(m, ex.this.base, st.g[('acq', m.name, ex.this.base)])
            arr = st.g['arrived']
            ex.prove(st, 'a fiber waits only for the end of the cycle in which it arrived', v.cycle_ == (arr[0] if arr is not None else a.cycle_))
            cs_event(st, m, ex.this.base, ('wait',))
            release(ex, st, ex.this.add(MO), 'wait')
            acquire(ex, st, ex.this.add(MO))
        return [Out('ret', st, None)]
    def c_all(ex, st, c):
        cvchk(ex, st, c)
        if is_held(st, ex.m, ex.this.base): cs_event(st, ex.m, ex.this.base, ('notify_all',))
        st.g['owed'] = z3.BoolVal(False)
        return [Out('ret', st, None)]
    def contracts(ex):
        std_contracts(ex); C = ex.contract
        C(r'boost::fibers::mutex::lock\(\)', spin_lock); C(r'boost::fibers::mutex::unlock\(\)', spin_unlock); C(r'boost::fibers::mutex::try_lock\(\)', spin_try_lock)
        C(r'.*boost::fibers::condition_variable_any::wait<std::unique_lock<boost::fibers::mutex> ?>\(.*', c_wait)
        C(r'boost::fibers::condition_variable_any::notify_all\(\)', c_all)
        C(r'boost::fibers::condition_variable_any::notify_one\(\)', lambda ex, st, c: (cvchk(ex, st, c), [Out('ret', st, None)])[1])
    fn = BAR + '::wait()'
    def setup(ex, st):
        ex.this = ex.symobj('this', BAR); ex.m = monitor(ex, ex.this.base); use_monitors(ex, ex.m)
        st.assume(ex.m.inv(ex, ex.m.view(ex, st, ex.this.base))); st.g['arrived'] = None; st.g['owed'] = z3.BoolVal(False)
        return [ex.this]
    def post(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fn); b = ex.this.base
        P('the call returns normally (%s)' % (o.val,) if o.kind != 'ret' else 'the call returns normally', z3.BoolVal(o.kind == 'ret'))
        if o.kind != 'ret': return
        P('the mutex is released', z3.BoolVal(len(held(st)) == 0))
        arr = st.g['arrived']
        P('the call counted as an arrival', z3.BoolVal(arr is not None))
        if arr is None: return
        P('true is returned exactly by the last arrival of the cycle', o.val == (arr[1] == 1))
        P('the last arrival wakes all waiting fibers after it ended the cycle', z3.Not(st.g['owed']))
        v = viewtup(ex.m, b, st.g[('lastrel', 'barrier', b)])
        P('no fiber passes the barrier before its cycle has ended', v.cycle_ != arr[0])
        ex.cover('last', st if ex.check(st, arr[1] == 1) == z3.sat else State().assume(z3.BoolVal(False))); ex.cover('other', st if ex.check(st, arr[1] != 1) == z3.sat else State().assume(z3.BoolVal(False)))
    us.append(Unit('barrier::wait', fn, setup, post, ('last', 'other'), contracts))
    fc = BAR + '::barrier(unsigned long)'
    def setup_c(ex, st): ex.this = ex.symobj('mem', BAR); ex.n = freshbv('n'); return [ex.this, ex.n]
    def post_c(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fc)
        if o.kind == 'exc':
            P('construction fails only for zero parties', ex.n == 0); ex.cover('throws', st)
            P('fiber_error(invalid_argument) is thrown', z3.And(z3.BoolVal(o.val.tinfo == '_ZTIN5boost6fibers11fiber_errorE'), o.val.data['code'] == 22) if o.val.data and o.val.data.get('code') is not None else False)
        else:
            P('the call returns normally', z3.BoolVal(o.kind == 'ret')); ex.cover('constructed', st)
            P('a barrier for zero parties is rejected', ex.n != 0)
            L = lambda f: ex.load1(st, ex.this.add(F[f][0]), ('i', 64))
            P('a new barrier expects all parties', z3.And(L('initial_') == ex.n, L('current_') == ex.n))
    us.append(Unit('barrier::barrier', fc, setup_c, post_c, ('throws', 'constructed'), contracts))
    return us
