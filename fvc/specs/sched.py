"""C17, C18: scheduler and context switching, timers."""
from ..lib import *
from ..core import _ctr, memfun
from ..containers import *
from . import timed
PROPS = ['C17', 'C18']
NS = 'boost::fibers::'
SCHED = NS + 'scheduler'; ALGO = NS + 'algo::algorithm'; WK = NS + 'waker'
TPT = 'std::chrono::time_point<std::chrono::_V2::steady_clock, std::chrono::duration<long, std::ratio<1l, 1000000000l>>>'
TP = TPT + ' const&'
LK = 'std::unique_lock<boost::fibers::detail::spinlock_ttas>&'
TMAX = (1 << 63) - 1
def prop(pid):
    T = ['contracts of boost::intrusive slist/list/multiset as abstract sequences (multiset: begin() is a least element under timepoint_less)', 'contract of the scheduling algorithm interface (awakened/pick_next/notify/suspend_until: C20, C21, C22)']
    if pid == 'C17':
        return dict(srcs=['scheduler.cpp', 'context.cpp', 'tu/sched.cpp'], units=units17, trusted=T + ['contract of ontop_fcontext/jump_fcontext (boost.context): runs the given function on the resumed stack and returns when the suspended context is resumed', 'contract of waker::wake (C15)', 'contract of intrusive_ptr_release(context*) (C14)'],
                    assumptions=['a fiber passed to schedule/yield/terminate is not in a ready queue (BOOST_ASSERT of the callers)', 'the ready queue is not empty when a fiber suspends: the dispatcher fiber is ready or running (yield/suspend dereference pick_next unconditionally)'])
    return dict(srcs=['scheduler.cpp', 'context.cpp', 'tu/sched.cpp', 'tu/timed.cpp'], units=units18, trusted=T + ['contract of waker::wake (C15)', 'contract of context::resume (proved as C17)'],
                assumptions=['clock values stay below 2^61 ns', 'every clock advances at the rate of steady_clock'])

def offs(lay):
    o = SimpleNamespace()
    for f in ('waker_epoch_', 'scheduler_', 'c_', 'tp_', 'sleep_waker_', 'type_', 'use_count_'): setattr(o, f, lay.off(CTX, f))
    for f in ('algo_', 'remote_ready_queue_', 'remote_ready_splk_', 'sleep_queue_', 'terminated_queue_', 'worker_queue_', 'dispatcher_ctx_', 'main_ctx_', 'shutdown_'): setattr(o, f, lay.off(SCHED, f))
    o.wctx = lay.off(WK, 'ctx_'); o.wep = lay.off(WK, 'epoch_')
    return o

def flag(st, k, v=True): st.g[k] = v
def algo_contracts(ex, O):
    """the interface of the scheduling algorithm, seen by one scheduler"""
    def mine(ex, st, p, what):
        a = ex.load1(st, ex.this.add(O.algo_), PTR) if ex.this.base.cls == SCHED else None
        if a is not None: ex.prove(st, '%s is called on the algorithm of this scheduler' % what, ex.ptr_eq(p, a))
    def awakened(ex, st, c):
        mine(ex, st, c.args[0], 'awakened'); st.g['awk'] = st.g.get('awk', ()) + (c.args[1],); log(st, ('awakened', c.args[1]))
        ex.prove(st, 'a fiber that is made ready has left the timer queue', ready_unlinked(ex, st, c.args[1]))
        gone(st, c.args[1]); return [Out('ret', st, None)]
    def pick(ex, st, c):
        mine(ex, st, c.args[0], 'pick_next')
        st.g['npick'] = min(2, st.g.get('npick', 0) + 1)
        x = ex.sym(freshbv('picked'), CTX); x.base.dist = False
        st.g['picked'] = x
        if not ex.pick_null: st.assume(x.bv() != 0); st.g['picknull'] = False; return [Out('ret', st, x)]
        s2 = st.fork(); st.assume(x.bv() != 0); s2.assume(x.bv() == 0); st.g['picknull'] = False; s2.g['picknull'] = True; s2.g['picked'] = None
        return [Out('ret', st, x), Out('ret', s2, NULL)]
    def notify(ex, st, c):
        mine(ex, st, c.args[0], 'notify')
        if ex.this.base.cls == SCHED and st.g.get(('gone', ex.this.base)): ex.prove(st, 'the algorithm is kept alive by a reference while it is notified (its scheduler may be gone)', z3.BoolVal(st.g.get('algorefs', 0) > 0))
        st.g['notified'] = True; log(st, ('notify',)); return [Out('ret', st, None)]
    def has(ex, st, c):
        mine(ex, st, c.args[0], 'has_ready_fibers'); b = fresh('hasready', z3.BoolSort()); st.g['hasready'] = b; return [Out('ret', st, b)]
    def suspend_until(ex, st, c):
        mine(ex, st, c.args[0], 'suspend_until')
        no_spinlock(ex, st, 'the thread goes idle')
        f = getattr(ex, 'on_idle', None)
        if f: f(ex, st, ex.load1(st, c.args[1], ('i', 64)))
        return [Out('ret', st, None)]
    V = r'virtual .*algorithm::'
    ex.contract(V + r'awakened\(.*', awakened); ex.contract(V + r'pick_next\(.*', pick); ex.contract(V + r'notify\(.*', notify)
    ex.contract(V + r'has_ready_fibers\(.*', has); ex.contract(V + r'suspend_until\(.*', suspend_until)
def ready_unlinked(ex, st, x):
    l = linked(st, 'sleep_hook_', x)
    if l is None: return z3.BoolVal(False)
    return z3.BoolVal(l is False) if not isinstance(l, z3.ExprRef) else z3.Not(l)
def gone(st, x):
    if x.base.kind == 'sym': st.g[('gone', x.base)] = True
def gone_hook(ex, st, p, ty, mod, val=None):
    if st.g.get(('gone', p.base)): ex.prove(st, 'neither a fiber nor its scheduler is touched any more once the fiber can run elsewhere or has been released', False)
    return None

def ipcopy(ex, st, c):
    v = ex.load1(st, c.args[1], PTR); ex.store(st, c.args[0], v, 8); st.g['algorefs'] = min(3, st.g.get('algorefs', 0) + 1); return [Out('ret', st, None)]
def ipcopy2(ex, st, c):
    ex.store(st, c.args[0], c.args[1], 8); st.g['algorefs'] = min(3, st.g.get('algorefs', 0) + 1); return [Out('ret', st, None)]
def ipdtor(ex, st, c):
    v = ex.load1(st, c.args[0], PTR)
    if v.base.kind != 'null': st.g['algorefs'] = max(0, st.g.get('algorefs', 0) - 1)
    return [Out('ret', st, None)]
def base(O, lay):
    def contracts(ex):
        setup_me(ex); stdlib(ex); spinlock_contracts(ex); intrusive_contracts(ex, lay); algo_contracts(ex, O)
        ex.ptr_labels[(CTX, O.scheduler_)] = SCHED; ex.ptr_labels[(SCHED, O.algo_)] = ALGO; ex.ptr_labels[(SCHED, O.dispatcher_ctx_)] = CTX; ex.ptr_labels[(SCHED, O.main_ctx_)] = CTX
        ex.pick_null = False
        ex.contract(r'boost::intrusive_ptr<.*>::intrusive_ptr\(boost::intrusive_ptr<.*> const&\)', ipcopy)
        ex.contract(r'boost::intrusive_ptr<boost::fibers::algo::algorithm>::intrusive_ptr\(boost::fibers::algo::algorithm\*, bool\)', ipcopy2)
        ex.contract(r'boost::intrusive_ptr<boost::fibers::algo::algorithm>::~intrusive_ptr\(\)', ipdtor)
    return contracts
def this_sched(ex, st, O):
    ex.this = ex.symobj('this', SCHED); a = ex.load1(st, ex.this.add(O.algo_), PTR); st.assume(a.bv() != 0); ex.algo = a
    return ex.this
def remote_monitor(ex, O):
    m = Monitor('remote_ready_splk_', SCHED, O.remote_ready_splk_, {}, bases={ex.this.base})
    m.containers = {O.remote_ready_queue_: 'remote_ready_queue_'}
    def onacq(ex, st, base):
        seq_set(st, ex.this.add(O.remote_ready_queue_), seq_fresh(st)); st.g['rq0'] = seq_get(st, ex.this.add(O.remote_ready_queue_))
    def onrel(ex, st, base, a, n, evs, how): st.g['rqend'] = seq_get(st, ex.this.add(O.remote_ready_queue_)); st.g['rqempty'] = simp(seq_empty(st.g['rqend']))
    m.on_acquire = onacq; m.on_release = onrel
    use_monitors(ex, m); ex.rm = m

# ---------------------------------------------------------------------------------- switching
def switch_contracts(ex, O, lay):
    """context::resume and friends as seen by the scheduler"""
    def before(ex, st, x, what):
        p = st.g.get('picked')
        ex.prove(st, 'the fiber the algorithm picked is resumed', ex.ptr_eq(x, p) if p is not None else False)
        ex.prove(st, 'a picked fiber is resumed once', z3.BoolVal(st.g.get('nresumed', 0) < st.g.get('npick', 0)) if not ex.loopy else z3.BoolVal(not st.g.get('presumed')))
        st.g['nresumed'] = min(2, st.g.get('nresumed', 0) + 1)
        if ex.loopy: st.g['picked'] = None
    def after(ex, st):
        f = getattr(ex, 'on_switch', None)
        if f: f(ex, st)
        st.g.pop('firstnow', None)
        # other fibers have run
        if ex.this.base.cls == SCHED:
            for q in (O.sleep_queue_, O.terminated_queue_, O.worker_queue_): seq_set(st, ex.this.add(q), seq_fresh(st))
            sh = freshbv('shutdown', 8); st.assume(z3.ULE(sh, bv(1, 8))); ex.store(st, ex.this.add(O.shutdown_), sh, 1)
    def r0(ex, st, c):
        before(ex, st, c.args[0], 'resume'); no_spinlock(ex, st, 'another fiber is resumed'); log(st, ('switch', None)); after(ex, st); return [Out('ret', st, None)]
    def rlk(ex, st, c):
        before(ex, st, c.args[0], 'resume'); lk = c.args[1]
        ex.prove(st, 'the lock handed to the resumed fiber is the one that was passed in', ex.ptr_eq(lk, ex.lk) if hasattr(ex, 'lk') else False)
        lp, ow = lk_lock_ptr(ex, st, lk)
        ex.prove(st, 'the lock is still held when the fiber is switched away', z3.And(ow != 0, z3.BoolVal(len(held(st)) == 1 and held(st)[0][0] is ex.lockp.base)))
        st.g['held'] = (); ex.store(st, lk.add(8), bv(0, 8), 1); log(st, ('switch', None)); after(ex, st); return [Out('ret', st, None)]
    def rctx(ex, st, c):
        before(ex, st, c.args[0], 'resume'); no_spinlock(ex, st, 'another fiber is resumed'); log(st, ('switch', c.args[1])); st.g['readied'] = st.g.get('readied', ()) + (c.args[1],); after(ex, st); return [Out('ret', st, None)]
    def scc(ex, st, c):
        f = getattr(ex, 'on_scc', None)
        if f: f(ex, st, c.args[-1])
        else: before(ex, st, c.args[-1], 'suspend_with_cc')
        no_spinlock(ex, st, 'a finished fiber switches away'); st.g['nscc'] = min(2, st.g.get('nscc', 0) + 1); log(st, ('switch_cc',))
        F = ex.sym(freshbv('fctx')); st.g['cc'] = F
        if len(c.args) == 2: ex.store(st, c.args[0], F, 8); return [Out('ret', st, None)]
        return [Out('ret', st, F)]
    ex.loopy = False
    ex.contract(r'boost::fibers::context::resume\(\)', r0); ex.contract(r'boost::fibers::context::resume\(std::unique_lock<.*', rlk); ex.contract(r'boost::fibers::context::resume\(boost::fibers::context\*\)', rctx)
    ex.contract(r'boost::fibers::context::suspend_with_cc\(\)', scc)
def ulk(ex, st):
    ex.lockp = ex.symobj('splk', 'spinlock'); ex.lk = ex.symobj('lk', 'unique_lock')
    ex.store(st, ex.lk, ex.lockp, 8); ex.store(st, ex.lk.add(8), bv(1, 8), 1)
    st.g['held'] = ((ex.lockp.base, 0, None),)

# ---------------------------------------------------------------------------------- schedule
def u_schedule(lay, O, us):
    fn = SCHED + '::schedule(boost::fibers::context*)'
    def setup(ex, st):
        this_sched(ex, st, O); ex.ctx = ex.symobj('ctx', CTX); ex.sl0 = fresh('sleeping', z3.BoolSort()); set_linked(st, 'sleep_hook_', ex.ctx, ex.sl0); return [ex.this, ex.ctx]
    def post(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fn); a = st.g.get('awk', ())
        P('schedule returns normally', z3.BoolVal(o.kind == 'ret'))
        P('the fiber is handed to the algorithm exactly once', ex.ptr_eq(a[0], ex.ctx) if len(a) == 1 else False)
        u = [e for e in st.g.get('_log', ()) if e[0] in ('unlink', 'erase')]
        P('only a fiber that still waits in the timer queue is removed from it', z3.And(*[z3.BoolVal(e[2].base is ex.ctx.base and e[3] == 'sleep_hook_') for e in u]) if u else z3.BoolVal(True))
        ex.cover('sleeping' if u else 'not sleeping', st)
    us.append(Unit('scheduler::schedule', fn, setup, post, ('sleeping', 'not sleeping'), base(O, lay)))

def c_schedule_rec(ex, st, c):
    x = c.args[1]
    p = st.g.get('pending')
    ex.prove(st, 'exactly the fiber taken from the remote queue is scheduled, once', ex.ptr_eq(x, p) if p is not None else False)
    st.g['pending'] = None; st.g['nsched'] = min(2, st.g.get('nsched', 0) + 1)
    gone(st, x); return [Out('ret', st, None)]

def u_remote(lay, O, us):
    fn = SCHED + '::schedule_from_remote(boost::fibers::context*)'
    def onc(ex, st, e):
        if e[0] == 'push' and e[3] == 'remote_ready_hook_':
            ex.prove(st, 'the fiber is put into the remote ready queue of this scheduler', z3.BoolVal(e[1].base is ex.this.base and e[2].base is ex.ctx.base))
            st.g['pushed'] = min(2, st.g.get('pushed', 0) + 1); st.g['notified'] = False
        else: ex.prove(st, 'no other queue is changed by a remote wake-up', False)
    def setup(ex, st):
        this_sched(ex, st, O); ex.ctx = ex.symobj('ctx', CTX); set_linked(st, 'remote_ready_hook_', ex.ctx, False); remote_monitor(ex, O); ex.on_container = onc
        r = ex.rm.on_release
        def onrel(ex, st, *a):
            r(ex, st, *a)
            if st.g.get('pushed'): gone(st, ex.ctx); gone(st, ex.this)     # the fiber may have ended its thread
        ex.rm.on_release = onrel; ex.hooks_load.append(gone_hook); ex.hooks_store.append(gone_hook)
        return [ex.this, ex.ctx]
    def post(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fn)
        P('the call returns normally', z3.BoolVal(o.kind == 'ret'))
        P('the fiber is queued exactly once', z3.BoolVal(st.g.get('pushed') == 1))
        P('the target thread is notified after the fiber was queued', z3.BoolVal(st.g.get('notified') is True))
        P('no lock is left held', z3.BoolVal(len(held(st)) == 0))
        P('the fiber is not made ready from a foreign thread', z3.BoolVal(not st.g.get('awk')))
        ex.cover('done', st)
    us.append(Unit('scheduler::schedule_from_remote', fn, setup, post, ('done',), base(O, lay)))
    fr = SCHED + '::remote_ready2ready_()'
    def onc2(ex, st, e):
        if e[0] == 'pop':
            ex.prove(st, 'a fiber taken from the remote queue is scheduled before the next one is taken', z3.BoolVal(st.g.get('pending') is None)); st.g['pending'] = e[2]
        elif e[0] in ('destroy', 'clear'): ex.prove(st, 'no fiber is dropped from the remote ready queue', e[4])
        elif e[0] == 'swap': pass
        else: ex.prove(st, 'no other queue is changed', False)
    def setup_r(ex, st):
        this_sched(ex, st, O); remote_monitor(ex, O); ex.on_container = onc2; ex.hooks_load.append(gone_hook); ex.hooks_store.append(gone_hook)
        return [ex.this]
    def contracts_r(ex): base(O, lay)(ex); ex.contract(r'boost::fibers::scheduler::schedule\(.*', c_schedule_rec)
    def post_r(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fr)
        P('the call returns normally', z3.BoolVal(o.kind == 'ret'))
        P('no lock is left held', z3.BoolVal(len(held(st)) == 0))
        P('every fiber taken from the remote queue was scheduled', z3.BoolVal(st.g.get('pending') is None))
        P('the remote ready queue was taken over completely', st.g.get('rqempty', z3.BoolVal(False)))
        ex.cover('some' if st.g.get('nsched') else 'none', st)
    us.append(Unit('scheduler::remote_ready2ready_', fr, setup_r, post_r, ('none',), contracts_r))

# ---------------------------------------------------------------------------------- terminated fibers
def u_terminated(lay, O, us):
    fn = SCHED + '::release_terminated_()'
    def onc(ex, st, e):
        if e[0] == 'pop':
            ex.prove(st, 'a terminated fiber is released before the next one is taken', z3.BoolVal(st.g.get('pending') is None)); st.g['pending'] = e[2]
        elif e[0] in ('destroy', 'clear'): ex.prove(st, 'no terminated fiber is dropped without being released', e[4])
        else: ex.prove(st, 'no other queue is changed', False)
    def rel(ex, st, c):
        p = st.g.get('pending')
        ex.prove(st, 'exactly the fiber taken from the queue of terminated fibers is released, once', ex.ptr_eq(c.args[0], p) if p is not None else False)
        st.g['pending'] = None; gone(st, c.args[0]); return [Out('ret', st, None)]
    def contracts(ex): base(O, lay)(ex); ex.contract(r'boost::fibers::intrusive_ptr_release\(boost::fibers::context\*\)', rel)
    def setup(ex, st):
        this_sched(ex, st, O); ex.on_container = onc; ex.hooks_load.append(gone_hook); ex.hooks_store.append(gone_hook); return [ex.this]
    def post(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fn)
        P('the call returns normally', z3.BoolVal(o.kind == 'ret'))
        P('every fiber taken from the queue was released', z3.BoolVal(st.g.get('pending') is None))
        P('no terminated fiber is left in the queue', seq_empty(seq_get(st, ex.this.add(O.terminated_queue_))))
        ex.cover('done', st)
    us.append(Unit('scheduler::release_terminated_', fn, setup, post, ('done',), contracts))
    ft = SCHED + '::terminate(%s, boost::fibers::context*)' % LK
    def onc_t(ex, st, e):
        if e[0] == 'push' and e[3] == 'terminated_hook_':
            ex.prove(st, 'the finished fiber is put into the queue of terminated fibers of its scheduler', z3.BoolVal(e[1].base is ex.this.base and isint(e[1].off) and e[1].off == O.terminated_queue_ and e[2].base is ex.ME.base))
            st.g['term'] = min(2, st.g.get('term', 0) + 1)
        elif e[0] in ('unlink', 'erase', 'remove') and e[3] == 'worker_hook_': ex.prove(st, 'the finished fiber leaves the list of workers', z3.BoolVal(e[2].base is ex.ME.base)); st.g['unworked'] = True
        else: ex.prove(st, 'a finished fiber is put into no other queue', False)
    def setup_t(ex, st):
        this_sched(ex, st, O); ulk(ex, st); ex.on_container = onc_t; set_linked(st, 'worker_hook_', ex.ME, True); set_linked(st, 'terminated_hook_', ex.ME, False)
        st.assume(ex.ptr_eq(ex.load1(st, ex.ME.add(O.scheduler_), PTR), ex.this))
        def scc(ex, st, x):
            p = st.g.get('picked')
            ex.prove(st, 'the fiber the algorithm picked is resumed', ex.ptr_eq(x, p) if p is not None else False)
            ex.prove(st, 'the finished fiber is queued for release, exactly once, before it switches away', z3.BoolVal(st.g.get('term') == 1))
            ex.prove(st, 'the finished fiber has left the list of workers before it switches away', z3.BoolVal(bool(st.g.get('unworked'))))
        ex.on_scc = scc
        r = ex.symobj('ret', 'fiber'); ex.sret = r
        return [r, ex.this, ex.lk, ex.ME] if ex.sret_arg else [ex.this, ex.lk, ex.ME]
    def contracts_t(ex):
        base(O, lay)(ex); switch_contracts(ex, O, lay); ex.sret_arg = True
    def post_t(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, ft)
        P('the call returns normally', z3.BoolVal(o.kind == 'ret'))
        P('a finished fiber picks one other fiber and switches to it exactly once', z3.BoolVal(st.g.get('npick') == 1 and st.g.get('nscc') == 1))
        P('a finished fiber is never made ready again', z3.BoolVal(not st.g.get('awk')))
        P('no lock is left held', z3.BoolVal(len(held(st)) == 0))
        cc = st.g.get('cc')
        P('the fiber that resumes the finished one for release gets control back', ex.ptr_eq(ex.load1(st, ex.sret, PTR), cc) if cc is not None else False)
        ex.cover('done', st)
    us.append(Unit('scheduler::terminate', ft, setup_t, post_t, ('done',), contracts_t))

# ---------------------------------------------------------------------------------- yield, suspend
def u_switching(lay, O, us):
    def contracts(ex): base(O, lay)(ex); switch_contracts(ex, O, lay)
    for nm, kind in (('yield(boost::fibers::context*)', 'yield'), ('suspend()', 'suspend'), ('suspend(%s)' % LK, 'suspend_lk')):
        fn = '%s::%s' % (SCHED, nm)
        def setup(ex, st, kind=kind):
            this_sched(ex, st, O)
            if kind == 'suspend_lk': ulk(ex, st); return [ex.this, ex.lk]
            return [ex.this, ex.ME] if kind == 'yield' else [ex.this]
        def post(ex, o, kind=kind, fn=fn):
            st = o.st; P = lambda n, c: ex.prove(st, n, c, fn)
            P('the call returns normally', z3.BoolVal(o.kind == 'ret'))
            P('one fiber is picked and resumed exactly once', z3.BoolVal(st.g.get('npick') == 1 and st.g.get('nresumed') == 1))
            P('no fiber is made ready before the switch', z3.BoolVal(not st.g.get('awk')))
            r = st.g.get('readied', ())
            if kind == 'yield': P('the yielding fiber is made ready again exactly once, after the switch', ex.ptr_eq(r[0], ex.ME) if len(r) == 1 else False)
            else: P('a suspending fiber is not made ready', z3.BoolVal(not r))
            P('no lock is left held', z3.BoolVal(len(held(st)) == 0))
        us.append(Unit('scheduler::' + kind, fn, setup, post, (), contracts))
    fn = SCHED + '::has_ready_fibers() const'
    def setup(ex, st): this_sched(ex, st, O); return [ex.this]
    def post(ex, o): ex.prove(o.st, 'has_ready_fibers is the answer of the algorithm', (o.val == o.st.g['hasready']) if o.kind == 'ret' and 'hasready' in o.st.g else False, fn)
    us.append(Unit('scheduler::has_ready_fibers', fn, setup, post, (), contracts))
    # forwarders of context
    def rec(nm, ret=None):
        def f(ex, st, c):
            log(st, (nm, c.args)); 
            if ret == 'bool': r = fresh('r', z3.BoolSort()); st.g['r'] = r; return [Out('ret', st, r)]
            return [Out('ret', st, None)]
        return f
    def contracts2(ex):
        setup_me(ex); stdlib(ex); ex.ptr_labels[(CTX, O.scheduler_)] = SCHED
        ex.contract(r'boost::fibers::scheduler::suspend\(\)', rec('suspend')); ex.contract(r'boost::fibers::scheduler::suspend\(std.*', rec('suspend_lk')); ex.contract(r'boost::fibers::scheduler::yield\(.*', rec('yield'))
        ex.contract(r'boost::fibers::scheduler::wait_until\(.*chrono.*\)', rec('wait_until', 'bool')); ex.contract(r'boost::fibers::scheduler::schedule\(.*', rec('schedule')); ex.contract(r'boost::fibers::scheduler::schedule_from_remote\(.*', rec('schedule_remote'))
    def fwd(name, fname, ev, mkargs, expect):
        def setup(ex, st):
            ex.this = ex.symobj('this', CTX); ex.sc = ex.load1(st, ex.this.add(O.scheduler_), PTR); st.assume(ex.sc.bv() != 0); ex.xa = mkargs(ex, st); return [ex.this] + list(ex.xa)
        def post(ex, o):
            st = o.st; l = [e for e in st.g.get('_log', ()) if e[0] in ('suspend', 'suspend_lk', 'yield', 'wait_until', 'schedule', 'schedule_remote')]
            ok = o.kind == 'ret' and len(l) == 1 and l[0][0] == ev
            ex.prove(st, 'the scheduler of the fiber does it exactly once', z3.And(ex.ptr_eq(l[0][1][0], ex.sc), *[ex.ptr_eq(a, b) for a, b in zip(l[0][1][1:], expect(ex))]) if ok else False, fname)
            if ok and 'r' in st.g: ex.prove(st, 'the result is the one of the scheduler', o.val == st.g['r'], fname)
        us.append(Unit(name, fname, setup, post, (), contracts2))
    fwd('context::suspend', CTX + '::suspend()', 'suspend', lambda ex, st: (), lambda ex: ())
    fwd('context::suspend(lk)', CTX + '::suspend(%s)' % LK, 'suspend_lk', lambda ex, st: (ex.symobj('lk', 'unique_lock'),), lambda ex: ex.xa)
    def yargs(ex, st): st.assume(ex.ptr_eq(ex.this, ex.ME)); return ()
    fwd('context::yield', CTX + '::yield()', 'yield', yargs, lambda ex: (ex.ME,))
    fs = CTX + '::schedule(boost::fibers::context*)'
    def setup_s(ex, st):
        ex.this = ex.symobj('this', CTX); ex.ctx = ex.symobj('ctx', CTX); ex.sc = ex.load1(st, ex.this.add(O.scheduler_), PTR); ex.sx = ex.load1(st, ex.ctx.add(O.scheduler_), PTR); st.assume(ex.sc.bv() != 0); st.assume(ex.sx.bv() != 0)
        return [ex.this, ex.ctx]
    def post_s(ex, o):
        st = o.st; l = [e for e in st.g.get('_log', ()) if e[0] in ('schedule', 'schedule_remote')]; P = lambda n, c: ex.prove(st, n, c, fs)
        ok = o.kind == 'ret' and len(l) == 1
        P('the fiber is scheduled exactly once, on its own scheduler', z3.And(ex.ptr_eq(l[0][1][0], ex.sx), ex.ptr_eq(l[0][1][1], ex.ctx)) if ok else False)
        if ok: P('a fiber of another thread is scheduled remotely, one of this thread locally', z3.BoolVal(l[0][0] == 'schedule') == ex.ptr_eq(ex.sc, ex.sx)); ex.cover(l[0][0], st)
    us.append(Unit('context::schedule', fs, setup_s, post_s, ('schedule', 'schedule_remote'), contracts2))

# ---------------------------------------------------------------------------------- dispatch
def u_dispatch(lay, O, us, timers=False):
    fn = SCHED + '::dispatch()'
    # what happened since other fibers could last run / the algorithm was last asked
    def reset(ex, st):
        for k in ('remote', 'timer', 'rel', 'picknull'): st.g[k] = False
    def moved(k):
        def f(ex, st, c):
            ex.prove(st, 'the queues of this scheduler are handled', ex.ptr_eq(c.args[0], ex.this))
            st.g[k] = True
            if k != 'rel': st.g['picknull'] = False
            if k == 'timer': seq_set(st, ex.this.add(O.sleep_queue_), seq_fresh(st))
            if k == 'rel': seq_set(st, ex.this.add(O.terminated_queue_), seq_fresh(st, empty=True))
            return [Out('ret', st, None)]
        return f
    def contracts(ex):
        base(O, lay)(ex); switch_contracts(ex, O, lay); ex.loopy = True; ex.pick_null = True
        ex.contract(r'boost::fibers::scheduler::release_terminated_\(\)', moved('rel')); ex.contract(r'boost::fibers::scheduler::remote_ready2ready_\(\)', moved('remote')); ex.contract(r'boost::fibers::scheduler::sleep2ready_\(\)', moved('timer'))
    def setup(ex, st):
        this_sched(ex, st, O); reset(ex, st)
        sh = ex.load1(st, ex.this.add(O.shutdown_), ('i', 8)); st.assume(z3.ULE(sh, bv(1, 8)))
        ex.disp = ex.load1(st, ex.this.add(O.dispatcher_ctx_), PTR); ex.main = ex.load1(st, ex.this.add(O.main_ctx_), PTR); st.assume(ex.disp.bv() != 0); st.assume(ex.main.bv() != 0)
        ex.on_switch = lambda ex, st: on_switch(ex, st)
        def on_switch(ex, st):
            r = st.g.get('readied', ()); ex.prove(st, 'the dispatcher fiber is made ready again, once, when it resumes another fiber', ex.ptr_eq(r[0], ex.disp) if len(r) == 1 else False)
            st.g['readied'] = (); st.g['npick'] = 0; st.g['nresumed'] = 0; reset(ex, st)
            ex.cover('resumed', st)
        def idle(ex, st, t):
            q = seq_get(st, ex.this.add(O.sleep_queue_))
            if not timers:
                ex.prove(st, 'fibers woken by other threads are taken over before the thread goes idle', z3.BoolVal(st.g['remote']))
                ex.prove(st, 'expired timers are handled before the thread goes idle', z3.BoolVal(st.g['timer']))
                ex.prove(st, 'terminated fibers are released before the thread goes idle', z3.BoolVal(st.g['rel']))
                ex.prove(st, 'the thread goes idle only when the algorithm has no ready fiber', z3.BoolVal(bool(st.g['picknull'])))
            f = ex.sym(simp(z3.Select(q[2], q[0])), CTX)
            ft = ex.load1(st, f.add(O.tp_), ('i', 64))
            ex.prove(st, 'the idle thread sleeps no longer than until the earliest deadline', z3.Or(seq_empty(q), t <= ft))
            ex.prove(st, 'without a timer the idle thread sleeps until it is notified', z3.Or(z3.Not(seq_empty(q)), t == bv(TMAX)))
            st.g['npick'] = 0; reset(ex, st); st.g['idle'] = True
            sh = freshbv('shutdown', 8); st.assume(z3.ULE(sh, bv(1, 8)))
            ex.cover('idle', st); ex.cover('idle with timer', st) if ex.feasible(st, z3.Not(seq_empty(q))) else None
        ex.on_idle = idle
        def scc(ex, st, x):
            ex.prove(st, 'at the end the main fiber is resumed', ex.ptr_eq(x, ex.main))
            w = seq_get(st, ex.this.add(O.worker_queue_))
            ex.prove(st, 'the dispatcher ends only on shutdown', ex.load1(st, ex.this.add(O.shutdown_), ('i', 8)) != 0)
            ex.prove(st, 'the dispatcher ends only when no worker fiber is left', seq_empty(w))
            ex.prove(st, 'terminated fibers are released before the dispatcher ends', seq_empty(seq_get(st, ex.this.add(O.terminated_queue_))))
            ex.cover('ends', st)
        ex.on_scc = scc
        ex.sret = ex.symobj('ret', 'fiber'); return [ex.sret, ex.this]
    def post(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fn)
        P('dispatch returns normally', z3.BoolVal(o.kind == 'ret'))
        P('the main fiber is resumed exactly once at the end', z3.BoolVal(st.g.get('nscc') == 1))
        P('no picked fiber is dropped', z3.BoolVal(st.g.get('picked') is None))
        cc = st.g.get('cc'); P('the fiber that resumes the dispatcher for release gets control back', ex.ptr_eq(ex.load1(st, ex.sret, PTR), cc) if cc is not None else False)
    us.append(Unit('scheduler::dispatch' + (' (idle time)' if timers else ''), fn, setup, post, ('resumed', 'idle', 'idle with timer', 'ends'), contracts))

# ---------------------------------------------------------------------------------- context::resume
def u_resume(lay, O, us):
    ACT = '_ZN5boost6fibers19context_initializer7active_E'
    def active(ex, st): return ex.load1(st, Ptr(ex.globreg(ACT), 0), PTR)
    def c_ontop(ex, st, c):
        f, data, fnp = c.args[-3:]
        P = lambda n, g: ex.prove(st, n, g)
        P('a fiber is resumed where it was suspended', ex.ptr_eq(f, ex.F))
        P('a suspension point is used up by the switch', ex.load1(st, ex.this.add(O.c_), PTR).bv() == 0)
        P('the resumed fiber is the active one', ex.ptr_eq(active(ex, st), ex.this))
        P('the switch happens exactly once', z3.BoolVal(not st.g.get('switched')))
        P('the fiber is not made ready before it has been switched away', z3.BoolVal(not st.g.get('readied')))
        P('the lock is still held when the fiber is switched away', z3.BoolVal(len(held(st)) == (1 if ex.kind == 'lk' else 0)))
        st.g['switched'] = True; st.g['ontop'] = True; ex.birth = next(_ctr)
        fnn = fnp.base.name
        body = ex.prog.fn.get(fnn)
        if body is None: raise ToolError('function run on the resumed stack not found: %s' % fnn)
        ex.FP = ex.sym(freshbv('fctx_prev')); st.assume(ex.FP.bv() != 0)
        body.ensure()
        n = len(body.params)
        outs = []
        for o in ex.exec_fn(body, [ex.FP, data] if n == 2 else [[ex.FP, data]], st):
            s = o.st
            if o.kind != 'ret': ex.prove(s, 'the function run after the switch does not throw', False); continue
            r = o.val[0] if isinstance(o.val, list) else o.val
            ex.prove(s, 'the suspended fiber can be resumed: its suspension point is stored', ex.ptr_eq(ex.load1(s, ex.PREV.add(O.c_), PTR), ex.FP))
            ex.prove(s, 'the suspension point has one owner only', r.bv() == 0)
            if ex.kind == 'lk': ex.prove(s, 'the lock is released after the switch', z3.BoolVal(len(held(s)) == 0))
            if ex.kind == 'ctx': ex.prove(s, 'the suspended fiber is made ready exactly once after the switch', z3.BoolVal(len(s.g.get('readied', ())) == 1))
            s.g['ontop'] = False
            for k in [k for k in s.g if isinstance(k, tuple) and k[0] == 'gone']: s.g.pop(k)
            s.g['goneframe'] = False
            # the suspended fiber is resumed later by somebody else
            ex.RF = ex.sym(freshbv('fctx_resumer')) if ex.kind == 'cc' else NULL
            outs.append(Out('ret', s, [ex.RF, NULL]))
        return outs
    def unlock(ex, st, c):
        ex.prove(st, 'the lock is released only after the suspension point of the fiber is stored', z3.And(z3.BoolVal(bool(st.g.get('ontop'))), ex.ptr_eq(ex.load1(st, ex.PREV.add(O.c_), PTR), ex.FP)) if st.g.get('ontop') else False)
        spin_unlock(ex, st, c); return [Out('ret', st, None)]
    def sched(ex, st, c):
        ok = bool(st.g.get('ontop'))
        ex.prove(st, 'the fiber is made ready only after its suspension point is stored', ex.ptr_eq(ex.load1(st, ex.PREV.add(O.c_), PTR), ex.FP) if ok else False)
        ex.prove(st, 'the fiber that was asked for is made ready', ex.ptr_eq(c.args[1], ex.rctx) if ex.kind == 'ctx' else False)
        ex.prove(st, 'it is made ready through the scheduler of the running fiber', ex.ptr_eq(c.args[0], active(ex, st)))
        st.g['readied'] = st.g.get('readied', ()) + (c.args[1],)
        if ok: st.g['goneframe'] = True; gone(st, ex.PREV); gone(st, ex.rctx)
        return [Out('ret', st, None)]
    def frame(ex, st, p, ty, mod, val=None):
        if st.g.get('goneframe') and p.base.kind == 'stack' and p.base.birth < ex.birth: ex.prove(st, 'the frame of the suspended fiber is not touched once it may run again', False)
        return None
    def contracts(ex):
        stdlib(ex); ex.contract(SPIN + r'::unlock\(\)', unlock); spinlock_contracts(ex)
        ex.contract(r'ontop_fcontext', c_ontop); ex.contract(r'boost::fibers::context::active\(\)', lambda ex, st, c: Out('ret', st, active(ex, st)))
        ex.contract(r'boost::fibers::context::schedule\(.*', sched)
    for nm, kind in (('resume()', '0'), ('resume(%s)' % LK, 'lk'), ('resume(boost::fibers::context*)', 'ctx'), ('suspend_with_cc()', 'cc')):
        fn = '%s::%s' % (CTX, nm)
        def setup(ex, st, kind=kind):
            ex.kind = kind; ex.this = ex.symobj('this', CTX, True); ex.PREV = ex.symobj('prev', CTX, True); ex.F = ex.load1(st, ex.this.add(O.c_), PTR); st.assume(ex.F.bv() != 0)
            ex.store(st, Ptr(ex.globreg(ACT), 0), ex.PREV, 8)
            ex.store(st, ex.PREV.add(O.c_), NULL, 8)        # the running fiber has no suspension point
            ex.hooks_load += [gone_hook, frame]; ex.hooks_store += [gone_hook, frame]
            if kind == 'lk': ulk(ex, st); return [ex.this, ex.lk]
            if kind == 'ctx':
                ex.rctx = ex.PREV if not ex.second else ex.PREV; return [ex.this, ex.rctx]
            if kind == 'cc': ex.sret = ex.symobj('ret', 'fiber'); return [ex.sret, ex.this]
            return [ex.this]
        def post(ex, o, kind=kind, fn=fn):
            st = o.st; P = lambda n, c: ex.prove(st, n, c, fn)
            P('the call returns normally', z3.BoolVal(o.kind == 'ret'))
            P('the fiber was switched away exactly once', z3.BoolVal(bool(st.g.get('switched'))))
            P('no lock is left held', z3.BoolVal(len(held(st)) == 0))
            if kind == 'cc' and o.kind == 'ret': P('the fiber that resumed the finished one is handed on', ex.ptr_eq(ex.load1(st, ex.sret, PTR), ex.RF))
            ex.cover('done', st)
        us.append(Unit('context::' + {'0': 'resume', 'lk': 'resume(lk)', 'ctx': 'resume(ready_ctx)', 'cc': 'suspend_with_cc'}[kind], fn, setup, post, ('done',), contracts))

def units17(lay):
    us = []; O = offs(lay)
    u_schedule(lay, O, us); u_remote(lay, O, us); u_terminated(lay, O, us); u_switching(lay, O, us); u_dispatch(lay, O, us); u_resume(lay, O, us)
    return us

# ---------------------------------------------------------------------------------- C18
def u_sleep2ready(lay, O, us):
    fn = SCHED + '::sleep2ready_()'
    SQ = O.sleep_queue_
    def onc(ex, st, e):
        if e[0] == 'erase' and e[3] == 'sleep_hook_':
            x = e[2]
            ex.prove(st, 'timers expire earliest deadline first', z3.BoolVal(e[4]))
            ex.prove(st, 'a timer expires only when its deadline has passed', ex.load1(st, x.add(O.tp_), ('i', 64)) <= st.g['now'] if 'now' in st.g else False)
            ex.prove(st, 'a fiber whose timer expired is woken before the next timer is handled', z3.BoolVal(st.g.get('pending') is None))
            st.g['pending'] = x; st.g['pw'] = (ex.load1(st, x.add(O.sleep_waker_ + O.wctx), PTR), ex.load1(st, x.add(O.sleep_waker_ + O.wep), ('i', 64)))
        elif e[0] in ('destroy', 'clear'): ex.prove(st, 'no timer is dropped', e[4])
        else: ex.prove(st, 'no other queue is changed by a timer', False)
    def wake(ex, st, c):
        w = c.args[0]; p = st.g.get('pending')
        ex.prove(st, 'a fiber leaves the timer queue before it is woken', z3.BoolVal(p is not None))
        if p is not None:
            a, b = st.g['pw']
            ex.prove(st, 'the fiber whose timer expired is woken through the waker of that timed wait', z3.And(ex.ptr_eq(ex.load1(st, w.add(O.wctx), PTR), a), ex.load1(st, w.add(O.wep), ('i', 64)) == b))
            gone(st, p)
        st.g['pending'] = None; st.g['nwoken'] = min(2, st.g.get('nwoken', 0) + 1)
        r = fresh('woke', z3.BoolSort()); return [Out('ret', st, r)]
    def notp(ex, st, p, ty, mod, val=None):
        if p.base.cls == CTX and isint(p.off) and p.off == O.tp_:
            ok = st.g.get('pending') is not None and st.g['pending'].base is p.base
            ex.prove(st, 'the deadline of a fiber does not change while it is in the timer queue', z3.BoolVal(ok))
        return None
    def contracts(ex): base(O, lay)(ex); ex.contract(r'boost::fibers::waker::wake\(\) const', wake)
    def setup(ex, st):
        this_sched(ex, st, O); ex.on_container = onc; ex.hooks_load.append(gone_hook); ex.hooks_store += [gone_hook, notp]; return [ex.this]
    def post(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fn)
        P('the call returns normally', z3.BoolVal(o.kind == 'ret'))
        P('every fiber whose timer expired was woken', z3.BoolVal(st.g.get('pending') is None))
        q = seq_get(st, ex.this.add(SQ)); f = ex.sym(simp(z3.Select(q[2], q[0])), CTX)
        P('no expired timer is left', z3.Or(seq_empty(q), ex.load1(st, f.add(O.tp_), ('i', 64)) > st.g['firstnow']) if 'firstnow' in st.g else seq_empty(q))
        ex.cover('left' if ex.feasible(st, z3.Not(seq_empty(q))) else 'empty', st)
    us.append(Unit('scheduler::sleep2ready_', fn, setup, post, ('left', 'empty'), contracts))
    # the order of the timer queue
    fl = SCHED + '::timepoint_less::operator()(boost::fibers::context const&, boost::fibers::context const&) const'
    def setup_l(ex, st):
        ex.a = ex.symobj('a', CTX); ex.b = ex.symobj('b', CTX); ex.ta = ex.load1(st, ex.a.add(O.tp_), ('i', 64)); ex.tb = ex.load1(st, ex.b.add(O.tp_), ('i', 64)); return [ex.symobj('less', 'timepoint_less'), ex.a, ex.b]
    def post_l(ex, o): ex.prove(o.st, 'the timer queue is ordered by deadline', (o.val == (ex.ta < ex.tb)) if o.kind == 'ret' else False, fl)
    us.append(Unit('scheduler::timepoint_less', fl, setup_l, post_l, (), base(O, lay)))

def u_wait_until(lay, O, us):
    def create(ex, st, c):
        ep = freshbv('epoch'); st.g['cur'] = ep; ex.prove(st, 'the waker is created for the fiber that waits', ex.ptr_eq(c.args[-1], ex.ME)); st.g['ncreate'] = st.g.get('ncreate', 0) + 1
        ex.prove(st, 'the waker is created before the timer is set', z3.BoolVal(not st.g.get('inserted')))
        if len(c.args) == 2: ex.store(st, c.args[0].add(O.wctx), c.args[1], 8); ex.store(st, c.args[0].add(O.wep), ep, 8); return [Out('ret', st, None)]
        return [Out('ret', st, [c.args[0], ep])]
    def onc(ex, st, e):
        if e[0] == 'insert' and e[3] == 'sleep_hook_':
            ex.prove(st, 'the waiting fiber is put into the timer queue of its scheduler', z3.BoolVal(e[1].base is ex.this.base and isint(e[1].off) and e[1].off == O.sleep_queue_ and e[2].base is ex.ME.base))
            ex.prove(st, 'the deadline of the timer is the one that was asked for', ex.load1(st, ex.ME.add(O.tp_), ('i', 64)) == ex.tp)
            st.g['inserted'] = min(2, st.g.get('inserted', 0) + 1)
        else: ex.prove(st, 'no other queue is changed', False)
    def contracts(ex): base(O, lay)(ex); switch_contracts(ex, O, lay); ex.contract(r'boost::fibers::context::create_waker\(\)', create)
    for nm, lk in (('wait_until(boost::fibers::context*, %s)' % TP, False), ('wait_until(boost::fibers::context*, %s, %s, boost::fibers::waker&&)' % (TP, LK), True)):
        fn = '%s::%s' % (SCHED, nm)
        def setup(ex, st, lk=lk):
            this_sched(ex, st, O); ex.on_container = onc; set_linked(st, 'sleep_hook_', ex.ME, False)
            t = ex.symobj('sleep_tp', 'tp'); ex.tp = ex.load1(st, t, ('i', 64)); a = [ex.this, ex.ME, t]
            def sw(ex, st):
                ex.prove(st, 'the timer is set exactly once before the fiber is suspended', z3.BoolVal(st.g.get('inserted') == 1))
                ex.prove(st, 'the deadline of the timer is the one that was asked for', ex.load1(st, ex.ME.add(O.tp_), ('i', 64)) == ex.tp)
                cur = ex.wep if lk else st.g.get('cur')
                ex.prove(st, 'the timer wakes the fiber through the waker of this wait', z3.And(ex.ptr_eq(ex.load1(st, ex.ME.add(O.sleep_waker_ + O.wctx), PTR), ex.ME), ex.load1(st, ex.ME.add(O.sleep_waker_ + O.wep), ('i', 64)) == cur) if cur is not None else False)
                # the fiber ran on: it may have been changed by others
                st.mem = Ev('w', ex.ME.base, O.tp_, 8, freshbv('tp'), st.mem)
            ex.on_switch = sw
            if lk:
                ulk(ex, st); ex.w = ex.symobj('w', WK); ex.store(st, ex.w.add(O.wctx), ex.ME, 8); ex.wep = freshbv('wepoch'); ex.store(st, ex.w.add(O.wep), ex.wep, 8); a += [ex.lk, ex.w]
            return a
        def post(ex, o, lk=lk, fn=fn):
            st = o.st; P = lambda n, c: ex.prove(st, n, c, fn)
            P('the call returns normally', z3.BoolVal(o.kind == 'ret'))
            if o.kind != 'ret': return
            P('the fiber was suspended exactly once', z3.BoolVal(st.g.get('npick') == 1 and st.g.get('nresumed') == 1))
            P('a waiting fiber is not made ready', z3.BoolVal(not st.g.get('awk') and not st.g.get('readied')))
            if lk: P('the waker that was handed in is the only one of this wait', z3.BoolVal(not st.g.get('ncreate')))
            P('a wait reported as not timed out was resumed before its deadline', z3.Implies(o.val, st.g['firstnow'] < ex.tp) if 'firstnow' in st.g else False)
            P('a wait is reported as timed out only when its deadline has passed', z3.Implies(z3.Not(o.val), st.g['now'] >= ex.tp) if 'firstnow' in st.g else False)
            ex.cover('late', st) if ex.feasible(st, z3.Not(o.val)) else None
            ex.cover('early', st) if ex.feasible(st, o.val) else None
        us.append(Unit('scheduler::wait_until' + ('(lk, waker)' if lk else ''), fn, setup, post, ('late', 'early'), contracts))
    def rec(ex, st, c):
        log(st, ('wait_until', tuple(c.args))); r = fresh('r', z3.BoolSort()); st.g['r'] = r; return [Out('ret', st, r)]
    def contracts2(ex):
        setup_me(ex); stdlib(ex); ex.ptr_labels[(CTX, O.scheduler_)] = SCHED; ex.contract(r'boost::fibers::scheduler::wait_until\(.*', rec)
    for nm, lk in (('wait_until(%s)' % TP, False), ('wait_until(%s, %s, boost::fibers::waker&&)' % (TP, LK), True)):
        fn = '%s::%s' % (CTX, nm)
        def setup2(ex, st, lk=lk):
            ex.this = ex.symobj('this', CTX); st.assume(ex.ptr_eq(ex.this, ex.ME)); ex.sc = ex.load1(st, ex.this.add(O.scheduler_), PTR); st.assume(ex.sc.bv() != 0)
            t = ex.symobj('tp', 'tp'); ex.tp = ex.load1(st, t, ('i', 64)); a = [ex.this, t]
            if lk: ex.lk = ex.symobj('lk', 'unique_lock'); ex.w = ex.symobj('w', WK); ex.w0 = (ex.load1(st, ex.w.add(O.wctx), PTR), ex.load1(st, ex.w.add(O.wep), ('i', 64))); a += [ex.lk, ex.w]
            return a
        def post2(ex, o, lk=lk, fn=fn):
            st = o.st; l = [e for e in st.g.get('_log', ()) if e[0] == 'wait_until']
            ok = o.kind == 'ret' and len(l) == 1 and len(l[0][1]) == (5 if lk else 3)
            c = False
            if ok:
                a = l[0][1]; c = [ex.ptr_eq(a[0], ex.sc), ex.ptr_eq(a[1], ex.this), ex.load1(st, a[2], ('i', 64)) == ex.tp, o.val == st.g['r']]
                if lk: c += [ex.ptr_eq(a[3], ex.lk), ex.ptr_eq(ex.load1(st, a[4].add(O.wctx), PTR), ex.w0[0]), ex.load1(st, a[4].add(O.wep), ('i', 64)) == ex.w0[1]]
                c = z3.And(*c)
            ex.prove(st, 'the scheduler of the fiber waits with the same deadline, lock and waker, and its answer is returned', c, fn)
        us.append(Unit('context::wait_until' + ('(lk, waker)' if lk else ''), fn, setup2, post2, (), contracts2))

def units18(lay):
    us = []; O = offs(lay)
    u_sleep2ready(lay, O, us); u_wait_until(lay, O, us); timed.sleep_units(us); timed.mutex_units(us); timed.cond_units(us); u_schedule(lay, O, us); u_dispatch(lay, O, us, True)
    return us
