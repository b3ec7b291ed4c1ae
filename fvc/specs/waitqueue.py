"""C15, C16: wakers and wait queues."""
from ..lib import *
from ..core import _ctr, memfun
from ..containers import *
PROPS = ['C15', 'C16']
NS = 'boost::fibers::'
WQC = NS + 'wait_queue'; WWH = NS + 'waker_with_hook'; SCHED = NS + 'scheduler'
TP = 'std::chrono::time_point<std::chrono::_V2::steady_clock, std::chrono::duration<long, std::ratio<1l, 1000000000l>>> const&'
LK = 'std::unique_lock<boost::fibers::detail::spinlock_ttas>&'
def prop(pid):
    if pid == 'C15':
        return dict(srcs=['context.cpp', 'waker.cpp', 'scheduler.cpp'], units=units15,
                    trusted=['contract of scheduler::schedule/schedule_from_remote (proved separately as C17)', 'contract of context::active()'],
                    assumptions=['the 64 bit wake-up epoch does not wrap around', 'std::atomic read-modify-write operations are atomic (sequentially consistent interleaving)'])
    return dict(srcs=['waker.cpp', 'context.cpp'], units=units16,
                trusted=['contracts of boost::intrusive::slist (push_back/front/pop_front/remove/empty/swap) as an abstract sequence', 'contract of waker::wake (proved separately as C15)',
                         'contracts of context::suspend(lk) and context::wait_until(tp, lk, waker) (proved separately as C17/C18): they release lk only after the fiber is switched away and return only after a wake-up'],
                assumptions=['every caller of wait_queue holds the lock that protects it (proved for each caller as C03, C04, C07, C13)'])

# ---------------------------------------------------------------------------------- C16
def units16(lay):
    us = []
    SL = lay.off(WQC, 'slist_'); WC = lay.off(NS + 'waker', 'ctx_'); WE = lay.off(NS + 'waker', 'epoch_'); EP = lay.off(CTX, 'waker_epoch_')
    HK = lay.off(WWH, 'waker_queue_hook_')
    def base_contracts(ex):
        setup_me(ex); spinlock_contracts(ex); stdlib(ex); intrusive_contracts(ex, lay)
        ex.contract(r'boost::fibers::context::yield\(\)', c_yield)
        def protect(ex, st, p):
            if p.base is ex.this.base: ex.prove(st, 'the queue of waiters is accessed only under the lock that protects it', z3.BoolVal(any(b is ex.lockp.base for b, o, k in held(st))))
        ex.protect_fn = protect
        def lf(ex, st, x): ex.prove(st, 'whether a waiter is still queued is inspected only under the lock', z3.BoolVal(any(b is ex.lockp.base for b, o, k in held(st))))
        ex.linked_fn = lf
        def onc(ex, st, e):
            if e[0] == 'push':
                st.g['queued'] = st.g.get('queued', ()) + (e[2],)
                ex.prove(st, 'a waiter is appended at the end of the queue', z3.BoolVal(e[4] == 'back' and e[1].base is ex.this.base))
            elif e[0] == 'pop':
                ex.prove(st, 'waiters are dequeued from the front', z3.BoolVal(e[4] == 'front'))
                ex.prove(st, 'a dequeued waiter is woken before the next one is dequeued', z3.BoolVal(st.g.get('pending') is None))
                if ex.one: ex.prove(st, 'after one waiter was woken no further waiter is dequeued', z3.BoolVal(st.g.get('nwoken', 0) == 0))
                st.g['pending'] = e[2]
            elif e[0] == 'destroy': ex.prove(st, 'no waiter is left in a queue that ends', e[4])
            elif e[0] == 'clear': ex.prove(st, 'waiters are not dropped without being woken', e[4])
        ex.on_container = onc
    def ulk(ex, st):
        """std::unique_lock<spinlock> owning the protecting lock"""
        ex.lockp = ex.symobj('splk', 'spinlock'); ex.lk = ex.symobj('lk', 'unique_lock')
        ex.store(st, ex.lk, ex.lockp, 8); ex.store(st, ex.lk.add(8), bv(1, 8), 1)
        st.g['held'] = ((ex.lockp.base, 0, None),)
    def check_queued(ex, st, ctx, what):
        q = st.g.get('queued', ())
        ex.prove(st, 'exactly one waiter is queued before the fiber suspends', z3.BoolVal(len(q) == 1))
        ex.prove(st, 'the suspending fiber is the active one', ex.ptr_eq(ctx, ex.ME))
        ex.prove(st, 'the lock is still held when the fiber is suspended', z3.BoolVal(len(held(st)) == 1 and held(st)[0][0] is ex.lockp.base))
        if len(q) == 1:
            w = q[0]
            ex.prove(st, 'the queued waker belongs to the suspending fiber', ex.ptr_eq(ex.load1(st, w.add(WC), PTR), ex.ME))
            ex.prove(st, 'the queued waker is the one of the current suspension', ex.load1(st, w.add(WE), ('i', 64)) == ex.load1(st, ex.ME.add(EP), ('i', 64)))
            ex.prove(st, 'the queued waker was created by this call', z3.BoolVal(True) if st.g.get('created') else False)
            return w
    def rel(ex, st, lk):
        ex.prove(st, 'the lock handed to the scheduler is the one that was passed in', ex.ptr_eq(ex.load1(st, lk, PTR), ex.lockp))
        st.g['held'] = (); ex.store(st, lk.add(8), bv(0, 8), 1)
        seq_set(st, ex.this.add(SL), seq_fresh(st)); st.g['suspended'] = st.g.get('suspended', 0) + 1
    def c_suspend(ex, st, c):
        w = check_queued(ex, st, c.args[0], 'suspend'); rel(ex, st, c.args[1])
        # only a notifier wakes it, and it dequeues the waiter first (proved for notify_one/notify_all)
        if w is not None: set_linked(st, 'waker_queue_hook_', w, False)
        return [Out('ret', st, None)]
    def c_wait_until(ex, st, c):
        ctx, tp, lk, wk = c.args
        w = check_queued(ex, st, ctx, 'wait_until')
        ex.prove(st, 'the deadline is the caller\'s', ex.load1(st, tp, ('i', 64)) == ex.tp)
        ex.prove(st, 'the timer wakes the same suspension as the notifier', z3.And(ex.ptr_eq(ex.load1(st, wk.add(WC), PTR), ex.ME), ex.load1(st, wk.add(WE), ('i', 64)) == ex.load1(st, ex.ME.add(EP), ('i', 64))))
        rel(ex, st, lk)
        s2 = st.fork()
        if w is not None:
            set_linked(st, 'waker_queue_hook_', w, False)          # true: the deadline has not passed, so a notifier dequeued it
            s2.g.pop(('linked', 'waker_queue_hook_', w.base, w.off), None)
        s2.g['late'] = True
        return [Out('ret', st, z3.BoolVal(True)), Out('ret', s2, z3.BoolVal(False))]
    def h_epoch(ex, st, kind, p, ty, args, order, mod):
        """create_waker: ++waker_epoch_ (others may have changed the epoch before)"""
        if p.base is ex.ME.base and isint(p.off) and p.off == EP and kind == 'rmw:add':
            old = freshbv('epoch'); ex.store(st, p, simp(old + args[0]), 8); st.g['created'] = True
            ex.prove(st, 'the waker is created before the fiber is queued', z3.BoolVal(not st.g.get('queued')))
            return [Out('ret', st, old)]
        return None
    def mk(name, op, timed):
        fn = '%s::%s' % (WQC, op)
        def setup(ex, st):
            ex.one = False; ulk(ex, st); ex.this = ex.symobj('this', WQC)
            ex.hooks_atomic.append(h_epoch)
            ex.contract(r'boost::fibers::context::suspend\(std::unique_lock<.*', c_suspend); ex.contract(r'boost::fibers::context::wait_until\(.*unique_lock.*', c_wait_until)
            a = [ex.this, ex.lk, ex.ME]
            if timed: t = ex.symobj('timeout', 'tp'); ex.tp = ex.load1(st, t, ('i', 64)); a.append(t)
            return a
        def post(ex, o):
            st = o.st; P = lambda n, c: ex.prove(st, n, c, fn)
            P('the call returns normally', z3.BoolVal(o.kind == 'ret'))
            if o.kind != 'ret': return
            P('the fiber was suspended exactly once', z3.BoolVal(st.g.get('suspended', 0) == 1))
            P('the lock is not held on return', z3.BoolVal(len(held(st)) == 0))
            for w in st.g.get('queued', ()):
                l = linked(st, 'waker_queue_hook_', w)
                P('no queue refers to the waiter when the function returns', z3.BoolVal(l is False) if not isinstance(l, z3.ExprRef) else z3.Not(l))
                if timed and st.g.get('late'):
                    ex.cover('late', st)
                    rem = any(e[0] == 'remove' for e in st.g.get('_log', ()))
                    P('a notification that already dequeued the waiter is reported, and only that', o.val == z3.BoolVal(not rem))
            if timed and not st.g.get('late'): P('a wake-up before the deadline is reported as such', o.val); ex.cover('in time', st)
        us.append(Unit(name, fn, setup, post, ('late', 'in time') if timed else (), base_contracts))
    mk('wait_queue::suspend_and_wait', 'suspend_and_wait(%s, boost::fibers::context*)' % LK, False)
    mk('wait_queue::suspend_and_wait_until', 'suspend_and_wait_until(%s, boost::fibers::context*, %s)' % (LK, TP), True)
    def c_wake(ex, st, c):
        w = c.args[0]; p = st.g.get('pending')
        ex.prove(st, 'a waiter is taken from the queue before it is woken', z3.BoolVal(p is not None and w.base is p.base and w.off == p.off))
        st.g['pending'] = None; s2 = st.fork()
        st.g['nwoken'] = min(2, st.g.get('nwoken', 0) + 1)
        st.g[('dead', w.base)] = True
        return [Out('ret', st, z3.BoolVal(True)), Out('ret', s2, z3.BoolVal(False))]
    def dead_load(ex, st, p, ty, mod, val=None):
        if st.g.get(('dead', p.base)): ex.prove(st, 'a woken waiter is not touched any more', False)
        return None
    def notify(name, all_):
        fn = '%s::%s()' % (WQC, name)
        def setup(ex, st):
            ex.one = not all_; ulk(ex, st); ex.this = ex.symobj('this', WQC); ex.contract(r'boost::fibers::waker::wake\(\) const', c_wake)
            ex.hooks_load.append(dead_load); ex.hooks_store.append(dead_load)
            ex.s0 = seq_get(st, ex.this.add(SL))
            return [ex.this]
        def post(ex, o):
            st = o.st; P = lambda n, c: ex.prove(st, n, c, fn)
            P('the call returns normally', z3.BoolVal(o.kind == 'ret'))
            s = seq_get(st, ex.this.add(SL))
            P('every dequeued waiter was woken', z3.BoolVal(st.g.get('pending') is None))
            P('the lock stays held', z3.BoolVal(len(held(st)) == 1))
            n = st.g.get('nwoken', 0)
            if all_: P('no waiter is left in the queue', seq_empty(s)); ex.cover('some', st)
            else:
                P('exactly one waiter is woken, or none because the queue is exhausted', z3.BoolVal(n == 1) if n else seq_empty(s))
                P('the rest of the queue is untouched', z3.And(s[1] == ex.s0[1], s[2] == ex.s0[2]))
                ex.cover('woken' if n else 'none', st)
        us.append(Unit('wait_queue::' + name, fn, setup, post, () if all_ else ('woken', 'none'), base_contracts))
    notify('notify_one', False); notify('notify_all', True)
    fn = WQC + '::empty() const'
    def setup(ex, st): ex.one = False; ulk(ex, st); ex.this = ex.symobj('this', WQC); return [ex.this]
    def post(ex, o): ex.prove(o.st, 'empty() tells whether no waiter is queued', (o.val == seq_empty(seq_get(o.st, ex.this.add(SL)))) if o.kind == 'ret' else False, fn)
    us.append(Unit('wait_queue::empty', fn, setup, post, (), base_contracts))
    fe = NS + r'operator==(boost::fibers::waker const&, boost::fibers::waker const&)'
    def setup_eq(ex, st):
        ex.a = ex.symobj('a', 'waker'); ex.b = ex.symobj('b', 'waker'); return [ex.a, ex.b]
    def post_eq(ex, o): ex.prove(o.st, 'two queued waiters are equal only if they are the same object', o.val == ex.ptr_eq(ex.a, ex.b), fe)
    us.append(Unit('waker operator==', fe, setup_eq, post_eq, (), base_contracts))
    return us

# ---------------------------------------------------------------------------------- C15
def units15(lay):
    us = []
    EP = lay.off(CTX, 'waker_epoch_'); SC = lay.off(CTX, 'scheduler_'); WC = lay.off(NS + 'waker', 'ctx_'); WE = lay.off(NS + 'waker', 'epoch_')
    def rmw(ex, st, p, new):
        """one atomic step on the epoch: guarantee checks against the value just before the step"""
        old = freshbv('epoch'); st.assume(z3.UGE(old, st.g['ep'])); st.assume(z3.ULT(old, bv(1 << 63)))
        st.g['ep'] = old
        return old
    def h(ex, st, kind, p, ty, args, order, mod):
        if not (p.base is ex.this.base and isint(p.off) and p.off == EP): return None
        old = rmw(ex, st, p, None)
        if kind == 'load': return [Out('ret', st, old)]
        if kind.startswith('rmw:') or kind == 'store':
            new = args[0] if kind in ('store', 'rmw:xchg') else ex.rmw_new(kind[4:], old, args[0], ty)
            ex.prove(st, 'the epoch only ever grows, in one atomic step', z3.UGT(new, old) if kind != 'store' else False)
            st.g['steps'] = st.g.get('steps', ()) + ((kind, old, new),); st.g['ep'] = simp(new)
            return [Out('ret', st, old if kind != 'store' else None)]
        if kind == 'cas':
            c, n, weak = args; outs = []
            for s, eq in ex.split2(st, old == c):
                if eq:
                    if weak: outs.append(Out('ret', s.fork(), [old, z3.BoolVal(False)]))
                    ex.prove(s, 'the epoch only ever grows, in one atomic step', z3.UGT(n, old))
                    s.g['steps'] = s.g.get('steps', ()) + (('cas', old, n),); s.g['ep'] = simp(n)
                    outs.append(Out('ret', s, [old, z3.BoolVal(True)]))
                else: outs.append(Out('ret', s, [old, z3.BoolVal(False)]))
            return outs
    def schedc(kind):
        def f(ex, st, c):
            st.g['sched'] = st.g.get('sched', ()) + ((kind, c.args[0], c.args[1], len(st.g.get('steps', ()))),); return [Out('ret', st, None)]
        return f
    def contracts(ex):
        setup_me(ex); stdlib(ex)
        ex.ptr_labels[(CTX, SC)] = SCHED
        ex.contract(r'boost::fibers::scheduler::schedule\(.*\)', schedc('local')); ex.contract(r'boost::fibers::scheduler::schedule_from_remote\(.*\)', schedc('remote'))
    def nowrite(ex, st, p, ty, mod, val=None):
        if p.base is ex.this.base and isint(p.off) and p.off == EP: ex.prove(st, 'the epoch is changed only atomically', False)
        return None
    fn = CTX + '::wake(unsigned long)'
    def setup(ex, st):
        ex.this = ex.symobj('this', CTX); ex.hooks_atomic.append(h); ex.hooks_store.append(nowrite); ex.ep = freshbv('epoch_arg'); st.g['ep'] = freshbv('ep0')
        st.assume(z3.ULT(ex.ep, bv(1 << 63)))
        return [ex.this, ex.ep]
    def post(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fn)
        P('wake returns normally', z3.BoolVal(o.kind == 'ret'))
        if o.kind != 'ret': return
        sc = st.g.get('sched', ()); steps = st.g.get('steps', ())
        P('the fiber is scheduled at most once', z3.BoolVal(len(sc) <= 1))
        P('a wake-up changes the epoch at most once', z3.BoolVal(len(steps) <= 1))
        r = o.val
        P('the wake-up succeeds exactly when it schedules the fiber', r == z3.BoolVal(len(sc) == 1))
        P('a wake-up that fails has no effect', z3.Or(r, z3.BoolVal(not steps)))
        if sc:
            ex.cover('success', st); k, s, x, nst = sc[0]; ex.cover(k, st)
            P('the wake-up consumes the epoch of this waker before the fiber is scheduled', z3.And(z3.BoolVal(nst == 1), steps[0][1] == ex.ep) if nst == 1 else False)
            P('the woken fiber is scheduled', ex.ptr_eq(x, ex.this))
            mine = ex.load1(st, ex.this.add(SC), PTR); act = ex.load1(st, ex.ME.add(SC), PTR)
            P('the fiber is scheduled on its own scheduler', ex.ptr_eq(s, mine))
            P('a fiber of another thread is scheduled remotely, one of this thread locally', z3.BoolVal(k == 'local') == ex.ptr_eq(mine, act))
        else:
            ex.cover('failure', st)
            P('a wake-up fails only for an outdated waker', st.g['ep'] != ex.ep)
    us.append(Unit('context::wake', fn, setup, post, ('success', 'failure', 'local', 'remote'), contracts))
    # create_waker (inlined into its callers): verified through wait_queue::suspend_and_wait's call
    fc = CTX + '::create_waker()'
    def setup_c(ex, st):
        ex.this = ex.symobj('this', CTX); ex.hooks_atomic.append(h); ex.hooks_store.append(nowrite); st.g['ep'] = freshbv('ep0'); ex.ep0 = st.g['ep']
        return [ex.this]
    def post_c(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fc)
        P('create_waker returns normally', z3.BoolVal(o.kind == 'ret'))
        if o.kind != 'ret': return
        ctx, ep = o.val; steps = st.g.get('steps', ())
        P('a new waker belongs to this fiber', ex.ptr_eq(ctx, ex.this))
        P('creating a waker advances the epoch', z3.BoolVal(len(steps) == 1))
        P('a new waker differs from every waker created before and is the only current one', z3.And(ep == st.g['ep'], z3.UGT(ep, steps[0][1])) if len(steps) == 1 else False)
    us.append(Unit('context::create_waker', fc, setup_c, post_c, (), contracts))
    fw = NS + 'waker::wake() const'
    def setup_w(ex, st):
        ex.this = ex.symobj('this', NS + 'waker'); ex.ctx = ex.load1(st, ex.this.add(WC), PTR); ex.ep = ex.load1(st, ex.this.add(WE), ('i', 64)); st.assume(ex.ctx.bv() != 0)
        def cw(ex, st, c):
            st.g['wakes'] = st.g.get('wakes', ()) + (c.args,); r = fresh('woke', z3.BoolSort()); st.g['woke'] = r; return [Out('ret', st, r)]
        ex.contract(r'boost::fibers::context::wake\(unsigned long\)', cw)
        return [ex.this]
    def post_w(ex, o):
        st = o.st; w = st.g.get('wakes', ())
        ex.prove(st, 'waker::wake wakes exactly its own suspension, once', z3.And(ex.ptr_eq(w[0][0], ex.ctx), w[0][1] == ex.ep) if len(w) == 1 else False, fw)
        if len(w) == 1 and o.kind == 'ret': ex.prove(st, 'waker::wake reports whether it was the successful one', o.val == st.g['woke'], fw)
        else: ex.prove(st, 'waker::wake returns normally', False, fw)
    us.append(Unit('waker::wake', fw, setup_w, post_w, (), contracts))
    return us
