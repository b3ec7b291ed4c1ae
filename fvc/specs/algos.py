"""C20, C21, C22: scheduling algorithms."""
from ..lib import *
from ..core import _ctr, memfun
from ..containers import *
PROPS = ['C20', 'C21', 'C22']
NS = 'boost::fibers::'
A = NS + 'algo::'
RR = A + 'round_robin'; SW = A + 'shared_work'; WS = A + 'work_stealing'; NWS = NS + 'numa::algo::work_stealing'
CSQ = NS + 'detail::context_spinlock_queue'; SCHED = NS + 'scheduler'
TP = 'std::chrono::time_point<std::chrono::_V2::steady_clock, std::chrono::duration<long, std::ratio<1l, 1000000000l>>> const&'
TMAX = (1 << 63) - 1
PINNED = 6      # main_context | dispatcher_context

def prop(pid):
    T = ['contracts of std::mutex, std::condition_variable (wait may return spuriously; wait_until reports timeout only at the deadline)', 'contract of boost::intrusive::list as an abstract sequence']
    if pid == 'C20':
        return dict(srcs=['algo/round_robin.cpp'], units=units20, trusted=T, assumptions=['the ready queue of round_robin is used only by its own thread (scheduler contract, C17)', 'clock values stay below 2^62 ns'])
    if pid == 'C21':
        return dict(srcs=['algo/shared_work.cpp', 'context.cpp', 'scheduler.cpp'], units=units21, trusted=T + ['contract of std::deque as an abstract sequence'], assumptions=['the local queue is used only by its own thread', 'a fiber in the shared queue is referenced by nobody else (it was detached before it was published: proved for awakened)'])
    return dict(srcs=['algo/work_stealing.cpp', 'numa/algo/work_stealing.cpp', 'numa/linux/pin_thread.cpp', 'context.cpp', 'scheduler.cpp'], units=units22, trusted=T + ['contract of detail::spinlock (C23)', 'contracts of std::vector::operator[]/size and of the random number generators (any value in range)', 'contracts of std::call_once, of the guards of static variables, of std::vector and std::set as far as the constructors use them; pthread_setaffinity_np and pthread_self as documented'],
                assumptions=['only the default spinlock based queue; the lock-free deque is C27', 'capacity of a ready queue stays below 2^40', 'users create at most thread_count work_stealing objects, all with the same thread_count; every NUMA node has a cpu, every cpu is in one node and has an id below 2^31 (what topology() yields)'])

# ---------------------------------------------------------------------------------- notify / suspend_until
def suspend_units(lay, us, cls, short, has_flag_gate):
    f = finfo(lay, cls, 'flag_'); CND = lay.off(cls, 'cnd_')
    gate = lay.off(cls, 'suspend_') if has_flag_gate else None
    def entry(ex, st):
        if gate is None: ex.on = z3.BoolVal(True); return
        g = ex.load1(st, ex.this.add(gate), ('i', 8)); st.assume(z3.ULE(g, bv(1, 8))); ex.on = g == 1
    def block(ex, st, a, v, q):
        kind, cv, limit = q
        l = [('the thread goes to sleep only while no notification is pending', z3.And(v.flag_ == 0, a.flag_ == 0)),
             ('the thread sleeps on the condition variable notify() signals', ex.ptr_eq(cv, ex.this.add(CND)))]
        if limit is not None: l.append(('the thread sleeps no longer than until the given time point', limit <= ex.tp))
        else: l.append(('the thread sleeps without limit only if no time point is given', ex.tp == bv(TMAX)))
        return l
    def guar(ex, st, a, n, evs):
        l = []
        if any(e[0] == 'cvwait' for e in evs): l.append(('a notification is not dropped before sleeping', n.flag_ == a.flag_))
        if ex.op == 'notify': l.append(('notify only sets the flag', z3.Implies(n.flag_ != a.flag_, n.flag_ == 1)))
        return l
    def mon(ex):
        m = Monitor('mtx_', cls, lay.off(cls, 'mtx_'), f, inv=lambda ex, v: z3.ULE(v.flag_, bv(1, 8)), guar=guar, block=block, bases={ex.this.base})
        def onrel(ex, st, base, a, n, evs, how):
            st.g['setflag'] = ex.proved(st, n.flag_ == 1) if ex.op == 'notify' else st.g.get('setflag')
            if ex.op == 'notify': st.g['owed'] = bool(ex.feasible(st, n.flag_ != 0)) and not any(e[0] == 'cvnotify' for e in evs)
            if any(e[0] == 'cvnotify' for e in evs): st.g['cvn'] = True
        m.on_release = onrel
        use_monitors(ex, m)
        def onn(ex, st, cv):
            if st.g.get('setflag') and ex.proved(st, ex.ptr_eq(cv, ex.this.add(CND))): st.g['owed'] = False; st.g['cvn'] = True
        ex.on_cvnotify = onn
        ex.m = m
    def contracts(ex): setup_me(ex); stdlib(ex); std_mutex_contracts(ex)
    fn = '%s::suspend_until(%s)' % (cls, TP)
    def setup(ex, st):
        ex.op = 'suspend'; ex.this = ex.symobj('this', cls); mon(ex); entry(ex, st)
        t = ex.symobj('time_point', 'tp'); ex.tp = ex.load1(st, t, ('i', 64)); st.assume(ex.tp >= 0)
        return [ex.this, t]
    def post(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fn)
        P('suspend_until returns normally', z3.BoolVal(o.kind == 'ret'))
        if o.kind != 'ret': return
        P('no lock is left held', z3.BoolVal(len(held(st)) == 0))
        on = ex.on
        rel = st.g.get(('lastrel', 'mtx_', ex.this.base))
        if rel is None:
            P('without suspension the call returns at once', z3.Not(on)); return
        a = viewtup(ex.m, ex.this.base, st.g[('lastacq', 'mtx_', ex.this.base)]); n = viewtup(ex.m, ex.this.base, rel)
        P('the thread wakes only because of a notification or at the time point', z3.Or(a.flag_ == 1, z3.BoolVal(bool(st.g.get('timedout')))) if st.g.get('cvwaits') else z3.BoolVal(True))
        P('a notification that has ended the sleep is consumed', n.flag_ == 0)
        ex.cover('returns', st)
        if st.g.get('timedout'): ex.cover('timeout', st)
    us.append(Unit(short + '::suspend_until', fn, setup, post, ('returns', 'timeout'), contracts))
    fnn = cls + '::notify()'
    def setup_n(ex, st): ex.op = 'notify'; ex.this = ex.symobj('this', cls); mon(ex); entry(ex, st); return [ex.this]
    def post_n(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fnn)
        P('notify returns normally', z3.BoolVal(o.kind == 'ret'))
        if o.kind != 'ret': return
        P('no lock is left held', z3.BoolVal(len(held(st)) == 0))
        on = ex.on
        rel = st.g.get(('lastrel', 'mtx_', ex.this.base))
        if rel is None: P('notify leaves a notification for a thread that may sleep', z3.Not(on)); return
        n = viewtup(ex.m, ex.this.base, rel)
        P('notify leaves a notification', z3.Implies(on, n.flag_ == 1))
        P('a sleeping thread is woken after the notification was left', z3.Implies(on, z3.BoolVal(bool(st.g.get('cvn')) and not st.g.get('owed'))))
        ex.cover('notified', st)
    us.append(Unit(short + '::notify', fnn, setup_n, post_n, ('notified',), contracts))
    # the constructor leaves no notification pending and the ready queue empty: member initialisers
    return us

# ---------------------------------------------------------------------------------- C20
def rr_contracts(lay):
    def contracts(ex):
        setup_me(ex); stdlib(ex); std_mutex_contracts(ex); intrusive_contracts(ex, lay)
        ex.contract(r'boost::context::detail::prefetch_range\(.*\)', c_void)
    return contracts
def units20(lay):
    us = []; RQ = lay.off(RR, 'rqueue_')
    suspend_units(lay, us, RR, 'round_robin', False)
    C = rr_contracts(lay)
    fa = RR + '::awakened(boost::fibers::context*)'
    def s_a(ex, st):
        ex.this = ex.symobj('this', RR); ex.ctx = ex.symobj('ctx', CTX); set_linked(st, 'ready_hook_', ex.ctx, False); ex.s0 = seq_get(st, ex.this.add(RQ)); return [ex.this, ex.ctx]
    def p_a(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fa); s0 = ex.s0; s = seq_get(st, ex.this.add(RQ))
        P('awakened returns normally', z3.BoolVal(o.kind == 'ret'))
        P('the fiber is appended exactly once at the end of the ready queue', z3.And(s[0] == s0[0], s[1] == s0[1] + 1, s[2] == z3.Store(s0[2], s0[1], ex.ctx.bv())))
        P('the fiber is marked as being in the ready queue', z3.BoolVal(linked(st, 'ready_hook_', ex.ctx) is True))
    us.append(Unit('round_robin::awakened', fa, s_a, p_a, (), C))
    fp = RR + '::pick_next()'
    def s_p(ex, st): ex.this = ex.symobj('this', RR); ex.s0 = seq_get(st, ex.this.add(RQ)); return [ex.this]
    def p_p(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fp); s0 = ex.s0; s = seq_get(st, ex.this.add(RQ))
        P('pick_next returns normally', z3.BoolVal(o.kind == 'ret'))
        if o.kind != 'ret': return
        e = seq_empty(s0); r = o.val.bv()
        P('no fiber is returned exactly when the ready queue is empty', (r == 0) == e)
        P('the fiber returned is the one that has been ready the longest', z3.Implies(z3.Not(e), r == z3.Select(s0[2], s0[0])))
        P('exactly the returned fiber leaves the ready queue', z3.And(s[1] == s0[1], s[2] == s0[2], s[0] == z3.If(e, s0[0], s0[0] + 1)))
        ex.cover('some', st) if ex.feasible(st, z3.Not(e)) else ex.cover('none', st)
    us.append(Unit('round_robin::pick_next', fp, s_p, p_p, ('some', 'none'), C))
    fh = RR + '::has_ready_fibers() const'
    def p_h(ex, o):
        st = o.st; s0 = ex.s0; s = seq_get(st, ex.this.add(RQ))
        ex.prove(st, 'has_ready_fibers tells whether the ready queue is not empty', o.val == z3.Not(seq_empty(s0)) if o.kind == 'ret' else False, fh)
        ex.prove(st, 'has_ready_fibers changes nothing', z3.And(s[0] == s0[0], s[1] == s0[1], s[2] == s0[2]), fh)
    us.append(Unit('round_robin::has_ready_fibers', fh, s_p, p_h, (), C))
    return us

# ---------------------------------------------------------------------------------- attach / detach
def attach_units(lay, us):
    SC = lay.off(CTX, 'scheduler_'); WQ = lay.off(SCHED, 'worker_queue_')
    def contracts(ex):
        setup_me(ex); stdlib(ex); intrusive_contracts(ex, lay); ex.ptr_labels[(CTX, SC)] = SCHED
    for nm, att in (('attach_worker_context', True), ('detach_worker_context', False)):
        fn = '%s::%s(boost::fibers::context*)' % (SCHED, nm)
        def setup(ex, st, att=att):
            ex.this = ex.symobj('this', SCHED); ex.ctx = ex.symobj('ctx', CTX); ex.s0 = seq_get(st, ex.this.add(WQ))
            set_linked(st, 'worker_hook_', ex.ctx, not att)
            return [ex.this, ex.ctx]
        def post(ex, o, att=att, fn=fn):
            st = o.st; P = lambda n, c: ex.prove(st, n, c, fn); s = seq_get(st, ex.this.add(WQ))
            P('the call returns normally', z3.BoolVal(o.kind == 'ret'))
            sc = ex.load1(st, ex.ctx.add(SC), PTR)
            P('the fiber belongs to %s afterwards' % ('this scheduler' if att else 'no scheduler'), ex.ptr_eq(sc, ex.this) if att else sc.bv() == 0)
            l = linked(st, 'worker_hook_', ex.ctx)
            P('the fiber is %s the worker list' % ('in' if att else 'removed from'), z3.BoolVal(l is att))
        us.append(Unit('scheduler::' + nm, fn, setup, post, (), contracts))
    def rec(nm):
        def f(ex, st, c): log(st, (nm, c.args[0], c.args[1])); return [Out('ret', st, None)]
        return f
    for nm, att in (('attach(boost::fibers::context*)', True), ('detach()', False)):
        fn = '%s::%s' % (CTX, nm)
        def contracts2(ex):
            setup_me(ex); stdlib(ex); ex.ptr_labels[(CTX, SC)] = SCHED
            ex.contract(r'boost::fibers::scheduler::attach_worker_context\(.*', rec('attach')); ex.contract(r'boost::fibers::scheduler::detach_worker_context\(.*', rec('detach'))
        def setup2(ex, st, att=att):
            ex.this = ex.symobj('this', CTX); ex.ctx = ex.symobj('ctx', CTX) if att else ex.this; ex.sc = ex.load1(st, ex.this.add(SC), PTR); st.assume(ex.sc.bv() != 0)
            return [ex.this, ex.ctx] if att else [ex.this]
        def post2(ex, o, att=att, fn=fn):
            st = o.st; l = [e for e in st.g.get('_log', ()) if e[0] in ('attach', 'detach')]
            ok = o.kind == 'ret' and len(l) == 1 and l[0][0] == ('attach' if att else 'detach')
            ex.prove(st, 'the fiber is %s the scheduler of %s exactly once' % (('attached to', 'the calling fiber') if att else ('detached from', 'its own')), z3.And(ex.ptr_eq(l[0][1], ex.sc), ex.ptr_eq(l[0][2], ex.ctx)) if ok else False, fn)
        us.append(Unit('context::' + nm.split('(')[0], fn, setup2, post2, (), contracts2))

def attach_contracts(ex, lay):
    """ghost: att(ctx) in {None, 'att', 'det'}"""
    def det(ex, st, c):
        x = c.args[0]
        ex.prove(st, 'a pinned fiber is never detached from its thread', (ex.load1(st, x.add(lay.off(CTX, 'type_')), ('i', 32)) & PINNED) == 0)
        ex.prove(st, 'a fiber that already left its thread is not touched', z3.BoolVal(not st.g.get(('gone', x.base))))
        log(st, ('detach', x)); return [Out('ret', st, None)]
    def att(ex, st, c):
        ex.prove(st, 'a fiber is attached by the active fiber of the running thread', ex.ptr_eq(c.args[0], ex.ME))
        ex.prove(st, 'a pinned fiber is never attached to another thread', (ex.load1(st, c.args[1].add(lay.off(CTX, 'type_')), ('i', 32)) & PINNED) == 0)
        log(st, ('attach', c.args[1])); return [Out('ret', st, None)]
    ex.contract(r'boost::fibers::context::detach\(\)', det); ex.contract(r'boost::fibers::context::attach\(.*\)', att)
def gone_hook(ex, st, p, ty, mod, val=None):
    if st.g.get(('gone', p.base)): ex.prove(st, 'a fiber is not touched any more once other threads can take it', False)
    return None
def pinned(ex, st, lay, x): return (ex.load1(st, x.add(lay.off(CTX, 'type_')), ('i', 32)) & PINNED) != 0

# ---------------------------------------------------------------------------------- C21
def deque_contracts(ex, guardfn):
    D = r'std::deque<boost::fibers::context\*, .*>::'
    def w(f):
        def g(ex, st, c):
            guardfn(ex, st, c.args[0]); return f(ex, st, c)
        return g
    def pushb(where):
        def f(ex, st, c):
            p = c.args[0]; v = ex.load1(st, c.args[1], PTR) ; s = seq_get(st, p)
            if where == 'back': seq_set(st, p, (s[0], simp(s[1] + 1), z3.Store(s[2], s[1], v.bv())))
            else: seq_set(st, p, (simp(s[0] - 1), s[1], z3.Store(s[2], s[0] - 1, v.bv())))
            log(st, ('push', p, v, where)); st.g[('pub', v.base)] = True
            if where == 'back' or True:
                r = [Out('ret', st, None)]
                return r
        return f
    def front(which):
        def f(ex, st, c):
            p = c.args[0]; s = seq_get(st, p)
            ex.prove(st, 'only a non-empty queue is read', z3.Not(seq_empty(s))); st.assume(z3.Not(seq_empty(s)))
            # reference to the element: a cell holding it
            r = ex.newregion('stack', 'dequeref', 8); q = Ptr(r, 0)
            e = ex.sym(simp(z3.Select(s[2], s[0] if which == 'front' else s[1] - 1)), CTX); st.assume(e.bv() != 0)
            ex.store(st, q, e, 8)
            return [Out('ret', st, q)]
        return f
    def pop(which):
        def f(ex, st, c):
            p = c.args[0]; s = seq_get(st, p)
            ex.prove(st, 'only a non-empty queue is popped', z3.Not(seq_empty(s))); st.assume(z3.Not(seq_empty(s)))
            seq_set(st, p, (simp(s[0] + 1), s[1], s[2]) if which == 'front' else (s[0], simp(s[1] - 1), s[2]))
            log(st, ('pop', p, which)); return [Out('ret', st, None)]
        return f
    C = ex.contract
    C(D + r'empty\(\) const', w(lambda ex, st, c: Out('ret', st, simp(seq_empty(seq_get(st, c.args[0]))))))
    C(D + r'size\(\) const', w(lambda ex, st, c: Out('ret', st, simp(seq_len(seq_get(st, c.args[0]))))))
    C(D + r'push_back\(.*\)', w(pushb('back'))); C(D + r'push_front\(.*\)', w(pushb('front')))
    C(r'(boost::fibers::context\*& )?' + D + r'emplace_back<.*', w(pushb('back')))
    C(D + r'front\(\)( const)?', w(front('front'))); C(D + r'back\(\)( const)?', w(front('back')))
    C(D + r'pop_front\(\)', w(pop('front'))); C(D + r'pop_back\(\)', w(pop('back')))

def units21(lay):
    us = []; LQ = lay.off(SW, 'lqueue_')
    suspend_units(lay, us, SW, 'shared_work', True)
    attach_units(lay, us)
    def contracts(ex):
        setup_me(ex); stdlib(ex); std_mutex_contracts(ex); intrusive_contracts(ex, lay)
        ex.contract(r'boost::context::detail::prefetch_range\(.*\)', c_void)
        attach_contracts(ex, lay)
        ex.hooks_load.append(gone_hook); ex.hooks_store.append(gone_hook)
    def env(ex, st):
        ex.this = ex.symobj('this', SW)
        mt = [n for n in ex.prog.glob if 'shared_work' in n and 'rqueue_mtx_' in n]; rq = [n for n in ex.prog.glob if 'shared_work' in n and 'rqueue_' in n and 'mtx' not in n and 'rqueue_E' in n]
        if len(mt) != 1 or len(rq) != 1: raise ToolError('shared queue not found')
        ex.MT = ex.globreg(mt[0]); ex.RQ = Ptr(ex.globreg(rq[0]), 0)
        m = Monitor('rqueue_mtx_', None, 0, {}, bases={ex.MT}, labels={})
        def onacq(ex, st, base):
            seq_set(st, ex.RQ, seq_fresh(st, 'shared')); st.g['sq0'] = seq_get(st, ex.RQ); st.g['sqn'] = min(2, st.g.get('sqn', 0) + 1)
            st.g[('cslog')] = len(st.g.get('_log', ()))
        def onrel(ex, st, base, a, n, evs, how):
            s0 = st.g['sq0']; s = seq_get(st, ex.RQ); l = [e for e in st.g.get('_log', ())[st.g['cslog']:] if e[0] in ('push', 'pop') and e[1].base is ex.RQ.base]
            ex.prove(st, 'in one critical section the shared queue is left alone, extended at the end, or loses its first fiber', z3.BoolVal([(e[0], e[-1]) for e in l] in ([], [('push', 'back')], [('pop', 'front')])))
            for e in l:
                if e[0] == 'push': st.g[('gone', e[2].base)] = True; st.g['pushed'] = st.g.get('pushed', ()) + (e[2],)
                else: st.g['popped'] = st.g.get('popped', ()) + (simp(z3.Select(s0[2], s0[0])),)
            st.g['sqempty'] = simp(seq_empty(s0))
        m.on_acquire = onacq; m.on_release = onrel
        use_monitors(ex, m)
        def g(ex, st, p):
            if p.base is ex.RQ.base: ex.prove(st, 'the shared queue is accessed only under its mutex', z3.BoolVal(is_held(st, m, ex.MT)))
        deque_contracts(ex, g)
        ex.l0 = seq_get(st, ex.this.add(LQ))
    fa = SW + '::awakened(boost::fibers::context*)'
    def s_a(ex, st):
        env(ex, st); ex.ctx = ex.symobj('ctx', CTX); set_linked(st, 'ready_hook_', ex.ctx, False); ex.pin = pinned(ex, st, lay, ex.ctx); return [ex.this, ex.ctx]
    def p_a(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fa); l = seq_get(st, ex.this.add(LQ)); l0 = ex.l0
        P('awakened returns normally', z3.BoolVal(o.kind == 'ret'))
        if o.kind != 'ret': return
        pub = st.g.get('pushed', ()); lg = [e for e in st.g.get('_log', ()) if e[0] in ('detach', 'push')]
        loc = z3.And(l[0] == l0[0], l[1] == l0[1] + 1, l[2] == z3.Store(l0[2], l0[1], ex.ctx.bv())); same = z3.And(l[0] == l0[0], l[1] == l0[1], l[2] == l0[2])
        P('no lock is left held', z3.BoolVal(len(held(st)) == 0))
        P('a pinned fiber goes to the end of the local queue and nowhere else', z3.Implies(ex.pin, z3.And(loc, z3.BoolVal(not pub))))
        one = z3.And(ex.ptr_eq(pub[0], ex.ctx), same) if len(pub) == 1 else z3.BoolVal(False)
        P('a worker fiber goes exactly once to the shared queue and nowhere else', z3.Implies(z3.Not(ex.pin), one))
        dets = [i for i, e in enumerate(lg) if e[0] == 'detach']; ps = [i for i, e in enumerate(lg) if e[0] == 'push' and e[1].base is ex.RQ.base]
        P('a worker fiber has left its thread before it can be taken by another', z3.Implies(z3.Not(ex.pin), z3.BoolVal(len(dets) == 1 and len(ps) == 1 and dets[0] < ps[0])))
        P('a pinned fiber stays attached', z3.Implies(ex.pin, z3.BoolVal(not dets)))
        ex.cover('shared' if pub else 'local', st)
    us.append(Unit('shared_work::awakened', fa, s_a, p_a, ('shared', 'local'), contracts))
    fp = SW + '::pick_next()'
    def s_p(ex, st):
        env(ex, st)
        # representation invariant of the shared queue: worker fibers only (established by awakened)
        o = ex.monitors[0].on_acquire
        def onacq(ex, st, base):
            o(ex, st, base); s = seq_get(st, ex.RQ); e = ex.sym(simp(z3.Select(s[2], s[0])), CTX)
            st.assume(z3.Implies(z3.Not(seq_empty(s)), z3.And(e.bv() != 0, (ex.load1(st, e.add(lay.off(CTX, 'type_')), ('i', 32)) & PINNED) == 0)))
        ex.monitors[0].on_acquire = onacq
        return [ex.this]
    def p_p(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fp); l = seq_get(st, ex.this.add(LQ)); l0 = ex.l0
        P('pick_next returns normally', z3.BoolVal(o.kind == 'ret'))
        if o.kind != 'ret': return
        P('no lock is left held', z3.BoolVal(len(held(st)) == 0))
        r = o.val.bv(); pop = st.g.get('popped', ()); att = [e[1] for e in st.g.get('_log', ()) if e[0] == 'attach']
        same = z3.And(l[0] == l0[0], l[1] == l0[1], l[2] == l0[2]); lp = z3.And(l[0] == l0[0] + 1, l[1] == l0[1], l[2] == l0[2], z3.Not(seq_empty(l0)), r == z3.Select(l0[2], l0[0]))
        P('at most one fiber is taken from the queues', z3.BoolVal(len(pop) <= 1))
        if pop:
            ex.cover('shared', st)
            P('the fiber taken from the shared queue is the one returned', z3.And(same, r == pop[0]))
            P('the fiber taken from the shared queue is attached to this thread exactly once', z3.And(z3.BoolVal(len(att) == 1), att[0].bv() == pop[0]) if att else False)
        else:
            P('a fiber of this thread is returned, or none if both queues are empty', z3.Or(lp, z3.And(r == 0, same, seq_empty(l0), st.g.get('sqempty', z3.BoolVal(False)))))
            P('a fiber of the local queue is not attached again', z3.BoolVal(not att))
            for c, e in (('local', r != 0), ('none', r == 0)):
                if ex.feasible(st, e): ex.cover(c, st)
    us.append(Unit('shared_work::pick_next', fp, s_p, p_p, ('shared', 'local', 'none'), contracts))
    fh = SW + '::has_ready_fibers() const'
    def s_h(ex, st): env(ex, st); return [ex.this]
    def p_h(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fh); l = seq_get(st, ex.this.add(LQ)); l0 = ex.l0
        P('has_ready_fibers returns normally', z3.BoolVal(o.kind == 'ret'))
        if o.kind != 'ret': return
        P('no lock is left held', z3.BoolVal(len(held(st)) == 0))
        sqe = st.g.get('sqempty', None)
        P('has_ready_fibers is true whenever a queue is not empty', z3.Implies(z3.Not(o.val), z3.And(seq_empty(l0), sqe if sqe is not None else z3.BoolVal(False))))
        P('has_ready_fibers is false when both queues are empty', z3.Implies(o.val, z3.Or(z3.Not(seq_empty(l0)), z3.Not(sqe) if sqe is not None else z3.BoolVal(False))))
        P('has_ready_fibers changes nothing', z3.And(l[0] == l0[0], l[1] == l0[1], l[2] == l0[2], z3.BoolVal(not st.g.get('popped') and not st.g.get('pushed'))))
    us.append(Unit('shared_work::has_ready_fibers', fh, s_h, p_h, (), contracts))
    return us

# ---------------------------------------------------------------------------------- C22
def units22(lay):
    us = []
    from .wsinit import reg_units
    reg_units(lay, us)
    csq_units(lay, us)
    attach_units(lay, us)
    for cls, short in ((WS, 'work_stealing'), (NWS, 'numa::work_stealing')):
        suspend_units(lay, us, cls, short, True); ws_units(lay, us, cls, short)
    return us

def csq_monitor(ex, lay, st):
    f = finfo(lay, CSQ, 'pidx_', 'cidx_', 'capacity_', 'slots_')
    def cnt(v): return z3.If(z3.UGE(v.pidx_, v.cidx_), v.pidx_ - v.cidx_, v.pidx_ + v.capacity_ - v.cidx_)
    def inv(ex, v): return z3.And(z3.UGE(v.capacity_, 2), z3.ULE(v.capacity_, bv(1 << 40)), z3.ULT(v.pidx_, v.capacity_), z3.ULT(v.cidx_, v.capacity_), v.slots_.bv() != 0)
    def item(st, v, k):
        i = v.cidx_ + k; i = z3.If(z3.ULT(i, v.capacity_), i, i - v.capacity_)
        return ex.load1(st, Ptr(v.slots_.base, simp(i * 8 + v.slots_.offbv())), ('i', 64))
    def guar(ex, st, a, n, evs):
        it = st.g['it0']; k = ex.K; c0 = cnt(a); c1 = cnt(n)
        d = next((d for d in (0, 1, -1) if ex.proved(st, c1 == c0 + bv(d & (1 << 64) - 1))), None)
        st.g['delta'] = d; st.g['front'] = it[2]; st.g['c0'] = simp(c0)
        ok = {'push': (0, 1), 'pop': (0, -1), 'steal': (0, -1)}.get(ex.op, (0,))
        l = [('the queue is unchanged, extended by one fiber or loses one fiber, as the operation says', z3.BoolVal(d in ok)),
             ('the capacity never shrinks below what is stored', z3.ULT(c1, n.capacity_))]
        if d not in ok: return l
        # element k of the new queue, for every k: case split over the position of k relative to the ends of the array
        rng = z3.ULT(k, c0 - 1) if d == -1 else z3.ULT(k, c0)
        j = k + 1 if d == -1 else k
        for i, cs in enumerate(cases(a, n, j)):
            s = st.fork(); s.assume(cs); s.assume(rng)
            if not ex.feasible(s): continue
            m1 = View(base=n.base, cidx_=res(ex, s, n.cidx_), capacity_=n.capacity_, slots_=n.slots_)
            src = g_item(s, st.g['acqmem'], a, res(ex, s, index(a, j)))
            ex.prove(s, 'queue: the fibers that stay keep their order (case %d)' % i, g_item(s, s.mem, m1, res(ex, s, index(m1, k))) == src)
        if d == 1: l.append(('the pushed fiber is stored at the end', item(st, n, c0) == st.g.get('pusharg', bv(0))))
        return l
    def cases(a, n, j):
        w = z3.ULT(a.cidx_ + j, a.capacity_); p = z3.UGE(a.pidx_, a.cidx_); e = a.cidx_ + 1 == a.capacity_
        return [z3.And(x, z, q) for x in (p, z3.Not(p)) for z in (w, z3.Not(w)) for q in (e, z3.Not(e))]
    def res(ex, s, t):
        t = simp(t)
        while z3.is_app_of(t, z3.Z3_OP_ITE):
            c, x, y = t.children()
            if ex.proved(s, c): t = x
            elif ex.proved(s, z3.Not(c)): t = y
            else: break
        return t
    def index(v, k): return z3.If(z3.ULT(v.cidx_ + k, v.capacity_), v.cidx_ + k, v.cidx_ + k - v.capacity_)
    def g_item(st, mem, v, i):
        s = st.fork(); s.mem = mem
        return ex.load1(s, Ptr(v.slots_.base, simp(i * 8 + v.slots_.offbv())), ('i', 64))
    m = Monitor('queue', CSQ, lay.off(CSQ, 'splk_'), f, inv=inv, guar=guar, bases={ex.this.base}, labels={'slots_': 'Slot[]'})
    def on_acquire(ex, st, base):
        v = m.view(ex, st, base); ex.slots = v.slots_.base
        st.g['size:%d' % id(v.slots_.base)] = simp(v.capacity_ * 8)
        st.g['it0'] = (None, None, item(st, v, bv(0))); st.g['acqmem'] = st.mem; st.g['ncs'] = min(2, st.g.get('ncs', 0) + 1)
        st.assume(z3.ULE(v.capacity_, bv(1 << 39)))   # assumption: fewer than 2^39 slots
    m.on_acquire = on_acquire; m.cnt = cnt; m.item = item
    ex.K = freshbv('k')
    return m
def slot_access(ex, st, p, n, what):
    """bounds and lock discipline of the slot arrays"""
    z = st.g.get('size:%d' % id(p.base))
    if z is None and p.base.kind == 'heap' and p.base.size is not None: z = p.base.size if not isint(p.base.size) else bv(p.base.size)
    if z is None: return
    o = p.offbv()
    nn = n if not isint(n) else bv(n)
    ex.prove(st, 'slots are accessed inside the array (%s)' % what, z3.And(z3.ULE(o, z), z3.ULE(nn, z - o)))
    if p.base.kind == 'sym': ex.prove(st, 'slots are accessed only under the lock', z3.BoolVal(len(held(st)) == 1))
def csq_units(lay, us):
    f = finfo(lay, CSQ, 'pidx_', 'cidx_', 'capacity_', 'slots_')
    def hk(ex, st, p, ty, mod, val=None):
        if ('size:%d' % id(p.base)) in st.g or p.base.kind == 'heap': slot_access(ex, st, p, 8 if ty == PTR else (ty[1]+7)//8, 'element')
        return None
    def cpy(ex, st, a):
        d, s, n = a
        slot_access(ex, st, d, n, 'copy to'); slot_access(ex, st, s, n, 'copy from')
        ex.prove(st, 'whole slots are copied', (n & 7) == 0)
        st.mem = Ev('cps', d.base, d.off, simp(n), None, st.mem, (st.mem, s.base, s.off))
        return [Out('ret', st, None)]
    def contracts(ex):
        setup_me(ex); spinlock_contracts(ex); stdlib(ex)
        ex.hooks_load.append(hk); ex.hooks_store.append(hk); ex.contract('memcpy_sym', cpy)
        ex.alloc_fails = True
        def new(ex, st, c):
            outs = c_new(ex, st, c); sl = getattr(ex, 'slots', None)
            for o in outs:
                if o.kind == 'ret':   # a new array is not null and distinct from the array in use
                    o.st.assume(o.val.bv() != 0)
                    if sl is not None: o.st.assume(o.val.bv() != sl.addr)
            return outs
        ex.contract(r'operator new(\[\])?\(unsigned long\)', new, first=True)
    def dele(ex, st, c):
        p = c.args[0]; st.g['_frees'] = st.g.get('_frees', ()) + (p,); return [Out('ret', st, None)]
    def mk(op, sig):
        fn = '%s::%s' % (CSQ, sig)
        def setup(ex, st):
            ex.op = op; ex.this = ex.symobj('this', CSQ); ex.m = csq_monitor(ex, lay, st); use_monitors(ex, ex.m)
            v = ex.m.view(ex, st, ex.this.base); st.assume(ex.m.inv(ex, v))
            if op == 'push': ex.c = ex.symobj('c', CTX); st.g['pusharg'] = ex.c.bv(); return [ex.this, ex.c]
            return [ex.this]
        def post(ex, o):
            st = o.st; P = lambda n, c: ex.prove(st, n, c, fn)
            P('the lock is not left held', z3.BoolVal(len(held(st)) == 0))
            if o.kind == 'exc':
                P('only push may fail, for lack of memory, and then changes nothing', z3.BoolVal(op == 'push' and o.val.tag == 'bad_alloc' and st.g.get('delta', 0) == 0)); ex.cover('no memory', st); return
            if o.kind != 'ret': P('the operation returns', False); return
            P('the queue is used in one critical section', z3.BoolVal(st.g.get('ncs', 0) == 1))
            if st.g.get('delta') is None: return
            d = st.g['delta']; e = st.g['c0'] == 0
            if op == 'push':
                P('the fiber is stored exactly once', z3.BoolVal(d == 1))
                fr = st.g.get('_frees', ()); al = st.g.get('_allocs', ())
                P('a replaced array is freed exactly once', z3.BoolVal(len(fr) == len(al) and len(al) <= 1))
                if fr:
                    a = viewtup(ex.m, ex.this.base, st.g[('lastacq', 'queue', ex.this.base)]); n = viewtup(ex.m, ex.this.base, st.g[('lastrel', 'queue', ex.this.base)])
                    P('the array that is freed is the old one', z3.And(ex.ptr_eq(fr[0], a.slots_), z3.Not(ex.ptr_eq(n.slots_, a.slots_)))); ex.cover('grows', st)
                    z = al[0].size
                    P('the new array has room for the capacity', z3.ULE(n.capacity_ * 8, z if not isint(z) else bv(z)))
                else: ex.cover('stored', st)
            elif op == 'empty':
                P('empty tells whether no fiber is stored', o.val == e)
            else:
                r = o.val.bv()
                P('exactly the first fiber is taken when a fiber is returned', z3.Implies(r != 0, z3.And(z3.BoolVal(d == -1), r == st.g['front'], z3.Not(e))))
                P('nothing is taken when no fiber is returned', z3.Implies(r == 0, z3.Or(z3.BoolVal(d == 0), st.g['front'] == 0)))
                x = ex.sym(st.g['front'], CTX)
                pin = (ex.load1(st, x.add(lay.off(CTX, 'type_')), ('i', 32)) & PINNED) != 0
                if op == 'pop': P('a fiber is returned whenever one is stored', z3.Implies(z3.And(z3.Not(e), st.g['front'] != 0), r != 0)); 
                else:
                    P('a pinned fiber is never stolen', z3.Implies(r != 0, z3.Not(pin)))
                for cn, cc in (('some', r != 0), ('none', r == 0)):
                    if ex.feasible(st, cc): ex.cover(cn, st)
        us.append(Unit('context_spinlock_queue::' + op, fn, setup, post, dict(push=('grows', 'stored', 'no memory'), empty=()).get(op, ('some', 'none')), contracts))
    mk('push', 'push(boost::fibers::context*)'); mk('pop', 'pop()'); mk('steal', 'steal()'); mk('empty', 'empty() const')
    fc = CSQ + '::context_spinlock_queue(unsigned long)'
    def s_c(ex, st): ex.this = ex.symobj('this', CSQ); ex.cap = freshbv('capacity'); st.assume(z3.And(z3.UGE(ex.cap, 2), z3.ULE(ex.cap, bv(1 << 40)))); return [ex.this, ex.cap]
    def p_c(ex, o):
        st = o.st
        if o.kind == 'exc': ex.prove(st, 'construction fails only for lack of memory', z3.BoolVal(o.val.tag == 'bad_alloc'), fc); return
        v = {n: ex.load1(st, ex.this.add(off), ty) for n, (off, ty) in f.items()}; al = st.g.get('_allocs', ())
        ex.prove(st, 'a new queue is empty', z3.And(v['pidx_'] == v['cidx_'], z3.ULT(v['cidx_'], v['capacity_'])), fc)
        ex.prove(st, 'a new queue has an array of capacity slots', z3.And(v['capacity_'] == ex.cap, al[0].size == ex.cap * 8) if len(al) == 1 and v['slots_'].base is al[0] else False, fc)
    us.append(Unit('context_spinlock_queue constructor', fc, s_c, p_c, (), contracts))

def ws_units(lay, us, cls, short, queue='context_spinlock_queue'):
    RQ = lay.off(cls, 'rqueue_')
    def contracts(ex):
        setup_me(ex); stdlib(ex); std_mutex_contracts(ex)
        ex.contract(r'boost::context::detail::prefetch_range\(.*\)', c_void)
        attach_contracts(ex, lay)
        ex.hooks_load.append(gone_hook); ex.hooks_store.append(gone_hook)
        Q = r'boost::fibers::detail::%s::' % queue
        def push(ex, st, c):
            log(st, ('push', c.args[0], c.args[1])); st.g[('gone', c.args[1].base)] = True; return [Out('ret', st, None)]
        def pop(ex, st, c):
            r = ex.sym(freshbv('popped'), CTX); log(st, ('pop', c.args[0], r))
            outs = []
            for s, z in ex.split2(st, r.bv() == 0): outs.append(Out('ret', s, Ptr(ex.NULL.base, 0) if z and hasattr(ex, 'NULL') else r))
            return outs
        def stl(ex, st, c):
            r = ex.sym(freshbv('stolen'), CTX); log(st, ('qsteal', c.args[0], r)); return [Out('ret', st, r)]
        def emp(ex, st, c):
            e = fresh('qempty', z3.BoolSort()); log(st, ('empty', c.args[0], e)); return [Out('ret', st, e)]
        ex.contract(Q + r'push\(.*\)', push); ex.contract(Q + r'pop\(\)', pop); ex.contract(Q + r'steal\(\)', stl); ex.contract(Q + r'empty\(\) const', emp)
        V = r'std::vector<boost::intrusive_ptr<boost::fibers::(numa::)?algo::work_stealing>, .*>::'
        def at(ex, st, c):
            ex.prove(st, 'only a registered scheduler is looked up', z3.ULT(c.args[1], ex.nsched))
            if cls == WS: ex.prove(st, 'a victim is searched only if there is another thread', z3.UGT(ex.nsched, 1))
            r = ex.newregion('stack', 'vecref', 8); q = Ptr(r, 0); x = ex.sym(freshbv('victim_sched'), cls)
            # every slot was filled before the constructor's thread barrier; distinct ids are distinct schedulers
            st.assume(z3.And(x.bv() != 0, (x.bv() == ex.this.bv()) == (c.args[1] == ex.myid)))
            ex.store(st, q, x, 8)
            return [Out('ret', st, q)]
        ex.contract(V + r'operator\[\]\(unsigned long\)( const)?', at)
        ex.contract(V + r'size\(\) const', lambda ex, st, c: Out('ret', st, ex.nsched))
        U = r'std::vector<unsigned int, .*>::'
        def uat(ex, st, c):
            loc = ex.proved(st, ex.ptr_eq(c.args[0], ex.this.add(lay.off(cls, 'local_cpus_')))); k = 'local' if loc else 'remote'
            ex.prove(st, 'only an existing cpu is looked up', z3.ULT(c.args[1], ex.ncpu[k]))
            r = ex.newregion('stack', 'cpuref', 4); q = Ptr(r, 0); v = freshbv('cpu', 32)
            st.assume(z3.ULT(z3.ZeroExt(32, v), ex.nsched))
            if k == 'local': ex.prove(st, 'a local victim is searched only if there is another local cpu', z3.UGT(ex.ncpu[k], 1))
            if k == 'remote': st.assume(z3.ZeroExt(32, v) != ex.myid)
            ex.store(st, q, v, 4)
            return [Out('ret', st, q)]
        def usz(ex, st, c): return Out('ret', st, ex.ncpu['local' if ex.proved(st, ex.ptr_eq(c.args[0], ex.this.add(lay.off(cls, 'local_cpus_')))) else 'remote'])
        ex.contract(U + r'operator\[\]\(unsigned long\)( const)?', uat); ex.contract(U + r'size\(\) const', usz)
        ex.contract(U + r'empty\(\) const', lambda ex, st, c: Out('ret', st, usz(ex, st, c).val == 0))
        ex.contract(r'std::random_device::.*', lambda ex, st, c: Out('ret', st, freshbv('rd', 32) if 'operator()' in c.dem else None))
        ex.contract(r'std::linear_congruential_engine<.*>::linear_congruential_engine\(.*\)', c_void)
        def dctor(ex, st, c):
            st.g[('dist', c.args[0].base)] = (c.args[1], c.args[2])
            return [Out('ret', st, None)]
        def dop(ex, st, c):
            lo, hi = st.g.get(('dist', c.args[0].base), (None, None)); r = freshbv('random', 32)
            if lo is not None:
                st.assume(z3.And(z3.UGE(r, lo), z3.ULE(r, hi)))
                if cls == WS: ex.prove(st, 'every thread can be drawn as victim, and not only this one', z3.And(lo == 0, hi == z3.Extract(31, 0, ex.nsched) - 1, hi != 0))
            return [Out('ret', st, r)]
        ex.contract(r'std::uniform_int_distribution<unsigned int>::uniform_int_distribution\(unsigned int, unsigned int\)', dctor)
        ex.contract(r'unsigned int std::uniform_int_distribution<unsigned int>::operator\(\)<.*', dop)
        def vsteal(ex, st, c):
            """steal() of another scheduler: null or an unpinned fiber that left its queue (C22 queue contract)"""
            r = ex.sym(freshbv('stolen'), CTX); outs = []
            ex.prove(st, 'a thread steals only from other threads', z3.Not(ex.ptr_eq(c.args[0], ex.this)))
            ex.prove(st, 'no second fiber is stolen while one is in hand', z3.BoolVal(not st.g.get('inhand')))
            for s, z in ex.split2(st, r.bv() == 0):
                if z: log(s, ('steal', c.args[0], None)); outs.append(Out('ret', s, r))
                else:
                    s.assume((ex.load1(s, r.add(lay.off(CTX, 'type_')), ('i', 32)) & PINNED) == 0)
                    s.g['inhand'] = r; outs.append(Out('ret', s, r))
            return outs
        ex.contract(r'virtual .*work_stealing::steal\(\).*', vsteal)
        def cands(ex, fn, st0, phi0, H):
            # a variable of the loop may hold the fiber that was stolen, or null as long as there is none
            def f(s, ph, r):
                h = s.g.get('inhand')
                return ph[r].bv() == 0 if h is None else z3.And(ex.ptr_eq(ph[r], h), h.bv() != 0, (ex.load1(s, h.add(lay.off(CTX, 'type_')), ('i', 32)) & PINNED) == 0)
            return [('%s holds the stolen fiber' % r, lambda s, ph, r=r: f(s, ph, r)) for r, v in phi0.items() if ('phi', r) in H and isinstance(v, Ptr)]
        ex.auto_cands = getattr(ex, 'auto_cands', []) + [cands]
    def env(ex, st):
        ex.this = ex.symobj('this', cls)
        if cls == WS:
            idv = ex.load1(st, ex.this.add(lay.off(cls, 'id_')), ('i', 32)); tc = ex.load1(st, ex.this.add(lay.off(cls, 'thread_count_')), ('i', 32))
            ex.nsched = z3.ZeroExt(32, tc); ex.myid = z3.ZeroExt(32, idv); st.assume(z3.And(tc != 0, z3.ULT(idv, tc)))
        else:
            ex.nsched = freshbv('nsched'); ex.myid = z3.ZeroExt(32, ex.load1(st, ex.this.add(lay.off(cls, 'cpu_id_')), ('i', 32)))
            ex.ncpu = dict(local=freshbv('nlocal'), remote=freshbv('nremote'))
            st.assume(z3.And(z3.ULT(ex.nsched, bv(1 << 32)), z3.ULT(ex.myid, ex.nsched), ex.ncpu['local'] != 0, z3.ULT(ex.ncpu['local'], bv(1 << 32)), z3.ULT(ex.ncpu['remote'], bv(1 << 32))))
    fa = cls + '::awakened(boost::fibers::context*)'
    def s_a(ex, st): env(ex, st); ex.ctx = ex.symobj('ctx', CTX); ex.pin = pinned(ex, st, lay, ex.ctx); return [ex.this, ex.ctx]
    def p_a(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fa); lg = [e for e in st.g.get('_log', ()) if e[0] in ('push', 'detach')]
        P('awakened returns normally', z3.BoolVal(o.kind == 'ret'))
        ps = [e for e in lg if e[0] == 'push']
        P('the fiber is queued exactly once in the queue of this thread', z3.And(ex.ptr_eq(ps[0][1], ex.this.add(RQ)), ex.ptr_eq(ps[0][2], ex.ctx)) if len(ps) == 1 else False)
        det = [i for i, e in enumerate(lg) if e[0] == 'detach']
        P('a fiber that may be stolen has left its thread before it is queued', z3.Implies(z3.Not(ex.pin), z3.BoolVal(det == [0])))
        P('a pinned fiber stays attached to its thread', z3.Implies(ex.pin, z3.BoolVal(not det)))
        ex.cover('pinned' if not det else 'worker', st)
    us.append(Unit(short + '::awakened', fa, s_a, p_a, ('pinned', 'worker'), contracts))
    fp = cls + '::pick_next()'
    def s_p(ex, st): env(ex, st); return [ex.this]
    def p_p(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fp); lg = st.g.get('_log', ())
        P('pick_next returns normally', z3.BoolVal(o.kind == 'ret'))
        if o.kind != 'ret': return
        r = o.val.bv(); pop = [e for e in lg if e[0] == 'pop']; att = [e[1] for e in lg if e[0] == 'attach']; hand = st.g.get('inhand')
        P('the own queue is asked exactly once', z3.And(z3.BoolVal(len(pop) == 1), ex.ptr_eq(pop[0][1], ex.this.add(RQ))) if pop else False)
        if not pop: return
        got = pop[0][2].bv()
        P('no fiber is stolen while the own queue has one', z3.Implies(got != 0, z3.BoolVal(hand is None)))
        P('the fiber taken from a queue is returned', r == z3.If(got != 0, got, hand.bv() if hand is not None else bv(0)))
        x = ex.sym(simp(r), CTX)
        pin = (ex.load1(st, x.add(lay.off(CTX, 'type_')), ('i', 32)) & PINNED) != 0
        P('a fiber that may have come from another thread is attached to this one exactly once', z3.Implies(z3.And(r != 0, z3.Not(pin)), z3.And(z3.BoolVal(len(att) == 1), att[0].bv() == r) if att else z3.BoolVal(False)))
        P('nothing else is attached', z3.Implies(z3.Or(r == 0, pin), z3.BoolVal(not att)))
        for cn, cc in (('own', got != 0), ('stolen', z3.And(got == 0, r != 0)), ('none', r == 0)):
            if ex.feasible(st, cc): ex.cover(cn, st)
    us.append(Unit(short + '::pick_next', fp, s_p, p_p, ('own', 'stolen', 'none'), contracts))
    fh = cls + '::has_ready_fibers() const'
    def p_h(ex, o):
        st = o.st; e = [x for x in st.g.get('_log', ()) if x[0] == 'empty']
        ex.prove(st, 'has_ready_fibers tells whether the own queue is not empty', z3.And(ex.ptr_eq(e[-1][1], ex.this.add(RQ)), o.val == z3.Not(e[-1][2])) if o.kind == 'ret' and e else False, fh)
    us.append(Unit(short + '::has_ready_fibers', fh, s_p, p_h, (), contracts))
    fs = cls + '::steal()'
    def p_s(ex, o):
        st = o.st; e = [x for x in st.g.get('_log', ()) if x[0] in ('qsteal', 'pop', 'push')]
        ex.prove(st, 'steal gives away what the queue allows to be stolen', z3.And(ex.ptr_eq(e[0][1], ex.this.add(RQ)), o.val.bv() == e[0][2].bv()) if o.kind == 'ret' and len(e) == 1 and e[0][0] == 'qsteal' else False, fs)
    us.append(Unit(short + '::steal', fs, s_p, p_s, (), contracts))
