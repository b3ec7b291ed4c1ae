"""C13, C14: fiber handles, launching, running, terminating and releasing a fiber."""
from ..lib import *
from ..core import _ctr, memfun
from ..containers import *
PROPS = ['C13', 'C14']
NS = 'boost::fibers::'
FIB = NS + 'fiber'; SCHED = NS + 'scheduler'; WCTX = NS + 'worker_context<Fn, Val>'
LK = 'std::unique_lock<boost::fibers::detail::spinlock_ttas>&'
EINVAL, EDEADLK = 22, 35
T_CTX = ['contract of wait_queue::suspend_and_wait/notify_all (C16): a waiter is resumed only after a notifier dequeued it', 'contract of detail::spinlock (C23)', 'contract of scheduler::schedule/terminate and context::resume (C17)',
         'contract of boost::context (ontop_fcontext/jump_fcontext/make_fcontext): a finished fiber resumed once more runs off its stack and the stack is given back', 'contract of std::map for the fiber-specific data (C19)']
def prop(pid):
    if pid == 'C13':
        return dict(srcs=['tu/life.cpp', 'fiber.cpp', 'context.cpp'], units=units13, trusted=T_CTX, assumptions=['two handles never own the same fiber (handles are move-only; proved for every operation: C13/C14 reference counting)'])
    return dict(srcs=['tu/life.cpp', 'fiber.cpp', 'context.cpp', 'scheduler.cpp', 'tu/sched.cpp'], units=units14, trusted=T_CTX + ['std::bind/std::tuple/std::apply are executed, not assumed'],
                assumptions=['a fiber\'s function does not let an exception escape (std::terminate otherwise)', 'a fiber that is attached is linked in no queue (BOOST_ASSERT of the callers)'])
def offs(lay):
    o = SimpleNamespace()
    for f in ('splk_', 'terminated_', 'wait_queue_', 'scheduler_', 'c_', 'type_', 'use_count_', 'policy_', 'properties_', 'fss_data_', 'waker_epoch_'): setattr(o, f, lay.off(CTX, f))
    o.worker_queue_ = lay.off(SCHED, 'worker_queue_'); o.main_ctx_ = lay.off(SCHED, 'main_ctx_'); o.dispatcher_ctx_ = lay.off(SCHED, 'dispatcher_ctx_')
    o.impl_ = lay.off(FIB, 'impl_')
    return o
# ---------------------------------------------------------------------------------- the joiners of a fiber
def join_monitor(ex, O):
    def rely(ex, o, n): return z3.And(z3.ULE(n.terminated_, bv(1, 8)), z3.Implies(o.terminated_ != 0, n.terminated_ != 0))
    def guar(ex, st, a, n, evs):
        return [('a terminated fiber stays terminated', z3.Implies(a.terminated_ != 0, n.terminated_ != 0)),
                ('joiners are woken only when the fiber is terminated', z3.Implies(z3.BoolVal(any(e[0].startswith('notify') for e in evs)), n.terminated_ != 0)),
                ('every joiner is woken when the fiber becomes terminated', z3.Implies(z3.And(a.terminated_ == 0, n.terminated_ != 0), notified(evs, 'wait_queue_', True)))]
    def block(ex, st, a, v, q): return [('a joiner blocks only while the fiber is not terminated', v.terminated_ == 0)]
    m = Monitor('context', CTX, O.splk_, {'terminated_': (O.terminated_, ('i', 8))}, rely=rely, guar=guar, block=block, wqs={O.wait_queue_: 'wait_queue_'}, inv=lambda ex, v: z3.ULE(v.terminated_, bv(1, 8)))
    use_monitors(ex, m); ex.jm = m
    def onrel(ex, st, base, a, n, evs, how): st.g['seen_terminated'] = simp(z3.Or(st.g.get('seen_terminated', z3.BoolVal(False)), n.terminated_ != 0))
    m.on_release = onrel
def gone(st, x): st.g[('gone', x.base)] = True
def gone_hook(ex, st, p, ty, mod, val=None):
    if st.g.get(('gone', p.base)): ex.prove(st, 'a fiber is not touched any more once the last reference may be gone', False)
    return None

def u_ctx_join(lay, O, us):
    fn = CTX + '::join()'
    def setup(ex, st):
        ex.this = ex.symobj('this', CTX, True); join_monitor(ex, O); return [ex.this]
    def post(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fn)
        P('join returns normally', z3.BoolVal(o.kind == 'ret'))
        w = ('baton', 'context', ex.this.base, 'wait_queue_') in st.g and st.g[('baton', 'context', ex.this.base, 'wait_queue_')]
        P('join returns only after the fiber terminated', z3.Or(z3.BoolVal(bool(w)), st.g.get('seen_terminated', z3.BoolVal(False))))
        P('no lock is left held', z3.BoolVal(len(held(st)) == 0))
        ex.cover('waited' if w else 'not waited', st)
    us.append(Unit('context::join', fn, setup, post, ('waited', 'not waited'), std_contracts))

# ---------------------------------------------------------------------------------- references
def refs(st, b): return st.g.get(('ref', b), 0)
def ref_contracts(ex):
    def add(ex, st, c):
        ex.prove(st, 'a reference is taken only to a living fiber', z3.BoolVal(not st.g.get(('gone', c.args[0].base)) and c.args[0].base.kind != 'null'))
        st.g[('ref', c.args[0].base)] = refs(st, c.args[0].base) + 1; return [Out('ret', st, None)]
    def rel(ex, st, c):
        b = c.args[0].base
        ex.prove(st, 'only a reference that is held is released', z3.BoolVal(refs(st, b) >= 1))
        no_spinlock(ex, st, 'a reference to a fiber is released')
        st.g[('ref', b)] = refs(st, b) - 1; log(st, ('release', b))
        if refs(st, b) <= 0: gone(st, c.args[0])
        return [Out('ret', st, None)]
    ex.contract(r'boost::fibers::intrusive_ptr_add_ref\(boost::fibers::context\*\)', add); ex.contract(r'boost::fibers::intrusive_ptr_release\(boost::fibers::context\*\)', rel)
    ex.hooks_load.append(gone_hook); ex.hooks_store.append(gone_hook)
def impl(ex, st, O, f): return ex.load1(st, f.add(O.impl_), PTR)
def code_ok(ex, st, o, want, fn, cls='fiber_error'):
    ex.prove(st, 'the exception is the documented one', z3.BoolVal(o.kind == 'exc' and o.val.tinfo == '_ZTIN5boost6fibers%d%sE' % (len(cls), cls)), fn)
    code = o.val.data.get('code') if o.kind == 'exc' else None
    ex.prove(st, 'the error code is the documented one', (code == want) if code is not None else False, fn)

def u_handles(lay, O, us):
    def joinc(ex, st, c):
        P = lambda n, g: ex.prove(st, n, g)
        P('the fiber of the handle is joined', ex.ptr_eq(c.args[0], ex.A) if ex.A is not None else False)
        P('a fiber is joined through a reference that is still held', z3.BoolVal(refs(st, c.args[0].base) >= 1))
        P('a fiber does not join itself', z3.Not(ex.ptr_eq(c.args[0], ex.ME)))
        no_spinlock(ex, st, 'a fiber is joined'); st.g['joins'] = min(2, st.g.get('joins', 0) + 1); log(st, ('join',)); return [Out('ret', st, None)]
    def contracts(ex): setup_me(ex); stdlib(ex); ref_contracts(ex); ex.contract(r'boost::fibers::context::join\(\)', joinc)
    def handle(ex, st, name, ctx):
        f = ex.symobj(name, FIB, True); ex.store(st, f.add(O.impl_), ctx if ctx is not None else NULL, 8)
        if ctx is not None: st.g[('ref', ctx.base)] = refs(st, ctx.base) + 1
        return f
    # join, detach, ~fiber
    for op, fname in (('join', FIB + '::join()'), ('detach', FIB + '::detach()'), ('~fiber', 'tu_dtor(%s*)' % FIB)):
        for case in ('other', 'empty', 'self'):
            def setup(ex, st, case=case):
                ex.A = {'other': lambda: ex.symobj('A', CTX, True), 'empty': lambda: None, 'self': lambda: ex.ME}[case]()
                if case == 'other': ex.ME.base.dist = True
                ex.f = handle(ex, st, 'f', ex.A); return [ex.f]
            def post(ex, o, op=op, case=case, fname=fname):
                st = o.st; P = lambda n, c: ex.prove(st, n, c, fname); now = impl(ex, st, O, ex.f); nrel = len([e for e in st.g.get('_log', ()) if e[0] == 'release']); j = st.g.get('joins', 0)
                if op == '~fiber':
                    if case == 'empty': P('destroying an empty handle does nothing', z3.BoolVal(o.kind == 'ret' and nrel == 0))
                    else: P('destroying a joinable handle terminates the program', z3.BoolVal(o.kind == 'stop' and o.val == 'terminate'))
                elif case == 'empty' or (op == 'join' and case == 'self'):
                    code_ok(ex, st, o, EINVAL if case == 'empty' else EDEADLK, fname)
                    P('a refused operation leaves the handle unchanged', z3.And(z3.BoolVal(nrel == 0 and j == 0), ex.ptr_eq(now, ex.A if ex.A is not None else NULL)))
                else:
                    P('the call returns normally', z3.BoolVal(o.kind == 'ret'))
                    P('the handle is not joinable afterwards', now.bv() == 0)
                    P('the reference of the handle is released exactly once', z3.BoolVal(nrel >= 1 and refs(st, ex.A.base) == 0))
                    if op == 'join': P('join waits for the fiber exactly once, before its reference is released', z3.BoolVal(j == 1 and [e[0] for e in st.g['_log'] if e[0] in ('join', 'release')][-1] == 'release'))
                    else: P('detach does not wait', z3.BoolVal(j == 0))
            us.append(Unit('fiber::%s (%s)' % (op, {'other': 'joinable', 'empty': 'not joinable', 'self': 'own handle'}[case]), fname, setup, post, (), contracts))
    # move, swap
    for op, fname in (('move constructor', 'tu_move_ctor(%s*, %s&)' % (FIB, FIB)), ('move assignment', 'tu_move_assign(%s&, %s&)' % (FIB, FIB)), ('swap', 'tu_swap(%s&, %s&)' % (FIB, FIB)), ('swap(fiber,fiber)', 'tu_swap2(%s&, %s&)' % (FIB, FIB))):
        for ca in ((False,) if op == 'move constructor' else (False, True)):
            for cb in (False, True):
                def setup(ex, st, ca=ca, cb=cb, op=op):
                    ex.A = ex.symobj('A', CTX, True) if ca else None; ex.B = ex.symobj('B', CTX, True) if cb else None
                    ex.f = handle(ex, st, 'f', ex.A); ex.o = handle(ex, st, 'o', ex.B)
                    if op == 'move constructor': ex.store(st, ex.f.add(O.impl_), ex.sym(freshbv('raw')), 8)   # raw memory
                    return [ex.f, ex.o]
                def post(ex, o, ca=ca, cb=cb, op=op, fname=fname):
                    st = o.st; P = lambda n, c: ex.prove(st, n, c, fname); z = lambda x: x if x is not None else NULL
                    if op == 'move assignment' and ca: P('overwriting a joinable handle terminates the program', z3.BoolVal(o.kind == 'stop' and o.val == 'terminate')); return
                    P('the call returns normally', z3.BoolVal(o.kind == 'ret'))
                    P('the fiber is transferred', z3.And(ex.ptr_eq(impl(ex, st, O, ex.f), z(ex.B)), ex.ptr_eq(impl(ex, st, O, ex.o), z(ex.A if 'swap' in op else None))))
                    for x in (ex.A, ex.B):
                        if x is not None: P('no reference is lost or duplicated', z3.BoolVal(refs(st, x.base) == 1))
                us.append(Unit('fiber %s (%s, %s)' % (op, 'joinable' if ca else 'empty', 'joinable' if cb else 'empty'), fname, setup, post, (), contracts))
    def setup_s(ex, st): ex.A = ex.symobj('A', CTX, True); ex.f = handle(ex, st, 'f', ex.A); return [ex.f, ex.f]
    def post_s(ex, o): ex.prove(o.st, 'assigning a joinable handle to itself terminates the program or leaves it unchanged', z3.Or(z3.BoolVal(o.kind == 'stop'), z3.And(z3.BoolVal(o.kind == 'ret' and refs(o.st, ex.A.base) == 1), ex.ptr_eq(impl(ex, o.st, O, ex.f), ex.A))), 'self assignment')
    us.append(Unit('fiber move assignment (to itself)', 'tu_move_assign(%s&, %s&)' % (FIB, FIB), setup_s, post_s, (), contracts))
    for op, fname in (('joinable', 'tu_joinable(%s const&)' % FIB), ('get_id', 'tu_get_id(%s const&)' % FIB), ('default constructor', 'tu_default(%s*)' % FIB)):
        for ca in (False, True):
            def setup(ex, st, ca=ca):
                ex.A = ex.symobj('A', CTX, True) if ca else None; ex.f = handle(ex, st, 'f', ex.A); return [ex.f]
            def post(ex, o, ca=ca, op=op, fname=fname):
                st = o.st; P = lambda n, c: ex.prove(st, n, c, fname); A = ex.A if ex.A is not None else NULL
                P('the call returns normally', z3.BoolVal(o.kind == 'ret'))
                if o.kind != 'ret': return
                if op == 'joinable': P('a handle is joinable exactly when it owns a fiber', o.val == z3.BoolVal(ca))
                elif op == 'get_id': P('the id is that of the fiber, or not-any-fiber for an empty handle', ex.ptr_eq(o.val[0] if isinstance(o.val, list) else o.val, A))
                else: P('a new handle is empty', impl(ex, st, O, ex.f).bv() == 0); return
                P('the handle is unchanged', z3.And(ex.ptr_eq(impl(ex, st, O, ex.f), A), z3.BoolVal(not ca or refs(st, ex.A.base) == 1)))
            us.append(Unit('fiber::%s (%s)' % (op, 'joinable' if ca else 'empty'), fname, setup, post, (), contracts))
    # ids
    def setup_i(ex, st): ex.ia = ex.sym(freshbv('ida')); ex.ib = ex.sym(freshbv('idb')); ex.ia.base.dist = ex.ib.base.dist = False; return [ex.ia, ex.ib][:ex.nid]
    for op, n, f in (('eq', 2, lambda a, b: a == b), ('ne', 2, lambda a, b: a != b), ('lt', 2, lambda a, b: z3.ULT(a, b)), ('gt', 2, lambda a, b: z3.UGT(a, b)), ('le', 2, lambda a, b: z3.ULE(a, b)), ('ge', 2, lambda a, b: z3.UGE(a, b)), ('not', 1, lambda a, b: a == 0), ('bool', 1, lambda a, b: a != 0)):
        fname = 'tu_id_%s(%s)' % (op, ', '.join(['%s::id' % CTX] * n))
        def contracts_i(ex, n=n): contracts(ex); ex.nid = n
        def post_i(ex, o, f=f, fname=fname): ex.prove(o.st, 'ids compare like the fibers they name', (o.val == f(ex.ia.bv(), ex.ib.bv())) if o.kind == 'ret' else False, fname)
        us.append(Unit('fiber::id %s' % op, fname, setup_i, post_i, (), contracts_i))
    def post_t(ex, o): ex.prove(o.st, 'this_fiber::get_id names the running fiber', ex.ptr_eq(o.val[0] if isinstance(o.val, list) else o.val, ex.ME) if o.kind == 'ret' else False, 'this_fiber::get_id')
    us.append(Unit('this_fiber::get_id', 'tu_this_id()', lambda ex, st: [], post_t, (), contracts))

# ---------------------------------------------------------------------------------- termination
def u_terminate(lay, O, us):
    fn = CTX + '::terminate()'
    def cleanup(ex, st, c):
        no_spinlock(ex, st, 'user supplied cleanup functions run')
        ex.prove(st, 'the data of the finished fiber is cleaned up', ex.ptr_eq(c.args[0], ex.ME))
        ex.prove(st, 'the fiber is not announced as terminated before its data is cleaned up', ex.load1(st, ex.ME.add(O.terminated_), ('i', 8)) == 0)
        st.g['cleaned'] = min(2, st.g.get('cleaned', 0) + 1)
        # the fiber may have been suspended, other joiners may have come
        return [Out('ret', st, None)]
    def term(ex, st, c):
        sr, a = (c.args[0], c.args[1:]) if len(c.args) == 4 else (None, c.args)
        P = lambda n, g: ex.prove(st, n, g)
        P('the scheduler of the finished fiber takes it over', ex.ptr_eq(a[0], ex.sc)); P('the finished fiber is handed over', ex.ptr_eq(a[2], ex.ME))
        lp, ow = lk_lock_ptr(ex, st, a[1])
        P('the lock of the finished fiber is handed over, owned', z3.And(ex.ptr_eq(lp, ex.ME.add(O.splk_)), ow != 0, z3.BoolVal(len(held(st)) == 1)))
        P('the fiber is marked terminated before it is handed over', ex.load1(st, ex.ME.add(O.terminated_), ('i', 8)) != 0)
        P('the data of the fiber is cleaned up before it is handed over', z3.BoolVal(bool(st.g.get('cleaned'))))
        st.g['handed'] = min(2, st.g.get('handed', 0) + 1)
        if is_held(st, ex.jm, ex.ME.base): release(ex, st, ex.ME.add(O.splk_)); ex.store(st, a[1].add(8), bv(0, 8), 1)
        F = ex.sym(freshbv('fctx')); st.g['cc'] = F
        if sr is not None: ex.store(st, sr, F, 8); return [Out('ret', st, None)]
        return [Out('ret', st, F)]
    def contracts(ex):
        std_contracts(ex); ex.contract(r'boost::fibers::context::cleanup_fss_data_\(\)', cleanup); ex.contract(r'boost::fibers::scheduler::terminate\(.*', term)
        ex.contract(r'.*fss_cleanup_function::operator\(\)\(void\*\)', cleanup)
    def setup(ex, st):
        join_monitor(ex, O); ex.ptr_labels[(CTX, O.scheduler_)] = SCHED; ex.sc = ex.load1(st, ex.ME.add(O.scheduler_), PTR); st.assume(ex.sc.bv() != 0)
        # only the fiber itself sets its flag
        ex.jm._rely = lambda ex, o, n: n.terminated_ == o.terminated_
        ex.store(st, ex.ME.add(O.terminated_), bv(0, 8), 1); ex.jm.racy.add('terminated_'); ex.sret = ex.symobj('ret', 'fiber'); return [ex.sret, ex.ME]
    def post(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fn)
        P('the call returns normally (the fiber is resumed once more to be released)', z3.BoolVal(o.kind == 'ret'))
        P('the finished fiber is handed to the scheduler exactly once', z3.BoolVal(st.g.get('handed') == 1))
        P('no lock is left held', z3.BoolVal(len(held(st)) == 0))
        cc = st.g.get('cc')
        P('the fiber that resumes the finished one gets control back', ex.ptr_eq(ex.load1(st, ex.sret, PTR), cc) if cc is not None else False)
        ex.cover('done', st)
    us.append(Unit('context::terminate', fn, setup, post, ('done',), contracts))

# ---------------------------------------------------------------------------------- reference counting of the control block
def u_refcount(lay, O, us):
    def h(ex, st, kind, p, ty, args, order, mod):
        if not (p.base is ex.this.base and isint(p.off) and p.off == O.use_count_): return None
        P = lambda n, g: ex.prove(st, n, g)
        old = freshbv('count'); P('the counter is changed by one atomic operation', z3.BoolVal(kind.startswith('rmw:')))
        if not kind.startswith('rmw:'): return [Out('ret', st, old)] if kind == 'load' else [Out('ret', st, None)]
        st.assume(z3.And(old != 0, z3.ULT(old, bv(1 << 62))))     # the caller owns a reference
        new = ex.rmw_new(kind[4:], old, args[0], ty); o = str(order[0] if isinstance(order, tuple) else order)
        P('the counter changes by exactly one', new == (old + 1 if ex.kind == 'add' else old - 1))
        P('the counter is changed once', z3.BoolVal('order' not in st.g))
        if ex.kind == 'rel': P('a reference is given up with release ordering', z3.BoolVal(o in ('release', 'acq_rel', 'seq_cst')))
        st.g['order'] = o; outs = []
        if ex.kind == 'add': return [Out('ret', st, old)]
        for s, last in ex.split2(st, simp(new == 0)):
            s.g['last'] = last; s.g['acq'] = o in ('acq_rel', 'seq_cst')
            if not last: gone(s, ex.this)
            outs.append(Out('ret', s, old))
        return outs
    def own(ex, st, p, ty, mod, val=None):
        if p.base is ex.this.base:
            if not st.g.get('last'): ex.prove(st, 'a fiber is taken apart only by whoever released the last reference', z3.BoolVal(ex.kind == 'rel' and bool(st.g.get('last'))))
            else: ex.prove(st, 'everything other threads did with the fiber is visible before it is taken apart (acquire)', z3.BoolVal(bool(st.g.get('acq'))))
        return None
    def dtor(ex, st, c):
        P = lambda n, g: ex.prove(st, n, g)
        P('the control block of this fiber is destroyed', ex.ptr_eq(c.args[0], ex.this)); P('the control block is destroyed only with the last reference', z3.BoolVal(bool(st.g.get('last') and st.g.get('acq'))))
        P('the control block is destroyed exactly once', z3.BoolVal(not st.g.get('dtor')))
        P('the suspension point is moved out of the control block first', ex.load1(st, ex.this.add(O.c_), PTR).bv() == 0)
        st.g['dtor'] = True; gone(st, ex.this); return [Out('ret', st, None)]
    def jump(ex, st, c):
        P = lambda n, g: ex.prove(st, n, g)
        P('the finished fiber is resumed to give its stack back', ex.ptr_eq(c.args[0], ex.F)); P('the stack is given back after the control block on it was destroyed', z3.BoolVal(bool(st.g.get('dtor')))); P('the stack is given back exactly once', z3.BoolVal(not st.g.get('freed')))
        P('the stack is given back only with the last reference', z3.BoolVal(bool(st.g.get('last'))))
        st.g['freed'] = True; return [Out('ret', st, [NULL, NULL])]
    def contracts(ex):
        stdlib(ex); ex.contract(r'virtual .*context::~?(context)?\(?.*', dtor); ex.contract(r'boost::fibers::context::~context\(\)', dtor); ex.contract(r'jump_fcontext', jump)
        def unwinding(ex, st, c): ex.prove(st, 'a finished fiber is resumed normally, not unwound', False); return [Out('ret', st, [NULL, NULL])]
        ex.contract(r'ontop_fcontext', unwinding)
        def fence(st, order):
            o = str(order[0] if isinstance(order, (tuple, list)) else order)
            if any(k in o for k in ('acquire', 'acq_rel', 'seq_cst')): st.g['acq'] = True
        ex.on_fence = fence
    for kind, fname in (('add', 'tu_add_ref(boost::fibers::context*)'), ('rel', 'tu_release(boost::fibers::context*)')):
        def setup(ex, st, kind=kind):
            ex.kind = kind; ex.this = ex.symobj('this', CTX, True); ex.F = ex.load1(st, ex.this.add(O.c_), PTR); st.assume(ex.F.bv() != 0)
            ex.hooks_atomic.append(h); ex.hooks_load += [gone_hook, own]; ex.hooks_store += [gone_hook, own]; return [ex.this]
        def post(ex, o, kind=kind, fname=fname):
            st = o.st; P = lambda n, c: ex.prove(st, n, c, fname)
            P('the call returns normally', z3.BoolVal(o.kind == 'ret')); P('the counter is changed', z3.BoolVal('order' in st.g))
            if kind == 'rel':
                l = st.g.get('last')
                P('the last reference releases control block and stack, any other one nothing', z3.BoolVal(bool(st.g.get('dtor')) == bool(l) and bool(st.g.get('freed')) == bool(l)))
                ex.cover('last' if l else 'not last', st)
        us.append(Unit('intrusive_ptr_%s(context)' % ('add_ref' if kind == 'add' else 'release'), fname, setup, post, ('last', 'not last') if kind == 'rel' else (), contracts))

# ---------------------------------------------------------------------------------- launching
def u_start(lay, O, us):
    def ev(k):
        def f(ex, st, c):
            no_spinlock(ex, st, 'a fiber is launched'); log(st, (k, tuple(c.args)))
            if k == 'resume': gone(st, ex.A) if False else None
            return [Out('ret', st, None)]
        return f
    fn = FIB + '::start_()'
    def contracts(ex):
        setup_me(ex); stdlib(ex); ref_contracts(ex); ex.ptr_labels[(CTX, O.scheduler_)] = SCHED
        ex.contract(r'boost::fibers::context::attach\(.*', ev('attach')); ex.contract(r'boost::fibers::scheduler::attach_worker_context\(.*', ev('attach_s'))
        ex.contract(r'boost::fibers::scheduler::schedule\(.*', ev('schedule')); ex.contract(r'boost::fibers::context::schedule\(.*', ev('schedule_c')); ex.contract(r'boost::fibers::context::resume\(boost::fibers::context\*\)', ev('resume'))
        ex.contract(r'boost::fibers::context::resume\(.*', ev('resume_other'))
    for pol, nm in ((0, 'dispatch'), (1, 'post')):     # enum launch
        def setup(ex, st, pol=pol):
            ex.A = ex.symobj('A', CTX, True); ex.ME.base.dist = True; ex.f = ex.symobj('f', FIB, True); ex.store(st, ex.f.add(O.impl_), ex.A, 8); st.g[('ref', ex.A.base)] = 1
            ex.sc = ex.load1(st, ex.ME.add(O.scheduler_), PTR); st.assume(ex.sc.bv() != 0); ex.store(st, ex.A.add(O.policy_), bv(pol, 32), 4); return [ex.f]
        def post(ex, o, nm=nm):
            st = o.st; P = lambda n, c: ex.prove(st, n, c, fn); l = [e for e in st.g.get('_log', ()) if e[0] != 'release']
            P('launching returns normally', z3.BoolVal(o.kind == 'ret'))
            at = [e for e in l if e[0] in ('attach', 'attach_s')]; go = [e for e in l if e[0] not in ('attach', 'attach_s')]
            P('a new fiber is attached exactly once to the scheduler of the launching fiber, before it can run', z3.And(ex.ptr_eq(at[0][1][0], ex.ME if at[0][0] == 'attach' else ex.sc), ex.ptr_eq(at[0][1][1], ex.A)) if len(at) == 1 and l[0] is at[0] else False)
            if nm == 'post': P('a posted fiber is scheduled exactly once and the launching fiber goes on', z3.And(ex.ptr_eq(go[0][1][0], ex.sc if go[0][0] == 'schedule' else ex.ME), ex.ptr_eq(go[0][1][1], ex.A)) if len(go) == 1 and go[0][0] in ('schedule', 'schedule_c') else False)
            else: P('a dispatched fiber runs immediately and the launching fiber is made ready again', z3.And(ex.ptr_eq(go[0][1][0], ex.A), ex.ptr_eq(go[0][1][1], ex.ME)) if len(go) == 1 and go[0][0] == 'resume' else False)
            P('the handle keeps its fiber', z3.And(ex.ptr_eq(impl(ex, st, O, ex.f), ex.A), z3.BoolVal(refs(st, ex.A.base) == 1)))
            ex.cover('done', st)
        us.append(Unit('fiber::start_ (%s)' % nm, fn, setup, post, ('done',), contracts))
    # attach / detach of a worker fiber
    def c2(ex): setup_me(ex); stdlib(ex); intrusive_contracts(ex, lay); ex.ptr_labels[(CTX, O.scheduler_)] = SCHED
    for nm in ('attach', 'detach'):
        f2 = '%s::%s_worker_context(boost::fibers::context*)' % (SCHED, nm)
        def onc(ex, st, e, nm=nm):
            ok = e[3] == 'worker_hook_' and e[2].base is ex.A.base and (e[0] == 'push' if nm == 'attach' else e[0] in ('unlink', 'erase', 'remove'))
            if nm == 'attach': ok = ok and e[1].base is ex.this.base and isint(e[1].off) and e[1].off == O.worker_queue_
            ex.prove(st, 'only the list of workers is changed, for this fiber', z3.BoolVal(ok)); st.g['nw'] = min(2, st.g.get('nw', 0) + 1)
        def setup2(ex, st, nm=nm, onc=onc):
            ex.this = ex.symobj('this', SCHED, True); ex.A = ex.symobj('A', CTX, True); ex.on_container = onc; set_linked(st, 'worker_hook_', ex.A, nm == 'detach'); ex.store(st, ex.A.add(O.scheduler_), NULL if nm == 'attach' else ex.this, 8); return [ex.this, ex.A]
        def post2(ex, o, nm=nm, f2=f2):
            st = o.st; P = lambda n, c: ex.prove(st, n, c, f2)
            P('the call returns normally', z3.BoolVal(o.kind == 'ret')); P('the fiber enters or leaves the list of workers exactly once', z3.BoolVal(st.g.get('nw') == 1))
            P('the fiber knows its scheduler exactly while it is attached', ex.ptr_eq(ex.load1(st, ex.A.add(O.scheduler_), PTR), ex.this if nm == 'attach' else NULL))
        us.append(Unit('scheduler::%s_worker_context' % nm, f2, setup2, post2, (), c2))
    def c3(ex):
        setup_me(ex); stdlib(ex); ex.ptr_labels[(CTX, O.scheduler_)] = SCHED
        ex.contract(r'boost::fibers::scheduler::attach_worker_context\(.*', ev('attach_s')); ex.contract(r'boost::fibers::scheduler::detach_worker_context\(.*', ev('detach_s'))
    for nm, f3 in (('attach', CTX + '::attach(boost::fibers::context*)'), ('detach', CTX + '::detach()')):
        def setup3(ex, st, nm=nm):
            ex.this = ex.symobj('this', CTX, True); ex.A = ex.symobj('A', CTX, True); ex.sc = ex.load1(st, ex.this.add(O.scheduler_), PTR); st.assume(ex.sc.bv() != 0); return [ex.this, ex.A] if nm == 'attach' else [ex.this]
        def post3(ex, o, nm=nm, f3=f3):
            st = o.st; l = st.g.get('_log', ())
            ex.prove(st, 'the scheduler of this fiber does it exactly once', z3.And(ex.ptr_eq(l[0][1][0], ex.sc), ex.ptr_eq(l[0][1][1], ex.A if nm == 'attach' else ex.this)) if o.kind == 'ret' and len(l) == 1 and l[0][0] == nm + '_s' else False, f3)
        us.append(Unit('context::' + nm, f3, setup3, post3, (), c3))

def fn_contracts(ex):
    """the opaque callable"""
    def live(k, v):
        def f(ex, st, c):
            p = c.args[0]; key = ('fnlive', p.base, p.off)
            ex.prove(st, 'a callable is constructed once and destroyed once', z3.BoolVal(bool(st.g.get(key, p.base.kind != 'stack' and p.base.x != 'raw')) != v)); st.g[key] = v
            if v:
                s = c.args[1]; ex.prove(st, 'only a living callable is copied or moved', z3.BoolVal(bool(st.g.get(('fnlive', s.base, s.off), s.base.kind != 'stack'))))
                outs = []
                if ex.val_throws:
                    e = st.fork(); e.g[key] = False; e.note('constructor of the callable throws'); e.g['fnthrew'] = True; outs.append(ex.throw(e, None, tag='user'))
                ex.store(st, p, ex.load1(st, s, ('i', 64)), 8)
                if k == 'move': ex.store(st, s, moved_from(ex, st, 'movedfn'), 8)
                return outs + [Out('ret', st, None)]
            return [Out('ret', st, None)]
        return f
    ex.contract(r'Fn(64)?::Fn(64)?\(Fn(64)?&&\)', live('move', True)); ex.contract(r'Fn(64)?::Fn(64)?\(Fn(64)? const&\)', live('copy', True)); ex.contract(r'Fn(64)?::~Fn(64)?\(\)', live('d', False))

def u_run(lay, O, us):
    for W, isref in ((WCTX, False), (NS + 'worker_context<Fn&, Val>', True)):
        fn = W + '::run_(boost::context::fiber&&)'
        def call(ex, st, c):
            P = lambda n, g: ex.prove(st, n, g)
            P('the function runs exactly once', z3.BoolVal(not st.g.get('called'))); st.g['called'] = True
            P('the function that was given is called', ex.load1(st, c.args[0], ('i', 64)) == ex.fid); P('the function gets the arguments that were given', val_id(ex, st, c.args[1]) == ex.vid); val_used(ex, st, c.args[1])
            no_spinlock(ex, st, 'the function of the fiber runs')
            return [Out('ret', st, None)]
        def term(ex, st, c):
            P = lambda n, g: ex.prove(st, n, g)
            P('the fiber terminates exactly once, after its function has finished', z3.BoolVal(bool(st.g.get('called') and not st.g.get('term')))); st.g['term'] = True
            P('the fiber that ran is terminated', ex.ptr_eq(c.args[-1], ex.this))
            P('function and arguments on the fiber\'s stack are destroyed before it terminates', z3.BoolVal(not any(isinstance(k, tuple) and k[0] in ('fnlive', 'live') and v and k[1].kind == 'stack' for k, v in st.g.items())))
            alive = [(k, st.g[k]) for k in st.g if isinstance(k, tuple) and k[0] in ('fnlive', 'live') and st.g[k]]
            P('no object that is still alive when the fiber terminates holds its function or arguments', z3.And(*[ex.load1(st, Ptr(k[1], k[2]), ('i', 64)) != (ex.fid if k[0] == 'fnlive' else ex.vid) for k, v in alive]) if alive else z3.BoolVal(True))
            F = ex.sym(freshbv('fctx')); st.g['cc'] = F
            if len(c.args) == 2: ex.store(st, c.args[0], F, 8); return [Out('ret', st, None)]
            return [Out('ret', st, F)]
        def contracts(ex, call=call, term=term):
            setup_me(ex); stdlib(ex); val_contracts(ex); fn_contracts(ex); ex.val_throws = False
            ex.contract(r'Fn::operator\(\)\(Val&&\)', call); ex.contract(r'boost::fibers::context::terminate\(\)', term)
        def setup(ex, st, W=W, isref=isref):
            ex.this = ex.symobj('this', W, True); L = W.replace('Fn&', 'Fn &'); F = lay.off(L, 'fn_'); A = lay.off(L, 'arg_')
            if isref:
                ex.fobj = ex.this.add(F)
            else: ex.fobj = ex.this.add(F)
            ex.fid = ex.load1(st, ex.fobj, ('i', 64)); ex.vid = ex.load1(st, ex.this.add(A), ('i', 64)); ex.moved_ids = (ex.fid, ex.vid); ex.sret = ex.symobj('ret', 'fiber', True); ex.c = ex.symobj('c', 'fiber', True); ex.store(st, ex.c, NULL, 8)
            st.g[('live', ex.this.base, A)] = True; st.g[('fnlive', ex.this.base, F)] = True
            return [ex.sret, ex.this, ex.c]
        def post(ex, o, fn=fn):
            st = o.st; P = lambda n, c: ex.prove(st, n, c, fn)
            P('the fiber function returns normally', z3.BoolVal(o.kind == 'ret')); P('the function ran and the fiber terminated', z3.BoolVal(bool(st.g.get('called') and st.g.get('term'))))
            cc = st.g.get('cc'); P('the fiber that resumes the finished one gets control back', ex.ptr_eq(ex.load1(st, ex.sret, PTR), cc) if cc is not None else False); ex.cover('done', st)
        us.append(Unit('worker_context<%s>::run_' % ('Fn&' if isref else 'Fn'), fn, setup, post, ('done',), contracts))

# ---------------------------------------------------------------------------------- constructors of a handle
OVL = {  # wrapper -> (has policy, has properties, has allocator)
    'tu_ctor(%s*, Fn&&, Val&)': (0, 0, 0), 'tu_ctor_policy(%s*, boost::fibers::launch, Fn&&, Val&)': (1, 0, 0), 'tu_ctor_alloc(%s*, Stk&, Fn&&, Val&)': (0, 0, 1),
    'tu_ctor_policy_alloc(%s*, boost::fibers::launch, Stk&, Fn&&, Val&)': (1, 0, 1), 'tu_ctor_props(%s*, boost::fibers::fiber_properties*, Fn&&, Val&)': (0, 1, 0),
    'tu_ctor_policy_props(%s*, boost::fibers::launch, boost::fibers::fiber_properties*, Fn&&, Val&)': (1, 1, 0), 'tu_ctor_props_alloc(%s*, boost::fibers::fiber_properties*, Stk&, Fn&&, Val&)': (0, 1, 1),
    'tu_ctor_policy_props_alloc(%s*, boost::fibers::launch, boost::fibers::fiber_properties*, Stk&, Fn&&, Val&)': (1, 1, 1)}
def u_ctor(lay, O, us):
    def make(ex, st, c):
        P = lambda n, g: ex.prove(st, n, g); sr, pol, props, sal, fn, val = c.args
        P('the fiber is made exactly once', z3.BoolVal(not st.g.get('made')))
        P('the fiber gets the launch policy that was given (post by default)', pol == (ex.pol if ex.hp else bv(1, 32)))
        P('the fiber gets the properties that were given (none by default)', ex.ptr_eq(props, ex.props if ex.hr else NULL))
        if ex.ha: P('the stack comes from the allocator that was given', ex.ptr_eq(sal, ex.sal))
        P('the fiber gets the function and the arguments that were given', z3.And(ex.load1(st, fn, ('i', 64)) == ex.fid, val_id(ex, st, val) == ex.vid)); val_used(ex, st, val)
        P('the function is handed on as it was given (by reference until it is stored)', z3.BoolVal(fn.base is ex.fnp.base))
        e = st.fork(); e.note('making the fiber fails'); e.g['failed'] = True
        A = ex.A; st.g['made'] = True; st.g[('ref', A.base)] = 1; ex.store(st, sr, A, 8)
        return [ex.throw(e, None, tag='user'), Out('ret', st, None)]
    def start(ex, st, c):
        P = lambda n, g: ex.prove(st, n, g)
        P('the fiber that was made is launched, once', z3.And(z3.BoolVal(bool(st.g.get('made') and not st.g.get('started'))), ex.ptr_eq(c.args[0], ex.f), ex.ptr_eq(impl(ex, st, O, ex.f), ex.A)))
        st.g['started'] = True; return [Out('ret', st, None)]
    def contracts(ex):
        setup_me(ex); stdlib(ex); val_contracts(ex); fn_contracts(ex); ref_contracts(ex)
        ex.contract(r'(boost::intrusive_ptr<boost::fibers::context> )?boost::fibers::make_worker_context_with_properties<.*>\(.*', make); ex.contract(r'boost::fibers::fiber::start_\(\)', start)
        ex.contract(r'boost::context::stack_traits::default_size\(\)', lambda ex, st, c: [Out('ret', st, freshbv('size'))]); ex.contract(r'boost::context::basic_fixedsize_stack<.*>::basic_fixedsize_stack\(.*', c_void)
    for w, (hp, hr, ha) in OVL.items():
        fname = w % FIB
        for thr in (False, True):
            def setup(ex, st, hp=hp, hr=hr, ha=ha, thr=thr):
                ex.val_throws = thr; ex.hp, ex.hr, ex.ha = hp, hr, ha; ex.f = ex.symobj('f', FIB, True); ex.store(st, ex.f.add(O.impl_), ex.sym(freshbv('raw')), 8)
                ex.A = ex.symobj('A', CTX, True); ex.pol = freshbv('policy', 32); st.assume(z3.ULE(ex.pol, bv(1, 32))); ex.props = ex.sym(freshbv('props')); ex.sal = ex.symobj('salloc', 'Stk', True)
                ex.fnp = ex.symobj('fn', 'Fn', True); ex.vp = ex.symobj('val', 'Val', True); ex.fid = ex.load1(st, ex.fnp, ('i', 64)); ex.vid = ex.load1(st, ex.vp, ('i', 64))
                st.g[('live', ex.vp.base, 0)] = True; st.g[('fnlive', ex.fnp.base, 0)] = True
                return [ex.f] + ([ex.pol] if hp else []) + ([ex.props] if hr else []) + ([ex.sal] if ha else []) + [ex.fnp, ex.vp]
            def post(ex, o, fname=fname):
                st = o.st; P = lambda n, c: ex.prove(st, n, c, fname); no_live_locals(ex, st, fname)
                if o.kind == 'exc': P('the constructor fails only if making the fiber or moving an argument failed', z3.BoolVal(bool(st.g.get('failed') or st.g.get('valthrew')) and not st.g.get('started') and not st.g.get('made'))); ex.cover('failed', st)
                else:
                    P('the handle owns the fiber it made, which was launched exactly once', z3.And(z3.BoolVal(o.kind == 'ret' and bool(st.g.get('started')) and refs(st, ex.A.base) == 1), ex.ptr_eq(impl(ex, st, O, ex.f), ex.A))); ex.cover('ok', st)
            us.append(Unit('fiber::fiber (%s%s%s function, argument%s)' % ('policy, ' if hp else '', 'properties, ' if hr else '', 'allocator, ' if ha else '', '; moving throws' if thr else ''), fname, setup, post, ('ok', 'failed'), contracts))

def units13(lay):
    us = []; O = offs(lay); u_ctx_join(lay, O, us); u_handles(lay, O, us); u_terminate(lay, O, us); return us
def units14(lay):
    us = []; O = offs(lay); u_terminate(lay, O, us); u_refcount(lay, O, us); u_start(lay, O, us); u_run(lay, O, us); u_ctor(lay, O, us)
    from . import sched
    sched.u_terminated(lay, sched.offs(lay), us); return us
