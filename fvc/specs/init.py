"""C26: replacing the scheduling algorithm, setting up and tearing down a thread."""
from ..lib import *
from ..core import _ctr, memfun
from ..containers import *
from .life import CTX, NS, SCHED
PROPS = ['C26']
ALGO = NS + 'algo::algorithm'; AP = 'boost::intrusive_ptr<%s>' % ALGO; CI = NS + 'context_initializer'; SAW = NS + 'stack_allocator_wrapper'
def prop(pid):
    return dict(srcs=['tu/init.cpp', 'scheduler.cpp', 'context.cpp', 'algo/round_robin.cpp'], units=units,
                trusted=['contract of the scheduling algorithm interface: pick_next() takes out the oldest ready fiber, or none if another thread took it (C20-C22)', 'contract of boost::intrusive::list as an abstract sequence', 'contract of detail::spinlock (C23)',
                         'contract of scheduler::dispatch (C17): the main fiber is resumed during tear-down only when no worker fiber is left', 'thread_local destructors registered with __cxa_thread_atexit run once, at the exit of the thread', 'contract of make_dispatcher_context (C25)'],
                assumptions=['use_scheduling_algorithm/initialize_thread are called by a running fiber of the thread', 'allocation failure while a thread is set up terminates the program (the functions are noexcept)'])
def aref(st, b): return st.g.get(('aref', b), 0)
def algo_refs(ex):
    def add(ex, st, c):
        b = c.args[0].base; ex.prove(st, 'a reference is taken only to a living algorithm', z3.BoolVal(b.kind != 'null' and not st.g.get(('agone', b)))); st.g[('aref', b)] = aref(st, b) + 1; return [Out('ret', st, None)]
    def rel(ex, st, c):
        b = c.args[0].base; ex.prove(st, 'only a reference that is held is released', z3.BoolVal(aref(st, b) >= 1)); no_spinlock(ex, st, 'an algorithm, which might be destroyed, is released')
        st.g[('aref', b)] = aref(st, b) - 1
        if aref(st, b) <= 0: st.g[('agone', b)] = True
        return [Out('ret', st, None)]
    ex.contract(r'(boost::fibers::algo::)?intrusive_ptr_add_ref\(boost::fibers::algo::algorithm\*\)', add); ex.contract(r'(boost::fibers::algo::)?intrusive_ptr_release\(boost::fibers::algo::algorithm\*\)', rel)
def ctx_refs(ex):
    def add(ex, st, c): b = c.args[0].base; ex.prove(st, 'a reference is taken only to a living fiber', z3.BoolVal(b.kind != 'null' and not st.g.get(('gone', b)))); st.g[('cref', b)] = st.g.get(('cref', b), 0) + 1; return [Out('ret', st, None)]
    def rel(ex, st, c):
        b = c.args[0].base; n = st.g.get(('cref', b), 0); ex.prove(st, 'only a reference that is held is released', z3.BoolVal(n >= 1)); st.g[('cref', b)] = n - 1; log(st, ('crelease', b)); f = getattr(ex, 'on_crelease', None)
        if f: f(ex, st, b, n - 1)
        if n <= 1: st.g[('gone', b)] = True
        return [Out('ret', st, None)]
    ex.contract(r'boost::fibers::intrusive_ptr_add_ref\(boost::fibers::context\*\)', add); ex.contract(r'boost::fibers::intrusive_ptr_release\(boost::fibers::context\*\)', rel)
def offs(lay):
    o = SimpleNamespace()
    for f in ('algo_', 'remote_ready_queue_', 'remote_ready_splk_', 'sleep_queue_', 'terminated_queue_', 'worker_queue_', 'dispatcher_ctx_', 'main_ctx_', 'shutdown_'): setattr(o, f, lay.off(SCHED, f))
    for f in ('scheduler_', 'type_', 'use_count_', 'terminated_', 'c_', 'properties_'): setattr(o, 'c' + f, lay.off(CTX, f))
    return o
evs = lambda st, k: [e for e in st.g.get('_log', ()) if e[0] == k]

def u_set_algo(lay, O, us):
    """the ready fibers of the old algorithm are old[h0..t0); K is an arbitrary index into them"""
    fn = SCHED + '::set_algo(%s)' % AP
    for shared in (False, True):
        def contracts(ex):
            setup_me(ex); stdlib(ex); spinlock_contracts(ex); intrusive_contracts(ex, lay); algo_refs(ex)
            def on(ex, st, c, what, who): ex.prove(st, '%s is called on the %s algorithm' % (what, 'old' if who is ex.OLD else 'new'), ex.ptr_eq(c.args[0], who)); ex.prove(st, 'an algorithm is used only while it is alive', z3.BoolVal(aref(st, who.base) >= 1)); no_spinlock(ex, st, 'an algorithm is called')
            def has(ex, st, c):
                on(ex, st, c, 'has_ready_fibers', ex.OLD); h, t, a = st.g['oq']; return [Out('ret', st, z3.Not(h == t))]
            def pick(ex, st, c):
                on(ex, st, c, 'pick_next', ex.OLD); outs = []
                for s, b in ex.split2(st, simp(st.g['oq'][0] == st.g['oq'][1])):
                    h, t, a = s.g['oq']
                    if b: outs.append(Out('ret', s, NULL)); continue
                    if ex.shared:
                        s2 = s.fork(); s2.g['oq'] = (t, t, a); s2.g['stolen'] = z3.BoolVal(True); outs.append(Out('ret', s2, NULL))
                        ex.prove(s, 'a fiber that was handed on is not taken and handed on again', z3.ULT(h, ex.t0))
                    s.g['oq'] = (simp(h + 1), t, a); s.g['picked'] = simp(s.g['picked'] + 1); x = ex.sym(simp(z3.Select(a, h)), CTX); s.assume(x.bv() != 0); set_linked(s, 'ready_hook_', x, False); outs.append(Out('ret', s, x))
                return outs
            def awk(ex, st, c):
                on(ex, st, c, 'awakened', ex.NEW); x = c.args[1]; ex.prove(st, 'only fibers are handed to the new algorithm', x.bv() != 0)
                l = linked(st, 'ready_hook_', x); ex.prove(st, 'a fiber handed to the new algorithm is in no other queue', z3.BoolVal(l is False) if not isinstance(l, z3.ExprRef) else z3.Not(l))
                n, a = st.g['nq']; st.g['nq'] = (simp(n + 1), z3.Store(a, n, x.bv()))
                if ex.shared: h, t, b = st.g['oq']; st.g['oq'] = (h, simp(t + 1), z3.Store(b, t, x.bv()))
                return [Out('ret', st, None)]
            V = r'virtual .*algorithm::'
            ex.contract(V + r'has_ready_fibers\(.*', has); ex.contract(V + r'pick_next\(.*', pick); ex.contract(V + r'awakened\(.*', awk)
            def cands(ex, fn, st0, phi0, H):
                l = [('moved', lambda s, ph: z3.And(z3.ULE(s.g['nq'][0], bv(1 << 61)), z3.Implies(z3.ULT(ex.K, s.g['nq'][0]), z3.Select(s.g['nq'][1], ex.K) == ex.oldK))),
                     ('order', lambda s, ph: z3.And(z3.ULE(ex.h0, s.g['oq'][0]), z3.ULE(s.g['oq'][0], s.g['oq'][1]), z3.ULT(s.g['oq'][1], bv(1 << 62)))),
                     ('orig', lambda s, ph: z3.Implies(z3.ULT(s.g['oq'][0], ex.t0), z3.And(s.g['oq'][1] == ex.t0, z3.Select(s.g['oq'][2], ex.h0 + ex.K) == ex.oldK))),
                     ('last', lambda s, ph: z3.ULE(s.g['oq'][0], ex.t0)),
                     ('direct', lambda s, ph: s.g['nq'][0] == s.g['oq'][0] - ex.h0),
                     ('kept', lambda s, ph: s.g['oq'][1] == ex.t0),
                     ('picked', lambda s, ph: z3.And(z3.ULE(s.g['picked'], ex.t0 - ex.h0), z3.Or(s.g['stolen'], s.g['picked'] == s.g['oq'][0] - ex.h0))),
                     ('stolen', lambda s, ph: z3.Or(z3.Not(s.g['stolen']), s.g['oq'][0] == s.g['oq'][1])),
                     ('all picked', lambda s, ph: z3.Or(s.g['stolen'], s.g['picked'] == ex.t0 - ex.h0)),
                     ('drained', lambda s, ph: s.g['oq'][0] == ex.t0)]
                for k in st0.g:
                    if isinstance(k, tuple) and len(k) == 3 and k[0] == 'seq':
                        l.append(('tmp len', lambda s, ph, k=k: s.g['nq'][0] + seq_len(s.g[k]) == s.g['picked'] if k in s.g else z3.BoolVal(False)))
                        l.append(('tmp bounds', lambda s, ph, k=k: z3.And(z3.ULE(s.g[k][0], s.g[k][1]), z3.ULT(s.g[k][1], bv(1 << 62)), z3.UGE(s.g[k][0], bv(1 << 40))) if k in s.g else z3.BoolVal(False)))
                        l.append(('tmp picked', lambda s, ph, k=k: z3.ULE(s.g['nq'][0] + seq_len(s.g[k]), ex.t0 - ex.h0) if k in s.g else z3.BoolVal(False)))
                        l.append(('tmp total', lambda s, ph, k=k: z3.Implies(z3.Not(s.g['stolen']), s.g['nq'][0] + seq_len(s.g[k]) == ex.t0 - ex.h0) if k in s.g else z3.BoolVal(False)))
                        l.append(('tmp elem', lambda s, ph, k=k: z3.Implies(z3.And(z3.UGE(ex.K, s.g['nq'][0]), z3.ULT(ex.K - s.g['nq'][0], seq_len(s.g[k]))), z3.Select(s.g[k][2], s.g[k][0] + (ex.K - s.g['nq'][0])) == ex.oldK) if k in s.g else z3.BoolVal(False)))
                return l
            ex.auto_cands = getattr(ex, 'auto_cands', []) + [cands]
        def setup(ex, st, shared=shared):
            ex.shared = shared; ex.this = ex.symobj('this', SCHED, True); ex.OLD = ex.symobj('OLD', ALGO, True); ex.NEW = ex.symobj('NEW', ALGO, True); ex.p = ex.symobj('param', AP, True)
            ex.store(st, ex.this.add(O.algo_), ex.OLD, 8); ex.store(st, ex.p, ex.NEW, 8); st.g[('aref', ex.OLD.base)] = 1; st.g[('aref', ex.NEW.base)] = 1
            ex.main = ex.load1(st, ex.this.add(O.main_ctx_), PTR); ex.disp = ex.load1(st, ex.this.add(O.dispatcher_ctx_), PTR)
            h = freshbv('old.h'); t = freshbv('old.t'); a = fresh('old.e', ARR); st.assume(z3.And(z3.UGE(h, bv(1 << 40)), z3.ULE(h, t), z3.ULT(t, bv(1 << 60)))); st.g['oq'] = (h, t, a); st.g['nq'] = (bv(0), fresh('new.e', ARR)); st.g['stolen'] = z3.BoolVal(False); st.g['picked'] = bv(0)
            ex.h0 = h; ex.t0 = t; ex.K = freshbv('K'); st.assume(z3.ULT(ex.K, t - h)); ex.oldK = z3.Select(a, h + ex.K)
            m = Monitor('remote_ready_splk_', SCHED, O.remote_ready_splk_, {}, bases={ex.this.base}); use_monitors(ex, m); ex.rm = m
            def wr(ex, st, p, ty, mod, val=None):
                if p.base is ex.this.base and isint(p.off) and p.off == O.algo_: ex.prove(st, 'the algorithm, which other threads notify, is replaced only under the lock of the remote queue', z3.BoolVal(is_held(st, ex.rm, ex.this.base)))
                return None
            ex.hooks_store.append(wr); return [ex.this, ex.p]
        def post(ex, o, shared=shared):
            st = o.st; P = lambda n, c: ex.prove(st, n, c, fn); f = ex.load1(st, ex.this.add(O.algo_), PTR); q = ex.load1(st, ex.p, PTR); n, a = st.g['nq']
            P('set_algo returns normally', z3.BoolVal(o.kind == 'ret')); P('the new algorithm is installed', ex.ptr_eq(f, ex.NEW)); P('no lock is left held', z3.BoolVal(len(held(st)) == 0))
            for x, nm in ((ex.OLD, 'old'), (ex.NEW, 'new')): P('every reference to the %s algorithm is accounted for' % nm, z3.If(ex.ptr_eq(f, x), 1, 0) + z3.If(ex.ptr_eq(q, x), 1, 0) == aref(st, x.base))
            P('every fiber that was ready is handed to the new algorithm exactly once', z3.Or(st.g['stolen'], n == ex.t0 - ex.h0)); P('the fibers are handed on in the order of the old ready queue', z3.Or(st.g['stolen'], z3.Select(a, ex.K) == ex.oldK))
            P('the fibers handed on are ready fibers of the old algorithm, in order', z3.Implies(z3.ULT(ex.K, n), z3.Select(a, ex.K) == ex.oldK))
            P('the main and the dispatcher fiber of the thread stay', z3.And(ex.ptr_eq(ex.load1(st, ex.this.add(O.main_ctx_), PTR), ex.main), ex.ptr_eq(ex.load1(st, ex.this.add(O.dispatcher_ctx_), PTR), ex.disp)))
            for s, b in ex.split2(st, st.g['stolen']): ex.cover('stolen' if b else 'done', s)
        us.append(Unit('scheduler::set_algo (%s ready queue)' % ('shared' if shared else 'own'), fn, setup, post, ('done', 'stolen') if shared else ('done',), contracts))

def u_attach(lay, O, us):
    fn = SCHED + '::attach_main_context(%s*)' % CTX
    def setup(ex, st): ex.this = ex.symobj('this', SCHED, True); ex.C = ex.symobj('C', CTX, True); return [ex.this, ex.C]
    def post(ex, o):
        st = o.st; ex.prove(st, 'scheduler and main fiber know each other', z3.And(z3.BoolVal(o.kind == 'ret'), ex.ptr_eq(ex.load1(st, ex.this.add(O.main_ctx_), PTR), ex.C), ex.ptr_eq(ex.load1(st, ex.C.add(O.cscheduler_), PTR), ex.this)), fn)
    us.append(Unit('scheduler::attach_main_context', fn, setup, post, (), lambda ex: stdlib(ex)))
    fn2 = SCHED + '::attach_dispatcher_context(boost::intrusive_ptr<%s>)' % CTX
    def contracts2(ex):
        stdlib(ex); ctx_refs(ex); algo_refs(ex)
        def awk(ex, st, c): P = lambda n, g: ex.prove(st, n, g); P('the dispatcher fiber is made ready with the algorithm of the thread, attached', z3.And(ex.ptr_eq(c.args[0], ex.A), ex.ptr_eq(c.args[1], ex.C), ex.ptr_eq(ex.load1(st, ex.C.add(O.cscheduler_), PTR), ex.this), ex.ptr_eq(ex.load1(st, ex.this.add(O.dispatcher_ctx_), PTR), ex.C))); log(st, ('awk',)); return [Out('ret', st, None)]
        ex.contract(r'virtual .*algorithm::awakened\(.*', awk)
    def setup2(ex, st):
        ex.this = ex.symobj('this', SCHED, True); ex.C = ex.symobj('C', CTX, True); ex.A = ex.symobj('A', ALGO, True); ex.p = ex.symobj('param', 'ip', True); ex.store(st, ex.this.add(O.algo_), ex.A, 8); ex.store(st, ex.this.add(O.dispatcher_ctx_), NULL, 8); ex.store(st, ex.p, ex.C, 8); st.g[('cref', ex.C.base)] = 1; return [ex.this, ex.p]
    def post2(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fn2); d = ex.load1(st, ex.this.add(O.dispatcher_ctx_), PTR); q = ex.load1(st, ex.p, PTR)
        P('the dispatcher fiber is installed and ready exactly once', z3.And(z3.BoolVal(o.kind == 'ret' and len(evs(st, 'awk')) == 1), ex.ptr_eq(d, ex.C))); P('the scheduler holds a reference to its dispatcher fiber', z3.If(ex.ptr_eq(q, ex.C), 1, 0) + 1 == st.g[('cref', ex.C.base)])
    us.append(Unit('scheduler::attach_dispatcher_context', fn2, setup2, post2, (), contracts2))
    fn3 = SCHED + '::scheduler(%s)' % AP
    def contracts3(ex): stdlib(ex); algo_refs(ex); intrusive_contracts(ex, lay); ex.monitors = []
    def setup3(ex, st): ex.this = ex.symobj('this', SCHED, True); ex.this.base.x = 'raw'; ex.A = ex.symobj('A', ALGO, True); ex.p = ex.symobj('param', AP, True); ex.store(st, ex.p, ex.A, 8); st.g[('aref', ex.A.base)] = 1; return [ex.this, ex.p]
    def post3(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fn3); T = ex.this; q = ex.load1(st, ex.p, PTR)
        P('the scheduler has the given algorithm and a reference to it', z3.And(z3.BoolVal(o.kind == 'ret'), ex.ptr_eq(ex.load1(st, T.add(O.algo_), PTR), ex.A), z3.If(ex.ptr_eq(q, ex.A), 1, 0) + 1 == aref(st, ex.A.base)))
        P('the scheduler does not shut down', ex.load1(st, T.add(O.shutdown_), ('i', 8)) == 0); P('no fiber is attached yet', z3.And(ex.load1(st, T.add(O.main_ctx_), PTR).bv() == 0, ex.load1(st, T.add(O.dispatcher_ctx_), PTR).bv() == 0))
        for f in ('worker_queue_', 'terminated_queue_', 'sleep_queue_', 'remote_ready_queue_'):
            s = st.g.get(('seq', T.base, getattr(O, f))); P('the queues are empty', seq_empty(s) if s is not None else False)
    us.append(Unit('scheduler constructor', fn3, setup3, post3, (), contracts3))

def u_sched_dtor(lay, O, us):
    fn = SCHED + '::~scheduler()'
    def contracts(ex):
        setup_me(ex); stdlib(ex); algo_refs(ex); ctx_refs(ex); intrusive_contracts(ex, lay)
        def clean(ex, st, c): P = lambda n, g: ex.prove(st, n, g); P('the fiber-specific data of the main fiber is cleaned up while the thread still works, once', z3.And(ex.ptr_eq(c.args[0], ex.ME), z3.BoolVal(not st.g.get('_log')))); log(st, ('clean',)); return [Out('ret', st, None)]
        def susp(ex, st, c):
            P = lambda n, g: ex.prove(st, n, g); P('the main fiber waits for the end of all fibers', ex.ptr_eq(c.args[0], ex.ME)); no_spinlock(ex, st, 'the main fiber suspends')
            P('the dispatcher fiber is told to end first', ex.load1(st, ex.this.add(O.shutdown_), ('i', 8)) == 1); P('dispatcher fiber, main fiber and algorithm exist while fibers end', z3.And(ex.ptr_eq(ex.load1(st, ex.this.add(O.dispatcher_ctx_), PTR), ex.D), ex.ptr_eq(ex.load1(st, ex.this.add(O.main_ctx_), PTR), ex.ME), ex.ptr_eq(ex.load1(st, ex.this.add(O.algo_), PTR), ex.A), z3.BoolVal(aref(st, ex.A.base) == 1)))
            h = bv(1 << 41)
            for q in (O.sleep_queue_, O.terminated_queue_, O.worker_queue_): seq_set(st, ex.this.add(q), (h, h, fresh('q.e', ARR)))
            log(st, ('suspend',)); return [Out('ret', st, None)]
        def reset(ex, st, c): log(st, ('reset',)); return [Out('ret', st, None)]
        def on_crelease(ex, st, b, n):
            P = lambda nm, g: ex.prove(st, nm, g); P('the dispatcher fiber is released', z3.BoolVal(b is ex.D.base)); P('the dispatcher fiber is released after all fibers ended, when no fiber is active any more', z3.BoolVal([e[0] for e in st.g.get('_log', ()) if e[0] in ('suspend', 'reset')] == ['suspend', 'reset']))
        ex.on_crelease = on_crelease
        ex.contract(r'virtual .*algorithm::has_ready_fibers\(.*', lambda ex, st, c: [Out('ret', st, fresh('ready', z3.BoolSort()))]); ex.contract(r'boost::fibers::context::cleanup_fss_data_\(\)', clean); ex.contract(r'boost::fibers::context::suspend\(\)', susp); ex.contract(r'boost::fibers::context::reset_active\(\)', reset)
    def setup(ex, st):
        ex.this = ex.symobj('this', SCHED, True); ex.D = ex.symobj('D', CTX, True); ex.A = ex.symobj('A', ALGO, True); L = ex.this
        ex.store(st, L.add(O.main_ctx_), ex.ME, 8); ex.store(st, L.add(O.dispatcher_ctx_), ex.D, 8); ex.store(st, L.add(O.algo_), ex.A, 8); st.g[('aref', ex.A.base)] = 1; st.g[('cref', ex.D.base)] = 1
        m = Monitor('remote_ready_splk_', SCHED, O.remote_ready_splk_, {}, bases={ex.this.base}); use_monitors(ex, m); return [ex.this]
    def post(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fn); l = [e[0] for e in st.g.get('_log', ())]
        P('the scheduler is torn down normally', z3.BoolVal(o.kind == 'ret')); P('the fibers of the thread end before the scheduler does, once', z3.BoolVal([e for e in l if e in ('clean', 'suspend', 'reset', 'crelease')] == ['clean', 'suspend', 'reset', 'crelease']))
        P('dispatcher fiber and algorithm are released exactly once', z3.BoolVal(st.g[('cref', ex.D.base)] == 0 and aref(st, ex.A.base) == 0)); ex.cover('done', st)
    us.append(Unit('scheduler::~scheduler', fn, setup, post, ('done',), contracts))

def u_thread(lay, O, us, prog_names):
    ACT = '_ZN5boost6fibers19context_initializer7active_E'; CNT = '_ZN5boost6fibers19context_initializer8counter_E'; GRD = '_ZGVZN5boost6fibers7context6activeEvE15ctx_initializer'
    G = lambda ex, n: Ptr(ex.globreg(n), 0)
    I2 = CI + '::initialize(%s, %s&&)' % (AP, SAW)
    # set up with a given algorithm
    def contracts(ex):
        stdlib(ex); algo_refs(ex); ctx_refs(ex)
        ex.contract(r'boost::intrusive::(generic_hook|list_member_hook|slist_member_hook|set_member_hook)<.*>::\w+\(\)', lambda ex, st, c: [Out('ret', st, None)])
        def sctor(ex, st, c):
            a = ex.load1(st, c.args[1], PTR); ex.prove(st, 'the scheduler gets the given algorithm', ex.ptr_eq(a, ex.A)); ex.prove(st, 'one scheduler is made', z3.BoolVal('S' not in st.g)); st.g['S'] = c.args[0]; c.args[0].base.cls = SCHED
            st.g[('aref', a.base)] = aref(st, a.base) + 1; return [Out('ret', st, None)]
        def amain(ex, st, c):
            M = c.args[1]; P = lambda n, g: ex.prove(st, n, g); P('the main fiber is attached to the scheduler, once', z3.And(ex.ptr_eq(c.args[0], st.g.get('S', NULL)), z3.BoolVal('M' not in st.g))); st.g['M'] = M
            L = lambda f, ty: ex.load1(st, M.add(getattr(O, f)), ty)
            P('the main fiber is a main fiber with one reference, running', z3.And(L('ctype_', ('i', 32)) == 2, L('cuse_count_', ('i', 64)) == 1, L('cterminated_', ('i', 8)) == 0, L('cproperties_', PTR).bv() == 0) if M.base.kind == 'heap' else False); return [Out('ret', st, None)]
        def adisp(ex, st, c): P = lambda n, g: ex.prove(st, n, g); P('the new dispatcher fiber is attached to the scheduler, once, after the main fiber', z3.And(ex.ptr_eq(c.args[0], st.g.get('S', NULL)), ex.ptr_eq(ex.load1(st, c.args[1], PTR), ex.D), z3.BoolVal('M' in st.g and 'D' not in st.g))); st.g['D'] = True; st.g[('cref', ex.D.base)] += 1; return [Out('ret', st, None)]
        def mk(ex, st, c):
            sr, sa = c.args if len(c.args) == 2 else (None, c.args[0]); P = lambda n, g: ex.prove(st, n, g); P('the dispatcher fiber is made on the given kind of stack, once', z3.And(ex.ptr_eq(sa, ex.salloc) if sa.base is ex.salloc.base else ex.load1(st, sa, ('i', 64)) == ex.sid, z3.BoolVal('mk' not in st.g))); st.g['mk'] = True; st.g[('cref', ex.D.base)] = 1
            if sr is None: return [Out('ret', st, ex.D)]
            ex.store(st, sr, ex.D, 8); return [Out('ret', st, None)]
        ex.contract(r'boost::fibers::scheduler::scheduler\(.*', sctor); ex.contract(r'boost::fibers::scheduler::attach_main_context\(.*', amain); ex.contract(r'boost::fibers::scheduler::attach_dispatcher_context\(.*', adisp)
        ex.contract(r'(boost::intrusive_ptr<boost::fibers::context> )?boost::fibers::make_dispatcher_context\(.*', mk)
        ex.contract(r'(std::map|std::_Rb_tree)<.*>::(map|_Rb_tree)\(\)', lambda ex, st, c: [Out('ret', st, None)]); intrusive_contracts(ex, lay)
        ex.contract(r'std::unique_ptr<boost::fibers::detail::polymorphic_stack_allocator_base.*>::unique_ptr\(std::unique_ptr<.*&&\)', lambda ex, st, c: [ex.store(st, c.args[0], ex.load1(st, c.args[1], ('i', 64)), 8), ex.store(st, c.args[1], bv(0), 8), Out('ret', st, None)][2:]); ex.contract(r'std::unique_ptr<boost::fibers::detail::polymorphic_stack_allocator_base.*>::~unique_ptr\(\)', lambda ex, st, c: [Out('ret', st, None)])
    def setup(ex, st):
        ex.ci = ex.symobj('ci', CI, True); ex.A = ex.symobj('A', ALGO, True); ex.p = ex.symobj('param', AP, True); ex.store(st, ex.p, ex.A, 8); st.g[('aref', ex.A.base)] = 1; ex.salloc = ex.symobj('salloc', SAW, True); ex.sid = ex.load1(st, ex.salloc, ('i', 64)); ex.D = ex.symobj('D', CTX, True); return [ex.ci, ex.p, ex.salloc]
    def post(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, I2)
        if o.kind != 'ret': P('only a failing allocation makes the set-up fail', z3.BoolVal(o.kind == 'exc' and 'bad_alloc' in str(o.val.tinfo))); return
        P('one scheduler, one main and one dispatcher fiber are made', z3.BoolVal(all(k in st.g for k in ('S', 'M', 'D', 'mk')))); P('the main fiber is the active one', ex.ptr_eq(ex.load1(st, G(ex, ACT), PTR), st.g['M']) if 'M' in st.g else False)
        P('references are neither lost nor left over', z3.BoolVal(st.g.get(('cref', ex.D.base)) == 1) if True else None); P('the algorithm is referenced by the scheduler', z3.If(ex.ptr_eq(ex.load1(st, ex.p, PTR), ex.A), 1, 0) + 1 == aref(st, ex.A.base)); ex.cover('done', st)
    us.append(Unit('context_initializer::initialize (algorithm, stack allocator)', I2, setup, post, ('done',), contracts))
    # default set-up
    I0 = CI + '::initialize()'
    def contracts0(ex):
        setup_me(ex); stdlib(ex); algo_refs(ex)
        def rr(ex, st, c): ex.prove(st, 'one default algorithm is made', z3.BoolVal('A' not in st.g)); st.g['A'] = c.args[0]; return [Out('ret', st, None)]
        def mkw(ex, st, c):
            if c.args: ex.store(st, c.args[0], freshbv('wrap'), 8)
            return [Out('ret', st, None if c.args else ex.sym(freshbv('wrap')))]
        def ini(ex, st, c): a = ex.load1(st, c.args[1], PTR); ex.prove(st, 'the thread is set up once, with the algorithm that was made and a living reference to it', z3.And(ex.ptr_eq(a, st.g.get('A', NULL)), z3.BoolVal('ini' not in st.g and aref(st, a.base) >= 1))); st.g['ini'] = True; st.g[('aref', a.base)] = aref(st, a.base) + 1; return [Out('ret', st, None)]
        ex.contract(r'boost::fibers::algo::round_robin::round_robin\(.*', rr); ex.contract(r'(boost::fibers::stack_allocator_wrapper )?boost::fibers::make_stack_allocator_wrapper<.*>\(.*', mkw); ex.contract(re.escape(I2), ini); ex.contract(r'boost::fibers::stack_allocator_wrapper::~stack_allocator_wrapper\(\)', lambda ex, st, c: [Out('ret', st, None)])
    def post0(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, I0)
        if o.kind != 'ret': P('only a failing allocation makes the set-up fail', z3.BoolVal(o.kind == 'exc' and 'bad_alloc' in str(o.val.tinfo))); return
        P('the thread is set up', z3.BoolVal('ini' in st.g)); P('only the scheduler keeps a reference to the algorithm', z3.BoolVal('A' in st.g and aref(st, st.g['A'].base) == 1)); ex.cover('done', st)
    us.append(Unit('context_initializer::initialize (default)', I0, lambda ex, st: [ex.symobj('ci', CI, True)], post0, ('done',), contracts0))
    # tear-down
    DI = CI + '::deinitialize()'
    def contractsd(ex):
        stdlib(ex); ex.ptr_labels[(CTX, O.cscheduler_)] = SCHED
        def sd(ex, st, c): ex.prove(st, 'the scheduler of the thread is torn down once, before its main fiber', z3.And(ex.ptr_eq(c.args[0], ex.S), z3.BoolVal(not evs(st, 'sd') and not evs(st, 'md')))); log(st, ('sd',)); return [Out('ret', st, None)]
        def md(ex, st, c): ex.prove(st, 'the main fiber is destroyed once, after the scheduler', z3.And(ex.ptr_eq(c.args[0], ex.M), z3.BoolVal(len(evs(st, 'sd')) == 1 and not evs(st, 'md')))); log(st, ('md',)); return [Out('ret', st, None)]
        def dele(ex, st, c): log(st, ('free', c.args[0])); return [Out('ret', st, None)]
        def sdd(ex, st, c): sd(ex, st, c); log(st, ('free', c.args[0])); return [Out('ret', st, None)]
        ex.contract(r'boost::fibers::scheduler::~scheduler\(\)', sd); ex.contract(r'virtual .*scheduler::~scheduler\(\) \[deleting\].*', sdd); ex.contract(r'virtual .*context::~context\(\) \[deleting\].*', md); ex.contract(r'operator delete\(void\*.*', dele, True)
    def setupd(ex, st): ex.M = ex.symobj('M', CTX, True); ex.S = ex.symobj('S', SCHED, True); ex.store(st, ex.M.add(O.cscheduler_), ex.S, 8); ex.store(st, G(ex, ACT), ex.M, 8); return [ex.symobj('ci', CI, True)]
    def postd(ex, o): st = o.st; P = lambda n, c: ex.prove(st, n, c, DI); P('scheduler and main fiber of the thread are destroyed', z3.And(z3.BoolVal(o.kind == 'ret' and len(evs(st, 'sd')) == 1 and len(evs(st, 'md')) == 1 and len(evs(st, 'free')) == 1), *[ex.ptr_eq(e[1], ex.S) for e in evs(st, 'free')]))
    us.append(Unit('context_initializer::deinitialize', DI, setupd, postd, (), contractsd))
    # counting
    def count_contracts(ex):
        stdlib(ex); algo_refs(ex)
        def ini0(ex, st, c): ex.prove(st, 'a thread is set up only if it is not set up yet', z3.BoolVal(not st.g['up'])); st.g['up'] = True; log(st, ('init', None, None)); ex.store(st, G(ex, ACT), ex.M, 8); return [Out('ret', st, None)]
        def ini2(ex, st, c):
            ex.prove(st, 'a thread is set up only if it is not set up yet', z3.BoolVal(not st.g['up'])); a = ex.load1(st, c.args[1], PTR); st.g['up'] = True; st.g[('aref', a.base)] = aref(st, a.base) + 1; log(st, ('init', a, c.args[2])); ex.store(st, G(ex, ACT), ex.M, 8); return [Out('ret', st, None)]
        def dei(ex, st, c): ex.prove(st, 'only a thread that is set up is torn down', z3.BoolVal(bool(st.g['up']))); st.g['up'] = False; log(st, ('deinit',)); return [Out('ret', st, None)]
        def atexit(ex, st, c):
            f = c.args[0]; ex.prove(st, 'the tear-down at thread exit is registered for the thread\'s own initializer', z3.BoolVal(f.base.kind == 'fn' and 'context_initializerD' in f.base.name)); log(st, ('atexit',)); return [Out('ret', st, bv(0, 32))]
        def seta(ex, st, c): a = ex.load1(st, c.args[1], PTR); log(st, ('set_algo', c.args[0], a)); ex.prove(st, 'the algorithm is alive', z3.BoolVal(aref(st, a.base) >= 1)); return [Out('ret', st, None)]
        ex.contract(re.escape(I0), ini0); ex.contract(re.escape(I2), ini2); ex.contract(re.escape(DI), dei); ex.contract(r'__cxa_thread_atexit', atexit); ex.contract(r'boost::fibers::scheduler::set_algo\(.*', seta)
        ex.contract(r'_ZT[HW].*', lambda ex, st, c: [Out('ret', st, None)])
    def cbase(ex, st, n, guard):
        ex.M = ex.symobj('M', CTX, True); ex.S = ex.symobj('S', SCHED, True); ex.store(st, ex.M.add(O.cscheduler_), ex.S, 8); ex.store(st, G(ex, CNT), n, 8); ex.store(st, G(ex, GRD), bv(guard, 8), 1); up = not (isinstance(n, z3.BitVecNumRef) and n.as_long() == 0); st.g['up'] = up
        ex.store(st, G(ex, ACT), ex.M if up else NULL, 8); ex.n = n
    cnt = lambda ex, st: ex.load1(st, G(ex, CNT), ('i', 64))
    ACTF = CTX + '::active()'
    for nm, guard, up in (('first use', 0, False), ('first use while initialize_thread runs', 0, True), ('later', 1, True)):
        def setupa(ex, st, guard=guard, up=up):
            n = bv(0)
            if up: n = freshbv('n'); st.assume(z3.And(n != 0, z3.ULT(n, bv(1 << 62))))
            cbase(ex, st, n, guard); return []
        def posta(ex, o, guard=guard, up=up):
            st = o.st; P = lambda n, c: ex.prove(st, n, c, ACTF); P('the active fiber of the thread is returned', ex.ptr_eq(o.val, ex.M) if o.kind == 'ret' else False)
            P('the thread is set up, once', z3.BoolVal(bool(st.g['up']) and len(evs(st, 'init')) == (0 if up else 1) and not evs(st, 'deinit'))); P('the tear-down is registered exactly once per thread', z3.BoolVal(len(evs(st, 'atexit')) == 1 - guard)); P('every initializer is counted', cnt(ex, st) == ex.n + (1 - guard))
            P('the registration is remembered', ex.load1(st, G(ex, GRD), ('i', 8)) != 0)
        us.append(Unit('context::active (%s)' % nm, ACTF, setupa, posta, (), count_contracts))
    DT = CI + '::~context_initializer()'
    def setupt(ex, st): n = freshbv('n'); st.assume(z3.And(n != 0, z3.ULT(n, bv(1 << 62)))); cbase(ex, st, n, 1); return [ex.symobj('ci', CI, True)]
    def postt(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, DT); P('the thread is torn down exactly when its last initializer ends', z3.And(z3.BoolVal(o.kind == 'ret' and len(evs(st, 'deinit')) <= 1), z3.BoolVal(len(evs(st, 'deinit')) == 1) == (ex.n == 1))); P('every initializer is counted', cnt(ex, st) == ex.n - 1); ex.cover('last' if evs(st, 'deinit') else 'not last', st)
    us.append(Unit('context_initializer destructor', DT, setupt, postt, ('last', 'not last'), count_contracts))
    IT = CTX + '::initialize_thread(%s, %s&&)' % (AP, SAW)
    for up in (False, True):
        def setupi(ex, st, up=up):
            n = bv(0)
            if up: n = freshbv('n'); st.assume(z3.And(n != 0, z3.ULT(n, bv(1 << 62))))
            cbase(ex, st, n, 1 if up else 0); ex.A = ex.symobj('A', ALGO, True); ex.p = ex.symobj('param', AP, True); ex.store(st, ex.p, ex.A, 8); st.g[('aref', ex.A.base)] = 1; ex.salloc = ex.symobj('salloc', SAW, True); return [ex.p, ex.salloc]
        def posti(ex, o, up=up):
            st = o.st; P = lambda n, c: ex.prove(st, n, c, IT); l = evs(st, 'init'); s = evs(st, 'set_algo')
            P('the call returns normally', z3.BoolVal(o.kind == 'ret'))
            if o.kind != 'ret': return
            P('the result tells whether the thread was set up by this call', ex.toint(o.val, 8) == (0 if up else 1)); P('the thread stays set up until it exits', z3.And(z3.BoolVal(bool(st.g['up']) and not evs(st, 'deinit')), cnt(ex, st) == (ex.n if up else bv(1)))); P('the tear-down at thread exit is registered', z3.BoolVal(len(evs(st, 'atexit')) == (0 if up else 1)))
            if up: P('exactly the given algorithm is installed for the calling thread', z3.And(z3.BoolVal(len(s) == 1 and not l), ex.ptr_eq(s[0][1], ex.S), ex.ptr_eq(s[0][2], ex.A)) if len(s) == 1 else False)
            else: P('the thread is set up with exactly the given algorithm and stack allocator', z3.And(z3.BoolVal(len(l) == 1 and not s), ex.ptr_eq(l[0][1], ex.A), ex.ptr_eq(l[0][2], ex.salloc)) if len(l) == 1 and l[0][1] is not None else False)
            P('the caller\'s reference and the scheduler\'s are the only ones', z3.If(ex.ptr_eq(ex.load1(st, ex.p, PTR), ex.A), 1, 0) + (0 if up else 1) == aref(st, ex.A.base))
        us.append(Unit('context::initialize_thread (%s)' % ('set up before' if up else 'first use'), IT, setupi, posti, (), count_contracts))
    # user interface
    UF = 'tu_use(long&)'
    def contractsu(ex):
        setup_me(ex); stdlib(ex); algo_refs(ex)
        def ctor(ex, st, c): ex.prove(st, 'the algorithm is made once, with the given arguments', z3.And(c.args[1] == ex.arg, z3.BoolVal('A' not in st.g))); st.g['A'] = c.args[0]; return [Out('ret', st, None)]
        def it(ex, st, c): a = ex.load1(st, c.args[0], PTR); ex.prove(st, 'exactly the algorithm that was made is installed, through a living reference', z3.And(ex.ptr_eq(a, st.g.get('A', NULL)), z3.BoolVal('it' not in st.g and aref(st, a.base) >= 1))); st.g['it'] = True; st.g[('aref', a.base)] = aref(st, a.base) + 1; return [Out('ret', st, fresh('res', z3.BoolSort()))]
        def mkw(ex, st, c):
            if c.args: ex.store(st, c.args[0], freshbv('wrap'), 8)
            return [Out('ret', st, None if c.args else ex.sym(freshbv('wrap')))]
        ex.contract(r'Alg::Alg\(long\)', ctor); ex.contract(r'boost::fibers::context::initialize_thread\(.*', it); ex.contract(r'(boost::fibers::stack_allocator_wrapper )?boost::fibers::make_stack_allocator_wrapper<.*>\(.*', mkw); ex.contract(r'boost::fibers::stack_allocator_wrapper::~stack_allocator_wrapper\(\)', lambda ex, st, c: [Out('ret', st, None)])
    def setupu(ex, st): p = ex.symobj('n', 'long', True); ex.arg = ex.load1(st, p, ('i', 64)); return [p]
    def postu(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, UF)
        if o.kind != 'ret': P('a failing constructor or allocation terminates (noexcept)', z3.BoolVal(o.kind == 'stop')); return
        P('the algorithm is installed', z3.BoolVal('it' in st.g)); P('only the scheduler keeps a reference to the algorithm', z3.BoolVal('A' in st.g and aref(st, st.g['A'].base) == 1)); ex.cover('done', st)
    us.append(Unit('use_scheduling_algorithm', UF, setupu, postu, ('done',), contractsu))

def u_refs(lay, O, us):
    uc = lay.off(ALGO, 'use_count_')
    for kind, fname in (('add', 'tu_algo_add_ref(%s*)' % ALGO), ('rel', 'tu_algo_release(%s*)' % ALGO)):
        def h(ex, st, k, p, ty, args, order, mod, kind=kind):
            if not (p.base is ex.F.base and isint(p.off) and p.off == uc): return None
            old = freshbv('count'); ex.prove(st, 'the counter is changed by one atomic operation', z3.BoolVal(k.startswith('rmw:') and 'last' not in st.g))
            if not k.startswith('rmw:'): return [Out('ret', st, old)] if k == 'load' else [Out('ret', st, None)]
            st.assume(z3.And(z3.ULT(old, bv(1 << 62)), old != 0 if kind == 'rel' else z3.BoolVal(True))); new = ex.rmw_new(k[4:], old, args[0], ty); o = str(order[0] if isinstance(order, tuple) else order)
            ex.prove(st, 'the counter changes by exactly one', new == (old + 1 if kind == 'add' else old - 1)); outs = []
            if kind == 'rel': ex.prove(st, 'a reference is given up with release ordering', z3.BoolVal(o in ('release', 'acq_rel', 'seq_cst')))
            else: st.g['last'] = False; return [Out('ret', st, old)]
            for s, last in ex.split2(st, simp(new == 0)): s.g['last'] = last; s.g['acq'] = o in ('acq_rel', 'seq_cst'); outs.append(Out('ret', s, old))
            return outs
        def contracts(ex):
            stdlib(ex)
            def dele(ex, st, c): P = lambda n, g: ex.prove(st, n, g); P('this algorithm is deleted, once, by whoever released the last reference', z3.And(ex.ptr_eq(c.args[0], ex.F), z3.BoolVal(bool(st.g.get('last')) and not st.g.get('deleted')))); P('what others did with it is visible before it is deleted (acquire)', z3.BoolVal(bool(st.g.get('acq')))); st.g['deleted'] = True; return [Out('ret', st, None)]
            ex.contract(r'virtual .*algorithm::~algorithm\(\) \[deleting\].*', dele)
            def fence(st, order):
                if any(x in str(order) for x in ('acquire', 'acq_rel', 'seq_cst')): st.g['acq'] = True
            ex.on_fence = fence
        def setup(ex, st, h=h): ex.F = ex.symobj('F', ALGO, True); ex.hooks_atomic.append(h); return [ex.F]
        def post(ex, o, kind=kind, fname=fname):
            st = o.st; P = lambda n, c: ex.prove(st, n, c, fname); P('the call returns normally', z3.BoolVal(o.kind == 'ret' and 'last' in st.g))
            if kind == 'rel': P('the last release deletes the algorithm, any other does not', z3.BoolVal(bool(st.g.get('deleted')) == bool(st.g.get('last')))); ex.cover('last' if st.g.get('last') else 'not last', st)
        us.append(Unit('algorithm: %s reference' % ('add' if kind == 'add' else 'release'), fname, setup, post, ('last', 'not last') if kind == 'rel' else (), contracts))

def units(lay):
    us = []; O = offs(lay); u_set_algo(lay, O, us); u_attach(lay, O, us); u_sched_dtor(lay, O, us); u_thread(lay, O, us, None); u_refs(lay, O, us); return us
