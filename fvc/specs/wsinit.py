"""C22, set-up of work stealing: every thread registers its scheduler before any thread may steal.
The cpu K is arbitrary; std::vector, std::set and std::call_once through what they say about it."""
from ..lib import *
NS = 'boost::fibers::'; WS = NS + 'algo::work_stealing'; NWS = NS + 'numa::algo::work_stealing'; TB = NS + 'detail::thread_barrier'; NODE = NS + 'numa::node'
B_ = z3.BoolVal
def reg_units(lay, us): barrier_unit(lay, us); ctor_units(lay, us); numa_units(lay, us); pin_units(lay, us)

def barrier_unit(lay, us):
    F = finfo(lay, TB, 'initial_', 'current_', 'cycle_'); MO = lay.off(TB, 'mtx_'); CO = lay.off(TB, 'cond_'); fn = TB + '::wait()'
    def monitor(ex, base):
        def inv(ex, v): return z3.And(z3.UGE(v.current_, bv(1)), z3.ULE(v.current_, v.initial_), z3.ULE(v.cycle_, 1))
        def rely(ex, o, n): return z3.And(o.initial_ == n.initial_, z3.Implies(z3.And(o.cycle_ == n.cycle_, B_(True)), z3.ULE(n.current_, n.initial_)))
        def guar(ex, st, a, n, evs):
            same = z3.And(a.current_ == n.current_, a.cycle_ == n.cycle_)
            if st.g['arrived'] is not None: return [('a call counts as one arrival only', same)]
            return [('each call counts as exactly one arrival: the count drops by one, or the last arrival starts a new cycle with all parties expected',
                     z3.Or(z3.And(a.current_ != 1, n.current_ == a.current_ - 1, n.cycle_ == a.cycle_), z3.And(a.current_ == 1, n.current_ == a.initial_, n.cycle_ == 1 - a.cycle_)))]
        m = Monitor('thread_barrier', TB, MO, F, inv=inv, rely=rely, guar=guar, bases={base}, frozen=('initial_',))
        def on_release(ex, st, base, a, n, evs, how):
            if st.g['arrived'] is None:
                st.g['arrived'] = (a.cycle_, a.current_); st.g['owed'] = simp(z3.And(a.cycle_ != n.cycle_, B_(not any(e[0] == 'cvnotify' for e in evs))))
        m.on_release = on_release
        m._block = lambda ex, st, a, v, q: [('a thread waits only for the end of the cycle in which it arrived', v.cycle_ == (st.g['arrived'][0] if st.g['arrived'] is not None else a.cycle_)), ('the condition variable of the barrier is used', ex.ptr_eq(q[1], ex.this.add(CO))), ('a thread waits without a deadline', B_(q[2] is None))]
        return m
    def contracts(ex):
        setup_me(ex); stdlib(ex); std_mutex_contracts(ex)
        def all_(ex, st, c): 
            ex.prove(st, 'the condition variable of the barrier is used', ex.ptr_eq(c.args[0], ex.this.add(CO)))
            for b, off, name in held(st): cs_event(st, ex.m, b, ('cvnotify', c.args[0]))
            st.g['owed'] = B_(False); return [Out('ret', st, None)]
        ex.contract(r'std::condition_variable::notify_all\(\)', all_, first=True)
        ex.contract(r'std::condition_variable::notify_one\(\)', lambda ex, st, c: [Out('ret', st, None)], first=True)
    def setup(ex, st):
        ex.this = ex.symobj('this', TB); ex.m = monitor(ex, ex.this.base); use_monitors(ex, ex.m); st.assume(ex.m.inv(ex, ex.m.view(ex, st, ex.this.base))); st.g['arrived'] = None; st.g['owed'] = B_(False); return [ex.this]
    def post(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fn); b = ex.this.base
        P('the call returns normally', B_(o.kind == 'ret'))
        if o.kind != 'ret': return
        P('the mutex is released', B_(len(held(st)) == 0)); arr = st.g['arrived']; P('the call counted as an arrival', B_(arr is not None))
        if arr is None: return
        P('true is returned exactly by the last arrival of the cycle', o.val == (arr[1] == 1)); P('the last arrival wakes all waiting threads after it ended the cycle', z3.Not(st.g['owed']))
        v = viewtup(ex.m, b, st.g[('lastrel', 'thread_barrier', b)]); P('no thread passes the barrier before its cycle has ended', v.cycle_ != arr[0]); ex.cover('passed', st)
    us.append(Unit('thread_barrier::wait', fn, setup, post, ('passed',), contracts))
    fc = TB + '::thread_barrier(unsigned long)'
    def s_c(ex, st): ex.this = ex.symobj('this', TB, True); ex.n = freshbv('parties'); st.assume(ex.n != 0); return [ex.this, ex.n]
    def p_c(ex, o):
        P = lambda n, c: ex.prove(o.st, n, c, fc); L = lambda f, n: ex.load1(o.st, ex.this.add(lay.off(TB, f)), ('i', n))
        P('the call returns normally', B_(o.kind == 'ret')); P('a new barrier expects every party', z3.And(L('initial_', 64) == ex.n, L('current_', 64) == ex.n, z3.ULE(L('cycle_', 8), 1)))
    def C2(ex): setup_me(ex); stdlib(ex); std_mutex_contracts(ex)
    us.append(Unit('thread_barrier constructor', fc, s_c, p_c, (), C2))

VEC = r'std::vector<boost::intrusive_ptr<boost::fibers::(numa::)?algo::work_stealing>, .*>::'
def node_contracts(ex, lay):
    """the nodes, visited in order; cpu K belongs to the node at position pK, with id idK, if it exists (Kin)"""
    ex.tok = {}; ex.tokn = {}; LC = lay.off(NODE, 'logical_cpus'); ID = lay.off(NODE, 'id')
    NV = r'std::vector<boost::fibers::numa::node, .*>::'; NI = r'.*__gnu_cxx::__normal_iterator<boost::fibers::numa::node.*'
    def chk(ex, st, p): ex.prove(st, 'the nodes of the topology are visited', ex.ptr_eq(p, ex.topo))
    def begin(ex, st, c): chk(ex, st, c.args[0]); st.g['i'] = bv(0); st.g['sum'] = bv(0); return [Out('ret', st, ex.symobj('nodes', 'it', True))]
    def end(ex, st, c): chk(ex, st, c.args[0]); return [Out('ret', st, ex.symobj('end of nodes', 'it', True))]
    def ne(ex, st, c): return [Out('ret', st, simp(st.g['i'] != ex.nn) if '!=' in c.dem else simp(st.g['i'] == ex.nn))]
    def deref(ex, st, c):
        ex.prove(st, 'the end of the topology is not read', z3.ULT(st.g['i'], ex.nn)); n = ex.symobj('node', NODE, True); i = ex.load1(st, n.add(ID), ('i', 32)); st.assume((i == ex.idK) == (st.g['i'] == ex.pK))
        ex.tokn[n.base] = st.g['i']; ex.tok[n.base] = simp(z3.And(ex.Kin, st.g['i'] == ex.pK)); return [Out('ret', st, n)]
    def inc(ex, st, c): ex.prove(st, 'the end of the topology is not passed', z3.ULT(st.g['i'], ex.nn)); st.g['sum'] = simp(st.g['sum'] + ex.szF(st.g['i'])); st.g['i'] = simp(st.g['i'] + 1); return [Out('ret', st, c.args[0])]
    def has(ex, p):
        if p.base not in ex.tok: raise ToolError('an unknown set of cpus')
        return ex.tok[p.base]
    C = ex.contract
    C(NV + r'c?begin\(\) const', begin); C(NV + r'c?end\(\) const', end); C(NV + r'size\(\) const', lambda ex, st, c: [Out('ret', st, ex.nn)])
    C(r'.*__gnu_cxx::operator[!=]=<boost::fibers::numa::node.*', ne); C(NI + r'::operator\*\(\) const', deref); C(NI + r'::operator\+\+\(\)', inc)
    S = r'std::set<unsigned int, .*>::'
    def sz(ex, st, c):
        has(ex, c.args[0]); n = ex.szF(ex.tokn[c.args[0].base]); st.assume(z3.And(n != 0, z3.ULT(n, bv(1 << 20)))); return [Out('ret', st, n)]
    def sit(ex, st, c): t = ex.symobj('cpus' if 'begin' in c.dem else 'end of cpus', 'it', True); ex.tok[t.base] = has(ex, c.args[0]); ex.tokn[t.base] = ex.tokn[c.args[0].base]; return [Out('ret', st, t)]
    def rb(ex, st, c):
        q = c.args[-1] if c.retty == VOID else c.args[0]; st.g['rb'] = has(ex, q); st.g['rbn'] = ex.tokn[q.base]; return [Out('ret', st, None if c.retty == VOID else ex.symobj('largest', 'it', True))]
    def rd(ex, st, c):
        m = ex.mxF(st.g['rbn']); st.assume(z3.And(z3.ULT(m, bv(1 << 31, 32)), z3.Implies(st.g['rb'], z3.ULE(ex.K, m)))); q = ex.symobj('cpu', 'cpu', True); ex.store(st, q, m, 4); return [Out('ret', st, q)]
    C(S + r'size\(\) const', sz); C(S + r'empty\(\) const', lambda ex, st, c: [Out('ret', st, B_(False))]); C(S + r'c?(begin|end)\(\) const', sit); C(S + r'c?rbegin\(\) const', rb); C(r'std::reverse_iterator<std::_Rb_tree_const_iterator<unsigned int>>::operator\*\(\) const', rd)
    C(r'std::reverse_iterator<.*>::(reverse_iterator|~reverse_iterator)\(.*', c_void)
    # vectors of cpus: how often K is in them
    U = r'(?:.* )?std::vector<unsigned int, .*>::'
    def key(p): return ('cnt', p.base, p.off)
    def uctor(ex, st, c):
        e = st.fork(); st.g[key(c.args[0])] = bv(0); outs = []
        if len(c.args) > 1:
            if not all(isinstance(x, Ptr) and x.base in ex.tok and x.base.name.startswith(n) for x, n in zip(c.args[1:3], ('cpus', 'end of cpus'))): raise ToolError('a vector of cpus that is not filled from a node')
            st.g[key(c.args[0])] = z3.If(ex.tok[c.args[1].base], bv(1), bv(0)); outs = [ex.throw(e, '_ZTISt9bad_alloc', tag='alloc')]
        return [Out('ret', st, None)] + outs
    def uins(ex, st, c):
        a = [x for x in c.args if isinstance(x, Ptr) and x.base in ex.tok]; v = next((x for x in c.args if isinstance(x, Ptr) and key(x) in st.g), None)
        if v is None or len(a) != 2 or not a[0].base.name.startswith('cpus') or not a[1].base.name.startswith('end of cpus'): raise ToolError('insert')
        e = st.fork(); st.g[key(v)] = simp((bv(0) if '::assign<' in c.dem else st.g[key(v)]) + z3.If(ex.tok[a[0].base], bv(1), bv(0))); return [Out('ret', st, ex.symobj('position', 'it', True)), ex.throw(e, '_ZTISt9bad_alloc', tag='alloc')]
    def unsup(ex, st, c): raise ToolError('the list of cpus is built with %s' % c.dem)
    C(U + r'vector(<.*)?\(.*', uctor); C(U + r'~vector\(\)', c_void); C(U + r'(insert|assign)<.*', uins); C(U + r'(assign|insert|push_back|emplace_back|resize|operator=)\(.*', unsup); C(U + r'c?end\(\)( const)?', lambda ex, st, c: [Out('ret', st, ex.symobj('end of vector', 'it', True))]); C(U + r'reserve\(.*', c_void)
    def cands(ex, fn, st0, phi0, H):
        P = z3.UGT; l = [('i', lambda s, ph: z3.ULE(s.g['i'], ex.nn))]
        cells = [x for x in H if x[0] == 'cell']
        for x in cells:
            if x[3] == 4: l.append(('max %s' % (x[1],), lambda s, ph, x=x: z3.Implies(z3.And(ex.Kin, P(s.g['i'], ex.pK)), z3.ULE(ex.K, ex.load1(s, Ptr(x[1], x[2]), ('i', 32))))))
            if x[3] == 4: l.append(('small %s' % (x[1],), lambda s, ph, x=x: z3.ULT(ex.load1(s, Ptr(x[1], x[2]), ('i', 32)), bv(1 << 31, 32))))
            if x[3] == 8: l.append(('sum %s' % (x[1],), lambda s, ph, x=x: ex.load1(s, Ptr(x[1], x[2]), ('i', 64)) == s.g['sum']))
        for r, v in phi0.items():
            if ('phi', r) in H and not isinstance(v, Ptr) and getattr(v, 'size', lambda: 0)() == 64: l.append(('sum %s' % r, lambda s, ph, r=r: ph[r] == s.g['sum']))
            if ('phi', r) in H and not isinstance(v, Ptr) and getattr(v, 'size', lambda: 0)() == 32:
                l.append(('max %s' % r, lambda s, ph, r=r: z3.Implies(z3.And(ex.Kin, P(s.g['i'], ex.pK)), z3.ULE(ex.K, ph[r])))); l.append(('small %s' % r, lambda s, ph, r=r: z3.ULT(ph[r], bv(1 << 31, 32))))
        for k in st0.g:
            if isinstance(k, tuple) and k[0] == 'cnt':
                l.append(('remote %s' % k[1], lambda s, ph, k=k: s.g[k] == z3.If(z3.And(ex.Kin, ex.idK != ex.nid, P(s.g['i'], ex.pK)), bv(1), bv(0))))
                l.append(('local %s' % k[1], lambda s, ph, k=k: s.g[k] == z3.If(z3.And(ex.Kin, ex.idK == ex.nid, P(s.g['i'], ex.pK)), bv(1), bv(0)))); l.append(('same %s' % k[1], lambda s, ph, k=k: s.g[k] == st0.g[k]))
        # the id of a node that was passed is not the one looked for
        l.append(('passed', lambda s, ph: z3.Implies(ex.idK == ex.nid, z3.ULE(s.g['i'], ex.pK))))
        return l
    ex.auto_cands = getattr(ex, 'auto_cands', []) + [cands]
def node_env(ex, st):
    ex.topo = ex.symobj('topo', 'Topology', True); ex.nn = freshbv('nodes'); ex.K = freshbv('K', 32); ex.Kin = fresh('exists', z3.BoolSort()); ex.pK = freshbv('position'); ex.idK = freshbv('id', 32); ex.nid = freshbv('node_id', 32)
    ex.szF = z3.Function('cpus of node', z3.BitVecSort(64), z3.BitVecSort(64)); ex.mxF = z3.Function('largest cpu of node', z3.BitVecSort(64), z3.BitVecSort(32))
    st.g['sum'] = bv(0); st.g['i'] = bv(0); st.assume(z3.And(ex.nn != 0, z3.ULT(ex.nn, bv(1 << 20)), z3.ULT(ex.pK, ex.nn), z3.ULT(ex.K, bv(1 << 31, 32))))

def init_contracts(ex):
    """the new array of schedulers: its size, and into what it was swapped"""
    def ctor(ex, st, c):
        if len(c.args) < 3 or isinstance(c.args[1], Ptr): raise ToolError('another constructor of the array of schedulers')
        e = st.fork(); ex.prove(st, 'the new array holds no scheduler yet', ex.ptr_eq(ex.load1(st, c.args[2], PTR), NULL)); st.g['new'] = c.args[0]; st.g['newsize'] = c.args[1]; return [Out('ret', st, None), ex.throw(e, '_ZTISt9bad_alloc', tag='alloc')]
    def swap(ex, st, c): st.g['swapped'] = (c.args[0], c.args[1]); return [Out('ret', st, None)]
    ex.contract(VEC + r'vector\(.*', ctor); ex.contract(VEC + r'swap\(.*', swap); ex.contract(VEC + r'~vector\(\)', c_void)
def init_post(ex, o, fn, P):
    g = o.st.g
    if o.kind == 'exc': P('the array of schedulers is replaced as a whole', B_('swapped' not in g)); return False
    P('the call returns normally', B_(o.kind == 'ret')); s = g.get('swapped'); P('the array of schedulers is replaced by the new one', B_(False) if s is None or 'new' not in g else z3.Or(z3.And(ex.ptr_eq(s[0], g['new']), ex.ptr_eq(s[1], ex.arr)), z3.And(ex.ptr_eq(s[1], g['new']), ex.ptr_eq(s[0], ex.arr))))
    return s is not None

def ctor_units(lay, us):
    for cls in (WS, NWS):
        numa = cls == NWS; short = 'numa::work_stealing' if numa else 'work_stealing'; O = lambda f, cls=cls: lay.off(cls, f)
        def contracts(ex, cls=cls, numa=numa, O=O):
            C = ex.contract
            def gacq(ex, st, c):
                if st.g['guard']: return [Out('ret', st, bv(0, 32))]
                a = st.fork(); a.g['guard'] = True; a.note('the barrier exists already'); st.g['guard'] = True; st.note('first scheduler'); return [Out('ret', st, bv(1, 32)), Out('ret', a, bv(0, 32))]
            C(r'__cxa_guard_acquire', gacq); C(r'__cxa_atexit', lambda ex, st, c: [Out('ret', st, bv(0, 32))])
            setup_me(ex); stdlib(ex); std_mutex_contracts(ex)
            if numa: node_contracts(ex, lay)
            C(r'boost::fibers::detail::context_spinlock_queue::~?context_spinlock_queue\(.*\)', c_void); C(r'std::condition_variable::condition_variable\(\)', c_void)
            def add(ex, st, c): st.g['refs'] += 1; ex.prove(st, 'the registered scheduler is referenced', ex.ptr_eq(c.args[0], ex.this)); return [Out('ret', st, None)]
            def rel(ex, st, c): st.g['refs'] -= 1; return [Out('ret', st, None)]
            C(r'boost::fibers::algo::intrusive_ptr_add_ref\(.*\)', add); C(r'boost::fibers::algo::intrusive_ptr_release\(.*\)', rel)
            def tb(ex, st, c):
                want = st.g['sum'] if numa else z3.ZeroExt(32, ex.tc); ex.prove(st, 'the barrier is made for every thread', z3.And(c.args[1] == want, st.g['i'] == ex.nn) if numa else c.args[1] == want); st.g['bar'] = c.args[0]; return [Out('ret', st, None)]
            C(r'boost::fibers::detail::thread_barrier::thread_barrier\(unsigned long\)', tb)
            def once(ex, st, c):
                f = ex.load1(st, c.args[1], PTR) if c.args[1].base.kind != 'fn' else c.args[1]; fd = ex.prog.fn.get(f.base.name); P = lambda n, x: ex.prove(st, n, x)
                if fd is None: raise ToolError('call_once of an unknown function')
                P('the array of schedulers is made by init_', B_(fd.dem.startswith(cls + '::init_('))); rw = ex.load1(st, c.args[3], PTR); P('the array of this algorithm is made', ex.ptr_eq(rw, Ptr(ex.globreg(ex.schedname), 0)))
                if numa: P('the array is made from the topology', ex.ptr_eq(c.args[2], ex.topo))
                else: P('the array is made for every thread', ex.load1(st, c.args[2], ('i', 32)) == ex.tc)
                e = st.fork(); e.note('init_ fails'); st.g['inited'] = True; return [Out('ret', st, None), ex.throw(e, '_ZTISt9bad_alloc', tag='alloc')]
            C(r'void std::call_once<.*', once)
            def at(ex, st, c):
                P = lambda n, x: ex.prove(st, n, x); P('the array of schedulers exists when it is used', B_(st.g['inited'])); P('a thread registers at its own index', c.args[1] == z3.ZeroExt(32, ex.myid(st))); P('the array of schedulers is used', ex.ptr_eq(c.args[0], Ptr(ex.globreg(ex.schedname), 0)))
                return [Out('ret', st, ex.slot)]
            C(VEC + r'operator\[\]\(unsigned long\)', at); C(VEC + r'at\(unsigned long\)', at)
            def wait(ex, st, c):
                P = lambda n, x: ex.prove(st, n, x); P('the thread waits for the others only after it registered its scheduler', ex.ptr_eq(ex.load1(st, ex.slot, PTR), ex.this)); P('the scheduler is kept alive by the array', B_(st.g['refs'] == 1)); st.g['waited'] += 1; return [Out('ret', st, fresh('last', z3.BoolSort()))]
            C(r'boost::fibers::detail::thread_barrier::wait\(\)', wait)
            if numa:
                def cpus(ex, st, c):
                    e = st.fork(); k = 'local' if 'local' in c.dem else 'remote'; P = lambda n, x: ex.prove(st, n, x); P('the %s cpus are those of the given node' % k, z3.And(ex.ptr_eq(c.args[0], ex.this.add(O(k + '_cpus_'))), c.args[1] == ex.nid, ex.ptr_eq(c.args[2], ex.topo))); st.g[k] = True; return [Out('ret', st, None), ex.throw(e, '_ZTISt9bad_alloc', tag='alloc')]
                C(r'boost::fibers::numa::algo::get_(local|remote)_cpus\(.*', cpus)
                def pin(ex, st, c): e = st.fork(); ex.prove(st, 'the thread is pinned to its cpu', c.args[0] == ex.cpu); st.g['pin'] = True; return [Out('ret', st, None), ex.throw(e, '_ZTISt12system_error', tag='pin')]
                C(r'boost::fibers::numa::pin_thread\(unsigned int\)', pin)
            else:
                def atomics(ex, st, k, p, ty, args, order, mod):
                    if p.base is not ex.globreg(ex.ctrname): return None
                    if not k.startswith('rmw'): raise ToolError('counter')
                    v = freshbv('counter', 32); ex.prove(st, 'every scheduler gets an index of its own', B_(k == 'rmw:add')); ex.prove(st, 'the counter of schedulers is incremented by one, once', z3.And(args[0] == 1, B_(st.g['idv'] is None))); st.g['idv'] = v; st.assume(z3.ULT(v, ex.tc)); return [Out('ret', st, v)]
                ex.hooks_atomic.append(atomics)
        def setup(ex, st, cls=cls, numa=numa):
            ex.this = ex.symobj('this', cls, True); ex.slot = ex.symobj('slot', 'slot', True); ex.store(st, ex.slot, NULL, 8); st.g.update(guard=False, inited=False, waited=0, refs=0, idv=None); ex.susp = freshbv('suspend', 1)
            ex.schedname = '_ZN5boost6fibers4numa4algo13work_stealing11schedulers_E' if numa else '_ZN5boost6fibers4algo13work_stealing11schedulers_E'; ex.ctrname = '_ZN5boost6fibers4algo13work_stealing8counter_E'
            if numa:
                node_env(ex, st); ex.cpu = freshbv('cpu', 32); ex.myid = lambda st: ex.cpu; return [ex.this, ex.cpu, ex.nid, ex.topo, simp(ex.susp == 1)]
            ex.tc = freshbv('threads', 32); st.assume(ex.tc != 0); ex.myid = lambda st: st.g['idv'] if st.g['idv'] is not None else bv(0, 32); return [ex.this, ex.tc, simp(ex.susp == 1)]
        fn = cls + ('::work_stealing(unsigned int, unsigned int, std::vector<boost::fibers::numa::node, std::allocator<boost::fibers::numa::node>> const&, bool)' if numa else '::work_stealing(unsigned int, bool)')
        def post(ex, o, numa=numa, fn=fn, O=O):
            st = o.st; g = st.g; P = lambda n, c: ex.prove(st, n, c, fn)
            if o.kind == 'exc': P('a constructor that fails leaves no reference to its object behind', ex.ptr_eq(ex.load1(st, ex.slot, PTR), NULL)); ex.cover('fails', st); return
            P('the call returns normally', B_(o.kind == 'ret'))
            if o.kind != 'ret': return
            P('no thread goes on before every thread has registered its scheduler', B_(g['waited'] == 1)); P('the suspend option is kept', ex.load1(st, ex.this.add(O('suspend_')), ('i', 8)) == z3.ZeroExt(7, ex.susp))
            if numa: P('the cpu of this thread is kept, its neighbours are known and it is pinned', z3.And(ex.load1(st, ex.this.add(O('cpu_id_')), ('i', 32)) == ex.cpu, B_(bool(g.get('local') and g.get('remote') and g.get('pin')))))
            else: P('the index and the number of threads are kept', z3.And(ex.load1(st, ex.this.add(O('id_')), ('i', 32)) == ex.myid(st), ex.load1(st, ex.this.add(O('thread_count_')), ('i', 32)) == ex.tc, B_(g['idv'] is not None)))
            ex.cover('registered', st)
        us.append(Unit(short + ' constructor', fn, setup, post, ('fails', 'registered'), contracts))
    fi = WS + '::init_(unsigned int, std::vector<boost::intrusive_ptr<%s>, std::allocator<boost::intrusive_ptr<%s>>>&)' % (WS, WS)
    def c_i(ex): setup_me(ex); stdlib(ex); init_contracts(ex)
    def s_i(ex, st): ex.tc = freshbv('threads', 32); ex.arr = ex.symobj('schedulers', 'Schedulers', True); return [ex.tc, ex.arr]
    def p_i(ex, o):
        P = lambda n, c: ex.prove(o.st, n, c, fi)
        if init_post(ex, o, fi, P): P('the array has a place for every thread', z3.UGE(o.st.g['newsize'], z3.ZeroExt(32, ex.tc))); ex.cover('made', o.st)
    us.append(Unit('work_stealing::init_', fi, s_i, p_i, ('made',), c_i))

def numa_units(lay, us):
    T = 'std::vector<boost::fibers::numa::node, std::allocator<boost::fibers::numa::node>> const&'
    fi = NWS + '::init_(%s, std::vector<boost::intrusive_ptr<%s>, std::allocator<boost::intrusive_ptr<%s>>>&)' % (T, NWS, NWS)
    def c_i(ex): setup_me(ex); stdlib(ex); node_contracts(ex, lay); init_contracts(ex)
    def s_i(ex, st): node_env(ex, st); ex.arr = ex.symobj('schedulers', 'Schedulers', True); return [ex.topo, ex.arr]
    def p_i(ex, o):
        P = lambda n, c: ex.prove(o.st, n, c, fi)
        if init_post(ex, o, fi, P): P('the array has a place for every cpu', z3.Implies(ex.Kin, z3.UGT(o.st.g['newsize'], z3.ZeroExt(32, ex.K)))); ex.cover('made', o.st)
    us.append(Unit('numa::work_stealing::init_', fi, s_i, p_i, ('made',), c_i))
    for k in ('local', 'remote'):
        fn = 'boost::fibers::numa::algo::get_%s_cpus(unsigned int, %s)' % (k, T)
        def c_g(ex): setup_me(ex); stdlib(ex); node_contracts(ex, lay)
        def s_g(ex, st): node_env(ex, st); ex.ret = ex.symobj('result', 'Cpus', True); return [ex.ret, ex.nid, ex.topo]
        def p_g(ex, o, k=k, fn=fn):
            st = o.st; P = lambda n, c: ex.prove(st, n, c, fn)
            if o.kind == 'exc': return
            P('the call returns normally', B_(o.kind == 'ret')); n = st.g.get(('cnt', ex.ret.base, 0)); P('a list of cpus is returned', B_(n is not None))
            if n is None: return
            P('exactly the cpus of %s are returned, each once' % ('the node' if k == 'local' else 'the other nodes'), n == z3.If(z3.And(ex.Kin, (ex.idK == ex.nid) if k == 'local' else (ex.idK != ex.nid)), bv(1), bv(0))); ex.cover('returns', st)
        us.append(Unit('numa::get_%s_cpus' % k, fn, s_g, p_g, ('returns',), c_g))

def pin_units(lay, us):
    """numa::pin_thread (Linux): pthread_setaffinity_np through what it says; K is an arbitrary cpu"""
    PT = NS + 'numa::pin_thread'
    def contracts(ex):
        setup_me(ex); stdlib(ex); C = ex.contract
        def self_(ex, st, c): return [Out('ret', st, ex.h)]
        def setaff(ex, st, c):
            h, n, p = c.args; P = lambda nm, g: ex.prove(st, nm, g)
            P('the thread that is asked for is pinned', h == ex.h); P('the whole set of cpus is passed', n == bv(128))
            w = ex.load1(st, p.add(simp(z3.LShR(ex.K, 6) * 8)), ('i', 64))
            P('the thread is pinned to the cpu that is asked for, and to no other', (z3.Extract(0, 0, z3.LShR(w, ex.K & 63)) == 1) == (ex.K == z3.ZeroExt(32, ex.id)))
            st.g['n'] = min(2, st.g.get('n', 0) + 1); st.g['r'] = r = freshbv('err', 32); return [Out('ret', st, r)]
        C(r'pthread_self', self_); C(r'pthread_setaffinity_np', setaff)
        C(r'std::_V2::system_category\(\)', lambda ex, st, c: [Out('ret', st, ex.symobj('system_category', 'cat', True))])
        def c_syserr(ex, st, c): st.g['code'] = c.args[1] if not isinstance(c.args[1], list) else c.args[1][0]; return [Out('ret', st, None)]
        C(r'std::system_error::system_error\(std::error_code, char const\*\)', c_syserr, first=True)
    for fn, two in ((PT + '(unsigned int, unsigned long)', True), (PT + '(unsigned int)', False)):
        def setup(ex, st, two=two):
            ex.id = freshbv('cpu', 32); ex.h = freshbv('thread'); ex.K = freshbv('K'); st.assume(z3.ULT(ex.K, bv(1024))); return [ex.id] + ([ex.h] if two else [])
        def post(ex, o, fn=fn):
            st = o.st; P = lambda n, c: ex.prove(st, n, c, fn); P('the affinity is set exactly once', B_(st.g.get('n') == 1)); r = st.g.get('r')
            if r is None: return
            if o.kind == 'exc': ex.cover('throws', st); P('std::system_error is thrown exactly on failure', z3.And(B_(o.val.tinfo == '_ZTISt12system_error'), r != 0)); P('the error code is the one reported by the system', B_(False) if 'code' not in st.g else st.g['code'] == r)
            else: ex.cover('returns', st); P('the call returns normally only on success', z3.And(B_(o.kind == 'ret'), r == 0))
        us.append(Unit('numa::pin_thread%s' % ('(thread)' if two else ''), fn, setup, post, ('returns', 'throws'), contracts))
