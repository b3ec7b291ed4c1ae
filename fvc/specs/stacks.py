"""C25: placement of control block, record and stack inside the area obtained from the allocator."""
from ..lib import *
from ..core import _ctr
from ..containers import *
from .life import offs, fn_contracts, ref_contracts, refs, NS, CTX, T_CTX
PROPS = ['C25']
SC = 'boost::context::stack_context'; PA = 'boost::context::preallocated'; WRAP = NS + 'stack_allocator_wrapper'
MIN = 4096         # smallest area considered (boost::context: minimum_size() >= MINSIGSTKSZ)
SLACK = 640        # two alignments to 256 and the gap of 64
def prop(pid):
    return dict(srcs=['tu/life.cpp', 'context.cpp', 'tu/stackwrap.cpp'], units=units, trusted=['boost::context::detail::make_fcontext/jump_fcontext/ontop_fcontext (assembly): the stack given to make_fcontext is used from its top downwards, within its size',
                'std::bind/std::invoke/std::tuple are executed, not assumed'],
                assumptions=['an allocator returns an area of at least 4096 bytes below 2^47', 'function, arguments and allocator object have an alignment of at most 256', 'stack overflow by the user\'s code is not considered'])
def area(ex, st):
    ex.asp = freshbv('sp'); ex.asz = freshbv('size'); st.assume(z3.And(z3.UGE(ex.asz, bv(MIN)), z3.ULT(ex.asz, bv(1 << 40)), z3.ULT(ex.asp, bv(1 << 47)), z3.UGE(ex.asp - ex.asz, bv(4096)), z3.UGE(ex.asp, ex.asz)))
    ex.bot = simp(ex.asp - ex.asz)
def le(a, b): return z3.ULE(a, b)

def u_make(lay, O, us):
    for fnt, stk in (('Fn', 'Stk&'), ('Fn64', 'Stk&'), ('Fn', 'Stk'), ('Fn&', 'Stk&'), (None, None)):
        W = NS + ('worker_context<%s, Val>' % fnt if fnt else 'dispatcher_context'); L = W.replace('Fn&', 'Fn &'); R = lay.rec[L]
        fname = '%smake_worker_context_with_properties<%s, %s, Val>(%slaunch, %sfiber_properties*, %s, %s, Val)' % ('boost::intrusive_ptr<boost::fibers::context> ' + NS, stk, fnt, NS, NS, stk if '&' in stk else stk + '&&', fnt if '&' in fnt else fnt + '&&') if fnt else NS + 'make_dispatcher_context(%s&&)' % WRAP
        def placed(ex, st, this, pa, R=R):
            P = lambda n, g: ex.prove(st, n, g); t = this.bv()
            P('the control block lies inside the allocated area', z3.And(le(ex.bot, t), le(t, ex.asp), le(t + R['size'], ex.asp), le(t, t + R['size'])))
            P('the control block is correctly aligned', z3.URem(t, bv(R['align'])) == 0)
            sp = ex.load1(st, pa.add(lay.off(PA, 'sp')), PTR).bv(); sc = pa.add(lay.off(PA, 'sctx'))
            P('the rest of the area, below the control block, is left to the stack', z3.And(le(ex.bot, sp), le(sp, t), le(ex.asp - sp, bv(R['size'] + 256))))
            P('the stack given back later is the one that was obtained', z3.And(ex.load1(st, sc.add(lay.off(SC, 'sp')), PTR).bv() == ex.asp, ex.load1(st, sc.add(lay.off(SC, 'size')), ('i', 64)) == ex.asz))
        def alloc(ex, st, c):
            sr = len(c.args) == 2; a = c.args[-1]
            ex.prove(st, 'one stack is obtained, from the allocator that was given', z3.And(z3.BoolVal(not st.g.get('alloc')), ex.ptr_eq(a, ex.sal)))
            e = st.fork(); e.g['afail'] = True; e.note('the allocator throws'); st.g['alloc'] = True
            if sr: ex.store(st, c.args[0].add(lay.off(SC, 'sp')), ex.sym(ex.asp), 8); ex.store(st, c.args[0].add(lay.off(SC, 'size')), ex.asz, 8); r = None
            else: r = [ex.asz, ex.sym(ex.asp)] if lay.off(SC, 'size') == 0 else [ex.sym(ex.asp), ex.asz]
            return [ex.throw(e, None, tag='user'), Out('ret', st, r)]
        def dealloc(ex, st, c):
            P = lambda n, g: ex.prove(st, n, g); sp = ex.load1(st, c.args[1].add(lay.off(SC, 'sp')), PTR).bv(); sz = ex.load1(st, c.args[1].add(lay.off(SC, 'size')), ('i', 64))
            P('a stack is given back once, after the fiber could not be made', z3.BoolVal(bool(st.g.get('alloc') and (st.g.get('cfail') or st.g.get('valthrew')) and not st.g.get('dealloc'))))
            P('the allocator gets back the stack it handed out', z3.And(sp == ex.asp, sz == ex.asz)); P('a stack is given back to the allocator it came from', ex.load1(st, c.args[0], ('i', 64)) == ex.sid)
            st.g['dealloc'] = True; return [Out('ret', st, None)]
        def ctor(ex, st, c, fnt=fnt, placed=placed):
            P = lambda n, g: ex.prove(st, n, g)
            P('one control block is made, on a stack that was obtained', z3.BoolVal(bool(st.g.get('alloc') and not st.g.get('made'))))
            if fnt:
                this, pol, pr, pa, sal, fn, v = c.args
                P('policy and properties are handed on', z3.And(pol == ex.pol, ex.ptr_eq(pr, ex.props))); P('function and arguments are handed on', z3.And(ex.load1(st, fn, ('i', 64)) == ex.fid, val_id(ex, st, v) == ex.vid)); val_used(ex, st, v)
            else: this, pa, sal = c.args
            P('the allocator is handed on', ex.load1(st, sal, ('i', 64)) == ex.sid); placed(ex, st, this, pa)
            outs = []
            if fnt:
                e = st.fork(); e.g['cfail'] = True; e.note('making the control block throws'); outs.append(ex.throw(e, None, tag='user'))
            st.g['made'] = True; ex.T = this; st.g['T'] = this; st.g[('ref', this.base)] = 1; return outs + [Out('ret', st, None)]
        def contracts(ex, alloc=alloc, dealloc=dealloc, ctor=ctor):
            setup_me(ex); stdlib(ex); val_contracts(ex); fn_contracts(ex); ref_contracts(ex)
            ex.contract(r'(Stk|boost::fibers::stack_allocator_wrapper)::allocate\(\)', alloc); ex.contract(r'(Stk|boost::fibers::stack_allocator_wrapper)::deallocate\(.*', dealloc)
            ex.contract(r'boost::fibers::(worker_context<.*>|dispatcher_context)::(worker|dispatcher)_context(<.*>)?\(.*', ctor)
        for thr in ((False, True) if fnt else (False,)):
            def setup(ex, st, fnt=fnt, thr=thr):
                ex.val_throws = thr; area(ex, st); ex.sr = ex.symobj('ret', 'intrusive_ptr', True); ex.sal = ex.symobj('salloc', 'Stk' if fnt else WRAP, True); ex.sid = ex.load1(st, ex.sal, ('i', 64))
                if not fnt: return [ex.sr, ex.sal]
                ex.pol = freshbv('policy', 32); ex.props = ex.sym(freshbv('props')); ex.fnp = ex.symobj('fn', 'Fn', True); ex.vp = ex.symobj('val', 'Val', True); ex.fid = ex.load1(st, ex.fnp, ('i', 64)); ex.vid = ex.load1(st, ex.vp, ('i', 64))
                st.g[('live', ex.vp.base, 0)] = True; st.g[('fnlive', ex.fnp.base, 0)] = True
                return [ex.sr, ex.pol, ex.props, ex.sal, ex.fnp, ex.vp]
            def post(ex, o, fname=fname, fnt=fnt):
                st = o.st; P = lambda n, c: ex.prove(st, n, c, fname); no_live_locals(ex, st, fname); g = st.g
                if o.kind == 'exc':
                    if fnt: P('a stack is kept exactly when a fiber was made on it', z3.BoolVal(bool(g.get('alloc')) == bool(g.get('dealloc')) and not g.get('made') and bool(g.get('afail') or g.get('cfail') or g.get('valthrew'))))
                    ex.cover('alloc' if g.get('afail') else 'ctor' if g.get('cfail') else 'val', st)
                else:
                    P('the fiber that was made is returned, its stack is kept', z3.And(z3.BoolVal(o.kind == 'ret' and bool(g.get('made')) and not g.get('dealloc')), ex.ptr_eq(ex.load1(st, ex.sr, PTR), g['T'])) if g.get('made') else False)
                    if fnt: P('the returned handle holds a reference of its own', z3.BoolVal(bool(g.get('made')) and refs(st, g['T'].base) == 2))
                    ex.cover('ok', st)
            us.append(Unit('make %s on %s%s' % (W.replace(NS, ''), stk or 'stack_allocator_wrapper', '; moving throws' if thr else ''), fname, setup, post, ('ok', 'alloc', 'ctor') if fnt else ('ok', 'alloc'), contracts))

def u_ctor(lay, O, us):
    for fnt, stk, mv in (('Fn', 'Stk&', 'Stk&'), ('Fn64', 'Stk&', 'Stk&'), ('Fn', 'Stk', 'Stk&&'), ('Fn&', 'Stk&', 'Stk&'), (None, None, None)):
        W = NS + ('worker_context<%s, Val>' % fnt if fnt else 'dispatcher_context'); L = W.replace('Fn&', 'Fn &'); R = lay.rec[L]
        fname = '%s::worker_context<%s>(%slaunch, %sfiber_properties*, %s const&, %s, %s, Val)' % (W, stk, NS, NS, PA, mv, fnt if '&' in fnt else fnt + '&&') if fnt else '%s::dispatcher_context(%s const&, %s&&)' % (W, PA, WRAP)
        def mkf(ex, st, c, R=R):
            P = lambda n, g: ex.prove(st, n, g); top, size, entry = c.args; t = ex.this.bv(); tp = top.bv()
            P('one suspended fiber is made', z3.BoolVal('mk' not in st.g)); st.g['mk'] = True; st.g['top'] = tp; st.g['entry'] = entry
            P('the stack lies inside the allocated area, below the control block', z3.And(le(ex.bot, tp), le(tp, t), le(size, tp - ex.bot)))
            P('no more of the area is lost than control block, record and alignment', z3.UGE(size, ex.asz - (R['size'] + 512 + SLACK)))
            P('the top of the stack is aligned', z3.URem(tp, bv(16)) == 0)
            ex.F0 = ex.sym(freshbv('fctx0')); st.assume(ex.F0.bv() != 0); return [Out('ret', st, ex.F0)]
        def jump(ex, st, c):
            P = lambda n, g: ex.prove(st, n, g)
            if st.g.get('phase') is None:
                P('the new fiber is entered once to hand it its record', ex.ptr_eq(c.args[0], ex.F0)); rec = c.args[1]; st.g['rec'] = rec; r = rec.bv(); rs = st.g.get('recsize', 0)
                P('the record of the fiber lies between its stack and its control block', z3.And(le(st.g['top'], r), le(r, r + rs), le(r + rs, ex.this.bv())))
                ex.F1 = ex.sym(freshbv('fctx1')); st.assume(ex.F1.bv() != 0); return [Out('ret', st, [ex.F1, NULL])]
            P('the new fiber returns to its creator', z3.And(z3.BoolVal(st.g['phase'] == 'entry'), ex.ptr_eq(c.args[0], ex.FC))); st.g['phase'] = 'run'; return [Out('ret', st, [ex.FR, NULL])]
        def run(ex, st, c):
            sr, this, cc = c.args if len(c.args) == 3 else (None,) + tuple(c.args)
            P = lambda n, g: ex.prove(st, n, g)
            P('the fiber runs its own function once', z3.And(z3.BoolVal(st.g.get('phase') == 'run'), ex.ptr_eq(this, ex.this))); st.g['phase'] = 'ran'; P('the fiber knows who resumed it', ex.ptr_eq(ex.load1(st, cc, PTR), ex.FR)); ex.store(st, cc, NULL, 8)
            if sr is not None: ex.store(st, sr, ex.FE, 8); return [Out('ret', st, None)]
            return [Out('ret', st, ex.FE)]
        def ontop(ex, st, c):
            P = lambda n, g: ex.prove(st, n, g); to, data, f = c.args
            if st.g.get('phase') != 'ran': P('the fiber ends only after its function', False); return [Out('stop', st, None)]
            P('a finished fiber is left for the one it named', ex.ptr_eq(to, ex.FE)); st.g['phase'] = 'exit'
            fn = ex.prog.fn.get(f.base.name); outs = ex.exec_fn(fn, [ex.sym(freshbv('left')), data], st); return [Out('stop', o.st, 'left') for o in outs]
        def dealloc(ex, st, c):
            P = lambda n, g: ex.prove(st, n, g); sp = ex.load1(st, c.args[1].add(lay.off(SC, 'sp')), PTR).bv(); sz = ex.load1(st, c.args[1].add(lay.off(SC, 'size')), ('i', 64))
            P('the stack is given back once, when the fiber has been left', z3.BoolVal(st.g.get('phase') == 'exit' and not st.g.get('dealloc')))
            P('the allocator gets back the stack it handed out', z3.And(sp == ex.asp, sz == ex.asz)); P('a stack is given back to the allocator it came from', ex.load1(st, c.args[0], ('i', 64)) == ex.sid); st.g['dealloc'] = True
            P('the allocator used to give back the stack does not lie on it', z3.BoolVal(c.args[0].base.kind == 'stack')); return [Out('ret', st, None)]
        def ctxdtor(ex, st, c):
            ex.prove(st, 'only the control block that could not be made is taken back', z3.And(ex.ptr_eq(c.args[0], ex.this), z3.BoolVal(bool(st.g.get('valthrew') or st.g.get('fnthrew')) and not st.g.get('cd')))); st.g['cd'] = True; return [Out('ret', st, None)]
        def contracts(ex, mkf=mkf, jump=jump, run=run, ontop=ontop, dealloc=dealloc, ctxdtor=ctxdtor):
            setup_me(ex); stdlib(ex); val_contracts(ex); fn_contracts(ex); ref_contracts(ex)
            ex.contract(r'make_fcontext', mkf); ex.contract(r'jump_fcontext', jump); ex.contract(r'ontop_fcontext', ontop); ex.contract(r'boost::fibers::(worker_context<.*>|dispatcher_context)::run_\(.*', run)
            ex.contract(r'(Stk|boost::fibers::stack_allocator_wrapper)::deallocate\(.*', dealloc); ex.contract(r'boost::fibers::context::~context\(\)', ctxdtor)
            ex.contract(r'std::unique_ptr<boost::fibers::detail::polymorphic_stack_allocator_base.*>::~unique_ptr\(\)', c_void)
        for thr in ((False, True) if fnt else (False,)):
            def setup(ex, st, fnt=fnt, thr=thr, W=W, R=R):
                ex.val_throws = thr; area(ex, st); t = freshbv('this'); psp = freshbv('psp'); st.assume(z3.And(le(ex.bot, t), le(t + R['size'], ex.asp), le(t, t + R['size']), le(ex.bot, psp), le(psp, t), le(ex.asp - psp, bv(R['size'] + 256)), z3.URem(t, bv(R['align'])) == 0))
                ex.this = ex.sym(t, W, 'this'); ex.this.base.x = 'raw'; ex.pa = ex.symobj('palloc', PA, True)
                ex.store(st, ex.pa.add(lay.off(PA, 'sp')), ex.sym(psp), 8); sc = ex.pa.add(lay.off(PA, 'sctx')); ex.store(st, sc.add(lay.off(SC, 'sp')), ex.sym(ex.asp), 8); ex.store(st, sc.add(lay.off(SC, 'size')), ex.asz, 8); ex.store(st, ex.pa.add(lay.off(PA, 'size')), simp(psp - ex.bot), 8)
                ex.sal = ex.symobj('salloc', 'Stk' if fnt else WRAP, True); ex.sid = ex.load1(st, ex.sal, ('i', 64)); rn = [k for k in lay.rec if k.startswith('boost::context::detail::fiber_record')]
                if not fnt: return [ex.this, ex.pa, ex.sal]
                ex.pol = freshbv('policy', 32); ex.props = ex.symobj('props', NS + 'fiber_properties', True); ex.hasprops = freshbv('hp', 1); pp = ex.props
                ex.fnp = ex.symobj('fn', 'Fn', True); ex.vp = ex.symobj('val', 'Val', True); ex.fid = ex.load1(st, ex.fnp, ('i', 64)); ex.vid = ex.load1(st, ex.vp, ('i', 64))
                st.g[('live', ex.vp.base, 0)] = True; st.g[('fnlive', ex.fnp.base, 0)] = True
                return [ex.this, ex.pol, ex.withp and ex.props or NULL, ex.pa, ex.sal, ex.fnp, ex.vp]
            def post(ex, o, fname=fname, fnt=fnt, L=L):
                st = o.st; P = lambda n, c: ex.prove(st, n, c, fname); no_live_locals(ex, st, fname); T = ex.this
                if o.kind == 'exc':
                    P('the constructor fails only if copying or moving function or argument throws', z3.BoolVal(bool(st.g.get('valthrew') or st.g.get('fnthrew')) and 'mk' not in st.g))
                    P('nothing is left alive in the control block that could not be made', z3.BoolVal(not any(isinstance(k, tuple) and k[0] in ('live', 'fnlive') and k[1] is T.base and v is True for k, v in st.g.items()))); ex.cover('failed', st); return
                P('the constructor returns normally', z3.BoolVal(o.kind == 'ret')); P('a suspended fiber was made', z3.BoolVal('rec' in st.g))
                if 'rec' not in st.g: return
                L1 = lambda f, ty: ex.load1(st, T.add(getattr(O, f)), ty)
                P('the control block owns the suspended fiber', ex.ptr_eq(L1('c_', PTR), ex.F1)); P('the fiber starts with %s reference' % ('one' if fnt else 'no'), L1('use_count_', ('i', 64)) == (1 if fnt else 0)); P('the fiber has its kind', L1('type_', ('i', 32)) == (8 if fnt else 4))
                P('the fiber is not terminated and not attached', z3.And(L1('terminated_', ('i', 8)) == 0, L1('scheduler_', PTR).bv() == 0, L1('waker_epoch_', ('i', 64)) == 0))
                if fnt:
                    P('the launch policy is stored', L1('policy_', ('i', 32)) == ex.pol); P('the properties are stored', ex.ptr_eq(L1('properties_', PTR), ex.props if ex.withp else NULL))
                    if ex.withp: P('the properties know their fiber', ex.ptr_eq(ex.load1(st, ex.props.add(lay.off(NS + 'fiber_properties', 'ctx_')), PTR), T))
                    P('function and arguments are stored', z3.And(ex.load1(st, T.add(lay.off(L, 'fn_')), ('i', 64)) == ex.fid, ex.load1(st, T.add(lay.off(L, 'arg_')), ('i', 64)) == ex.vid, z3.BoolVal(st.g.get(('live', T.base, lay.off(L, 'arg_'))) is True and st.g.get(('fnlive', T.base, lay.off(L, 'fn_'))) is True)))
                else: P('the dispatcher fiber has no properties', L1('properties_', PTR).bv() == 0)
                # the rest of the life of the suspended fiber, on the record that was made
                ex.FC = ex.sym(freshbv('creator')); ex.FR = ex.sym(freshbv('resumer')); ex.FE = ex.sym(freshbv('next')); st.assume(z3.And(ex.FC.bv() != 0, ex.FR.bv() != 0, ex.FE.bv() != 0))
                st.g['phase'] = 'entry'; e = st.g['entry']; P('the entry of the fiber is a function', z3.BoolVal(e.base.kind == 'fn'))
                if e.base.kind != 'fn': return
                for o2 in ex.exec_fn(ex.prog.fn[e.base.name], [ex.FC, st.g['rec']], st):
                    if not ex.feasible(o2.st): continue
                    ex.prove(o2.st, 'the fiber ends by leaving its stack', z3.BoolVal(o2.kind == 'stop' and o2.val == 'left'), fname); ex.prove(o2.st, 'the stack of the fiber was given back', z3.BoolVal(bool(o2.st.g.get('dealloc'))), fname); ex.cover('ok', o2.st)
            for withp in ((False, True) if fnt else (False,)):
                def setup2(ex, st, setup=setup, withp=withp): ex.withp = withp; return setup(ex, st)
                us.append(Unit('%s on %s: constructor%s%s' % (W.replace(NS, ''), stk or 'stack_allocator_wrapper', ' with properties' if withp else '', '; moving throws' if thr else ''), fname, setup2, post, ('ok', 'failed') if thr else ('ok',), contracts))

def u_wrap(lay, O, us):
    POLY = NS + 'detail::polymorphic_stack_allocator_base'; IMPL = NS + 'detail::polymorphic_stack_allocator_impl<Stk>'
    for cls, inner in ((WRAP, 'virtual .*%s::' % POLY), (IMPL, 'Stk::')):
        def contracts(ex, inner=inner):
            setup_me(ex); stdlib(ex); ex.ptr_labels[(WRAP, lay.off(WRAP, '_allocator'))] = POLY
            def alloc(ex, st, c):
                sr = len(c.args) == 2; ex.prove(st, 'the allocator that is wrapped is asked, once', z3.And(z3.BoolVal(not st.g.get('n')), ex.ptr_eq(c.args[-1], ex.inner))); st.g['n'] = True; e = st.fork(); e.g['afail'] = True
                if sr: ex.store(st, c.args[0].add(lay.off(SC, 'sp')), ex.sym(ex.asp), 8); ex.store(st, c.args[0].add(lay.off(SC, 'size')), ex.asz, 8); r = None
                else: r = [ex.asz, ex.sym(ex.asp)] if lay.off(SC, 'size') == 0 else [ex.sym(ex.asp), ex.asz]
                return [ex.throw(e, None, tag='user'), Out('ret', st, r)]
            def dealloc(ex, st, c):
                P = lambda n, g: ex.prove(st, n, g); P('the allocator that is wrapped gets the stack back, once', z3.And(z3.BoolVal(not st.g.get('n')), ex.ptr_eq(c.args[0], ex.inner))); st.g['n'] = True
                P('the allocator gets back the stack it handed out', z3.And(ex.load1(st, c.args[1].add(lay.off(SC, 'sp')), PTR).bv() == ex.asp, ex.load1(st, c.args[1].add(lay.off(SC, 'size')), ('i', 64)) == ex.asz)); return [Out('ret', st, None)]
            ex.contract(inner + r'allocate\(\)', alloc); ex.contract(inner + r'deallocate\(.*', dealloc)
        for op in ('allocate', 'deallocate'):
            fname = '%s::%s(%s)' % (cls, op, '' if op == 'allocate' else SC + '&')
            def setup(ex, st, cls=cls, op=op):
                area(ex, st); ex.this = ex.symobj('this', cls, True); a = ex.this.add(lay.off(cls, '_allocator')); ex.inner = a if cls != WRAP else ex.load1(st, a, PTR)
                if cls == WRAP: st.assume(ex.inner.bv() != 0)
                ex.sc = ex.symobj('sctx', SC, True)
                if op == 'allocate': return [ex.this]
                ex.store(st, ex.sc.add(lay.off(SC, 'sp')), ex.sym(ex.asp), 8); ex.store(st, ex.sc.add(lay.off(SC, 'size')), ex.asz, 8); return [ex.this, ex.sc]
            def post(ex, o, op=op, fname=fname):
                st = o.st; P = lambda n, c: ex.prove(st, n, c, fname)
                if o.kind == 'exc': P('only a failing allocator makes the call fail', z3.BoolVal(bool(st.g.get('afail')))); return
                P('the wrapped allocator was asked', z3.BoolVal(o.kind == 'ret' and bool(st.g.get('n')))); ex.cover('ok', st)
                if op == 'allocate':
                    r = o.val; k = 1 if lay.off(SC, 'sp') == 8 else 0
                    P('the stack that was obtained is handed on unchanged', z3.And(r[k].bv() == ex.asp, r[1 - k] == ex.asz) if isinstance(r, list) else False)
            us.append(Unit('%s::%s' % (cls.replace(NS, ''), op), fname, setup, post, ('ok',), contracts))

def units(lay):
    us = []; O = offs(lay); u_make(lay, O, us); u_ctor(lay, O, us); u_wrap(lay, O, us); u_wraplife(lay, us); return us

def u_wraplife(lay, us):
    fn = 'tu_wrap(long, boost::context::stack_context&)'; O_SP, O_SZ = lay.off(SC, 'sp'), lay.off(SC, 'size')
    def contracts(ex):
        setup_me(ex); stdlib(ex); C = ex.contract
        def ctor(ex, st, c):
            ex.prove(st, 'one allocator is made, from the arguments that were given', z3.And(z3.BoolVal('al' not in st.g), c.args[1] == ex.id)); e = st.fork(); e.note('the constructor of the allocator throws')
            st.g['al'] = c.args[0]; st.g['alive'] = True; return [Out('ret', st, None), ex.throw(e, None, tag='user')]
        def self(ex, st, p, what): ex.prove(st, what + ' goes to the allocator that was made, while it lives', z3.And(z3.BoolVal(bool(st.g.get('alive'))), ex.ptr_eq(p, st.g['al'])) if 'al' in st.g else False)
        def dtor(ex, st, c): self(ex, st, c.args[0], 'the destruction'); st.g['alive'] = False; st.g['dead'] = True; return [Out('ret', st, None)]
        def alloc(ex, st, c):
            sr = len(c.args) == 2; self(ex, st, c.args[-1], 'the request for a stack'); ex.prove(st, 'one stack is asked for', z3.BoolVal(not st.g.get('alloc'))); e = st.fork(); e.note('the allocator throws'); st.g['alloc'] = True
            if sr: ex.store(st, c.args[0].add(O_SP), ex.sym(ex.sp), 8); ex.store(st, c.args[0].add(O_SZ), ex.sz, 8); r = None
            else: r = [ex.sz, ex.sym(ex.sp)] if O_SZ == 0 else [ex.sym(ex.sp), ex.sz]
            return [ex.throw(e, None, tag='user'), Out('ret', st, r)]
        def dealloc(ex, st, c):
            self(ex, st, c.args[0], 'the return of a stack'); ex.prove(st, 'the allocator gets back the stack it handed out, once', z3.And(z3.BoolVal(bool(st.g.get('alloc') and not st.g.get('dealloc'))), ex.load1(st, c.args[1].add(O_SP), PTR).bv() == ex.sp, ex.load1(st, c.args[1].add(O_SZ), ('i', 64)) == ex.sz))
            st.g['dealloc'] = True; return [Out('ret', st, None)]
        C(r'Stk2::Stk2\(long\)', ctor); C(r'Stk2::~Stk2\(\)', dtor); C(r'Stk2::allocate\(\)', alloc); C(r'Stk2::deallocate\(.*', dealloc)
    def setup(ex, st): ex.alloc_fails = True; ex.id = freshbv('id'); ex.sp = freshbv('sp'); ex.sz = freshbv('size'); ex.out = ex.symobj('out', SC, True); return [ex.id, ex.out]
    def post(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fn); g = st.g
        P('the allocator is destroyed exactly once', z3.BoolVal(('al' in g) == bool(g.get('dead')) and not g.get('alive'))); fr = g.get('_frees', ()); al = g.get('_allocs', ())
        P('the memory of the allocator is given back exactly once', z3.BoolVal(len(fr) == len(al) and all(isinstance(f.base, type(a)) and f.base is a for f, a in zip(fr, al))))
        if o.kind == 'ret': P('the stack of the allocator is handed on and given back', z3.And(z3.BoolVal(bool(g.get('alloc') and g.get('dealloc'))), ex.load1(st, ex.out.add(O_SP), PTR).bv() == ex.sp, ex.load1(st, ex.out.add(O_SZ), ('i', 64)) == ex.sz)); ex.cover('returns', st)
        else: P('an exception leaves no stack behind', z3.BoolVal(o.kind == 'exc' and not g.get('alloc'))); ex.cover('throws', st)
    us.append(Unit('stack_allocator_wrapper, from make_stack_allocator_wrapper to its destruction', fn, setup, post, ('returns', 'throws'), contracts))
