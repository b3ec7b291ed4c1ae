"""C24: fiber properties."""
from ..lib import *
from ..core import _ctr
from .life import offs, CTX, NS, FIB, T_CTX
from . import stacks
PROPS = ['C24']
AWP = NS + 'algo::algorithm_with_properties<Props>'; FP = NS + 'fiber_properties'
def prop(pid):
    return dict(srcs=['tu/props.cpp', 'properties.cpp', 'algo/algorithm.cpp', 'context.cpp', 'scheduler.cpp', 'tu/life.cpp'], units=units,
                trusted=['RTTI: __dynamic_cast of an object of the requested class yields it (the algorithm of a fiber with properties derives from algorithm_with_properties, new_properties() returns the declared class)', 'boost::context::fiber destructor, std::map destructor', 'contract of this_fiber::yield (C17): the yielding fiber is passed to awakened() before it runs again', 'every other place that makes a fiber ready calls awakened() of the algorithm (C17, C20-C22)'],
                assumptions=['properties<P>() is used only under an algorithm with properties of class P', 'a properties object passed to a fiber was made with a null context', 'set_properties is called by the library only for a fiber without properties or with a different object'])
def props_contracts(ex):
    def dc(ex, st, c): return [Out('ret', st, c.args[0])]
    ex.contract(r'__dynamic_cast', dc)
    def dele(ex, st, c): log(st, ('delete', c.args[0])); st.g[('dead', c.args[0].base)] = True; return [Out('ret', st, None)]
    ex.contract(r'virtual .*(fiber_properties|Props)::~\w+\(\) \[deleting\].*', dele)
    def bad(ex, st, p, ty, mod, val=None):
        if st.g.get(('dead', p.base)): ex.prove(st, 'a properties object is not used after it was destroyed', False)
        return None
    ex.hooks_load.append(bad); ex.hooks_store.append(bad)

def units(lay):
    us = []; O = offs(lay); oc = lay.off(FP, 'ctx_'); oa = lay.off(FP, 'algo_'); rl = lay.off(CTX, 'ready_hook_')
    def mkprops(ex, st, name, ctx, algo):
        p = ex.symobj(name, 'Props', True); ex.store(st, p.add(oc), ctx, 8); ex.store(st, p.add(oa), algo, 8); return p
    evs = lambda st, k: [e for e in st.g.get('_log', ()) if e[0] == k]
    # notify
    fn = FP + '::notify()'
    def contracts(ex):
        setup_me(ex); stdlib(ex); props_contracts(ex)
        def change(ex, st, c): log(st, ('change',) + tuple(c.args)); return [Out('ret', st, None)]
        ex.contract(r'virtual .*algorithm_with_properties(_base|<Props>)::property_change_\(.*', change)
        def linked(ex, st, c):
            ex.prove(st, 'it is this fiber whose readiness is asked', ex.ptr_eq(c.args[0], ex.C)); return [Out('ret', st, ex.ready)]
        ex.contract(r'boost::fibers::context::ready_is_linked\(\) const', linked)
    def setup(ex, st):
        ex.C = ex.symobj('C', CTX, True); ex.A = ex.symobj('A', AWP, True); ex.p = mkprops(ex, st, 'props', ex.C, ex.A); ex.ready = fresh('ready', z3.BoolSort()); return [ex.p]
    def post(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fn); l = evs(st, 'change')
        P('notify returns normally', z3.BoolVal(o.kind == 'ret')); P('property_change is reached exactly once if the fiber is ready, else not', z3.BoolVal(len(l) == 1) == ex.ready if len(l) <= 1 else False)
        for e in l: P('the algorithm responsible for the fiber is told, with this fiber and this object', z3.And(ex.ptr_eq(e[1], ex.A), ex.ptr_eq(e[2], ex.C), ex.ptr_eq(e[3], ex.p)))
        P('notify changes neither the algorithm nor the fiber of the object', z3.And(ex.ptr_eq(ex.load1(st, ex.p.add(oc), PTR), ex.C), ex.ptr_eq(ex.load1(st, ex.p.add(oa), PTR), ex.A)))
        ex.cover('ready' if l else 'not ready', st)
    us.append(Unit('fiber_properties::notify', fn, setup, post, ('ready', 'not ready'), contracts))
    # property_change_ forwards
    fn2 = AWP + '::property_change_(boost::fibers::context*, %s*)' % FP
    def contracts2(ex):
        stdlib(ex); props_contracts(ex)
        def change(ex, st, c): log(st, ('change',) + tuple(c.args)); return [Out('ret', st, None)]
        ex.contract(r'virtual .*algorithm_with_properties<Props>::property_change\(.*', change)
    def setup2(ex, st): ex.C = ex.symobj('C', CTX, True); ex.A = ex.symobj('A', AWP, True); ex.p = mkprops(ex, st, 'props', ex.C, ex.A); return [ex.A, ex.C, ex.p]
    def post2(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fn2); l = evs(st, 'change')
        P('the overridable property_change is called exactly once', z3.BoolVal(o.kind == 'ret' and len(l) == 1))
        for e in l: P('property_change gets the fiber and the object', z3.And(ex.ptr_eq(e[1], ex.A), ex.ptr_eq(e[2], ex.C), ex.ptr_eq(e[3], ex.p)))
    us.append(Unit('algorithm_with_properties::property_change_', fn2, setup2, post2, (), contracts2))
    # awakened
    fn3 = AWP + '::awakened(boost::fibers::context*)'
    def contracts3(ex):
        stdlib(ex); props_contracts(ex)
        def mk(ex, st, c):
            ex.prove(st, 'properties are made by this algorithm, for this fiber', z3.And(ex.ptr_eq(c.args[0], ex.A), ex.ptr_eq(c.args[1], ex.C)))
            ex.prove(st, 'properties are made only for a fiber that has none, once', z3.BoolVal(ex.has is False and not evs(st, 'made')))
            p = ex.symobj('made', 'Props', True); st.mem = Ev('w', p.base, oc, 8, ex.C, st.mem); st.mem = Ev('w', p.base, oa, 8, NULL, st.mem); log(st, ('made', p)); return [Out('ret', st, p)]
        ex.contract(r'virtual .*algorithm_with_properties<Props>::new_properties\(.*', mk)
        def awk(ex, st, c):
            a, ctx, p = c.args; P = lambda n, g: ex.prove(st, n, g)
            P('the algorithm is told of this fiber, together with its own properties object', z3.And(ex.ptr_eq(a, ex.A), ex.ptr_eq(ctx, ex.C), ex.ptr_eq(p, ex.load1(st, ex.C.add(O.properties_), PTR)), p.bv() != 0))
            P('the object refers to this algorithm and this fiber when the algorithm is told', z3.And(ex.ptr_eq(ex.load1(st, p.add(oa), PTR), ex.A), ex.ptr_eq(ex.load1(st, p.add(oc), PTR), ex.C)))
            log(st, ('told',)); return [Out('ret', st, None)]
        ex.contract(r'virtual .*algorithm_with_properties<Props>::awakened\(.*, P\w+ ?&\).*', awk)
    for has in (True, False):
        def setup3(ex, st, has=has):
            ex.has = has; ex.C = ex.symobj('C', CTX, True); ex.A = ex.symobj('A', AWP, True); ex.p = mkprops(ex, st, 'props', ex.C, ex.sym(freshbv('anyalgo'))); ex.store(st, ex.C.add(O.properties_), ex.p if has else NULL, 8); return [ex.A, ex.C]
        def post3(ex, o, has=has):
            st = o.st; P = lambda n, c: ex.prove(st, n, c, fn3); now = ex.load1(st, ex.C.add(O.properties_), PTR); made = evs(st, 'made')
            P('awakened returns normally', z3.BoolVal(o.kind == 'ret')); P('the algorithm is told exactly once', z3.BoolVal(len(evs(st, 'told')) == 1)); P('no properties object is destroyed', z3.BoolVal(not evs(st, 'delete')))
            P('the fiber keeps its properties object, or gets the one that was made', ex.ptr_eq(now, ex.p if has else (made[0][1] if made else NULL)) if has or made else False)
        us.append(Unit('algorithm_with_properties::awakened (%s)' % ('properties exist' if has else 'first use'), fn3, setup3, post3, (), contracts3))
    # default new_properties
    fn4 = AWP + '::new_properties(boost::fibers::context*)'
    def contracts4(ex):
        stdlib(ex); props_contracts(ex)
        def ctor(ex, st, c): log(st, ('ctor', c.args[0], c.args[1])); return [Out('ret', st, None)]
        ex.contract(r'Props::Props\(boost::fibers::context\*\)', ctor)
    def setup4(ex, st): ex.A = ex.symobj('A', AWP, True); ex.C = ex.symobj('C', CTX, True); return [ex.A, ex.C]
    def post4(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fn4); l = evs(st, 'ctor')
        if o.kind == 'exc': P('only a failing allocation makes new_properties fail', z3.BoolVal('bad_alloc' in str(o.val.tinfo))); return
        P('one new properties object is made for the given fiber', z3.And(ex.ptr_eq(l[0][1], o.val), ex.ptr_eq(l[0][2], ex.C), z3.BoolVal(o.val.base.kind == 'heap')) if len(l) == 1 and o.kind == 'ret' else False)
    us.append(Unit('algorithm_with_properties::new_properties', fn4, setup4, post4, (), contracts4))
    # access
    for nm, fname in (('this_fiber::properties', 'tu_this_props()'), ('fiber::properties', 'tu_fiber_props(%s&)' % FIB)):
        for has in ((True, False) if nm[0] == 't' else (True,)):
            def contracts5(ex):
                setup_me(ex); stdlib(ex); props_contracts(ex)
                def yld(ex, st, c):
                    no_spinlock(ex, st, 'the fiber yields'); ex.prove(st, 'the fiber yields only to get its properties object', z3.BoolVal(not ex.has and not evs(st, 'yield'))); log(st, ('yield',))
                    if ex.load1(st, ex.ME.add(O.properties_), PTR).base.kind == 'null': ex.store(st, ex.ME.add(O.properties_), ex.p, 8)
                    return [Out('ret', st, None)]
                ex.contract(r'boost::this_fiber::yield\(\)', yld); ex.contract(r'boost::fibers::context::yield\(\)', yld)
            def setup5(ex, st, has=has, nm=nm):
                ex.has = has; X = ex.ME; args = []
                if nm[0] == 'f': X = ex.symobj('X', CTX, True); ex.f = ex.symobj('f', FIB, True); ex.store(st, ex.f.add(O.impl_), X, 8); args = [ex.f]
                ex.p = mkprops(ex, st, 'props', X, ex.symobj('A', AWP, True)); ex.store(st, X.add(O.properties_), ex.p if has else NULL, 8); ex.X = X; return args
            def post5(ex, o, has=has, fname=fname):
                st = o.st; P = lambda n, c: ex.prove(st, n, c, fname)
                P('the properties object of the fiber is returned', ex.ptr_eq(o.val, ex.p) if o.kind == 'ret' else False); P('a fiber without properties passes through its algorithm first', z3.BoolVal(len(evs(st, 'yield')) == (0 if has else 1)))
                P('the fiber keeps its object', ex.ptr_eq(ex.load1(st, ex.X.add(O.properties_), PTR), ex.p))
            us.append(Unit('%s (%s)' % (nm, 'properties exist' if has else 'first use'), fname, setup5, post5, (), contracts5))
    # set_properties, get/set of the algorithm base, constructor, set_algorithm, set_context
    fn6 = CTX + '::set_properties(%s*)' % FP
    for owner, fname in (('context::set_properties', fn6), ('algorithm_with_properties_base::set_properties', NS + 'algo::algorithm_with_properties_base::set_properties(boost::fibers::context*, %s*)' % FP)):
        for has in (True, False):
            def contracts6(ex): stdlib(ex); props_contracts(ex)
            def setup6(ex, st, has=has):
                ex.C = ex.symobj('C', CTX, True); ex.p = ex.symobj('old', 'Props', True); ex.q = ex.symobj('new', 'Props', True); ex.store(st, ex.C.add(O.properties_), ex.p if has else NULL, 8); return [ex.C, ex.q]
            def post6(ex, o, has=has, fname=fname):
                st = o.st; P = lambda n, c: ex.prove(st, n, c, fname); l = evs(st, 'delete')
                P('the new object is the one of the fiber', z3.And(z3.BoolVal(o.kind == 'ret'), ex.ptr_eq(ex.load1(st, ex.C.add(O.properties_), PTR), ex.q)))
                P('the replaced object is destroyed exactly once, the new one not', z3.And(*[ex.ptr_eq(e[1], ex.p) for e in l], z3.BoolVal(len(l) == (1 if has else 0))))
            us.append(Unit('%s (%s)' % (owner, 'replace' if has else 'first'), fname, setup6, post6, (), contracts6))
    fn7 = NS + 'algo::algorithm_with_properties_base::get_properties(boost::fibers::context*)'
    def setup7(ex, st): ex.C = ex.symobj('C', CTX, True); ex.p = ex.symobj('p', 'Props', True); ex.store(st, ex.C.add(O.properties_), ex.p, 8); return [ex.C]
    def post7(ex, o): ex.prove(o.st, 'the properties object of the given fiber is returned', ex.ptr_eq(o.val, ex.p) if o.kind == 'ret' else False, fn7)
    us.append(Unit('algorithm_with_properties_base::get_properties', fn7, setup7, post7, (), lambda ex: (setup_me(ex), stdlib(ex))))
    fn8 = 'tu_base(%s*, boost::fibers::context*)' % FP
    def setup8(ex, st): ex.C = ex.symobj('C', CTX, True); ex.p = ex.symobj('p', FP, True); ex.store(st, ex.p.add(oa), ex.sym(freshbv('raw')), 8); return [ex.p, ex.C]
    def post8(ex, o): st = o.st; ex.prove(st, 'a new properties object belongs to the given fiber and to no algorithm yet', z3.And(z3.BoolVal(o.kind == 'ret'), ex.ptr_eq(ex.load1(st, ex.p.add(oc), PTR), ex.C), ex.load1(st, ex.p.add(oa), PTR).bv() == 0), fn8)
    us.append(Unit('fiber_properties constructor', fn8, setup8, post8, (), lambda ex: (setup_me(ex), stdlib(ex))))
    # the end of a fiber
    fn9 = CTX + '::~context()'
    for has in (True, False):
        def contracts9(ex):
            setup_me(ex); std_contracts(ex); props_contracts(ex)
            ex.contract(r'std::map<.*>::~map\(\)', lambda ex, st, c: [Out('ret', st, None)]); ex.contract(r'boost::(context::fiber::~fiber|intrusive::generic_hook<.*>::~generic_hook|fibers::wait_queue::~wait_queue)\(\)', lambda ex, st, c: [Out('ret', st, None)])
        def setup9(ex, st, has=has):
            ex.C = ex.symobj('C', CTX, True); ex.p = ex.symobj('p', 'Props', True); ex.store(st, ex.C.add(O.properties_), ex.p if has else NULL, 8); return [ex.C]
        def post9(ex, o, has=has):
            st = o.st; P = lambda n, c: ex.prove(st, n, c, fn9); l = evs(st, 'delete')
            P('the properties object is destroyed exactly once, with the fiber', z3.And(z3.BoolVal(o.kind == 'ret' and len(l) == (1 if has else 0)), *[ex.ptr_eq(e[1], ex.p) for e in l]))
        us.append(Unit('context::~context (%s)' % ('with properties' if has else 'without properties'), fn9, setup9, post9, (), contracts9))
    # properties given to the constructor of a fiber
    return us + [u for u in stacks.units(lay) if 'with properties' in u.name]
