"""C10: shared states.  The state is a monitor protected by its fiber mutex; condition_variable and mutex through their
contracts (C01, C04); exception_ptr is an opaque pointer."""
from ..lib import *
from ..core import _ctr
PROPS = ['C10']
NS = 'boost::fibers::'; D = NS + 'detail::'; SB = D + 'shared_state_base'; VAL = 'Val'
B = z3.BoolVal
PAS, FU, FAR, PU, PTU = ['_ZTIN5boost6fibers%d%sE' % (len(n), n) for n in ('promise_already_satisfied', 'future_uninitialized', 'future_already_retrieved', 'promise_uninitialized', 'packaged_task_uninitialized')]
FERR = dict(broken_promise=1, future_already_retrieved=2, promise_already_satisfied=3, no_state=4)
TRUSTED = ['contracts of fiber mutex (C01) and of condition_variable_any::wait/wait_until/notify_all (C04)', 'std::exception_ptr, current_exception, make_exception_ptr, rethrow_exception: an opaque pointer to the exception']
def prop(pid): return dict(srcs=['tu/futures.cpp'], units=units, trusted=TRUSTED + ['the element type is the external class Val: its special members may do anything their contract allows, including throw'],
                           assumptions=['one instantiation (an opaque element type) stands for every element type', 'set_exception is given a non-null exception_ptr', 'the caller of an operation holds a reference to the shared state (C11)'])
EP = r'std::__exception_ptr::exception_ptr::'
def eptr_contracts(ex):
    C = ex.contract; L = lambda st, p: ex.load1(st, p, PTR)
    def copy(ex, st, c): ex.store(st, c.args[0], L(st, c.args[1]), 8); return [Out('ret', st, c.args[0] if 'operator=' in c.dem else None)]
    C(EP + r'exception_ptr\(.*exception_ptr const&\)', copy); C(EP + r'operator=\(.*exception_ptr const&\)', copy)
    C(EP + r'~exception_ptr\(\)', c_void); C(EP + r'(_M_addref|_M_release)\(\)', c_void)
    def cur(ex, st, c):
        k = st.g.get('caught', ()); e = k[-1] if k else None; p = ex.symobj('current_exception', 'exception', True)
        if e is None: ex.prove(st, 'current_exception() is used only while an exception is handled', False)
        ex.eptrs[p.base] = e; ex.store(st, c.args[0], p, 8); return [Out('ret', st, None)]
    C(r'std::current_exception\(\)', cur)
    def make(ex, st, c):
        t = re.search(r'make_exception_ptr<(.*)>\(', c.dem).group(1); p = ex.symobj('made_exception', 'exception', True); d = st.g.get(('excdata', c.args[1].base)); ex.eptrs[p.base] = Exc(t, p, dict(code=d[0] if d else None)); ex.store(st, c.args[0], p, 8); return [Out('ret', st, None)]
    C(r'std::__exception_ptr::exception_ptr std::make_exception_ptr<.*>\(.*', make)
    def reth(ex, st, c):
        p = L(st, c.args[0]); ex.prove(st, 'rethrow_exception is given an exception', p.bv() != 0); o = ex.throw(st, None, tag='rethrown'); o.val.data['eptr'] = p; return [o]
    C(r'std::rethrow_exception\(.*', reth)
    C(r'boost::fibers::future_category\(\)', lambda ex, st, c: [Out('ret', st, Ptr(ex.globreg('category:future'), 0))])
    ex.eptrs = {}
from ..core import Exc
def fut_contracts(ex):
    std_contracts(ex); eptr_contracts(ex)
    ex.contract(r'std::system_error::~system_error\(\)|boost::fibers::future_error::~future_error\(\)|boost::fibers::fiber_error::~fiber_error\(\)|boost::fibers::(broken_promise|promise_already_satisfied)::~.*', c_void)
def errcode(o, tinfo, name): return o.val.tinfo == tinfo and o.val.data.get('code') is not None, (o.val.data.get('code') == FERR[name]) if o.val.data.get('code') is not None else B(False)

def cell_contracts(ex, cell):
    """Val objects whose liveness is a z3 ghost: cell(p) -> key or None; every other object as in lib.val_contracts"""
    val_contracts(ex)
    alive = lambda st, p: st.g[cell(p)] if cell(p) else B(live_get(st, p) is not False)
    def used(st, p): ex.prove(st, 'only living element objects are used', alive(st, p))
    def born(st, p):
        if cell(p): ex.prove(st, 'an element object is constructed only where none lives', z3.Not(st.g[cell(p)])); st.g[cell(p)] = B(True)
        else: live_set(ex, st, p, True, 'ctor')
    def dies(st, p):
        if cell(p): ex.prove(st, 'an element object is destroyed only while it lives', st.g[cell(p)]); st.g[cell(p)] = B(False)
        else: live_set(ex, st, p, False, 'dtor')
    def mk(ctor, move):
        def f(ex, st, c):
            d, s = c.args[0], c.args[1]; val_read(ex, st, s); used(st, s); e = st.fork(); e.g['valthrew'] = True; outs = [ex.throw(e, None, tag='user')]; v = val_id(ex, st, s); val_write(ex, st, d)
            if not ctor: used(st, d)
            else: born(st, d)
            ex.store(st, d, v, 8)
            if move: val_write(ex, st, s); ex.store(st, s, moved_from(ex, st, 'movedfrom'), 8)
            return outs + [Out('ret', st, None if ctor else d)]
        return f
    C = lambda r, h: ex.contract(r, h, True)
    C(r'Val::Val\(Val const&\)', mk(True, False)); C(r'Val::Val\(Val&&\)', mk(True, True)); C(r'Val::operator=\(Val const&\)', mk(False, False)); C(r'Val::operator=\(Val&&\)', mk(False, True))
    C(r'Val::~Val\(\)', lambda ex, st, c: (val_write(ex, st, c.args[0]), dies(st, c.args[0]), [Out('ret', st, None)])[2])

def state_monitor(ex, lay, this, R):
    cls = D + 'shared_state<%s>' % R; lcls = next((c for c in (cls, cls.replace('<Val&>', '<Val &>'), cls.replace('<Val', '<struct Val'), cls.replace('<Val&>', '<struct Val &>')) if c in lay.rec), cls)
    f = dict(ready_=(lay.off(SB, 'ready_'), ('i', 8)), except_=(lay.off(SB, 'except_'), PTR)); gh = {}
    SO = None
    if R == 'Val': SO = lay.off(lcls, 'storage_'); f['val'] = (SO, ('i', 64)); gh['stored'] = z3.BoolSort()
    if R == 'Val&': f['value_'] = (lay.off(lcls, 'value_'), PTR)
    rdy = lambda v: v.ready_ != 0; exc = lambda v: v.except_.bv() != 0
    def has(v): return v.stored if R == 'Val' else v.value_.bv() != 0 if R == 'Val&' else z3.And(rdy(v), z3.Not(exc(v)))
    def inv(ex, v): return z3.And(z3.ULE(v.ready_, 1), z3.Implies(z3.Not(rdy(v)), z3.Not(exc(v))), has(v) == z3.And(rdy(v), z3.Not(exc(v))))
    def same(o, n): return z3.And(o.ready_ == n.ready_, o.except_.bv() == n.except_.bv(), has(o) == has(n), z3.Implies(has(o), o.val == n.val) if R == 'Val' else o.value_.bv() == n.value_.bv() if R == 'Val&' else True)
    def rely(ex, o, n): return z3.Implies(rdy(o), same(o, n))
    def guar(ex, st, a, n, evs): return [('a result is set at most once: a shared state that is ready never changes', z3.Implies(rdy(a), same(a, n))), ('a shared state that is not ready has no result', z3.Implies(z3.Not(rdy(n)), same(a, n))),
                                         ('only setting a result makes the state ready', z3.Implies(z3.And(z3.Not(rdy(a)), rdy(n)), B(ex.kind == 'set')))]
    m = Monitor('shared state', cls, lay.off(SB, 'mtx_'), f, ghosts=gh, inv=inv, rely=rely, guar=guar, bases={this.base})
    def rel(ex, st, base, a, n, evs, how):
        st.g['owed'] = simp(z3.Or(st.g['owed'], z3.And(z3.Not(rdy(a)), rdy(n), B(not any(e[0] == 'notify_all' for e in evs))))); st.g['set'] = simp(st.g['set'] + z3.If(z3.And(z3.Not(rdy(a)), rdy(n)), bv(1), bv(0)))
    m.on_release = rel; m.rdy = rdy; m.exc = exc; m.has = has; m.same = same; m.SO = SO; m.R = R
    return m
def sync_contracts(ex, lay):
    MO = lay.off(SB, 'mtx_'); WO = lay.off(SB, 'waiters_'); C = ex.contract
    C(r'boost::fibers::mutex::lock\(\)', spin_lock); C(r'boost::fibers::mutex::unlock\(\)', spin_unlock); C(r'boost::fibers::mutex::try_lock\(\)', spin_try_lock)
    def cv(ex, st, c): ex.prove(st, 'the condition variable of the shared state is used', z3.And(B(c.args[0].base is ex.this.base), B(isint(c.args[0].off) and c.args[0].off == WO)))
    def wait(ex, st, c, timed):
        cv(ex, st, c); lp, owns = lk_lock_ptr(ex, st, c.args[1]); ok = is_held(st, ex.m, ex.this.base)
        ex.prove(st, 'the mutex of the shared state is held when the fiber waits', z3.And(ex.ptr_eq(lp, ex.this.add(MO)), owns != 0, B(ok)))
        if ok: ex.prove(st, 'a fiber waits only while no result is available', z3.Not(ex.m.rdy(ex.m.view(ex, st, ex.this.base))))
        ex.prove(st, 'waiters were woken before the fiber blocks', z3.Not(st.g['owed']))
        if ok: release(ex, st, ex.this.add(MO), 'wait')
        ex.prove(st, 'no other lock is held while the fiber waits', B(len(held(st)) == 0)); outs = []
        if timed:
            t = ex.load1(st, c.args[2], ('i', 64)); dl = ex.deadline(st) if callable(ex.deadline) else ex.deadline
            ex.prove(st, 'the timed wait uses the caller\'s deadline', t == dl if dl is not None else B(False)); s2 = st.fork(); now = new_now(ex, s2); s2.assume(now >= t); s2.g['timedout'] = True; acquire(ex, s2, ex.this.add(MO)); outs.append(Out('ret', s2, bv(2, 32)))
        acquire(ex, st, ex.this.add(MO)); st.g['waited'] = True; return outs + [Out('ret', st, bv(1, 32) if timed else None)]
    C(r'.*boost::fibers::condition_variable_any::wait<std::unique_lock<boost::fibers::mutex> ?>\(.*', lambda ex, st, c: wait(ex, st, c, False))
    C(r'.*boost::fibers::condition_variable_any::wait_until<std::unique_lock<boost::fibers::mutex>, std::chrono::_V2::steady_clock, std::chrono::duration<long, std::ratio<1l, 1000000000l>> ?>\(.*', lambda ex, st, c: wait(ex, st, c, True))
    def nall(ex, st, c):
        cv(ex, st, c); st.g['owed'] = B(False)
        if is_held(st, ex.m, ex.this.base): cs_event(st, ex.m, ex.this.base, ('notify_all',))
        return [Out('ret', st, None)]
    C(r'boost::fibers::condition_variable_any::notify_all\(\)', nall); C(r'boost::fibers::condition_variable_any::notify_one\(\)', lambda ex, st, c: (cv(ex, st, c), [Out('ret', st, None)])[1])

def units(lay):
    us = []
    def mk(R, op, kind, fn, name, ret=False, timed=None, fnre=False):
        def contracts(ex):
            fut_contracts(ex); ex.m = None
            cell_contracts(ex, lambda p: ex.m.gkey(ex.this.base, 'stored') if ex.m is not None and ex.m.SO is not None and p.base is ex.this.base and isint(p.off) and p.off == ex.m.SO else None); sync_contracts(ex, lay)
        def setup(ex, st):
            cls = D + 'shared_state<%s>' % R; ex.this = ex.symobj('this', cls, True); ex.kind = kind; ex.m = state_monitor(ex, lay, ex.this, R); use_monitors(ex, ex.m); ex.m.gget(st, ex.this.base, 'stored') if R == 'Val' else None
            st.assume(ex.m.inv(ex, ex.m.view(ex, st, ex.this.base))); st.g.update(owed=B(False), set=bv(0)); args = [ex.this]
            if ret: r = ex.newregion('sym', 'result', cls='exception_ptr'); r.x = 'raw'; ex.res = Ptr(r, 0); args = [ex.res, ex.this]
            if op in ('set_value', 'set_exception') and R != 'void' or op == 'set_exception':
                ex.value = ex.symobj('value', 'Val' if op == 'set_value' else 'exception_ptr', True); args.append(ex.value)
                if op == 'set_value': ex.v0 = val_id(ex, st, ex.value)
                else: ex.v0 = ex.load1(st, ex.value, PTR).bv(); st.assume(ex.v0 != 0)
            if timed:
                t = ex.symobj('timeout', 'time'); d = ex.load1(st, t, ('i', 64)); args.append(t); ex.deadline = d if timed == 'until' else (lambda s: s.g['firstnow'] + d * 1000000)
            return args
        def post(ex, o):
            st = o.st; m = ex.m; b = ex.this.base; P = lambda n, c: ex.prove(st, n, c if not isinstance(c, bool) else B(c), fn if not fnre else name)
            P('the mutex of the shared state is released', len(held(st)) == 0); no_live_locals(ex, st, name)
            P('becoming ready wakes every waiter', z3.Not(st.g['owed'])); P('a result is set at most once', z3.ULE(st.g['set'], 1))
            if o.kind == 'stop': P('the operation does not terminate the program', False); return
            ka = st.g.get(('lastacq', m.name, b)); 
            if ka is None: P('the shared state is inspected under its mutex', False); return
            a = viewtup(m, b, ka); n = viewtup(m, b, st.g[('lastrel', m.name, b)]); did = st.g['set'] == 1
            if kind == 'set':
                P('setting a result does not wait', not st.g.get('waited'))
                if o.kind == 'exc':
                    P('an operation that fails sets nothing', z3.And(z3.Not(did), m.same(a, n)))
                    if o.val.tag == 'user': ex.cover('element throws', st); P('only the element type throws', R == 'Val' and op == 'set_value'); return
                    t, code = errcode(o, PAS, 'promise_already_satisfied'); ex.cover('satisfied', st)
                    P('a second result is rejected with promise_already_satisfied', z3.And(B(bool(t)), code)); P('a result is rejected only when the state is ready', m.rdy(a)); P('destroying the last promise never throws', op != 'owner_destroyed'); return
                if op == 'owner_destroyed':
                    P('an abandoned state without a result becomes ready, one with a result keeps it', did == z3.Not(m.rdy(a)))
                    e = ex.eptrs.get(n.except_.base)
                    if ex.check(st, did) == z3.sat: ex.cover('broken', st); s2 = st.fork(); s2.assume(did); ex.prove(s2, 'the result of an abandoned state is broken_promise', z3.And(B(e is not None and e.tinfo == NS + 'broken_promise'), m.exc(n), e.data['code'] == FERR['broken_promise'] if e is not None and e.data.get('code') is not None else False), name)
                    if ex.check(st, z3.Not(did)) == z3.sat: ex.cover('kept', st)
                    return
                ex.cover('set', st); P('the operation returns only when its result was set', z3.And(z3.Not(m.rdy(a)), m.rdy(n), did))
                if op == 'set_exception': P('the exception stored is the one given', z3.And(n.except_.bv() == ex.v0, z3.Not(m.has(n))))
                else:
                    P('the value stored is the one given', z3.And(m.has(n), z3.Not(m.exc(n)), n.val == ex.v0 if R == 'Val' else n.value_.bv() == ex.value.bv() if R == 'Val&' else True))
                    if R == 'Val' and 'const&' in fn: P('setting a copy leaves the caller\'s value untouched', val_id(ex, st, ex.value) == ex.v0)
                return
            P('getting a result changes nothing', z3.And(z3.Not(did), m.same(a, n)))
            if not timed: P('the operation returns only when the result is available', m.rdy(n))
            if o.kind == 'exc':
                ex.cover('rethrows', st); p = o.val.data.get('eptr'); P('the exception thrown is the one that was set', z3.And(B(op == 'get' and p is not None), m.exc(n), p.bv() == n.except_.bv()) if p is not None else False); return
            ex.cover('returns', st)
            if op == 'get':
                P('get() returns only when a value was set', z3.And(m.has(n), z3.Not(m.exc(n))))
                if R == 'Val': P('the value returned is the one that was set', ex.ptr_eq(o.val, ex.this.add(m.SO)))
                if R == 'Val&': P('the reference returned is the one that was set', ex.ptr_eq(o.val, n.value_))
            if op == 'get_exception_ptr': P('the exception returned is the one that was set, if any', ex.load1(st, ex.res, PTR).bv() == n.except_.bv())
            if timed:
                r = o.val
                for nm, c in (('ready', r == 1), ('timeout', r == 2)):
                    if ex.check(st, c) == z3.sat: ex.cover(nm, st)
                P('ready is reported exactly when the result is available, else timeout', z3.And(z3.Or(r == 1, r == 2), (r == 1) == m.rdy(n))); P('timeout is reported only after the deadline', z3.Implies(r == 2, B(bool(st.g.get('timedout')))))
        cov = {'set_value': ['set', 'satisfied'] + (['element throws'] if R == 'Val' else []), 'set_exception': ['set', 'satisfied'], 'owner_destroyed': ['broken', 'kept'], 'get': ['returns', 'rethrows'], 'wait': ['returns'] + (['ready', 'timeout'] if timed else []), 'get_exception_ptr': ['returns']}[op]
        us.append(Unit(name, fn, setup, post, tuple(cov), contracts, fnre=fnre))
    for R, T in (('Val', ('Val const&', 'Val&&')), ('Val&', ('Val&',)), ('void', ('',))):
        c = D + 'shared_state<%s>' % R
        for t in T: mk(R, 'set_value', 'set', '%s::set_value(%s)' % (c, t), 'shared_state<%s>::set_value(%s)' % (R, t))
        mk(R, 'get', 'get', c + '::get()', 'shared_state<%s>::get' % R)
        mk(R, 'set_exception', 'set', SB + '::set_exception(std::__exception_ptr::exception_ptr)', 'set_exception, result %s' % R); mk(R, 'owner_destroyed', 'set', SB + '::owner_destroyed()', 'owner_destroyed, result %s' % R)
        mk(R, 'get_exception_ptr', 'get', SB + '::get_exception_ptr()', 'get_exception_ptr, result %s' % R, ret=True); mk(R, 'wait', 'get', SB + '::wait() const', 'wait, result %s' % R)
        mk(R, 'wait', 'get', r'.*shared_state_base::wait_until<std::chrono::_V2::steady_clock.*', 'wait_until, result %s' % R, timed='until', fnre=True); mk(R, 'wait', 'get', r'.*shared_state_base::wait_for<long, .*', 'wait_for, result %s' % R, timed='for', fnre=True)
    return us

# ---------------------------------------------------------------------------------- C11: the error category
CAT = 'boost::fibers::future_error_category'
def category_units(lay):
    us = []
    KNOWN = (1, 2, 3, 4)
    def contracts(ex):
        setup_me(ex); stdlib(ex)
        ex.contract(r'std::_V2::(system|generic)_category\(\)', lambda ex, st, c: [Out('ret', st, ex.symobj('std category', CAT, True))])
        ex.contract(r'boost::fibers::future_category\(\)', lambda ex, st, c: [Out('ret', st, ex.cat)])
        ex.contract(r'virtual .*error_category::default_error_condition\(.*', lambda ex, st, c: [Out('ret', st, [c.args[1], z3.If(z3.And(c.args[1] >= 1, c.args[1] <= 4), ex.cat.bv(), c.args[0].bv())])])
    def pair(ex, v):
        v = list(v); x = v[1]
        return v[0], (x.bv() if isinstance(x, Ptr) else x)
    fn = CAT + '::default_error_condition(int) const'
    def s1(ex, st): ex.cat = ex.symobj('category', CAT, True); ex.this = ex.symobj('this', CAT, True); ex.e = freshbv('ev', 32); return [ex.this, ex.e]
    def p1(ex, o):
        P = lambda n, c: ex.prove(o.st, n, c, fn); P('the call returns normally', B(o.kind == 'ret'))
        if o.kind != 'ret': return
        v, cat = pair(ex, o.val); k = z3.Or(*[ex.e == i for i in KNOWN])
        P('an error of a future maps to the condition of the same value', v == ex.e); P('the condition belongs to the category of futures', z3.Implies(k, cat == ex.cat.bv())); P('an unknown value stays in this category', z3.Implies(z3.Not(k), cat == ex.this.bv()))
        ex.cover('known', o.st if ex.check(o.st, k) == z3.sat else o.st.fork().assume(B(False)))
    us.append(Unit('future_error_category::default_error_condition', fn, s1, p1, ('known',), contracts))
    fe = CAT + '::equivalent(std::error_code const&, int) const'
    def s2(ex, st):
        ex.this = ex.symobj('this', CAT, True); ex.cat = ex.this; ex.code = ex.symobj('code', 'std::error_code', True); ex.other = ex.symobj('other', CAT, True); ex.mine = fresh('mine', z3.BoolSort())
        ex.v = ex.load1(st, ex.code, ('i', 32)); ex.c = freshbv('condition', 32); s = st.fork()
        return [ex.this, ex.code, ex.c]
    def p2(ex, o):
        P = lambda n, c: ex.prove(o.st, n, c, fe); P('the call returns normally', B(o.kind == 'ret'))
        if o.kind != 'ret': return
        cat = ex.load1(o.st, ex.code.add(8), PTR)
        P('a code is equivalent to a condition exactly if it is of this category and has that value', (o.val if z3.is_bool(o.val) else o.val != 0) == z3.And(cat.bv() == ex.this.bv(), ex.v == ex.c)); ex.cover('returns', o.st)
    us.append(Unit('future_error_category::equivalent', fe, s2, p2, ('returns',), contracts))
    ff = 'boost::fibers::future_category()'
    def p3(ex, o):
        P = lambda n, c: ex.prove(o.st, n, c, ff); P('the call returns normally', B(o.kind == 'ret'))
        if o.kind == 'ret': P('there is one category of futures', B(isinstance(o.val, Ptr) and o.val.base.kind == 'global' and 'future_category' in o.val.base.name)); ex.cover('returns', o.st)
    def c3(ex): setup_me(ex); stdlib(ex)
    us.append(Unit('future_category', ff, lambda ex, st: [], p3, ('returns',), c3))
    for k in ('code', 'condition'):
        fm = 'std::make_error_%s(boost::fibers::future_errc)' % k
        def s4(ex, st): ex.cat = ex.symobj('category', CAT, True); ex.e = freshbv('errc', 32); return [ex.e]
        def p4(ex, o, fm=fm):
            P = lambda n, c: ex.prove(o.st, n, c, fm); P('the call returns normally', B(o.kind == 'ret'))
            if o.kind == 'ret': v, cat = pair(ex, o.val); P('the value is kept and the category is the one of futures', z3.And(v == ex.e, cat == ex.cat.bv())); ex.cover('returns', o.st)
        us.append(Unit('make_error_%s(future_errc)' % k, fm, s4, p4, ('returns',), contracts))
    return us
