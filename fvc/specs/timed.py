"""The deadlines of timed operations: what reaches the function that waits (C18; the mutexes also C01, C02, C03)."""
from ..lib import *
PROPS = []
FN = 'boost::fibers::'
CL = r'std::chrono::_V2::%s_clock'
D = r'std::chrono::duration<long, std::ratio<1l, %dl>>'
def unit(us, name, fre, clock, per, prim, idx, pre=lambda ex, st: [], check=None, contracts=lambda ex: None, result=False):
    """fre(pre(), t): the only wait is one call of prim with a deadline (argument idx) that is not earlier than t, and later by no more than the clock readings take.
    A clock reads (steady instant of the reading + delta)."""
    def steady(ex, st, c):
        t = new_now(ex, st); st.assume(t < bv(1 << 61)); st.g['insts'] = st.g.get('insts', ()) + (t,); return [Out('ret', st, t)]
    def other(ex, st, c):
        t = new_now(ex, st); st.assume(t < bv(1 << 61)); st.g['insts'] = st.g.get('insts', ()) + (t,); return [Out('ret', st, simp(t + ex.delta))]
    def wait(ex, st, c):
        st.g['waits'] = st.g.get('waits', ()) + (ex.load1(st, c.args[idx], ('i', 64)),); check and check(ex, st, c); r = fresh('r', z3.BoolSort()); st.g['r'] = r; return [Out('ret', st, r)]
    def cs(ex):
        setup_me(ex); ex.contract(CL % 'steady' + r'::now\(\)', steady); ex.contract(CL % 'system' + r'::now\(\)', other); stdlib(ex)
        ex.contract(prim, wait); contracts(ex)
    def setup(ex, st):
        ex.delta = freshbv('delta') if clock == 'system' else bv(0)
        st.assume(z3.And(ex.delta > bv(-(1 << 60) & (1 << 64) - 1), ex.delta < bv(1 << 60)))
        x = ex.symobj('t', 'tp'); v = ex.load1(st, x, ('i', 64)); mul = 10**9 // per; lim = (1 << 60) // mul
        st.assume(z3.And(v > bv(-lim & (1 << 64) - 1), v < bv(lim))); ex.t = simp(v * mul); ex.start = new_now(ex, st); st.assume(ex.start < bv(1 << 61))
        return list(pre(ex, st)) + [x]
    def post(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, name); w = st.g.get('waits', ()); ins = st.g.get('insts', ())
        P('the call returns normally', z3.BoolVal(o.kind == 'ret'))
        P('the fiber waits exactly once', z3.BoolVal(len(w) == 1))
        if len(w) != 1: return
        if result and o.kind == 'ret': P('the answer of the wait is returned', o.val == st.g['r'])
        d = simp(ex.t - ex.delta) if clock else simp(ex.start + ex.t)
        if clock:                # a lemma for the solver: what is asked for stays in range, whatever the unit
            lem = z3.And(ex.t >= bv(-(1 << 60) & (1 << 64) - 1), ex.t <= bv(1 << 60)); P('the deadline in nanoseconds is in range', lem); st.assume(lem)
        diff = w[0] - d; ins = (ex.start,) + tuple(ins)
        for i in ins:
            for j in ins:
                lem = simp(w[0] - d == j - i)
                if z3.is_true(lem) or (not z3.is_false(lem) and ex.proved(st, lem)): diff = j - i; st.assume(w[0] == d + diff)
        P('the wait is not cut short: it ends no earlier than the deadline asked for', w[0] >= d)
        slack = simp(ins[-1] - ex.start)
        P('the deadline is not later than asked for by more than the time the conversion takes', z3.ULE(diff, slack))
    us.append(Unit(name, fre, setup, post, (), cs, fnre=True))

def kinds(until, for_):
    for clock in ('steady', 'system'):
        for per in (10**9, 1000): yield until + '(%s%s)' % (clock, '' if per > 1000 else ' ms'), until, r'%s, %s' % (CL % clock, D % per), clock, per
    yield for_ + '(ns)', for_, r'long, std::ratio<1l, 1000000000l>', None, 10**9
    yield for_ + '(ms)', for_, r'long, std::ratio<1l, 1000l>', None, 1000

def sleep_units(us):
    for name, f, targ, clock, per in kinds('sleep_until', 'sleep_for'):
        unit(us, 'this_fiber::' + name, r'void boost::this_fiber::%s<%s>\(.*' % (f, targ), clock, per, r'boost::fibers::context::wait_until\(.*', 1,
             check=lambda ex, st, c: ex.prove(st, 'the calling fiber waits', ex.ptr_eq(c.args[0], ex.ME)))

def mutex_units(us, classes=('timed_mutex', 'recursive_timed_mutex')):
    for cls in classes:
        def pre(ex, st, cls=cls): ex.this = ex.symobj('this', FN + cls); return [ex.this]
        for name, f, targ, clock, per in kinds('try_lock_until', 'try_lock_for'):
            unit(us, '%s::%s' % (cls, name), r'bool boost::fibers::%s::%s<%s>\(.*' % (cls, f, targ), clock, per, r'boost::fibers::%s::try_lock_until_\(.*' % cls, 1, pre,
                 lambda ex, st, c: ex.prove(st, 'the mutex itself is locked', ex.ptr_eq(c.args[0], ex.this)), result=True)

def cond_units(us):
    def pre(ex, st): ex.this = ex.symobj('this', FN + 'condition_variable_any'); ex.lt = ex.symobj('lt', 'Lock'); return [ex.this, ex.lt]
    def contracts(ex):
        v = lambda ex, st, c: [Out('ret', st, None)]
        ex.contract(r'Lock::(un)?lock\(\)', v); ex.contract(r'boost::fibers::detail::spinlock_\w+::(un)?lock\(\)', v)
    for name, f, targ, clock, per in kinds('wait_until', 'wait_for'):
        unit(us, 'condition_variable_any::' + name, r'boost::fibers::cv_status boost::fibers::condition_variable_any::%s<Lock, %s>\(.*' % (f, targ), clock, per,
             r'boost::fibers::wait_queue::suspend_and_wait_until\(.*', 3, pre, lambda ex, st, c: ex.prove(st, 'the calling fiber waits', ex.ptr_eq(c.args[2], ex.ME)), contracts)
