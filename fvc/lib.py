"""Contracts shared by the units: monitors (lock-protected shared state), suspension, wait queues,
run-time library, exceptions."""
from .execu import *
from .core import _ctr, memfun
from types import SimpleNamespace

CTX = 'boost::fibers::context'
SPIN = r'boost::fibers::detail::spinlock_\w+'

# ---------------------------------------------------------------------------------- monitors
class View(SimpleNamespace): pass

# class invariants tried when the units fail without them: each must be established by the constructor unit and by every release,
# else it is dropped and the units run again (Houdini over the units of the property); filled by check.py
CANDS = set()
class Monitor:
    """shared object protected by a spinlock.
    fields: {name: (offset, type)}; ghosts: {name: sort}.
    inv(ex,v) / rely(ex,o,n) -> Bool ; guar(ex,st,a,n,evs) -> [(name, Bool)]"""
    def __init__(self, name, cls, lockoff, fields, ghosts=None, inv=None, rely=None, guar=None, block=None, racy=(), bases=None, labels=None, wqs=(), frozen=(), cands=None):
        self.cands = cands or {}   # candidate class invariants {name: fn(ex, v)}, see CANDS
        self.name = name; self.cls = cls; self.lockoff = lockoff; self.fields = fields; self.ghosts = ghosts or {}
        self._inv = inv; self._rely = rely; self._guar = guar; self._block = block; self.racy = set(racy)
        self.bases = bases; self.labels = labels or {}; self.wqs = dict(wqs)   # off -> name of wait queue
        self.frozen = set(frozen); self.on_acquire = None; self.on_release = None; self.on_havoc = None; self.regions = []
    def matches(self, base):
        return (base in self.bases) if self.bases is not None else (base.cls == self.cls)
    def view(self, ex, st, base):
        v = View(base=base)
        for n, (off, ty) in self.fields.items():
            x = ex.load1(st, Ptr(base, off), ty)
            setattr(v, n, x)
        for n in self.ghosts: setattr(v, n, self.gget(st, base, n))
        return v
    def gkey(self, base, n): return ('mg', self.name, base, n)
    def gget(self, st, base, n):
        k = self.gkey(base, n)
        if k not in st.g:
            s = self.ghosts[n]
            st.g[k] = s(self, base) if callable(s) and not isinstance(s, z3.SortRef) else z3.Const('%s.%s@%s' % (self.name, n, base.name), s)
        return st.g[k]
    def gset(self, st, base, n, v): st.g[self.gkey(base, n)] = v
    def havoc(self, ex, st, base):
        o = self.view(ex, st, base)
        for n, (off, ty) in self.fields.items():
            if n in self.frozen: continue
            v = ex.fresh_of(ty, self.name + '.' + n, self.labels.get(n))
            size = 8 if ty == PTR else (ty[1]+7)//8
            if z3.is_bool(v) if not isinstance(v, Ptr) else False: v = z3.If(v, bv(1, 8), bv(0, 8))
            st.mem = Ev('w', base, off, size, v, st.mem)
        for n, s in self.ghosts.items():
            if isinstance(s, z3.SortRef): st.g[self.gkey(base, n)] = fresh(self.name + '.' + n, s)
            else: st.g[self.gkey(base, n)] = s(self, base)
        if self.on_havoc: self.on_havoc(ex, st, base)
        n = self.view(ex, st, base)
        st.assume(self.inv(ex, n)); st.assume(self.rely(ex, o, n))
        return n
    def base_inv(self, ex, v): return self._inv(ex, v) if self._inv else z3.BoolVal(True)
    def active(self): return [n for n in self.cands if '%s: %s' % (self.name, n) in CANDS]
    def inv(self, ex, v):
        l = self.active()
        return z3.And(self.base_inv(ex, v), *[self.cands[n](ex, v) for n in l]) if l else self.base_inv(ex, v)
    def prove_inv(self, ex, st, v, when, loc=None):
        ex.prove(st, '%s: representation invariant holds %s' % (self.name, when), self.base_inv(ex, v), *([loc] if loc else []))
        for n in self.active(): ex.prove(st, 'class invariant %s: %s' % (self.name, n), self.cands[n](ex, v), *([loc] if loc else []))
    def rely(self, ex, o, n): return self._rely(ex, o, n) if self._rely else z3.BoolVal(True)
    def guar(self, ex, st, a, n, evs): return self._guar(ex, st, a, n, evs) if self._guar else []

def tupview(mon, v):
    return tuple(getattr(v, n) for n in list(mon.fields) + list(mon.ghosts))
def viewtup(mon, base, t):
    v = View(base=base)
    for n, x in zip(list(mon.fields) + list(mon.ghosts), t): setattr(v, n, x)
    return v

def held(st): return st.g.get('held', ())
def find_monitor(ex, p):
    for m in ex.monitors:
        if isint(p.off) and m.matches(p.base) and p.off == m.lockoff: return m
    return None
def in_monitor(ex, base, off):
    for m in ex.monitors:
        if m.matches(base):
            for n, (o, ty) in m.fields.items():
                s = 8 if ty == PTR else (ty[1]+7)//8
                if isint(off) and o <= off < o + s: return m, n
    return None
def in_region(ex, base):
    for m in ex.monitors:
        for r, owner in m.regions:
            if r is base: return m, owner
    return None
def is_held(st, m, base): return any(b is base and o == m.lockoff for b, o, k in held(st) if k == m.name)

def acquire(ex, st, p):
    """effect of taking the spinlock at p (already known free or obtained)"""
    m = find_monitor(ex, p)
    st.g['held'] = held(st) + ((p.base, p.off, m.name if m else None),)
    if m:
        n = m.havoc(ex, st, p.base)
        st.g[('acq', m.name, p.base)] = tupview(m, n)
        st.g[('cs', m.name, p.base)] = ()
        if m.on_acquire: m.on_acquire(ex, st, p.base)
def release(ex, st, p, how='unlock'):
    m = find_monitor(ex, p)
    h = held(st)
    if m:
        a = viewtup(m, p.base, st.g[('acq', m.name, p.base)])
        n = m.view(ex, st, p.base)
        evs = st.g.get(('cs', m.name, p.base), ())
        m.prove_inv(ex, st, n, 'when the lock is released')
        for nm, c in m.guar(ex, st, a, n, evs): ex.prove(st, '%s: %s' % (m.name, nm), c)
        st.g[('lastacq', m.name, p.base)] = st.g[('acq', m.name, p.base)]
        st.g[('lastrel', m.name, p.base)] = tupview(m, n)
        st.g[('lastcs', m.name, p.base)] = evs
        st.g.pop(('acq', m.name, p.base), None)
        if m.on_release: m.on_release(ex, st, p.base, a, n, evs, how)
    st.g['held'] = tuple(x for x in h if not (x[0] is p.base and x[1] == p.off))
def cs_event(st, m, base, ev):
    k = ('cs', m.name, base); st.g[k] = st.g.get(k, ()) + (ev,)
def log(st, ev): st.g['_log'] = st.g.get('_log', ()) + (ev,)

def spin_lock(ex, st, c):
    p = c.args[0]
    ex.prove(st, 'spinlock is not already held by the locking fiber', z3.BoolVal(not any(b is p.base and o == p.off for b, o, _ in held(st))))
    acquire(ex, st, p)
    return [Out('ret', st, None)]
def spin_try_lock(ex, st, c):
    p = c.args[0]
    ex.prove(st, 'spinlock is not already held by the locking fiber', z3.BoolVal(not any(b is p.base and o == p.off for b, o, _ in held(st))))
    s2 = st.fork(); acquire(ex, st, p)
    return [Out('ret', st, z3.BoolVal(True)), Out('ret', s2, z3.BoolVal(False))]
def spin_unlock(ex, st, c):
    p = c.args[0]
    ok = any(b is p.base and o == p.off for b, o, _ in held(st))
    ex.prove(st, 'spinlock is held when it is unlocked', z3.BoolVal(ok))
    if ok: release(ex, st, p)
    return [Out('ret', st, None)]

def race_load(ex, st, p, ty, mod):
    if p.base.kind not in ('sym', 'heap', 'global') or not ex.monitors: return None
    r = in_monitor(ex, p.base, p.off)
    if r is None:
        q = in_region(ex, p.base)
        if q and not is_held(st, q[0], q[1]): ex.prove(st, 'memory protected by the lock of %s is read only under it' % q[0].name, False)
        return None
    m, n = r
    if n in m.frozen or is_held(st, m, p.base): return None
    if n not in m.racy:
        ex.prove(st, 'shared field %s.%s is read only under its lock' % (m.name, n), False)
    # unlocked read: any value others may have written meanwhile
    m.havoc(ex, st, p.base)
    return None
def race_store(ex, st, p, ty, mod, val):
    if p.base.kind not in ('sym', 'heap', 'global') or not ex.monitors: return None
    r = in_monitor(ex, p.base, p.off)
    if r is None:
        q = in_region(ex, p.base)
        if q and not is_held(st, q[0], q[1]): ex.prove(st, 'memory protected by the lock of %s is written only under it' % q[0].name, False)
        return None
    m, n = r
    if n in m.frozen: ex.prove(st, 'field %s.%s does not change after construction' % (m.name, n), False)
    if not is_held(st, m, p.base):
        ex.prove(st, 'shared field %s.%s is written only under its lock' % (m.name, n), False)
    return None

def use_monitors(ex, *mons):
    ex.monitors = list(mons)
    ex.hooks_load.append(race_load); ex.hooks_store.append(race_store)
    def cands(ex, fn, st0, phi0, H):
        l = []
        for m in ex.monitors:
            for k in list(H):
                if k[0] == 'cell' and m.matches(k[1]):
                    base = k[1]
                    v0 = m.view(ex, st0, base)
                    l.append(('rely %s %s' % (m.name, id(base)), lambda s, ph, m=m, base=base, v0=v0: m.rely(ex, v0, m.view(ex, s, base))))
                    break
        # a lock held at the loop header: what must hold when it is released may hold already
        for b, off, name in held(st0):
            for m in ex.monitors:
                if m.name == name:
                    l.append(('invariant %s %s' % (m.name, id(b)), lambda s, ph, m=m, b=b: m.inv(ex, m.view(ex, s, b))))
                    def g(s, ph, m=m, b=b):
                        if ('acq', m.name, b) not in s.g: return z3.BoolVal(True)
                        a = viewtup(m, b, s.g[('acq', m.name, b)]); n = m.view(ex, s, b)
                        return z3.And(*[c if not isinstance(c, bool) else z3.BoolVal(c) for _, c in m.guar(ex, s, a, n, s.g.get(('cs', m.name, b), ()))])
                    l.append(('guarantee %s %s' % (m.name, id(b)), g))
                    # each field may still be as it was when the lock was taken
                    def u(s, ph, m=m, b=b, f=None):
                        if ('acq', m.name, b) not in s.g: return z3.BoolVal(True)
                        x = getattr(viewtup(m, b, s.g[('acq', m.name, b)]), f); y = getattr(m.view(ex, s, b), f)
                        return ex.ptr_eq(x, y) if isinstance(x, Ptr) else x == y
                    for f in list(m.fields): l.append(('unchanged %s.%s %s' % (m.name, f, id(b)), lambda s, ph, u=u, f=f: u(s, ph, f=f)))
        return l
    ex.auto_cands = getattr(ex, 'auto_cands', []) + [cands]

# ---------------------------------------------------------------------------------- active context, suspension
def setup_me(ex):
    ex.ME = ex.symobj('ME', CTX)
    ex.contract(r'boost::fibers::context::active\(\)', lambda ex, st, c: Out('ret', st, ex.ME))

def no_spinlock(ex, st, what):
    ex.prove(st, 'no spinlock is held while %s' % what, z3.BoolVal(len(held(st)) == 0))

def c_yield(ex, st, c):
    no_spinlock(ex, st, 'the fiber yields')
    log(st, ('yield',))
    return [Out('ret', st, None)]

def lk_lock_ptr(ex, st, lk):
    """spinlock a std::unique_lock refers to, and its owns flag"""
    m = ex.load1(st, lk, PTR); o = ex.load1(st, lk.add(8), ('i', 8))
    return m, o
def wq_monitor(ex, wq):
    for m in ex.monitors:
        if m.matches(wq.base) and isint(wq.off) and wq.off in m.wqs: return m, m.wqs[wq.off]
    return None, None

def wq_requires(ex, st, wq, what):
    m, q = wq_monitor(ex, wq)
    if m is None: raise ToolError('wait queue without monitor at %s' % ex.curloc())
    ex.prove(st, 'the wait queue %s is accessed (%s) only under its lock' % (q, what), z3.BoolVal(is_held(st, m, wq.base)))
    return m, q

def wq_suspend(ex, st, wq, lk, ctx, timed=None):
    m, q = wq_requires(ex, st, wq, 'suspend')
    lp, owns = lk_lock_ptr(ex, st, lk)
    ex.prove(st, 'the lock passed to the wait queue is the one that protects it', ex.ptr_eq(lp, Ptr(wq.base, m.lockoff)))
    ex.prove(st, 'the lock passed to the wait queue is owned', owns != 0)
    ex.prove(st, 'only the active fiber enqueues and suspends itself', ex.ptr_eq(ctx, ex.ME))
    if not is_held(st, m, wq.base): return m, q
    if m._block:
        a = viewtup(m, wq.base, st.g[('acq', m.name, wq.base)]); v = m.view(ex, st, wq.base)
        for n, cnd in m._block(ex, st, a, v, q): ex.prove(st, '%s: %s' % (m.name, n), cnd)
    cs_event(st, m, wq.base, ('suspend', q))
    release(ex, st, Ptr(wq.base, m.lockoff), 'suspend')
    ex.prove(st, 'no other spinlock is held while the fiber is suspended', z3.BoolVal(len(held(st)) == 0))
    ex.store(st, lk.add(8), bv(0, 8), 1)
    log(st, ('suspend', m.name, q))
    return m, q

def c_suspend_and_wait(ex, st, c):
    wq, lk, ctx = c.args
    m, q = wq_suspend(ex, st, wq, lk, ctx)
    st.g[('baton', m.name, wq.base, q)] = True
    st.g['resumed'] = ('woken', m.name, q)
    return [Out('ret', st, None)]
def c_suspend_and_wait_until(ex, st, c):
    wq, lk, ctx, tp = c.args
    t = ex.load1(st, tp, ('i', 64))
    m, q = wq_suspend(ex, st, wq, lk, ctx, t)
    if ex.deadline is not None:
        dl = ex.deadline(st) if callable(ex.deadline) else ex.deadline
        ex.prove(st, 'the timed wait uses the caller\'s deadline', t == dl)
    s2 = st.fork()
    # true: woken by a notifier, or the deadline passed but a notifier had already dequeued this waiter
    st.g[('baton', m.name, wq.base, q)] = True; st.g['resumed'] = ('woken', m.name, q)
    # false: the deadline passed while the waiter was still queued; it removed itself under the lock
    now = new_now(ex, s2); s2.assume(now >= t); s2.g['timedout'] = True
    s2.g[('baton', m.name, wq.base, q)] = None; s2.g['resumed'] = ('timeout', m.name, q)
    return [Out('ret', st, z3.BoolVal(True)), Out('ret', s2, z3.BoolVal(False))]
def c_notify_one(ex, st, c):
    m, q = wq_requires(ex, st, c.args[0], 'notify_one')
    cs_event(st, m, c.args[0].base, ('notify_one', q)); log(st, ('notify_one', m.name, q))
    return [Out('ret', st, None)]
def c_notify_all(ex, st, c):
    m, q = wq_requires(ex, st, c.args[0], 'notify_all')
    cs_event(st, m, c.args[0].base, ('notify_all', q)); log(st, ('notify_all', m.name, q))
    return [Out('ret', st, None)]
def c_wq_empty(ex, st, c):
    m, q = wq_requires(ex, st, c.args[0], 'empty')
    e = fresh('wq_empty', z3.BoolSort())
    k = ('wqempty', m.name, c.args[0].base, q)
    cs_event(st, m, c.args[0].base, ('empty?', q, e))
    return [Out('ret', st, e)]

def notified(evs, q, all=False):
    """Bool: within the critical section queue q was notified, or seen empty"""
    c = []
    for e in evs:
        if e[0] == 'notify_all' and e[1] == q: return z3.BoolVal(True)
        if e[0] == 'notify_one' and e[1] == q and not all: return z3.BoolVal(True)
        if e[0] == 'empty?' and e[1] == q: c.append(e[2])
    return z3.Or(*c) if c else z3.BoolVal(False)
def n_notify(evs, q): return sum(1 for e in evs if e[0] in ('notify_one',) and e[1] == q)

WQ = r'boost::fibers::wait_queue::'
ULK = r'std::unique_lock<%s>' % SPIN
def wait_queue_contracts(ex):
    ex.contract(WQ + r'suspend_and_wait\(.*\)', c_suspend_and_wait)
    ex.contract(WQ + r'suspend_and_wait_until\(.*\)', c_suspend_and_wait_until)
    ex.contract(WQ + r'notify_one\(\)', c_notify_one)
    ex.contract(WQ + r'notify_all\(\)', c_notify_all)
    ex.contract(WQ + r'empty\(\) const', c_wq_empty)
def spinlock_contracts(ex):
    ex.contract(SPIN + r'::lock\(\)', spin_lock)
    ex.contract(SPIN + r'::try_lock\(\)', spin_try_lock)
    ex.contract(SPIN + r'::unlock\(\)', spin_unlock)

# ---------------------------------------------------------------------------------- time
def new_now(ex, st):
    t = freshbv('now'); st.g['firstnow'] = st.g.get('firstnow', t); lo = st.g.get('now', bv(0))
    st.assume(t >= lo); st.assume(t >= 0); st.assume(t < bv(1 << 62)); st.g['now'] = t
    return t
def c_now(ex, st, c):
    return [Out('ret', st, new_now(ex, st))]
def c_other_now(ex, st, c):
    t = freshbv('now_other'); st.assume(t >= 0); st.assume(t < bv(1 << 62))
    log(st, ('othernow', t))
    return [Out('ret', st, t)]

# ---------------------------------------------------------------------------------- run-time library
def c_stop(why):
    def f(ex, st, c):
        log(st, ('stop', why)); return [Out('stop', st, why)]
    return f
def c_alloc_exc(ex, st, c):
    r = ex.newregion('heap', 'exc', cval(c.args[0])); return [Out('ret', st, Ptr(r, 0))]
def c_throw(ex, st, c):
    p, ti = c.args[0], c.args[1]
    d = st.g.get(('excdata', p.base), None)
    st.note('throw %s %s' % (ti.base.name, d))
    return [Out('exc', st, Exc(ti.base.name, p, dict(code=d[0] if d else None)))]
def c_begin_catch(ex, st, c):
    st.g['caught'] = st.g.get('caught', ()) + (st.exc,)
    return [Out('ret', st, c.args[0])]
def c_end_catch(ex, st, c):
    k = st.g.get('caught', ())
    st.g['caught'] = k[:-1]
    return [Out('ret', st, None)]
def c_rethrow(ex, st, c):
    k = st.g.get('caught', ())
    if not k: return [Out('stop', st, 'terminate')]
    return [Out('exc', st, k[-1])]
def c_make_error_code(ex, st, c):
    # {int value, category*}
    return [Out('ret', st, [c.args[0], Ptr(ex.globreg('category:' + re.sub(r'\(.*', '', c.dem)), 0)])]
def c_error_ctor(ex, st, c):
    """*_error(error_code, what): records the code in the exception object"""
    a = c.args; code = a[1]
    if isinstance(code, list): code, cat = code
    else: cat = a[2]
    st.g[('excdata', a[0].base)] = (code, cat if isinstance(cat, Ptr) else None, re.sub(r'.*::', '', re.sub(r'\(.*', '', c.dem)))
    return [Out('ret', st, None)]
def c_void(ex, st, c): return [Out('ret', st, None)]
def c_new(ex, st, c):
    n = cval(c.args[0])
    r = ex.newregion('heap', 'new', n)
    st.g['_allocs'] = st.g.get('_allocs', ()) + (r,)
    outs = [Out('ret', st, Ptr(r, 0))]
    if ex.alloc_fails or n is None:
        s2 = st.fork(); s2.g['_allocs'] = s2.g['_allocs'][:-1]; s2.note('operator new throws bad_alloc')
        o = ex.throw(s2, '_ZTISt9bad_alloc', tag='bad_alloc'); outs.append(o)
    if n is None: r.size = c.args[0]; st.assume(z3.ULT(c.args[0], bv(1 << 47)))   # no allocation exceeds the address space
    return outs
def c_delete(ex, st, c):
    p = c.args[0]
    st.g['_frees'] = st.g.get('_frees', ()) + (p,)
    return [Out('ret', st, None)]

def stdlib(ex):
    C = ex.contract
    C(r'__cxa_allocate_exception', c_alloc_exc); C(r'__cxa_free_exception', c_void)
    C(r'__cxa_throw', c_throw); C(r'__cxa_begin_catch', c_begin_catch); C(r'__cxa_end_catch', c_end_catch); C(r'__cxa_rethrow', c_rethrow)
    C(r'__cxa_guard_acquire', lambda ex, st, c: Out('ret', st, bv(0, 32))); C(r'__cxa_guard_release', c_void); C(r'__cxa_guard_abort', c_void)
    C(r'__clang_call_terminate', c_stop('terminate')); C(r'std::terminate\(\)', c_stop('terminate')); C(r'abort', c_stop('abort'))
    C(r'std::__throw_\w+\(.*\)', lambda ex, st, c: [ex.throw(st, '_ZTISt13runtime_error' if 'system' not in c.dem else '_ZTISt12system_error', tag=c.dem)])
    C(r'std::make_error_code\(std::(errc|io_errc|future_errc)\)', c_make_error_code)
    C(r'boost::fibers::make_error_code\(.*\)', c_make_error_code)
    C(r'boost::fibers::(lock_error|fiber_error)::\1\(std::error_code.*\)', c_error_ctor)
    C(r'boost::fibers::future_error::future_error\(std::error_code\)', c_error_ctor)
    C(r'std::chrono::_V2::steady_clock::now\(\)', c_now)
    C(r'std::chrono::_V2::system_clock::now\(\)', c_other_now)
    C(r'operator new(\[\])?\(unsigned long(, std::nothrow_t const&)?\)', c_new)
    C(r'operator delete(\[\])?\(void\*(, unsigned long)?\)', c_delete)
    C(r'boost::fibers::detail::cpu_relax.*|sched_yield', c_void)

def finfo(lay, cls, *names):
    """{name: (off, IRtype)} for scalar fields"""
    d = {}
    for n in names:
        off = lay.off(cls, n); t = None
        r = lay.rec[cls]; nm = n if n in r['fields'] else lay.renamed(cls, n)
        s = r['fields'][nm][1]
        if s.endswith('*'): t = PTR
        elif s in ('_Bool', 'bool'): t = ('i', 8)
        elif re.search(r'\b(unsigned long|size_t|long|uint64_t|uintptr_t)\b', s): t = ('i', 64)
        elif s in ('int', 'unsigned int') or 'type' in s or 'launch' in s or 'enum' in s: t = ('i', 32)
        else: t = PTR if 'intrusive_ptr' in s else ('i', 64)
        d[n] = (off, t)
    return d

# ---------------------------------------------------------------------------------- units
class Unit:
    """one function under contract"""
    def __init__(self, name, fn, setup, post, covers=(), contracts=None, fnre=False, config=None, **kw):
        self.name = name; self.fn = fn; self.setup = setup; self.post = post; self.covers = covers; self.contracts = contracts
        self.fnre = fnre; self.kw = kw

def mkexec(prog, lay, timeout=10000):
    ex = Executor(prog, lay, timeout)
    ex.monitors = []; ex.deadline = None; ex.alloc_fails = False; ex.val_throws = True; ex.track_moves = False
    def vt(cls):
        if cls in lay.vtables or cls.split('<')[0] in lay.vtables:
            k = 'vt:' + cls
            r = ex.regs.get(k)
            if r is None: r = ex.newregion('vt', cls); ex.regs[k] = r
            return Ptr(r, 0)
        return None
    ex.vt_resolve = vt
    return ex

def std_contracts(ex):
    setup_me(ex); spinlock_contracts(ex); wait_queue_contracts(ex); stdlib(ex)
    ex.contract(r'boost::fibers::context::yield\(\)', c_yield)

class UnitResult:
    pass

def run_unit(prog, lay, u, second=False, timeout=10000):
    t = time.time()
    ex = mkexec(prog, lay, timeout); ex.unit = u.name; ex.second = second
    r = UnitResult(); r.name = u.name; r.err = None; r.fn = u.fn
    try:
        if u.contracts: u.contracts(ex)
        if u.fnre:
            l = prog.findre(u.fn)
            l = sorted(set(l), key=lambda f: f.name)
            if not l: raise ToolError('function not found: %s' % u.fn)
            # C1/C2 variants are the same body: prefer a body over a forwarding one
            fn = l[0]
        else: fn = prog.find(u.fn)
        r.fn = fn.dem
        st = State(); st.g['held'] = ()
        args = u.setup(ex, st)
        if isinstance(args, tuple) and isinstance(args[0], State): st, args = args
        if ex.check(st) != z3.sat: raise ToolError('precondition of %s is unsatisfiable' % u.name)
        outs = ex.exec_fn(fn, args, st)
        n = 0
        for o in outs:
            if not ex.feasible(o.st): continue
            n += 1
            u.post(ex, o)
        if n == 0 and not any(x.status=='failed' for x in ex.obls): raise ToolError('no outcome of %s is reachable (vacuous)' % u.name)
        if not ex.obls: raise ToolError('no obligation was generated for %s' % u.name)
        miss = [c for c in u.covers if not ex.covers.get((u.name, c))]
        if miss and not any(x.status == 'failed' for x in ex.obls):
            r.err = 'cover not reached: %s' % ', '.join(miss)
        if any(x.status == 'unknown' for x in ex.obls) and not any(x.status == 'failed' for x in ex.obls):
            r.err = 'solver gave no answer on: ' + '; '.join(x.name for x in ex.obls if x.status == 'unknown')
    except (ToolError, IRError) as e:
        r.err = '%s: %s' % (type(e).__name__, e)
    except Exception as e:
        import traceback
        r.err = 'internal: %s\n%s' % (e, traceback.format_exc())
    if ex.shaky and any(x.status == 'failed' for x in ex.obls):
        bad = sorted(set(x.name for x in ex.obls if x.status == 'failed'))
        for x in ex.obls:
            if x.status == 'failed': x.status = 'unknown'
        r.err = 'no answer on a loop invariant candidate, and then not established: %s' % '; '.join(bad)
    r.obls = ex.obls; r.covers = dict(ex.covers); r.time = time.time() - t; r.nq = ex.nq; r.qtime = ex.qtime
    r.inlined = dict(ex.inlined); r.contracts = dict(ex.contract_used); r.loops = getattr(ex, 'loops_done', 0); r.trusted = set(ex.trusted)
    return r

# ---------------------------------------------------------------------------------- opaque element type Val (fvc/tu/val.hpp)
VAL_SIZE = 8
def val_id(ex, st, p): return ex.load1(st, p, ('i', 64))
def live_get(st, p):
    if not isint(p.off): return None
    k = ('live', p.base, p.off)
    if k in st.g: return st.g[k]
    return p.base.kind != 'stack' and p.base.x != 'raw'
def live_set(ex, st, p, v, what):
    if not isint(p.off): return
    cur = live_get(st, p)
    if cur is not None: ex.prove(st, 'an element object is %s' % ('constructed only where none lives' if v else 'destroyed only while it lives'), z3.BoolVal(cur != v))
    st.g[('live', p.base, p.off)] = v
def val_read(ex, st, p): 
    for h in ex.hooks_load: h(ex, st, p, ('i', 64), None)
def val_write(ex, st, p):
    for h in ex.hooks_store: h(ex, st, p, ('i', 64), None, None)
def val_used(ex, st, p):
    l = live_get(st, p)
    if l is not None: ex.prove(st, 'only living element objects are used', z3.BoolVal(l))
def moved_from(ex, st, n):
    v = freshbv(n)   # the content of a moved-from object is not the value that was moved out
    for x in getattr(ex, 'moved_ids', ()): st.assume(v != x)
    return v
def val_contracts(ex, cls='Val', name='Val', assign=True):
    """an opaque class: special members are external and may throw (a destructor may not)"""
    def mk(ctor, move):
        def f(ex, st, c):
            d, s = c.args[0], c.args[1]
            if d.base.kind == 'null' or s.base.kind == 'null': raise NullDeref(d)
            val_read(ex, st, s); val_used(ex, st, s)
            outs = []
            if ex.val_throws:
                e = st.fork(); val_write(ex, e, d) if not ctor else None
                if not ctor: ex.store(e, d, freshbv('valhalf'), 8)
                e.note('element %s throws' % ('constructor' if ctor else 'assignment'))
                e.g['valthrew'] = True
                outs.append(ex.throw(e, None, tag='user'))
            v = val_id(ex, st, s)
            if not ctor: val_write(ex, st, d); val_used(ex, st, d)
            else:
                val_write(ex, st, d); live_set(ex, st, d, True, 'ctor')
            ex.store(st, d, v, 8)
            if move:
                val_write(ex, st, s); ex.store(st, s, moved_from(ex, st, 'movedfrom'), 8)
                st.g['moves'] = st.g.get('moves', ()) + ((d, s),) if ex.track_moves else ()
            outs.append(Out('ret', st, d if not ctor else None))
            return outs
        return f
    C = ex.contract
    n = r'%s::%s' % (cls, name)
    C(n + r'\(\)', lambda ex, st, c: (live_set(ex, st, c.args[0], True, 'ctor'), ex.store(st, c.args[0], freshbv('valdef'), 8), [Out('ret', st, None)])[2])
    C(n + r'\(%s const&\)' % cls, mk(True, False)); C(n + r'\(%s&&\)' % cls, mk(True, True))
    C(cls + r'::operator=\(%s const&\)' % cls, mk(False, False)); C(cls + r'::operator=\(%s&&\)' % cls, mk(False, True))
    def dtor(ex, st, c):
        live_set(ex, st, c.args[0], False, 'dtor')
        st.g['dtors'] = st.g.get('dtors', bv(0)) + 1
        return [Out('ret', st, None)]
    C(r'%s::~%s\(\)' % (cls, name), dtor)
def no_live_locals(ex, st, fn):
    bad = [k for k, v in st.g.items() if isinstance(k, tuple) and k[0] == 'live' and v and k[1].kind == 'stack']
    ex.prove(st, 'every local element object is destroyed before the function ends', z3.BoolVal(not bad), fn)

# ---------------------------------------------------------------------------------- std::mutex, std::condition_variable
def std_mutex_contracts(ex):
    C = ex.contract
    C(r'std::mutex::lock\(\)', spin_lock); C(r'std::mutex::try_lock\(\)', spin_try_lock); C(r'std::mutex::unlock\(\)', spin_unlock)
    C(r'std::(mutex|__mutex_base)::~?\1\(\)', c_void); C(r'std::condition_variable::~?condition_variable\(\)', c_void)
    def wait(ex, st, cv, lk, limit):
        lp, owns = lk_lock_ptr(ex, st, lk)
        m = find_monitor(ex, lp)
        ex.prove(st, 'the lock passed to a condition variable is owned', owns != 0)
        if m is None or not is_held(st, m, lp.base): raise ToolError('condition variable wait without a monitor at %s' % ex.curloc())
        a = viewtup(m, lp.base, st.g[('acq', m.name, lp.base)]); v = m.view(ex, st, lp.base)
        if m._block:
            for n, cnd in m._block(ex, st, a, v, ('cv', cv, limit)): ex.prove(st, '%s: %s' % (m.name, n), cnd)
        cs_event(st, m, lp.base, ('cvwait', cv, limit)); log(st, ('cvwait',))
        st.g['cvwaits'] = min(2, st.g.get('cvwaits', 0) + 1)
        release(ex, st, lp, 'wait')
        ex.prove(st, 'no other lock is held while the thread waits', z3.BoolVal(len(held(st)) == 0))
        acquire(ex, st, lp)
    def c_cvwait(ex, st, c):
        wait(ex, st, c.args[0], c.args[1], None); return [Out('ret', st, None)]
    def c_cvwait_until(ex, st, c):
        t = c.args[2]
        t = ex.load1(st, t, ('i', 64)) if isinstance(t, Ptr) else t
        wait(ex, st, c.args[0], c.args[1], t)
        s2 = st.fork(); now = new_now(ex, s2); s2.assume(now >= t); s2.g['timedout'] = True
        return [Out('ret', st, bv(0, 32)), Out('ret', s2, bv(1, 32))]
    C(r'std::condition_variable::wait\(std::unique_lock<std::mutex>&\)', c_cvwait)
    C(r'std::cv_status std::condition_variable::wait_until<std::chrono::duration<long, std::ratio<1l, 1000000000l>>>\(std::unique_lock<std::mutex>&, std::chrono::time_point<std::chrono::_V2::steady_clock.*', c_cvwait_until)
    def c_notify(ex, st, c):
        log(st, ('cvnotify', 'all' in c.dem)); st.g['cvnotified'] = True
        for b, off, name in held(st):
            for m in ex.monitors:
                if m.name == name: cs_event(st, m, b, ('cvnotify', c.args[0]))
        f = getattr(ex, 'on_cvnotify', None)
        if f: f(ex, st, c.args[0])
        return [Out('ret', st, None)]
    C(r'std::condition_variable::notify_(one|all)\(\)', c_notify)
