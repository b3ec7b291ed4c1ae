"""C23: the four spinlock implementations, verified against any interference between two atomic steps."""
import re
from ..lib import *
from ..core import _ctr, memfun
PROPS = ['C23']
NS = 'boost::fibers::detail::'
ACQ = ('acquire', 'acq_rel', 'seq_cst'); REL = ('release', 'acq_rel', 'seq_cst')
FUTEX_WAIT, FUTEX_WAKE, PRIV, SYS_futex = 0, 1, 128, 202
def prop(pid):
    return dict(srcs=['tu/spinlocks.cpp'], units=units,
                trusted=['futex(2): FUTEX_WAIT(v) sleeps only while the word equals v, FUTEX_WAKE(n) wakes up to n sleepers', 'std::this_thread::yield/sleep_for, std::random_device and the random distributions have no effect on the lock'],
                assumptions=['the C++ memory model turns an acquire operation that reads from a release operation into a happens-before edge: mutual exclusion of the data follows from the atomic transitions and their orders proved here',
                             'callers unlock only a lock they hold (proved for every caller as part of its contract)', 'Intel TSX: a transaction that ended had read and written memory as one atomic step, and a write of another thread to the lock word it read aborts it; the instructions are recognised by their encoding'])
def first_or_changed(ex, fn, st0, phi0, H):
    """loop invariant candidates: either no iteration was made (a counter has its initial value) or x differs from its initial value"""
    xs = []
    for r, v in phi0.items():
        if ('phi', r) in H and z3.is_bv(v): xs.append((str(r), lambda s, ph, r=r: ph[r], v))
    for k in H:
        if k[0] == 'cell' and k[1].kind == 'stack' and k[3] in (4, 8) and not H[k].get('ptr'):
            g = lambda s, ph, k=k: ex._raw1(s, k[1], k[2], k[3], ('i', k[3]*8))
            try: xs.append((k[1].name, g, g(st0, phi0)))
            except ToolError: pass
    return [('%s initial or %s changed' % (a, b), lambda s, ph, f=f, f0=f0, g=g, g0=g0: z3.Or(f(s, ph) == f0, g(s, ph) != g0)) for a, f, f0 in xs for b, g, g0 in xs if a != b] \
        + [('%s tells whether the lock is held' % a, lambda s, ph, f=f: (f(s, ph) == ex.FREE) == z3.BoolVal(bool(s.g['mine']))) for a, f, f0 in xs if f0.size() == 32]
def units(lay):
    us = []
    base = [('spinlock_ttas', False, 'state_', None), ('spinlock_ttas_adaptive', False, 'state_', None), ('spinlock_ttas_futex', True, 'value_', None), ('spinlock_ttas_adaptive_futex', True, 'value_', None)]
    for cls, futex, field, rtm in base + [('rtm' + c[8:], u, f, c) for c, u, f, _ in base]:
        C = NS + cls if rtm is None else '%sspinlock_rtm<%s%s>' % (NS, NS, rtm)
        L = C if rtm is None else '%sspinlock_rtm<class %s%s>' % (NS, NS, rtm)
        OFF = lay.off(C, field) if rtm is None else lay.off(L, 'splk_') + lay.off(NS + rtm, field)
        def mk(op, cls=cls, futex=futex, field=field, C=C, L=L, OFF=OFF, rtm=rtm, elided=False):
            FREE = bv(0 if futex else 1, 32)
            fn = '%s::%s' % (C, {'lock': 'lock()', 'try_lock': 'try_lock()', 'unlock': 'unlock()'}.get(op, ''))
            def legal(v): return z3.ULE(v, bv(2 if futex else 1, 32))
            def env_step(ex, st):
                """what other threads may have done to the lock word since this thread looked at it"""
                old = st.g['w']
                if st.g['tx'] and st.g['read']: return old          # the word is in the read-set: a change by another thread aborts the transaction
                st.g['read'] = bool(st.g['tx']); v = freshbv('word', 32); st.assume(legal(v))
                if st.g['mine']: st.assume(z3.And(v != FREE, z3.Implies(old == 2, v == 2) if futex else True))   # nobody unlocks my lock; waiters may raise 1 to 2
                st.g['w'] = v
                return v
            def order_ok(order, rel=False):
                o = order[0] if isinstance(order, tuple) else order
                return str(o) in (REL if rel else ACQ)
            def step(ex, st, old, new, order):
                """guarantee of one atomic write of this thread"""
                P = lambda n, c: ex.prove(st, n, c)
                P('the lock word only takes legal values', legal(new))
                mine = st.g['mine']
                for s, f0 in ex.split2(st, old == FREE):
                    for s2, f1 in ex.split2(s, new == FREE):
                        P2 = lambda n, c: ex.prove(s2, n, c)
                        if f0 and f1: pass
                        elif f0 and not f1:
                            P2('the lock is taken only by a thread that does not hold it', z3.BoolVal(not mine))
                            P2('the lock is taken with acquire ordering', z3.BoolVal(order_ok(order)))
                            if futex and s2.g.get('slept'): P2('a thread that may have slept leaves the mark for other sleepers when it takes the lock', new == 2)
                            s2.g['mine'] = True
                        elif not f0 and f1:
                            P2('the lock is freed only by its holder', z3.BoolVal(bool(mine)))
                            P2('the lock is freed with release ordering', z3.BoolVal(order_ok(order, True)))
                            s2.g['mine'] = False
                            if futex: s2.g['wake_owed'] = simp(z3.Or(s2.g['wake_owed'], old == 2)); s2.g['freed'] = True
                        else:
                            if futex and not mine: P2('a waiter does not erase the mark of another sleeper', z3.Implies(old == 2, new == 2))
                            if futex and mine: s2.g['wake_owed'] = simp(z3.Or(s2.g['wake_owed'], z3.And(old == 2, new != 2)))
                        s2.g['w'] = new
                        yield s2
            def h(ex, st, kind, p, ty, args, order, mod):
                if not (p.base is ex.this.base and isint(p.off) and p.off == OFF): return None
                old = env_step(ex, st)
                if kind == 'load': return [Out('ret', st, old)]
                if kind == 'store': return [Out('ret', s, None) for s in step(ex, st, old, args[0], order)]
                if kind.startswith('rmw:'):
                    new = args[0] if kind == 'rmw:xchg' else ex.rmw_new(kind[4:], old, args[0], ty)
                    return [Out('ret', s, old) for s in step(ex, st, old, simp(new), order)]
                if kind == 'cas':
                    c, n, weak = args; outs = []
                    for s, eq in ex.split2(st, old == c):
                        if eq:
                            if weak: outs.append(Out('ret', s.fork(), [old, z3.BoolVal(False)]))
                            outs += [Out('ret', s2, [old, z3.BoolVal(True)]) for s2 in step(ex, s, old, n, order)]
                        else: outs.append(Out('ret', s, [old, z3.BoolVal(False)]))
                    return outs
            def plain(ex, st, p, ty, mod, val=None):
                if p.base is ex.this.base and isint(p.off) and p.off == OFF and op != 'make': ex.prove(st, 'the lock word is accessed only atomically', False)
                return None
            def c_syscall(ex, st, c):
                a = c.args
                ex.prove(st, 'the system call is futex on the lock word', z3.And(a[0] == SYS_futex, ex.ptr_eq(a[1], ex.this.add(OFF))) if isinstance(a[1], Ptr) else False)
                o = cval(a[2])
                if o is None: raise ToolError('futex operation is not a constant')
                o &= ~PRIV
                r = freshbv('sysret', 64)
                if o == FUTEX_WAKE:
                    ex.prove(st, 'at least one sleeper is woken', a[3] >= 1 if z3.is_bv(a[3]) else False)
                    ex.prove(st, 'sleepers are woken only after the lock is free', z3.BoolVal(bool(st.g.get('freed'))))
                    st.g['wake_owed'] = z3.BoolVal(False); st.g['woke'] = True
                elif o == FUTEX_WAIT:
                    ex.prove(st, 'a thread sleeps only while the lock word announces sleepers', a[3] == 2)
                    ex.prove(st, 'a thread does not sleep on a lock it holds', z3.BoolVal(not st.g['mine']))
                    st.g['slept'] = True
                else: ex.prove(st, 'only wait and wake operations are used', False)
                return [Out('ret', st, r)]
            def inner(ex):
                """the contracts of the lock underneath, verified above"""
                R = re.escape(NS + rtm) + '::'
                def me(ex, st, c): ex.prove(st, 'the lock underneath is used', ex.ptr_eq(c.args[0], ex.this.add(lay.off(L, 'splk_'))))
                def take(st): v = freshbv('word', 32); st.assume(z3.And(legal(v), v != FREE)); st.g['w'] = v; st.g['mine'] = True
                def lk(ex, st, c): me(ex, st, c); ex.prove(st, 'a thread does not wait for a lock it holds', z3.BoolVal(not st.g['mine'] and st.g['tx'] == 0)); take(st); return [Out('ret', st, None)]
                def tl(ex, st, c): me(ex, st, c); f = st.fork(); ex.prove(st, 'a thread does not try to take a lock it holds', z3.BoolVal(not st.g['mine'])); take(st); return [Out('ret', st, z3.BoolVal(True)), Out('ret', f, z3.BoolVal(False))]
                def ul(ex, st, c): me(ex, st, c); ex.prove(st, 'the lock is freed only by its holder', z3.BoolVal(bool(st.g['mine']))); st.g['mine'] = False; st.g['w'] = FREE; return [Out('ret', st, None)]
                ex.contract(R + r'lock\(\)', lk); ex.contract(R + r'try_lock\(\)', tl); ex.contract(R + r'unlock\(\)', ul)
            def on_asm(ex, st, text):
                """the RTM instructions: XBEGIN starts a transaction or reports why one was aborted, XABORT inside a transaction undoes it and continues at XBEGIN (the other outcome of XBEGIN)"""
                t = re.sub(r'\s+', '', text.strip('"'))
                if t in ('.byte0xc7,0xf8;.long0', 'xbegin.+6'):
                    if st.g['tx']: ex.prove(st, 'a transaction of the lock is not started inside another one', z3.BoolVal(False)); return []
                    f = st.fork(); st.note('transaction started'); f.note('transaction aborted')
                    st.g['tx'] += 1; r = freshbv('status', 32); f.assume(r != bv(0xffffffff, 32)); return [Out('ret', st, bv(0xffffffff, 32)), Out('ret', f, r)]
                if t in ('.byte0x0f,0x01,0xd5', 'xend'):
                    ex.prove(st, 'a transaction is ended only inside of one', z3.BoolVal(st.g['tx'] > 0)); st.g['tx'] -= 1; st.g['read'] = st.g['read'] and st.g['tx'] > 0; return [Out('ret', st, None)]
                if t in ('.byte0xc6,0xf8,0xff', 'xabort$0xff'): return [] if st.g['tx'] else [Out('ret', st, None)]
                if t in ('.byte0x0f,0x01,0xd6;setz$0',): raise ToolError('xtest')
                if t in ('pause', 'nop', 'yield', ''): return [Out('ret', st, None)]
                raise ToolError('unknown assembler text %s' % text)
            def contracts(ex):
                stdlib(ex)
                if rtm: ex.on_asm = lambda st, t: on_asm(ex, st, t); inner(ex)
                C = ex.contract
                C(r'std::this_thread::yield\(\)', c_void); C(r'std::this_thread::sleep_for<.*', c_void); C(r'(__gthread_yield|sched_yield|nanosleep)(\(.*\))?', c_void)
                C(r'std::random_device::.*', lambda ex, st, c: Out('ret', st, ex.fresh_of(c.retty, 'rnd') if c.retty != ('void',) else None))
                C(r'.*std::uniform_int_distribution<.*>::.*operator\(\).*', lambda ex, st, c: Out('ret', st, ex.fresh_of(c.retty, 'rnd')))
                C(r'std::linear_congruential_engine<.*>::.*', c_void)
                C(r'syscall', c_syscall)
                ex.auto_cands = [first_or_changed]; ex.FREE = FREE
            def setup(ex, st):
                ex.this = ex.symobj('this', L)
                ex.hooks_atomic.append(h); ex.hooks_load.append(plain); ex.hooks_store.append(plain)
                st.g['w'] = freshbv('word0', 32); st.assume(legal(st.g['w'])); st.g['mine'] = op == 'unlock' and not elided; st.g['tx'] = 1 if elided else 0; st.g['read'] = elided
                if op == 'unlock': st.assume(st.g['w'] == FREE if elided else st.g['w'] != FREE)
                st.g['wake_owed'] = z3.BoolVal(False); st.g['slept'] = False; st.g['woke'] = False; st.g['freed'] = False
                return [ex.this]
            def post(ex, o):
                st = o.st; P = lambda n, c: ex.prove(st, n, c, fn); mine = st.g['mine']
                P('the call returns normally', z3.BoolVal(o.kind == 'ret'))
                if o.kind != 'ret': return
                if rtm:
                    spec = z3.And(z3.BoolVal(st.g['tx'] == 1 and not mine and st.g['read']), st.g['w'] == FREE); real = z3.BoolVal(st.g['tx'] == 0 and bool(mine)); none = z3.BoolVal(st.g['tx'] == 0 and not mine)
                    if op == 'lock': P('lock() returns with the lock held or, exclusively, inside one transaction that saw the lock free', z3.Or(spec, real))
                    elif op == 'try_lock': P('try_lock() reports success exactly when the caller holds the lock or is inside one transaction that saw the lock free', z3.If(o.val, z3.Or(spec, real), none))
                    else: P('unlock() ends the transaction of the lock, or frees the lock if it was taken', none)
                    P('a possible sleeper is woken after the lock was freed', z3.Not(st.g['wake_owed']))
                    ex.cover(op, st); return
                if op == 'lock': P('lock() returns only with the lock held', z3.BoolVal(bool(mine)))
                elif op == 'try_lock':
                    P('try_lock() reports success exactly when the caller took the lock', o.val == z3.BoolVal(bool(mine)))
                    ex.cover('taken' if mine else 'busy', st)
                else:
                    P('unlock() frees the lock', z3.BoolVal(not mine))
                    P('a possible sleeper is woken after the lock was freed', z3.Not(st.g['wake_owed']))
                    if futex: ex.cover('wake' if st.g['woke'] else 'no wake', st)
            return Unit('%s::%s%s' % (cls, op, ' (transaction)' if elided else ''), fn, setup, post, (op,) if rtm else {'try_lock': ('taken', 'busy'), 'unlock': ('wake', 'no wake') if futex else ()}.get(op, ()), contracts)
        for op in ('lock', 'try_lock', 'unlock'): us.append(mk(op))
        if rtm: us.append(mk('unlock', elided=True))
        # construction
        fm = '%s_make(%s*)' % (cls, C)
        def setup_m(ex, st, L=L):
            ex.this = ex.symobj('mem', L); return [ex.this]
        def post_m(ex, o, C=C, futex=futex, OFF=OFF, fm=fm):
            ex.prove(o.st, 'a new lock is unlocked', ex.load1(o.st, ex.this.add(OFF), ('i', 32)) == (0 if futex else 1), fm)
        us.append(Unit('%s constructor' % cls, fm, setup_m, post_m, (), stdlib))
    return us
