"""C08: unbuffered_channel.  Rely/guarantee at the atomic steps on slot_, closed_ and slot::result; the two wait
queues under their spinlocks.  `own` (ghost): 0 private, 1 offered, 2 withdrawn, 3 taken by another fiber,
4/5 completed with success/closed."""
from ..lib import *
from ..core import _ctr, memfun
from .channels import NS, SUCCESS, EMPTY, FULL, CLOSED, TIMEOUT, TP, MS
PROPS = ['C08']
UC = NS + 'unbuffered_channel<Val>'; SLOT = NS + 'unbuffered_channel<struct Val>::slot'; WK = NS + 'waker'
PRIV, OFF, WITH, TAKEN, DONE, DONEC = range(6)
PQ, CQ = 'waiting_producers_', 'waiting_consumers_'; PL, CL = 'splk_producers_', 'splk_consumers_'
B = z3.BoolVal
def prop(pid):
    return dict(srcs=['tu/unbuffered_channel.cpp'], units=units,
                trusted=['contract of detail::spinlock (C23)', 'contracts of wait_queue::suspend_and_wait(_until)/notify_one/notify_all (C16)', 'contracts of create_waker and waker::wake (C15), of context::suspend(lk) and wait_until(tp, lk, waker) (C17, C18): the fiber is resumed by its current waker or, timed, at the deadline',
                         'sequentially consistent interleaving of the atomic steps (the memory orders needed for passing a slot from fiber to fiber are obligations of their own)', 'rely condition: other fibers run the operations verified here'],
                assumptions=['one instantiation (an opaque element type) stands for every element type: the template does not inspect it', 'clock values stay below 2^62 ns', 'the channel outlives its operations'])
def ordof(o): return set(str(x) for x in (o if isinstance(o, tuple) else (o,)))
ACQ = {'acquire', 'acq_rel', 'seq_cst'}; REL = {'release', 'acq_rel', 'seq_cst'}

def contracts_for(lay, O):
    def contracts(ex):
        std_contracts(ex); val_contracts(ex)
        g = lambda st, k, d=None: st.g.get(k, d)
        P = lambda st, n, c: ex.prove(st, n, c if not isinstance(c, bool) else B(c))
        own = lambda st: st.g['own']
        def isown(st, p): return 'ownp' in st.g and p.base is st.g['ownp'].base
        def inuse(st): return z3.Or(own(st) == OFF, own(st) == TAKEN)
        ex.isown = isown; ex.inuse = inuse
        # ------------------------------------------------------------ blocking
        def before_wait(st, what, offered):
            P(st, 'a slot that was taken is completed before the fiber %s' % what, g(st, 'mine') is None)
            P(st, 'a consumer is woken after a value was offered, before the fiber %s' % what, z3.Or(z3.Not(st.g['duty_c']), st.g['closed']))
            P(st, 'a producer is woken after the slot became free, before the fiber %s' % what, z3.Or(z3.Not(st.g['duty_p']), st.g['closed']))
            if not offered: P(st, 'a fiber whose value is offered waits for nothing else', z3.Not(z3.Or(own(st) == OFF, z3.And(own(st) == TAKEN, z3.Not(st.g['resumed_own'])))))
        def yld(ex, st, c): before_wait(st, 'yields', False); return c_yield(ex, st, c)
        ex.contract(r'boost::fibers::context::yield\(\)', yld, True)
        def block(ex, st, a, v, q):
            before_wait(st, 'waits', False); st.g['cur'] = freshbv('epoch'); L = PL if q == PQ else CL; l = [('a fiber waits only if the channel was seen open under the same lock', st.g[('open', L)])]
            if q == PQ: l.append(('a producer waits only if the slot was seen in use under the lock', st.g[('full', L)]))
            else: l.append(('a consumer waits only if no value was seen offered under the lock', st.g[('empty', L)]))
            return l
        ex.uc_block = block
        def note(ex, st, c, fn, all):
            r = fn(ex, st, c); m, q = wq_monitor(ex, c.args[0])
            if q == PQ: st.g['duty_p'] = B(False)
            if q == CQ: st.g['duty_c'] = B(False)
            if all: st.g[('allwoken', q)] = st.g['iclosed']
            return r
        ex.contract(r'boost::fibers::wait_queue::notify_one\(\)', lambda ex, st, c: note(ex, st, c, c_notify_one, False), True); ex.contract(r'boost::fibers::wait_queue::notify_all\(\)', lambda ex, st, c: note(ex, st, c, c_notify_all, True), True)
        def create(ex, st, c):
            P(st, 'the waker is created for the running fiber', ex.ptr_eq(c.args[-1], ex.ME)); P(st, 'the waker of an offered value stays the current one', z3.Not(z3.Or(own(st) == OFF, z3.And(own(st) == TAKEN, z3.Not(st.g['resumed_own'])))))
            ep = freshbv('epoch'); st.g['cur'] = ep
            if len(c.args) == 2: ex.store(st, c.args[0].add(O.wctx), c.args[1], 8); ex.store(st, c.args[0].add(O.wep), ep, 8); return [Out('ret', st, None)]
            return [Out('ret', st, [c.args[0], ep])]
        ex.contract(r'boost::fibers::context::create_waker\(\)', create)
        def own_wait(ex, st, ctx, lk):
            P(st, 'only the running fiber suspends itself', ex.ptr_eq(ctx, ex.ME)); lp, owns = lk_lock_ptr(ex, st, lk)
            P(st, 'the producer suspends with the lock of the consumers, owned', z3.And(ex.ptr_eq(lp, ex.this.add(O.lc)), owns != 0, B(is_held(st, ex.mc, ex.this.base))))
            P(st, 'the producer suspends only while its value is offered or has been taken', inuse(st)); P(st, 'an offered value is left to others only if the channel was seen open under the lock with which close() withdraws it', z3.Or(st.g[('open', CL)], own(st) == TAKEN))
            before_wait(st, 'suspends', True)
            if 'ownp' in st.g: wk(st, st.g['ownp'].add(O.w))
            if is_held(st, ex.mc, ex.this.base): release(ex, st, ex.this.add(O.lc), 'suspend')
            ex.prove(st, 'no other spinlock is held while the fiber is suspended', B(len(held(st)) == 0)); ex.store(st, lk.add(8), bv(0, 8), 1); log(st, ('suspend', 'own'))
        def wk(st, w): P(st, 'the value carries the current waker of its producer', z3.And(ex.ptr_eq(ex.load1(st, w.add(O.wctx), PTR), ex.ME), ex.load1(st, w.add(O.wep), ('i', 64)) == st.g['cur']))
        def susp(ex, st, c): own_wait(ex, st, c.args[0], c.args[1]); st.g['own'] = bv(TAKEN, 8); st.g['resumed_own'] = B(True); return [Out('ret', st, None)]
        def waitu(ex, st, c):
            ctx, tp, lk, w = c.args; t = ex.load1(st, tp, ('i', 64)); wk(st, w); own_wait(ex, st, ctx, lk)
            if ex.deadline is not None: P(st, 'the timed wait uses the caller\'s deadline', t == (ex.deadline(st) if callable(ex.deadline) else ex.deadline))
            s2 = st.fork(); st.g['own'] = bv(TAKEN, 8); now = new_now(ex, s2); s2.assume(now >= t); s2.g['timedout'] = True
            for s in (st, s2): s.g['resumed_own'] = B(True)
            return [Out('ret', st, B(True)), Out('ret', s2, B(False))]
        ex.contract(r'boost::fibers::context::suspend\(std::unique_lock.*', susp); ex.contract(r'boost::fibers::context::wait_until\(.*std::unique_lock.*', waitu)
        # ------------------------------------------------------------ slots of others
        def mine(st, b, what):
            m = g(st, 'mine'); P(st, 'a value is %s only by the fiber that took it, before it is completed' % what, m is not None and b is m.base)
        def wake(ex, st, c):
            w = c.args[0]
            if isown(st, w): P(st, 'a producer does not wake itself', False)
            mine(st, w.base, 'woken for'); P(st, 'the producer is woken through the waker of its value, once', isint(w.off) and w.off == O.w and not g(st, 'woke')); st.g['woke'] = True; return [Out('ret', st, fresh('wake', z3.BoolSort()))]
        ex.contract(r'boost::fibers::waker::wake\(\) const', wake)
        def acc(wr):
            def h(ex, st, p, ty, mod, val=None):
                if p.base.cls == SLOT and p.base.kind == 'sym': mine(st, p.base, 'used')
                elif wr and isown(st, p) and not (isint(p.off) and p.off == O.result): P(st, 'an offered slot is not changed or destroyed while another fiber may use it', z3.Not(inuse(st)))
                return None
            return h
        ex.hooks_load.append(acc(False)); ex.hooks_store.append(acc(True))
        def dtor(ex, st, c):
            if isown(st, c.args[0]): P(st, 'an offered slot is not changed or destroyed while another fiber may use it', z3.Not(inuse(st)))
            live_set(ex, st, c.args[0], False, 'dtor'); return [Out('ret', st, None)]
        ex.contract(r'Val::~Val\(\)', dtor, True)
        # ------------------------------------------------------------ atomic steps
        def foreign(st, nm='slot'):
            x = freshbv(nm); st.assume(z3.And(x != 0, z3.ULT(x, bv(1 << 47)))); p = ex.sym(x, SLOT); 
            if 'ownp' in st.g: st.assume(x != st.g['ownp'].bv())
            return p
        def seen(st, k, v):
            for m, L in ((ex.mp, PL), (ex.mc, CL)):
                if is_held(st, m, ex.this.base): st.g[(k, L)] = v
        def take(st, F):
            P(st, 'one value is taken at a time', g(st, 'mine') is None); P(st, 'a fiber does not take its own value', not isown(st, F))
            st.g['mine'] = F; st.g['woke'] = False; st.g['taken'] = simp(st.g['taken'] + 1); st.g['duty_p'] = B(True); v = freshbv('offered'); ex.store(st, F.add(O.value), v, 8, ) if False else None
            st.g[('baton', CL, ex.this.base, CQ)] = None; st.g['Fv'] = v; st.g[('live', F.base, F.off + O.value if isint(F.off) else 0)] = True
            st.mem = Ev('w', F.base, F.off + O.value, 8, v, st.mem); ex.moved_ids = tuple(getattr(ex, 'moved_ids', ())) + (v,)
        def offer(st, n):
            P(st, 'a value is offered only if the fiber offers no other', z3.Or(own(st) == PRIV, own(st) == WITH)); st.g['ownp'] = n; st.g['own'] = bv(OFF, 8); st.g['resumed_own'] = B(False); st.g['offers'] = simp(st.g['offers'] + 1); st.g['duty_c'] = B(True); st.g[('baton', PL, ex.this.base, PQ)] = None
            P(st, 'the value offered is the caller\'s value', z3.And(val_id(ex, st, n.add(O.value)) == ex.v0, B(bool(live_get(st, n.add(O.value))))) if getattr(ex, 'v0', None) is not None else False); wk(st, n.add(O.w))
            P(st, 'the slot of an offered value is not completed', ex.load1(st, n.add(O.result), ('i', 32)) == EMPTY)
        def slot_op(ex, st, k, p, ty, args, order):
            outs = []; O_ = ordof(order[0] if isinstance(order, tuple) else order)
            def cases(st):   # what the slot may hold: (state, pointer, kind)
                r = []
                for s, off in ex.split2(st, simp(own(st) == OFF)):
                    if off: s1 = s.fork(); r.append((s1, s1.g['ownp'], 'own')); s.g['own'] = bv(TAKEN, 8)
                    s2 = s.fork(); r.append((s2, NULL, 'null')); r.append((s, foreign(s), 'F'))
                return r
            def observe(s, kind):
                if kind == 'null': seen(s, 'empty', B(True)); seen(s, 'full', B(False)); s.g['drained'] = z3.Or(s.g['drained'], z3.And(s.g['iclosed'], B(is_held(s, ex.mc, ex.this.base))))
                else: seen(s, 'full', B(True)); seen(s, 'empty', B(False))
            if k == 'load':
                for s, v, kind in cases(st):
                    observe(s, kind)
                    outs.append(Out('ret', s, v))
                return outs
            if k == 'store':
                P(st, 'the slot is changed only by exchange operations: an offered value might be lost', False); return [Out('ret', st, None)]
            if k == 'rmw:xchg':
                n = args[0]; P(st, 'no value is put over an offered one', n.bv() == 0)
                for s, v, kind in cases(st):
                    if kind == 'own': s.g['own'] = bv(WITH, 8); s.g['duty_p'] = B(True); s.g['duty_c'] = B(False)
                    if kind == 'F': take(s, v)
                    if kind == 'null': s.g['drained'] = z3.Or(s.g['drained'], z3.And(s.g['iclosed'], B(is_held(s, ex.mc, ex.this.base))))
                    outs.append(Out('ret', s, v))
                return outs
            if k != 'cas': raise ToolError('%s on the slot of the channel' % k)
            c, n, weak = args; o1 = ordof(order[0])
            if n.base.kind == 'null' and n.off == 0:
                if isown(st, c):
                    for s, v, kind in cases(st):
                        ok = kind == 'own'
                        if ok: s.g['own'] = bv(WITH, 8); s.g['duty_p'] = B(True); s.g['duty_c'] = B(False)
                        outs.append(Out('ret', s, [v, B(ok)]))
                    return outs
                if c.base.kind == 'null':
                    for s, v, kind in cases(st): observe(s, kind); outs.append(Out('ret', s, [v, B(kind == 'null')]))
                    return outs
                if c.base.kind == 'sym' and c.base.cls != SLOT:   # an address carried around a loop: the exchange itself shows that it is the slot in the channel
                    P(st, 'only a slot of another fiber is taken', z3.And(c.bv() != 0, c.bv() != st.g['ownp'].bv() if 'ownp' in st.g else B(True))); c.base.cls = SLOT
                P(st, 'only a slot that was seen in the channel is taken', c.base.cls == SLOT)
                for s, v, kind in cases(st):
                    if kind == 'F':
                        s2 = s.fork(); s2.assume(v.bv() != c.bv()); observe(s2, kind); outs.append(Out('ret', s2, [v, B(False)]))
                        P(s, 'a value is taken with acquire ordering', bool(o1 & ACQ)); take(s, c); outs.append(Out('ret', s, [c, B(True)]))
                    else: observe(s, kind); outs.append(Out('ret', s, [v, B(False)]))
                if weak: s3 = st.fork(); outs.append(Out('ret', s3, [c, B(False)]))
                return outs
            P(st, 'no value is put over an offered one', c.bv() == 0)
            for s, v, kind in cases(st):
                if kind == 'null':
                    if weak: s3 = s.fork(); outs.append(Out('ret', s3, [NULL, B(False)]))
                    P(s, 'a value is offered with release ordering', bool(o1 & REL)); offer(s, n); outs.append(Out('ret', s, [NULL, B(True)]))
                else: observe(s, kind); outs.append(Out('ret', s, [v, B(False)]))
            return outs
        def closed_op(ex, st, k, p, ty, args, order):
            def cur(st):
                v = z3.Or(st.g['closed'], fresh('closed', z3.BoolSort())); st.g['closed'] = v; return v
            as8 = lambda v: z3.If(v, bv(1, 8), bv(0, 8))
            if k == 'load': v = simp(cur(st)); seen(st, 'open', z3.Not(v)); return [Out('ret', st, as8(v))]
            w = args[0] if k != 'cas' else args[1]; P(st, 'the channel is never reopened', w != 0)
            v = simp(cur(st)); 
            if k == 'cas':
                ok = as8(v) == args[0]; st.g['iclosed'] = z3.Or(st.g['iclosed'], z3.And(ok, z3.Not(v))); st.g['closed'] = z3.Or(v, ok); return [Out('ret', st, [as8(v), ok])]
            st.g['iclosed'] = z3.Or(st.g['iclosed'], z3.Not(v)); st.g['closed'] = B(True)
            return [Out('ret', st, as8(v) if k.startswith('rmw') else None)]
        def result_op(ex, st, k, p, ty, args, order):
            w = ty[1]
            if isown(st, p):
                P(st, 'a producer does not complete its own value', k == 'load'); outs = []
                if k != 'load': return [Out('ret', st, None)]
                P(st, 'the completion of a value is read with acquire ordering', bool(ordof(order) & ACQ))
                for s, u in ex.split2(st, simp(inuse(st))):
                    if not u: outs.append(Out('ret', s, z3.If(own(s) == DONE, bv(SUCCESS, w), z3.If(own(s) == DONEC, bv(CLOSED, w), bv(EMPTY, w))))); continue
                    s1, s2 = s.fork(), s.fork(); outs.append(Out('ret', s, bv(EMPTY, w))); s1.g['own'] = bv(DONE, 8); outs.append(Out('ret', s1, bv(SUCCESS, w))); s2.g['own'] = bv(DONEC, 8); s2.g['closed'] = B(True); outs.append(Out('ret', s2, bv(CLOSED, w)))
                return outs
            mine(st, p.base, 'completed'); P(st, 'a value is completed by one store with release ordering', k == 'store' and bool(ordof(order) & REL))
            if k != 'store': return [Out('ret', st, freshbv('r', w))]
            P(st, 'the producer is woken before its slot is given back', bool(g(st, 'woke')))
            P(st, 'a value that was taken is completed as consumed, one that close() withdrew as closed', args[0] == (CLOSED if ex.kind == 'close' else SUCCESS)); st.g['mine'] = None; st.g['completed'] = simp(st.g['completed'] + 1)
            return [Out('ret', st, None)]
        def atom(ex, st, k, p, ty, args, order, mod):
            if p.base is ex.this.base and isint(p.off):
                if p.off == O.slot:
                    asp = lambda v: v if isinstance(v, (Ptr, bool)) or z3.is_bool(v) else ex.sym(v); asv = lambda v: v.bv() if isinstance(v, Ptr) and ty != PTR else v
                    outs = slot_op(ex, st, k, p, ty, [asp(a) for a in args], order)
                    for o in outs: o.val = [asv(o.val[0]), o.val[1]] if isinstance(o.val, list) else (asv(o.val) if o.val is not None else None)
                    return outs
                if p.off == O.closed: return closed_op(ex, st, k, p, ty, args, order)
            if isint(p.off) and p.off == O.result and (p.base.cls == SLOT or isown(st, p)): return result_op(ex, st, k, p, ty, args, order)
            return None
        ex.hooks_atomic.append(atom)
        def cands(ex, fn, st0, phi0, H):
            l = [('own %d' % v, lambda s, ph, v=v: own(s) == v) for v in range(6)] + [('own offered or taken', lambda s, ph: inuse(s)), ('own resumed', lambda s, ph: s.g['resumed_own'])]
            l += [(k, lambda s, ph, k=k: z3.Not(s.g[k])) for k in ('duty_c', 'duty_p', 'iclosed')]
            l += [('still closed', lambda s, ph: z3.Implies(ex.c0, s.g['closed'])), ('taken', lambda s, ph: z3.And(s.g['taken'] == st0.g['taken'], s.g['completed'] == st0.g['completed'])), ('offers', lambda s, ph: s.g['offers'] == st0.g['offers'])]
            l += [('i closed', lambda s, ph: s.g['iclosed']), ('closed', lambda s, ph: s.g['closed'])]
            l += [('woken %s' % q, lambda s, ph, q=q: s.g[('allwoken', q)]) for q in (PQ, CQ)]
            l += [('%s null: drained' % r, lambda s, ph, r=r: z3.Implies(ph[r].bv() == 0, s.g['drained'])) for r, v in phi0.items() if isinstance(v, Ptr)] + [('%s null: drained' % (k,), lambda s, ph, k=k: z3.Implies(ex.load1(s, Ptr(k[1], k[2]), ('i', 64)) == 0, s.g['drained'])) for k in H if k[0] == 'cell' and k[1].kind == 'stack' and k[3] == 8] + [('drained', lambda s, ph: s.g['drained'])]
            return l
        ex.auto_cands = getattr(ex, 'auto_cands', []) + [cands]
    return contracts

def units(lay):
    us = []; O = SimpleNamespace(slot=lay.off(UC, 'slot_'), closed=lay.off(UC, 'closed_'), lp=lay.off(UC, PL), lc=lay.off(UC, CL), qp=lay.off(UC, PQ), qc=lay.off(UC, CQ), value=lay.off(SLOT, 'value'), w=lay.off(SLOT, 'w'), result=lay.off(SLOT, 'result'), wctx=lay.off(WK, 'ctx_'), wep=lay.off(WK, 'epoch_'))
    contracts = contracts_for(lay, O)
    def base(ex, st, kind):
        ex.kind = kind; ex.this = ex.symobj('this', UC, True)
        ex.ptr_labels[(UC, O.slot)] = SLOT
        ex.mp = Monitor(PL, UC, O.lp, {}, bases={ex.this.base}, wqs={O.qp: PQ}, block=lambda *a: ex.uc_block(*a)); ex.mc = Monitor(CL, UC, O.lc, {}, bases={ex.this.base}, wqs={O.qc: CQ}, block=lambda *a: ex.uc_block(*a))
        def onacq(L):
            def f(ex, st, b):
                for k in ('open', 'full', 'empty'): st.g[(k, L)] = B(False)
            return f
        ex.mp.on_acquire = onacq(PL); ex.mc.on_acquire = onacq(CL); use_monitors(ex, ex.mp, ex.mc)
        for L in (PL, CL): onacq(L)(ex, st, None)
        ex.c0 = fresh('closed0', z3.BoolSort()); st.g.update(own=bv(PRIV, 8), closed=ex.c0, iclosed=B(False), duty_c=B(False), duty_p=B(False), resumed_own=B(True), drained=B(False), taken=bv(0), completed=bv(0), offers=bv(0), cur=freshbv('epoch'), mine=None)
        for q in (PQ, CQ): st.g[('allwoken', q)] = B(False)
    def mk(name, op, kind, ret=False, timed=None):
        fn = '%s%s::%s' % ('boost::fibers::channel_op_status ' if '<' in op else '', UC, op)
        def setup(ex, st):
            base(ex, st, kind); args = [ex.this]
            if ret: r = ex.newregion('sym', 'result', cls='Val'); r.x = 'raw'; ex.res = Ptr(r, 0); args = [ex.res, ex.this]
            if kind in ('push', 'pop') and not ret: ex.value = ex.symobj('value', 'Val'); ex.v0 = val_id(ex, st, ex.value); args.append(ex.value)
            if timed:
                t = ex.symobj('timeout', 'time'); d = ex.load1(st, t, ('i', 64)); args.append(t)
                ex.deadline = d if timed == 'until' else (lambda s: s.g['firstnow'] + d * 1000000)
            return args
        def post(ex, o):
            st = o.st; P = lambda n, c: ex.prove(st, n, c if not isinstance(c, bool) else B(c), fn); own = st.g['own']; closed = st.g['closed']; took = st.g['taken']
            P('no internal lock is left held', len(held(st)) == 0); no_live_locals(ex, st, fn)
            if o.kind == 'stop': P('the operation does not terminate the program', False); return
            P('no operation returns while its value is offered or in use by another fiber', z3.Not(ex.inuse(st))); P('every value that was taken is completed, once', z3.And(B(st.g.get('mine') is None), st.g['completed'] == took))
            P('a producer that was woken for its value has suspended before', z3.Implies(z3.Or(own == DONE, own == DONEC), st.g['resumed_own']))
            P('a consumer is woken after a value was offered', z3.Or(z3.Not(st.g['duty_c']), closed)); P('a producer is woken after the slot became free', z3.Or(z3.Not(st.g['duty_p']), closed))
            for L, q in ((PL, PQ), (CL, CQ)):
                b = st.g.get(('baton', L, ex.this.base, q)); P('a wake-up received while waiting is not dropped on return', closed if b else B(True))
            P('closing wakes all producers and all consumers and withdraws the offered value', z3.Implies(st.g['iclosed'], z3.And(st.g[('allwoken', PQ)], st.g[('allwoken', CQ)], z3.Or(st.g['drained'], took == 1))))
            if kind != 'close': P('only close() closes', z3.Not(st.g['iclosed']))
            if kind in ('close', 'is_closed', 'pop'): P('no value is offered by a consumer', st.g['offers'] == 0)
            if kind in ('push', 'is_closed'): P('a producer takes no value', took == 0)
            if o.kind == 'exc':
                ex.cover('throws', st); P('a push that throws has not offered a value', own == PRIV)
                if o.val.tag != 'user':
                    P('only the documented exception is thrown', z3.BoolVal(ret and o.val.tinfo == '_ZTIN5boost6fibers11fiber_errorE')); P('value_pop throws only when the channel is closed, and takes no value', z3.And(closed, took == 0))
                    P('the error code is operation_not_permitted', o.val.data.get('code') == 1 if o.val.data.get('code') is not None else False)
                return
            if kind == 'close': P('the channel is closed afterwards', closed); ex.cover('returns', st); ex.cover('withdraws', st) if ex.check(st, took == 1) == z3.sat else None; return
            if kind == 'is_closed': P('the result tells whether the channel is closed', o.val == closed); ex.cover('returns', st); return
            s = bv(SUCCESS, 32) if ret else o.val
            for nm, c in (('success', SUCCESS), ('closed', CLOSED), ('timeout', TIMEOUT)):
                if ex.check(st, s == c) == z3.sat: ex.cover(nm, st)
            P('only a documented status is returned', z3.Or(s == SUCCESS, s == CLOSED, s == TIMEOUT if timed else False)); P('closed is reported only when the channel is closed', z3.Implies(s == CLOSED, closed))
            if timed: P('timeout is reported only after a wait that timed out', z3.Implies(s == TIMEOUT, B(bool(st.g.get('timedout')))))
            if kind == 'push':
                P('success is reported exactly when the value was consumed', (s == SUCCESS) == (own == DONE)); P('an unsuccessful push has withdrawn its value', z3.Implies(s != SUCCESS, z3.Or(own == PRIV, own == WITH, own == DONEC)))
                P('a push that begins after close() reports closed and offers nothing', z3.Implies(ex.c0, z3.And(s == CLOSED, st.g['offers'] == 0)))
                if '&&' not in op: P('pushing a copy leaves the caller\'s value untouched', val_id(ex, st, ex.value) == ex.v0)
            else:
                P('success is reported exactly when one value was taken', took == z3.If(s == SUCCESS, bv(1), bv(0))); out = ex.res if ret else ex.value
                if ret: P('a value is returned', bool(live_get(st, out)))
                P('the value delivered is the one that was offered', z3.Implies(s == SUCCESS, val_id(ex, st, out) == st.g.get('Fv', bv(0))))
                if not ret: P('an unsuccessful pop leaves the caller\'s object untouched', z3.Implies(s != SUCCESS, val_id(ex, st, out) == ex.v0))
        cov = ['returns'] if kind in ('close', 'is_closed') else ['success']
        if kind == 'close': cov.append('withdraws')
        if kind in ('push', 'pop') and not ret: cov += ['closed'] + (['timeout'] if timed else [])
        if ret: cov += ['throws']
        us.append(Unit(name, fn, setup, post, tuple(cov), contracts))
    mk('push(copy)', 'push(Val const&)', 'push'); mk('push(move)', 'push(Val&&)', 'push')
    SCN = 'std::chrono::_V2::steady_clock, std::chrono::duration<long, std::ratio<1l, 1000000000l>>'
    for k, t in (('copy', ' const&'), ('move', '&&')):
        mk('push_wait_until(%s)' % k, 'push_wait_until<%s>(Val%s, %s)' % (SCN, t, TP), 'push', timed='until'); mk('push_wait_for(%s)' % k, 'push_wait_for<long, std::ratio<1l, 1000l>>(Val%s, %s)' % (t, MS), 'push', timed='for')
    mk('pop', 'pop(Val&)', 'pop'); mk('value_pop', 'value_pop()', 'pop', ret=True)
    mk('pop_wait_until', 'pop_wait_until<%s>(Val&, %s)' % (SCN, TP), 'pop', timed='until'); mk('pop_wait_for', 'pop_wait_for<long, std::ratio<1l, 1000l>>(Val&, %s)' % MS, 'pop', timed='for')
    mk('close', 'close()', 'close'); mk('is_closed', 'is_closed() const', 'is_closed')
    mk_fn = 'tu_make(void*)'
    def csetup(ex, st): ex.this = ex.symobj('this', UC, True); ex.this.base.x = 'raw'; return [ex.this]
    def cpost(ex, o):
        st = o.st; ex.prove(st, 'a new channel is open and offers no value', z3.And(B(o.kind == 'ret'), ex.load1(st, ex.this.add(O.slot), PTR).bv() == 0, ex.load1(st, ex.this.add(O.closed), ('i', 8)) == 0), mk_fn)
    us.append(Unit('constructor', mk_fn, csetup, cpost, (), std_contracts))
    dfn = 'tu_destroy(%s&)' % UC
    def dcontracts(ex):
        std_contracts(ex)
        def cl(ex, st, c): ex.prove(st, 'the channel that is destroyed is closed', ex.ptr_eq(c.args[0], ex.this)); log(st, ('close',)); return [Out('ret', st, None)]
        ex.contract(re.escape(UC) + r'::close\(\)', cl); ex.contract(r'boost::fibers::wait_queue::~wait_queue\(\)', lambda ex, st, c: [Out('ret', st, None)])
    def dsetup(ex, st): ex.this = ex.symobj('this', UC, True); return [ex.this]
    us.append(Unit('destructor', dfn, dsetup, lambda ex, o: ex.prove(o.st, 'destroying the channel closes it', B(o.kind == 'ret' and ('close',) in o.st.g.get('_log', ())), dfn), (), dcontracts))
    return us
