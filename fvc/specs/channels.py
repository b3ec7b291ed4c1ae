"""C06, C07: buffered_channel."""
from ..lib import *
from ..core import _ctr, memfun
PROPS = ['C06', 'C07']
NS = 'boost::fibers::'
SUCCESS, EMPTY, FULL, CLOSED, TIMEOUT = 0, 1, 2, 3, 4
TP = 'std::chrono::time_point<std::chrono::_V2::steady_clock, std::chrono::duration<long, std::ratio<1l, 1000000000l>>> const&'
MS = 'std::chrono::duration<long, std::ratio<1l, 1000l>> const&'
BC = NS + 'buffered_channel<Val>'
def prop(pid):
    return dict(srcs=['tu/buffered_channel.cpp'], units=lambda lay: units(lay, {pid}) + ([ctor_unit(lay)] if pid == 'C06' else []),
                trusted=['contract of detail::spinlock (mutual exclusion; proved separately as C23)', 'contracts of wait_queue::suspend_and_wait(_until)/notify_one/notify_all (proved separately as C16)',
                         'contract of context::active()/yield()', 'the element type is the external class Val: its special members may do anything their contract allows, including throw'],
                assumptions=['one instantiation (an opaque element type) stands for every element type: the template does not inspect it', 'clock values stay below 2^62 ns'])

def chan_monitor(ex, lay, st, this, props):
    f = finfo(lay, BC, 'slots_', 'pidx_', 'cidx_', 'capacity_', 'closed_')
    P = lay.off(BC, 'waiting_producers_'); C = lay.off(BC, 'waiting_consumers_')
    def cnt(v): return (v.pidx_ - v.cidx_) & (v.capacity_ - 1)
    def closed(v): return v.closed_ != 0
    def inv(ex, v):
        return z3.And(z3.UGE(v.capacity_, 2), z3.ULE(v.capacity_, bv(1 << 60)), (v.capacity_ & (v.capacity_ - 1)) == 0, z3.ULT(v.pidx_, v.capacity_), z3.ULT(v.cidx_, v.capacity_), z3.ULE(v.closed_, bv(1, 8)))
    def rely(ex, o, n): return z3.Implies(closed(o), closed(n))
    def item(st, v, k):
        return ex.load1(st, Ptr(v.slots_.base, simp(((v.cidx_ + k) & (v.capacity_ - 1)) * VAL_SIZE)), ('i', 64))
    def full(v): return cnt(v) == v.capacity_ - 1
    def empty(v): return cnt(v) == 0
    def guar(ex, st, a, n, evs):
        it = st.g['it0']; k = ex.K
        c0 = cnt(a); c1 = cnt(n)
        same = z3.Implies(z3.ULT(k, c0), item(st, n, k) == it[0])
        T0 = z3.And(c1 == c0, same)
        Tp = z3.And(c1 == c0 + 1, same)
        Tm = z3.And(c1 == c0 - 1, z3.Implies(z3.ULT(k, c0 - 1), item(st, n, k) == it[1]))
        l = []
        if 'C06' in props:
            l += [('the stored sequence is unchanged, or one value is appended, or the first value is removed', z3.Or(T0, Tp, Tm)),
                  ('a value is appended only to a buffer holding less than capacity-1 values', z3.Implies(c1 == c0 + 1, z3.ULT(c0, a.capacity_ - 1))),
                  ('a value is removed only from a non-empty buffer', z3.Implies(z3.And(c1 == c0 - 1), c0 != 0))]
        if 'C07' in props:
            l += [('a value is accepted only while the channel is open', z3.Implies(c1 == c0 + 1, z3.Not(closed(a)))),
                  ('an accepted value wakes a waiting consumer in the same critical section', z3.Implies(c1 == c0 + 1, notified(evs, 'waiting_consumers_'))),
                  ('a removed value wakes a waiting producer in the same critical section', z3.Implies(c1 == c0 - 1, notified(evs, 'waiting_producers_'))),
                  ('closing wakes all waiting producers and consumers', z3.Implies(z3.And(z3.Not(closed(a)), closed(n)), z3.And(notified(evs, 'waiting_producers_', True), notified(evs, 'waiting_consumers_', True)))),
                  ('the channel is never reopened', z3.Implies(closed(a), closed(n)))]
            b = st.g.get(('baton', m.name, this.base, 'waiting_consumers_'))
            x = ', also when the element throws' if st.g.get('valthrew') else ''
            if b: l.append(('a woken consumer that finds a value takes it or wakes another consumer' + x, z3.Or(empty(n), c1 == c0 - 1, notified(evs, 'waiting_consumers_'))))
            b = st.g.get(('baton', m.name, this.base, 'waiting_producers_'))
            if b: l.append(('a woken producer that finds room uses it or wakes another producer' + x, z3.Or(full(n), closed(n), c1 == c0 + 1, notified(evs, 'waiting_producers_'))))
        return l
    def block(ex, st, a, v, q):
        if 'C07' not in props: return []
        if q == 'waiting_producers_': return [('a producer blocks only while the channel is full and open', z3.And(full(v), z3.Not(closed(v))))]
        return [('a consumer blocks only while the channel is empty and open', z3.And(empty(v), z3.Not(closed(v))))]
    m = Monitor('channel', BC, lay.off(BC, 'splk_'), f, inv=inv, rely=rely, guar=guar, block=block, bases={this.base}, wqs={P: 'waiting_producers_', C: 'waiting_consumers_'}, frozen=('slots_', 'capacity_'))
    slots = ex.symobj('slots', 'Val[]')
    ex.store(st, this.add(f['slots_'][0]), slots, 8)
    m.regions = [(slots.base, this.base)]
    def on_havoc(ex, st, base):
        n = next(_ctr); st.mem = Ev('hv', None, None, None, None, st.mem, ex.hv_array(slots.base, n))
    m.on_havoc = on_havoc
    def on_acquire(ex, st, base):
        v = m.view(ex, st, base)
        st.g['it0'] = (item(st, v, ex.K), item(st, v, ex.K + 1), item(st, v, bv(0)))
    m.on_acquire = on_acquire
    def on_release(ex, st, base, a, n, evs, how):
        for q in ('waiting_producers_', 'waiting_consumers_'): st.g[('baton', m.name, base, q)] = None
        c0 = cnt(a); c1 = cnt(n)
        st.g['npush'] = simp(st.g['npush'] + z3.If(c1 == c0 + 1, bv(1), bv(0)))
        st.g['npop'] = simp(st.g['npop'] + z3.If(c1 == c0 - 1, bv(1), bv(0)))
        st.g['appended'] = item(st, n, c0); st.g['front'] = st.g['it0'][2]
    m.on_release = on_release
    st.g['npush'] = bv(0); st.g['npop'] = bv(0)
    ex.K = freshbv('k')
    m.cnt = cnt; m.closed = closed; m.full = full; m.empty = empty; m.item = item
    return m

def chan_contracts(ex):
    std_contracts(ex); val_contracts(ex)

def units(lay, props):
    us = []
    def mk(name, op, kind, ret=False, timed=None, blocking=False):
        fn = '%s%s::%s' % ('boost::fibers::channel_op_status ' if '<' in op else '', BC, op)
        def setup(ex, st):
            this = ex.symobj('this', BC); ex.this = this
            m = chan_monitor(ex, lay, st, this, props); use_monitors(ex, m); ex.m = m
            v = m.view(ex, st, this.base); st.assume(m.inv(ex, v))
            args = [this]
            if ret:
                r = ex.newregion('sym', 'result', cls='Val'); r.x = 'raw'; ex.res = Ptr(r, 0); args = [ex.res, this]
            if kind in ('push', 'pop') and not ret:
                ex.value = ex.symobj('value', 'Val'); ex.v0 = val_id(ex, st, ex.value); args.append(ex.value)
            if timed:
                t = ex.symobj('timeout', 'time'); d = ex.load1(st, t, ('i', 64)); args.append(t)
                if timed == 'until': ex.deadline = d
                else: ex.deadline = lambda s: s.g['firstnow'] + d * 1000000
            return args
        def post(ex, o):
            m = ex.m; st = o.st; base = ex.this.base
            acq = st.g.get(('lastacq', 'channel', base)); a = viewtup(m, base, acq + ()) if acq is not None else None
            np, nq = st.g['npush'], st.g['npop']
            P = lambda n, c: ex.prove(st, n, c, fn)
            P('no internal lock is left held', z3.BoolVal(len(held(st)) == 0))
            if 'C06' in props: no_live_locals(ex, st, fn)
            if o.kind == 'stop': P('the operation does not terminate the program', False); return
            if 'C07' in props:
                for q in ('waiting_producers_', 'waiting_consumers_'):
                    b = st.g.get(('baton', 'channel', base, q))
                    P('a wake-up received while waiting is not dropped on return', z3.BoolVal(not b))
            log_ = st.g.get('_log', ())
            susp = any('suspend' in str(e) for e in log_)
            if not blocking: P('the operation does not block', z3.BoolVal(not susp))
            if o.kind == 'exc':
                ex.cover('throws', st)
                P('an operation that throws neither accepts nor removes a value', z3.And(np == 0, nq == 0)) if 'C06' in props else None
                if o.val.tag != 'user':
                    P('only the documented exception is thrown', z3.BoolVal(ret and o.val.tinfo == '_ZTIN5boost6fibers11fiber_errorE'))
                    if ret and 'C07' in props:
                        P('value_pop throws only when the channel is closed and drained', z3.And(m.closed(a), m.empty(a)))
                        P('the error code is operation_not_permitted', o.val.data.get('code') == 1 if o.val.data.get('code') is not None else False)
                return
            if kind == 'close':
                if 'C06' in props: P('close keeps the stored values', z3.And(np == 0, nq == 0))
                if 'C07' in props: P('the channel is closed afterwards', m.closed(m.view(ex, st, base)))
                ex.cover('returns', st); return
            if kind == 'is_closed':
                if 'C06' in props: P('the stored values are kept', z3.And(np == 0, nq == 0))
                if 'C07' in props: P('the result tells whether the channel was closed', (o.val == m.closed(a)) if a is not None else False)
                ex.cover('returns', st); return
            s = bv(SUCCESS, 32) if ret else o.val
            done = np if kind == 'push' else nq; other = nq if kind == 'push' else np
            for nm, c in (('success', SUCCESS), ('empty', EMPTY), ('full', FULL), ('closed', CLOSED), ('timeout', TIMEOUT)):
                if ex.check(st, s == c) == z3.sat: ex.cover(nm, st)
            if 'C06' in props:
                P('success is reported exactly when the %s took effect, once' % kind, done == z3.If(s == SUCCESS, bv(1), bv(0)))
                P('a %s never does the opposite' % kind, other == 0)
                if kind == 'push':
                    P('the value appended is the caller\'s value', z3.Implies(s == SUCCESS, st.g.get('appended', bv(0)) == ex.v0))
                    P('an unsuccessful push leaves the caller\'s value untouched', z3.Implies(s != SUCCESS, val_id(ex, st, ex.value) == ex.v0))
                    if '&&' not in op: P('pushing a copy leaves the caller\'s value untouched', val_id(ex, st, ex.value) == ex.v0)
                else:
                    out = ex.res if ret else ex.value
                    if ret: P('a value is returned', z3.BoolVal(bool(live_get(st, out))))
                    P('the value delivered is the one accepted first', z3.Implies(s == SUCCESS, val_id(ex, st, out) == st.g.get('front', bv(0))))
                    if not ret: P('an unsuccessful pop leaves the caller\'s object untouched', z3.Implies(s != SUCCESS, val_id(ex, st, out) == ex.v0))
            if 'C07' in props and a is not None:
                allowed = {('push', False): (SUCCESS, FULL, CLOSED), ('push', True): (SUCCESS, CLOSED) + ((TIMEOUT,) if timed else ()),
                           ('pop', False): (SUCCESS, EMPTY, CLOSED), ('pop', True): (SUCCESS, CLOSED) + ((TIMEOUT,) if timed else ())}[(kind, blocking)]
                P('only a documented status is returned', z3.Or(*[s == x for x in allowed]))
                P('closed is reported only when the channel is closed' + (' and drained' if kind == 'pop' else ''), z3.Implies(s == CLOSED, z3.And(m.closed(a), m.empty(a) if kind == 'pop' else True)))
                P('full is reported only when the channel is full and open', z3.Implies(s == FULL, z3.And(m.full(a), z3.Not(m.closed(a)))))
                P('empty is reported only when the channel is empty and open', z3.Implies(s == EMPTY, z3.And(m.empty(a), z3.Not(m.closed(a)))))
                if timed: P('timeout is reported only after a wait that timed out', z3.Implies(s == TIMEOUT, z3.BoolVal(bool(st.g.get('timedout')))))
            elif 'C07' in props: P('the channel is inspected', False)
        cov = {'push': ['success'], 'pop': ['success']}.get(kind, ['returns'])
        if kind in ('push', 'pop') and not ret: cov = cov + ['closed'] + ([{'push': 'full', 'pop': 'empty'}[kind]] if not blocking else []) + (['timeout'] if timed else [])
        if ret: cov += ['throws']
        us.append(Unit(name, fn, setup, post, tuple(cov), chan_contracts))
    mk('try_push(copy)', 'try_push(Val const&)', 'push'); mk('try_push(move)', 'try_push(Val&&)', 'push')
    mk('push(copy)', 'push(Val const&)', 'push', blocking=True); mk('push(move)', 'push(Val&&)', 'push', blocking=True)
    PW = 'push_wait_until<std::chrono::_V2::steady_clock, std::chrono::duration<long, std::ratio<1l, 1000000000l>>>(Val%s, ' + TP + ')'
    QW = 'pop_wait_until<std::chrono::_V2::steady_clock, std::chrono::duration<long, std::ratio<1l, 1000000000l>>>(Val&, ' + TP + ')'
    PF = 'push_wait_for<long, std::ratio<1l, 1000l>>(Val%s, ' + MS + ')'
    QF = 'pop_wait_for<long, std::ratio<1l, 1000l>>(Val&, ' + MS + ')'
    for k, t in (('copy', ' const&'), ('move', '&&')):
        mk('push_wait_until(%s)' % k, PW % t, 'push', timed='until', blocking=True)
        mk('push_wait_for(%s)' % k, PF % t, 'push', timed='for', blocking=True)
    mk('try_pop', 'try_pop(Val&)', 'pop'); mk('pop', 'pop(Val&)', 'pop', blocking=True)
    mk('value_pop', 'value_pop()', 'pop', ret=True, blocking=True)
    mk('pop_wait_until', QW, 'pop', timed='until', blocking=True); mk('pop_wait_for', QF, 'pop', timed='for', blocking=True)
    mk('close', 'close()', 'close'); mk('is_closed', 'is_closed() const', 'is_closed')
    return us

def ctor_unit(lay):
    fn = BC + '::buffered_channel(unsigned long)'
    f = finfo(lay, BC, 'slots_', 'pidx_', 'cidx_', 'capacity_', 'closed_')
    def setup(ex, st):
        ex.this = ex.symobj('this', BC); ex.cap = freshbv('capacity'); return [ex.this, ex.cap]
    def post(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fn); cap = ex.cap
        ok = z3.And(z3.UGE(cap, 2), (cap & (cap - 1)) == 0)
        if o.kind == 'stop': P('the constructor does not terminate the program', False); return
        if o.kind == 'exc':
            if o.val.tag and 'bad' in str(o.val.tag): return
            ex.cover('rejected', st)
            P('only an invalid capacity is rejected', z3.Not(ok))
            P('the exception is fiber_error(invalid_argument)', z3.BoolVal(o.val.tinfo == '_ZTIN5boost6fibers11fiber_errorE'))
            P('the error code is invalid_argument', o.val.data.get('code') == 22 if o.val.data.get('code') is not None else False)
            return
        ex.cover('constructed', st)
        g = lambda n: ex.load1(st, ex.this.add(f[n][0]), f[n][1])
        P('capacities below 2 or not a power of two are rejected', ok)
        P('the capacity is the requested one and indices stay addressable', z3.And(g('capacity_') == cap, z3.ULE(cap, bv(1 << 60))))
        P('the new channel is empty and open', z3.And(g('pidx_') == 0, g('cidx_') == 0, g('closed_') == 0))
        s = g('slots_'); al = st.g.get('_allocs', ())
        P('the slots are a fresh array of capacity elements', z3.And(z3.BoolVal(len(al) == 1 and s.base is al[0]), al[0].size == cap * 8 + s.offbv()) if len(al) == 1 and s.base is al[0] else False)
    return Unit('constructor', fn, setup, post, ('constructed', 'rejected'), chan_contracts)
