"""C27: the lock-free queue (context_spmc_queue) of the work-stealing algorithms.
Rely/guarantee at every atomic step.  Ghosts: T, B = top and bottom; W = "bottom was above top at some moment since top got its
value" (a thief may have seen that and may therefore still take the element at top); for an arbitrary but fixed index K: E = the
word stored for index K, C(s) = the word in slot K mod capacity of slot array s.
Owner's rely:   T moves only up; out of T only if W or B > T; not beyond max(T + 1, B).
Owner's guarantee (thieves' rely): while T = t and W, the array in use holds E(t) at index t, and so do the arrays it replaced, which are
never written again; bottom shows only indexes that are stored; T moves only by a CAS T -> T + 1, done by the owner only for the index it withdrew.
Thief's guarantee (owner's rely): CAS from the value it loaded, after having seen bottom above it, with the value read after that."""
from ..lib import *
from ..core import _ctr
PROPS = ['C27']
NS = 'boost::fibers::'; Q = NS + 'detail::context_spmc_queue'; ARR = Q + '::array'; WS = NS + 'algo::work_stealing'
B_ = z3.BoolVal
PINNED = 6
SLOTS = 'SpmcSlots[]'
ACQ = {'acquire', 'acq_rel', 'seq_cst', 'consume'}; REL = {'release', 'acq_rel', 'seq_cst'}
def ordof(o): return set(str(x) for x in (o if isinstance(o, (tuple, list)) else (o,)))
def D(x, y): return simp(x - y)
def LT(x, y): return D(x, y) < 0       # indexes stay far below 2^62: comparisons by their difference
def LE(x, y): return D(x, y) <= 0
def word(x): return x & bv(~1 & (1 << 64) - 1)
def prop(pid):
    return dict(srcs=['tu/spmc.cpp'], units=units,
                trusted=['congruence lemma: i mod c == k mod c and |i - k| < c imply i == k (64 bit indexes that do not wrap)', 'contract of std::vector<array*>::push_back (appends, or throws and changes nothing) and of its destructor',
                         'sequentially consistent interleaving of the atomic steps; the orders and fences the argument needs are obligations of their own (Le, Pop, Cohen, Zappa Nardelli 2013)', 'rely conditions: the owner runs push/pop/empty, other threads steal, as verified here (each one\'s guarantee is the other\'s rely)',
                         'contracts of std::mutex, std::condition_variable, random number generators and boost.intrusive as in C22'],
                assumptions=['one owner: push, pop and empty are called by the thread that runs the scheduler (C17)', 'indexes stay below 2^62, capacities below 2^40', 'the queue is constructed with a capacity of at least 1', 'fibers in the queue are not null and even aligned'])

def nowrap(st, t, b):
    # indexes are below 2^62: an unsigned comparison of two of them is the sign of their difference
    d = D(t, b); st.assume(z3.And(z3.ULT(t, bv(1 << 62)), z3.ULT(b, bv(1 << 62)), z3.ULT(t, b) == (d < 0), z3.ULT(b, t) == (d > 0), z3.ULE(t, b) == (d <= 0), z3.ULE(b, t) == (d >= 0), (t == b) == (d == 0)))
def setup_owner(ex, lay, O, op):
    def env(st):
        """any number of steals by other threads"""
        g = st.g; e = freshbv('left'); T, B, W = g['T'], g['B'], g['W']; t = simp(B - e); n = D(B, T); same = e == n
        st.assume(z3.Or(same, z3.And(z3.Or(W, n > 0), e < n, z3.Or(e >= 0, e == n - 1))))
        g['W'] = simp(z3.If(same, z3.Or(W, n > 0), e > 0)); g['T'] = t; nowrap(st, t, B)
    ex.env = env
def inv(ex, st):
    """between two operations of the owner"""
    g = st.g; T, B, W = g['T'], g['B'], g['W']; cap = g[('cap', g['cur'][1])]
    return [('top never passes bottom', z3.And(T >= 1, LE(T, B))), ('no thief may still take an index that is not stored', z3.Implies(T == B, z3.Not(W))), ('the array has room for everything stored', D(B, T) <= cap),
            ('every stored fiber is in its slot', z3.Implies(z3.And(LE(T, ex.K), LT(ex.K, B)), g[('C', g['cur'][1])] == g['E']))]

def atoms(ex, lay, O, op):
    owner = op in ('push', 'pop', 'empty')
    def P(st, n, c): ex.prove(st, n, c)
    def boundary(st): pass
    def slotaddr(st, p):
        o = p.offbv(); todo = [o]; seen = {}
        while todo:
            x = todo.pop()
            if x.get_id() in ex.slotidx: seen[x.get_id()] = ex.slotidx[x.get_id()]; continue
            todo += x.children()
        for i, (r, a, n) in seen.items():
            if z3.is_true(simp(o == r * 8)) or ex.proved(st, o == r * 8): return r, a, n
        return None
    def retired(st, b): return b in st.g['retired']
    def slot_op(st, k, p, ty, args, order):
        x = slotaddr(st, p)
        if x is None and k == 'store' and p.base.kind == 'heap' and ('cap', p.base) in st.g and p.base is not st.g['cur'][1]:
            # an array nobody else knows yet, not addressed by an index: any slot of it
            P(st, 'slots are accessed inside the array', z3.And(z3.ULT(p.offbv(), st.g[('cap', p.base)] * 8), p.offbv() & 7 == 0)); st.g[('C', p.base)] = freshbv('anyslot'); return [Out('ret', st, None)]
        if x is None: raise ToolError('slot address is not index modulo capacity')
        r, i, n = x; S = p.base; cap = st.g.get(('cap', S))
        if cap is None: raise ToolError('access to an unknown slot array')
        P(st, 'a slot is addressed with the capacity of its own array', n == cap); P(st, 'the capacity is not zero', n != 0)
        if k == 'load':
            if owner:
                f = freshbv('slot')
                if op == 'pop': st.assume(z3.Implies(z3.And(LE(ex.t0, i), LT(i, ex.b0)), word(f) != 0))      # the invariant at index i
                v = simp(z3.If(D(i, ex.K) == 0, st.g[('C', S)], f)); return [Out('ret', st, v if ty != PTR else ex.sym(v, CTX))]
            v = freshbv('stolenword'); st.assume(word(v) == v & bv(~7 & (1 << 64) - 1))
            P(st, 'the array is used only after what the owner wrote before it published bottom became visible', st.g['bsync'])
            st.g['v'] = v; st.g['vgood'] = simp(z3.And(st.g[('arrok', S)], i == st.g['tr']))
            return [Out('ret', st, v if ty != PTR else ex.sym(v, CTX))]
        if k != 'store': raise ToolError('%s on a slot' % k)
        v = args[0].bv() if isinstance(args[0], Ptr) else args[0]
        P(st, 'only the owner of the queue writes slots', owner)
        P(st, 'an array that was replaced is not written any more', B_(not retired(st, S)))
        if not owner: return [Out('ret', st, None)]
        if S is st.g['cur'][1]:
            P(st, 'a slot of the array in use is written only for the next index', z3.And(B_(op == 'push'), D(i, st.g['B']) == 0)); P(st, 'the slot that is written holds no fiber', z3.ULT(D(i, st.g['T']), cap))
        window(st, st.g['tl'], i, st.g['bl'], n)
        d = D(i, ex.K); near = z3.And(d < n, -d < n)     # n is the capacity of S, as just proved
        st.g[('C', S)] = simp(z3.If(d == 0, v, z3.If(near, st.g[('C', S)], freshbv('overwritten')))); st.g['dirty'] = B_(True)
        return [Out('ret', st, None)]
    def window(st, t, i, b, n):
        # a lemma for the solver: two indexes between t and b are less than b - t apart
        def f(t, i, k, b, n): return z3.Implies(z3.And(LE(t, i), LT(i, b), LE(t, k), LT(k, b), LE(simp(b - t), n), n >= 0, D(b, t) >= 0, D(b, t) < bv(1 << 41)), z3.And(D(i, k) < n, D(k, i) < n))
        if not ex.wlem:
            v = [z3.BitVec('w%d' % j, 64) for j in range(5)]; s = z3.Solver(); s.add(z3.Not(f(*v))); s.add(*[z3.ULT(x, bv(1 << 62)) for x in v])
            if s.check() != z3.unsat: raise ToolError('lemma')
            ex.wlem = True
        if ex.proved(st, z3.And(*[z3.ULT(x, bv(1 << 62)) for x in (t, i, b, n)])): st.assume(z3.Implies(z3.ULT(ex.K, bv(1 << 62)), f(t, i, ex.K, b, n)))
    ex.wlem = False
    def top_op(st, k, args, order):
        o1 = ordof(order[0]) if isinstance(order, (tuple, list)) else ordof(order)
        if owner:
            ex.env(st)
            if k == 'load':
                if op == 'pop': P(st, 'a full fence separates the withdrawal of an index from the look at top', z3.Or(z3.Not(st.g['nofence']), z3.And(st.g['bsc'], B_('seq_cst' in o1))))
                st.g['tl'] = st.g['T']; return [Out('ret', st, st.g['T'])]
            if k == 'cas':
                c, n, weak = args; outs = []
                for s, eq in ex.split2(st, D(st.g['T'], c) == 0):
                    if not eq: outs.append(Out('ret', s, [s.g['T'], B_(False)])); continue
                    if weak: outs.append(Out('ret', s.fork(), [s.g['T'], B_(False)]))
                    P(s, 'the owner takes an index from the top only once, in pop', B_(op == 'pop' and not s.g['cas'])); P(s, 'top moves by one', D(n, s.g['T']) == 1); P(s, 'top is moved with sequential consistency', B_('seq_cst' in o1))
                    P(s, 'the owner takes from the top only the index it withdrew', z3.And(D(s.g['B'], s.g['T']) == 0, D(s.g['B'], ex.b0) == -1))
                    s.g['cas'] = True; old = s.g['T']; s.g['T'] = simp(n); s.g['W'] = LT(n, s.g['B']); outs.append(Out('ret', s, [old, B_(True)]))
                return outs
            P(st, 'top is changed only by compare and exchange', False)
            return [Out('ret', st, st.g['T'] if k != 'store' else None)]
        if k == 'load':
            t = freshbv('top'); st.assume(z3.And(z3.UGE(t, 1), z3.ULT(t, bv(1 << 62)))); st.g.update(tr=t, seen=B_(False), tfence=B_(False), tsc=B_('seq_cst' in o1)); return [Out('ret', st, t)]
        if k == 'cas':
            c, n, weak = args; f = st.fork(); cur = freshbv('top'); outs = [Out('ret', f, [cur, B_(False)])]
            if not weak: f.assume(cur != c)
            P(st, 'at most one fiber is taken', B_(not st.g['taken'])); P(st, 'top moves by one', n == c + 1); P(st, 'a thief moves top with sequential consistency', B_('seq_cst' in o1))
            P(st, 'a thief moves top only from the value it looked at', c == st.g['tr'])
            P(st, 'a thief takes a fiber only after it saw bottom above the top it looked at, and with the fiber it read after that at the index of top', st.g['vgood'])
            st.assume(word(st.g['v']) != 0); st.g['taken'] = True
            outs.append(Out('ret', st, [c, B_(True)])); return outs
        P(st, 'top is changed only by compare and exchange', False); return [Out('ret', st, freshbv('top') if k != 'store' else None)]
    def bottom_op(st, k, args, order):
        o1 = ordof(order)
        if owner:
            ex.env(st); g = st.g
            if k == 'load': g['bl'] = g['B']; return [Out('ret', st, g['B'])]
            if k != 'store': raise ToolError('%s on bottom' % k)
            v = args[0]; cap = g[('cap', g['cur'][1])]; C = g[('C', g['cur'][1])]
            up = simp(D(v, ex.b0) == 1)
            if op == 'push':
                P(st, 'push adds one index', z3.And(D(v, ex.b0) == 1, D(g['B'], ex.b0) == 0)); P(st, 'the fiber is in the slot of its index before the index is shown', z3.Implies(D(ex.K, ex.b0) == 0, rep(ex, lay, O, st, C, ex.ctx)))
                g['E'] = simp(z3.If(z3.And(D(ex.K, g['B']) == 0, up), C, g['E'])); g['pushed'] = simp(g['pushed'] + 1)
            elif op == 'pop': P(st, 'pop withdraws at most one index and gives back at most that', z3.Or(D(v, ex.b0) == 0, D(v, ex.b0) == -1))
            else: P(st, 'bottom is changed only by push and pop', False)
            P(st, 'every index that is shown is stored in the array in use', z3.Implies(z3.And(LE(g['T'], ex.K), LT(ex.K, v)), C == g['E'])); P(st, 'the array has room for every index shown', D(v, g['T']) <= cap)
            P(st, 'what was stored is released before its index is shown', z3.Or(z3.Not(g['dirty']), B_(bool(o1 & REL))))
            g['nofence'] = simp(z3.If(LT(v, g['B']), B_(True), g['nofence'])); g['bsc'] = simp(z3.If(LT(v, g['B']), B_('seq_cst' in o1), g['bsc'])); g['W'] = simp(z3.Or(g['W'], LT(g['T'], v))); nowrap(st, g['T'], v); g['B'] = v; g['dirty'] = B_(False)
            return [Out('ret', st, None)]
        if k != 'load': P(st, 'only the owner changes bottom', False); return [Out('ret', st, None)]
        b = freshbv('bottom'); st.assume(z3.ULT(b, bv(1 << 62))); g = st.g
        P(st, 'a full fence separates the looks at top and at bottom', z3.Or(g['tfence'], z3.And(g['tsc'], B_('seq_cst' in o1))))
        g['seen'] = z3.UGT(b, g['tr']); g['bsync'] = B_(bool(o1 & ACQ)); return [Out('ret', st, b)]
    def array_op(st, k, args, order, ty):
        o1 = ordof(order); g = st.g
        if owner:
            if k == 'load': return [Out('ret', st, g['cur'][0] if ty == PTR else g['cur'][0].bv())]
            if k != 'store': raise ToolError('%s on the array pointer' % k)
            ex.env(st); n = args[0]
            if not isinstance(n, Ptr): n = ex.sym(n)
            P(st, 'only push replaces the array', B_(op == 'push'))
            S = ex.load1(st, n.add(O.storage), PTR)
            if ('cap', S.base) not in g: raise ToolError('unknown slot array')
            P(st, 'the new array is another one', B_(n.base is not g['cur'][0].base and S.base is not g['cur'][1] and n.base.kind == 'heap'))
            P(st, 'the new array knows its size', ex.load1(st, n.add(O.capacity), ('i', 64)) == g[('cap', S.base)])
            P(st, 'the new array has every fiber that is stored', z3.Implies(z3.And(LE(g['T'], ex.K), LT(ex.K, g['B'])), g[('C', S.base)] == g['E'])); P(st, 'the new array has room for everything stored', D(g['B'], g['T']) <= g[('cap', S.base)])
            P(st, 'the new array is filled before thieves can see it (release)', B_(bool(o1 & REL)) if not ex.proved(st, z3.Not(g['dirty'])) else True)
            g['retired'] = g['retired'] | {g['cur'][1]}; g['retiredarr'] = g['retiredarr'] + (g['cur'][0],); g['cur'] = (n, S.base)
            return [Out('ret', st, None)]
        if k != 'load': P(st, 'only the owner replaces the array', False); return [Out('ret', st, None)]
        P(st, 'the array is taken with acquire (or consume) ordering', B_(bool(o1 & ACQ)))
        a = ex.symobj('array', ARR); s = ex.symobj('slots', SLOTS); cap = freshbv('capacity'); st.assume(z3.And(z3.UGE(cap, 1), z3.ULT(cap, bv(1 << 40))))
        ex.store(st, a.add(O.capacity), cap, 8); ex.store(st, a.add(O.storage), s, 8); g[('cap', s.base)] = cap; g[('arrok', s.base)] = g['seen']; g['arrays'] = g.get('arrays', ()) + (a.base, s.base)
        return [Out('ret', st, a if ty == PTR else a.bv())]
    def h(ex, st, k, p, ty, args, order, mod):
        if p.base is ex.this.base and isint(p.off):
            if p.off == O.top: return top_op(st, k, args, order)
            if p.off == O.bottom: return bottom_op(st, k, args, order)
            if p.off == O.array: return array_op(st, k, args, order, ty)
        if ('cap', p.base) in st.g: return slot_op(st, k, p, ty, args, order)
        return None
    ex.hooks_atomic.append(h)
    def fence(st, order):
        o = ordof(order)
        if o & REL: st.g['dirty'] = B_(False)
        if 'seq_cst' in o: st.g['nofence'] = B_(False); st.g['tfence'] = B_(True)
        if o & ACQ: st.g['bsync'] = B_(True)
    ex.on_fence = fence
    def urem(st, a, n):
        if st is None: return simp(z3.URem(a, n))
        r = simp(z3.Function('slotof', BV64, BV64, BV64)(a, n)); st.assume(z3.Implies(n != 0, z3.ULT(r, n))); ex.slotidx[r.get_id()] = (r, a, n); ex.keep.append(r); return r
    ex.urem = urem; ex.slotidx = {}; ex.keep = []
    def plain(wr):
        def f(ex, st, p, ty, mod, val=None):
            if p.base is ex.this.base and isint(p.off) and p.off in (O.top, O.bottom, O.array): P(st, 'the shared fields of the queue are accessed only atomically', False)
            if p.base.kind == 'sym' and p.base.cls in (ARR, SLOTS) and wr and p.base is not ex.this.base: P(st, 'an array in use is changed only by atomic stores to its slots', False)
            if p.base.kind == 'heap' and ('cap', p.base) in st.g:
                P(st, 'slots are accessed inside the array', z3.And(z3.ULT(p.offbv(), st.g[('cap', p.base)] * 8), p.offbv() & 7 == 0)); P(st, 'an array in use is changed only by atomic stores to its slots', B_(p.base is not st.g['cur'][1] if 'cur' in st.g else True))
            if op == 'steal' and p.base.kind == 'sym' and p.base is not ex.this.base and p.base not in st.g.get('arrays', ()): P(st, 'a thief does not touch a fiber it does not own', B_(st.g['taken']))
            return None
        return f
    ex.hooks_load.append(plain(False)); ex.hooks_store.append(plain(True))

def is_pinned(ex, lay, O, st, ctx): return (ex.load1(st, ctx.add(O.type), ('i', 32)) & PINNED) != 0
def rep(ex, lay, O, st, w, ctx): return z3.And(word(w) == ctx.bv(), (w & 1 != 0) == is_pinned(ex, lay, O, st, ctx))

def lib(ex, O):
    setup_me(ex); stdlib(ex); ex.alloc_fails = True
    def new(ex, st, c):
        outs = c_new(ex, st, c)
        for o in outs:
            if o.kind == "ret" and z3.is_expr(o.val.base.size):
                o.st.g[('cap', o.val.base)] = simp(z3.LShR(c.args[0], bv(3))); o.st.g[('C', o.val.base)] = freshbv('raw')
        return outs
    ex.contract(r'operator new(\[\])?\(unsigned long\)', new, first=True)
    def dele(ex, st, c):
        p = c.args[0]; log(st, ('free', p))
        if 'cur' in st.g: ex.prove(st, 'an array that thieves may use is not freed', B_(not any(p.base is x for x in (st.g['cur'][0].base, st.g['cur'][1]) + tuple(st.g['retired']) + tuple(a.base for a in st.g['retiredarr']))))
        return c_delete(ex, st, c)
    ex.contract(r'operator delete(\[\])?\(void\*(, unsigned long)?\)', dele, first=True)
    V = r'std::vector<boost::fibers::detail::context_spmc_queue::array\*, .*>::'
    def pb(ex, st, c):
        a = ex.load1(st, c.args[1], PTR); s2 = st.fork(); log(st, ('keep', a)); return [Out('ret', st, None if c.retty == ('void',) else ex.symobj('elem', None)), ex.throw(s2, '_ZTISt9bad_alloc', tag='bad_alloc')]
    ex.contract(V + r'push_back\(.*\)', pb); ex.contract(r'(boost::fibers::detail::context_spmc_queue::array\*& )?' + V + r'emplace_back<.*', pb)
    def rsv(ex, st, c): s2 = st.fork(); return [Out('ret', st, None), ex.throw(s2, '_ZTISt9bad_alloc', tag='bad_alloc')]
    ex.contract(V + r'reserve\(unsigned long\)', rsv); ex.contract(V + r'vector\(\)', c_void); ex.contract(V + r'~vector\(\)', lambda ex, st, c: (log(st, ('~vector',)), [Out('ret', st, None)])[1])
    def cands(ex, fn, st0, phi0, H):
        g0 = st0.g
        if 'cur' not in g0: return []
        S = g0['cur'][1]; l = []; news = [k[1] for k in g0 if isinstance(k, tuple) and k[0] == 'C' and k[1] is not S]
        vs = [('phi %s' % r, lambda s, ph, r=r: ph[r]) for r, v in phi0.items() if ('phi', r) in H and z3.is_bv(v) and v.size() == 64]
        vs += [('cell %s' % (k,), lambda s, ph, k=k: ex.load1(s, Ptr(k[1], k[2]), ('i', 64))) for k in H if k[0] == 'cell' and k[1].kind == 'stack' and k[3] == 8]
        vs += [(n + ' + top', lambda s, ph, f=f: simp(f(s, ph) + s.g['tl'])) for n, f in list(vs)]
        for n, f in vs:
            l += [('%s from top' % n, lambda s, ph, f=f: LE(s.g['tl'], f(s, ph))), ('%s to bottom' % n, lambda s, ph, f=f: LE(f(s, ph), s.g['bl'])), ('%s not wrapped' % n, lambda s, ph, f=f: z3.ULT(f(s, ph), bv(1 << 62)))]
            for b in news:
                l += [('%s copied below' % n, lambda s, ph, f=f, b=b: z3.Implies(z3.And(LE(s.g['tl'], ex.K), LT(ex.K, f(s, ph)), LT(ex.K, s.g['bl'])), s.g[('C', b)] == s.g[('C', S)])),
                      ('%s copied above' % n, lambda s, ph, f=f, b=b: z3.Implies(z3.And(LE(s.g['tl'], ex.K), LE(f(s, ph), ex.K), LT(ex.K, s.g['bl'])), s.g[('C', b)] == s.g[('C', S)]))]
        for r, v in phi0.items():
            if ('phi', r) in H and isinstance(v, Ptr) and v.base.kind == 'heap' and ('cap', v.base) in g0:
                l.append(('phi %s in array' % r, lambda s, ph, r=r, b=v.base: z3.And(z3.ULE(ph[r].offbv(), s.g[('cap', b)] * 8), ph[r].offbv() & 7 == 0) if ph[r].base is b else B_(False)))
        for k in ('T', 'B', 'E', 'tl', 'bl', 'pushed', 'nofence', 'bsc', 'W', ('C', S), ('cap', S)):
            if k in g0: l.append(('%s same' % (k,), lambda s, ph, k=k: s.g[k] == g0[k]))
        l += [('cap %s same' % i, lambda s, ph, b=b: s.g[('cap', b)] == g0[('cap', b)]) for i, b in enumerate(news)]
        return l
    ex.auto_cands = getattr(ex, 'auto_cands', []) + [cands]

def units(lay):
    us = []
    O = SimpleNamespace(top=lay.off(Q, 'top_'), bottom=lay.off(Q, 'bottom_'), array=lay.off(Q, 'array_'), old=lay.off(Q, 'old_arrays_'), capacity=lay.off(ARR, 'capacity_'), storage=lay.off(ARR, 'storage_'), type=lay.off(CTX, 'type_'))
    def C(ex): lib(ex, O)
    def owner(op, sig, covers):
        fn = '%s::%s' % (Q, sig)
        def setup(ex, st):
            ex.this = ex.symobj('this', Q, True); A = ex.symobj('array', ARR, True); S = ex.symobj('slots', SLOTS, True); ex.K = freshbv('K'); cap = freshbv('capacity'); bb = freshbv('bottom'); n0 = freshbv('count'); t0 = simp(bb - n0); ex.K = simp(bb + freshbv('k'))
            setup_owner(ex, lay, O, op)
            ex.store(st, A.add(O.capacity), cap, 8); ex.store(st, A.add(O.storage), S, 8)
            st.g.update({('cap', S.base): cap, ('C', S.base): freshbv('content'), 'E': freshbv('stored'), 'T': t0, 'B': bb, 'W': fresh('seen', z3.BoolSort()), 'cur': (A, S.base), 'retired': frozenset(), 'retiredarr': (), 'tl': bv(0), 'bl': bv(0),
                         'dirty': B_(False), 'nofence': B_(False), 'bsc': B_(False), 'pushed': bv(0), 'cas': False, 'bsync': B_(False), 'tfence': B_(False)})
            st.assume(z3.And(z3.UGE(cap, 1), z3.ULT(cap, bv(1 << 40)), t0 >= 1, t0 < bv(1 << 61), n0 >= 0, n0 < bv(1 << 40), D(ex.K, t0) > -bv(1 << 61), D(ex.K, t0) < bv(1 << 61)))
            nowrap(st, st.g['T'], st.g['B'])
            for n, c in inv(ex, st): st.assume(c)
            st.assume(z3.Implies(z3.And(LE(st.g['T'], ex.K), LT(ex.K, st.g['B'])), word(st.g['E']) != 0))
            ex.b0 = st.g['B']; ex.t0 = st.g['T']; atoms(ex, lay, O, op)
            if op == 'push': ex.ctx = ex.symobj('ctx', CTX, True); st.assume(ex.ctx.bv() & 7 == 0); return [ex.this, ex.ctx]
            return [ex.this]
        def post(ex, o):
            st = o.st; g = st.g; P = lambda n, c: ex.prove(st, n, c, fn); T, B, W = g['T'], g['B'], g['W']
            for n, c in inv(ex, st): P(n, c)
            kept = [e[1] for e in g.get('_log', ()) if e[0] == 'keep']
            P('what was stored has been released', z3.Or(z3.Not(g['dirty']), B_(o.kind == 'exc')))
            if o.kind == 'exc':
                P('only push may fail, for lack of memory, and stores nothing then', z3.And(B_(op == 'push' and o.val.tag == 'bad_alloc'), g['pushed'] == 0, D(B, ex.b0) == 0)); ex.cover('no memory', st); return
            P('the operation returns', B_(o.kind == 'ret'))
            if o.kind != 'ret': return
            if op == 'push':
                P('the fiber is stored exactly once, at the next index', z3.And(g['pushed'] == 1, D(B, ex.b0) == 1)); ra = g['retiredarr']
                P('a replaced array is kept, once, for the destructor', B_(len(kept) == len(ra) and len(ra) <= 1 and all(x.base is y.base for x, y in zip(kept, ra)))); ex.cover('grows' if ra else 'stored', st)
            elif op == 'pop':
                r = o.val.bv(); e = word(g['E'])
                if ex.feasible(st, r == 0): s = st.fork(); s.assume(r == 0); ex.prove(s, 'no fiber is returned only if the queue was empty, and then nothing is taken', z3.And(B_(not g['cas']), D(B, ex.b0) == 0, D(T, B) == 0), fn); ex.cover('none', s)
                if ex.feasible(st, r != 0):
                    s = st.fork(); s.assume(r != 0); ex.cover('raced' if g['cas'] else 'some', s)
                    ex.prove(s, 'the fiber that is returned has left the queue', z3.And(D(B, ex.b0) == 0, D(T, B) == 0) if g['cas'] else D(B, ex.b0) == -1, fn)
                    s.assume(z3.And(D(ex.K, ex.b0) == -1, LE(ex.t0, ex.K))); ex.prove(s, 'the fiber that is returned is the one pushed last, as it was pushed', r == e, fn)
                s = st.fork(); s.assume(z3.And(D(ex.K, ex.b0) == -1, LE(ex.t0, ex.K))); ex.prove(s, 'an index that left the queue by pop() had its fiber returned', z3.Implies(D(B, ex.b0) == -1, r != 0), fn)
            else:
                P('empty() changes nothing', D(B, ex.b0) == 0); P('empty() is true only if no fiber is stored', z3.Implies(o.val, D(T, B) == 0)); P('empty() is false only if a fiber was stored', z3.Implies(z3.Not(o.val), LT(ex.t0, B)))
                for n, c in (('empty', o.val), ('not empty', z3.Not(o.val))):
                    if ex.feasible(st, c): ex.cover(n, st)
        us.append(Unit('context_spmc_queue::' + op, fn, setup, post, covers, C))
    owner('push', 'push(boost::fibers::context*)', ('grows', 'stored', 'no memory')); owner('pop', 'pop()', ('some', 'raced', 'none')); owner('empty', 'empty() const', ('empty', 'not empty'))
    fs = Q + '::steal()'
    def s_s(ex, st):
        ex.this = ex.symobj('this', Q, True); ex.K = freshbv('K')
        st.g.update(tr=freshbv('tr'), seen=B_(False), tfence=B_(False), tsc=B_(False), bsync=B_(False), v=freshbv('v'), vgood=B_(False), taken=False, retired=frozenset(), dirty=B_(False), nofence=B_(False))
        atoms(ex, lay, O, 'steal'); return [ex.this]
    def p_s(ex, o):
        st = o.st; g = st.g; P = lambda n, c: ex.prove(st, n, c, fs)
        P('steal returns normally', B_(o.kind == 'ret'))
        if o.kind != 'ret': return
        r = o.val.bv()
        if g['taken']: P('the fiber that was taken is returned', r == word(g['v'])); P('a pinned fiber is never stolen', g['v'] & 1 == 0); ex.cover('stolen', st)
        else: P('nothing is returned unless it was taken', r == 0); ex.cover('nothing', st)
    us.append(Unit('context_spmc_queue::steal', fs, s_s, p_s, ('stolen', 'nothing'), C))
    # construction and destruction
    fc = Q + '::context_spmc_queue(unsigned long)'
    def s_c(ex, st):
        ex.this = ex.symobj('this', Q, True); ex.cap = freshbv('capacity'); st.assume(z3.And(z3.UGE(ex.cap, 1), z3.ULT(ex.cap, bv(1 << 40)))); return [ex.this, ex.cap]
    def p_c(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fc); L = lambda p, t=('i', 64): ex.load1(st, p, t)
        if o.kind == 'exc': P('construction fails only for lack of memory', B_(o.val.tag == 'bad_alloc')); return
        t, b = L(ex.this.add(O.top)), L(ex.this.add(O.bottom)); a = L(ex.this.add(O.array), PTR)
        P('a new queue is empty', t == b); P('the first index is not 0, so that the index before it does not wrap', z3.And(z3.UGE(t, 1), z3.ULT(b, bv(1 << 61))))
        if a.base.kind != 'heap': P('a new queue has an array', False); return
        S = L(a.add(O.storage), PTR); P('the array has capacity slots', z3.And(L(a.add(O.capacity)) == ex.cap, st.g[('cap', S.base)] == ex.cap) if ('cap', S.base) in st.g else False); ex.cover('made', st)
    us.append(Unit('context_spmc_queue constructor', fc, s_c, p_c, ('made',), C))
    # destruction: the slots of one array; every array that was replaced and the one in use
    fa = ARR + '::~array()'
    def s_a(ex, st):
        ex.this = ex.symobj('this', ARR, True); ex.S = ex.symobj('slots', SLOTS, True); cap = freshbv('capacity'); st.assume(z3.And(z3.UGE(cap, 1), z3.ULT(cap, bv(1 << 40)))); ex.store(st, ex.this.add(O.capacity), cap, 8); ex.store(st, ex.this.add(O.storage), ex.S, 8); return [ex.this]
    def p_a(ex, o):
        fr = [e[1] for e in o.st.g.get('_log', ()) if e[0] == 'free']
        ex.prove(o.st, 'the slots of an array are freed exactly once, with the array', z3.And(B_(o.kind == 'ret' and len(fr) == 1), ex.ptr_eq(fr[0], ex.S)) if fr else False, fa)
    us.append(Unit('context_spmc_queue::array destructor', fa, s_a, p_a, (), C))
    fd = Q + '::~context_spmc_queue()'
    def C2(ex):
        lib(ex, O); OD = lambda st: st.g['eoff']
        def elem(ex, st, p, ty, mod, val=None):
            if p.base is ex.elems.base: ex.prove(st, 'only existing elements of the list of replaced arrays are read', z3.And(z3.ULT(p.offbv(), ex.m * 8), p.offbv() & 7 == 0)); st.g['eoff'] = simp(p.offbv())
            return None
        ex.hooks_load.append(elem)
        def at(ex, st, k, p, ty, args, order, mod):
            if k == 'load' and p.base is ex.this.base and isint(p.off) and p.off == O.array: return [Out('ret', st, ex.A if ty == PTR else ex.A.bv())]
            return None
        ex.hooks_atomic.append(at)
        def nth(st): return ex.load1(st, Ptr(ex.elems.base, simp(OD(st))), ('i', 64))
        def ev(k):
            def f(ex, st, c):
                p = c.args[0]
                if p.base is ex.A.base: st.g[k + 'A'] = simp(st.g[k + 'A'] + 1); return [Out('ret', st, None)]
                ex.prove(st, 'what is destroyed and freed is an array of the queue', p.bv() == nth(st)); st.g[k + 'J'] = simp(st.g[k + 'J'] + z3.If(OD(st) == ex.J * 8, bv(1), bv(0))); return [Out('ret', st, None)]
            return f
        ex.contract(r'boost::fibers::detail::context_spmc_queue::array::~array\(\)', ev('d')); ex.contract(r'operator delete\(void\*(, unsigned long)?\)', ev('f'), first=True)
        def cands(ex, fn, st0, phi0, H):
            l = []
            vs = [('phi %s' % r, lambda s, ph, r=r: ph[r]) for r, v in phi0.items() if ('phi', r) in H and isinstance(v, Ptr)] + [('cell %s' % (k,), lambda s, ph, k=k: ex.load1(s, Ptr(k[1], k[2]), PTR)) for k in H if k[0] == 'cell' and k[1].kind == 'stack' and k[3] == 8]
            vi = [('phi %s' % r, lambda s, ph, r=r: ph[r]) for r, v in phi0.items() if ('phi', r) in H and z3.is_bv(v) and v.size() == 64]
            for n, f in vs + vi:
                o = (lambda s, ph, f=f: f(s, ph) * 8) if (n, f) in vi else (lambda s, ph, f=f: f(s, ph).bv() - ex.elems.bv())
                if (n, f) in vi: l.append(('%s count' % n, lambda s, ph, f=f: z3.ULE(f(s, ph), ex.m)))
                l += [('%s elem' % n, lambda s, ph, o=o: z3.And(z3.ULE(o(s, ph), ex.m * 8), o(s, ph) & 7 == 0))] + [('%s %s' % (n, k), lambda s, ph, o=o, k=k: s.g[k + 'J'] == z3.If(z3.ULT(ex.J * 8, o(s, ph)), bv(1), bv(0))) for k in 'df']
            return l + [('A %s' % k, lambda s, ph, k=k: s.g[k + 'A'] == st0.g[k + 'A']) for k in 'df']
        ex.auto_cands = getattr(ex, 'auto_cands', []) + [cands]
    def s_d(ex, st):
        ex.this = ex.symobj('this', Q, True); ex.A = ex.symobj('array', ARR, True); ex.elems = ex.symobj('replaced arrays', 'ArrayList', True); ex.m = freshbv('replaced'); ex.J = freshbv('J'); st.assume(z3.And(z3.ULT(ex.m, bv(64)), z3.ULT(ex.J, ex.m)))
        st.g.update(eoff=bv(0), dA=bv(0), fA=bv(0), dJ=bv(0), fJ=bv(0)); ex.store(st, ex.this.add(O.old), ex.elems, 8); ex.store(st, ex.this.add(O.old + 8), ex.elems.add(simp(ex.m * 8)), 8)
        pj = ex.load1(st, Ptr(ex.elems.base, simp(ex.J * 8)), ('i', 64)); st.assume(pj != 0)
        return [ex.this]
    def p_d(ex, o):
        g = o.st.g; P = lambda n, c: ex.prove(o.st, n, c, fd)
        P('destruction returns', B_(o.kind == 'ret')); P('every array that was replaced is destroyed and freed exactly once', z3.And(g['dJ'] == 1, g['fJ'] == 1)); P('the array in use is destroyed and freed exactly once', z3.And(g['dA'] == 1, g['fA'] == 1))
        P('the list of the arrays is destroyed', B_(sum(e[0] == '~vector' for e in g.get('_log', ())) == 1)); ex.cover('destroyed', o.st)
    us.append(Unit('context_spmc_queue destructor', fd, s_d, p_d, ('destroyed',), C2))
    from .algos import suspend_units, ws_units
    ws_units(lay, us, WS, 'work_stealing (lock-free queue)', 'context_spmc_queue'); suspend_units(lay, us, WS, 'work_stealing (lock-free queue)', True)
    return us
