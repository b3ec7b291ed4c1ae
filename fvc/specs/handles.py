"""C11 and C12: promise, future, shared_future, packaged_task, async.  Shared states are identified by their address; the
references to them are counted by a ghost (the counter itself is verified separately); the operations of a shared state
are taken through their contracts (C10)."""
from ..lib import *
from .futures import *
from .futures import NS, D, SB, B
PROPS = ['C11', 'C12']
def prop(pid):
    T = ['contracts of shared_state::set_value/get/set_exception/owner_destroyed/wait (C10)', 'std::exception_ptr: an opaque pointer to the exception']
    if pid == 'C12': T.append('contract of the fiber constructor and fiber::detach (C13, C14, C17): the fiber owns the callable and the arguments given to it')
    return dict(srcs=['tu/handles.cpp'] + (['future.cpp'] if pid == 'C11' else []), units=units11 if pid == 'C11' else units12, trusted=T + ['element and callable types are external classes: their special members may do anything their contract allows, including throw'],
                assumptions=['one element type Val, Val& and void, and one callable type, stand for every other', 'a promise, future or packaged_task object is not used by two fibers at the same time (a shared_future object is only read by both)'])
RS = ('Val', 'Val&', 'void')
E = {'FAR': (FAR, 'future_already_retrieved'), 'PU': (PU, 'no_state'), 'PTU': (PTU, 'no_state'), 'FU': (FU, 'no_state')}
norm = lambda c: re.sub(r'\b(struct|class) ', '', c).replace(' >', '>').replace(' &', '&').replace(' (', '(')
def rec(lay, cls):
    if not hasattr(lay, '_norm'): lay._norm = {}; [lay._norm.setdefault(norm(k), k) for k in lay.rec if lay.rec[k]['fields']]
    k = lay._norm.get(norm(cls))
    if k is None: raise ToolError('no layout for class %s' % cls)
    return k
from ..core import ToolError
TB = D + 'task_base'
def array_init(lay):
    """the loop that clears storage_ writes nothing but storage_"""
    def cands(ex, fn, st0, phi0, H):
        l = []; n = 8
        for r, v in phi0.items():
            if isinstance(v, Ptr) and isint(v.off) and ('phi', r) in H:
                ob = lambda ph, r=r: bv(ph[r].off) if isint(ph[r].off) else ph[r].off
                l.append(('%s inside' % r, lambda s, ph, r=r, v=v, ob=ob: z3.And(B(ph[r].base is v.base), z3.UGE(ob(ph), bv(v.off)), z3.ULT(ob(ph), bv(v.off + n)))))
                for f, t in (('use_count_', ('i', 64)), ('ready_', ('i', 8)), ('except_', ('i', 64))): l.append(('%s %s clear' % (r, f), lambda s, ph, v=v, f=f, t=t: ex.load1(s, Ptr(v.base, lay.off(SB, f)), t) == 0))
        return l
    return cands
def desc(lay, kind, R):
    """class, offset of the pointer to the state, offset of obtained_"""
    if kind == 'promise': c = rec(lay, NS + 'promise<%s>' % R); return c, lay.off(c, 'future_'), lay.off(c, 'obtained_')
    if kind == 'task': c = rec(lay, NS + 'packaged_task<%s (Val)>' % R if R != 'Val&' else NS + 'packaged_task<Val &(Val)>'); return c, lay.off(c, 'task_'), lay.off(c, 'obtained_')
    c = rec(lay, NS + '%s<%s>' % (kind, R)); return c, lay.off(c, 'state_'), None

class Handle:
    def __init__(self, ex, lay, kind, R, name, pre=True, post=True):
        self.kind = kind; self.name = name; self.pre = pre; self.post = post; self.cls, self.po, self.oo = desc(lay, kind, R)
        if pre: self.P = ex.symobj(name, self.cls, True)
        else: self.P = ex.symobj(name, self.cls, True); self.P.base.x = 'raw'
    def ptr(self, ex, st): return ex.load1(st, self.P.add(self.po), PTR)
    def obt(self, ex, st): return ex.load1(st, self.P.add(self.oo), ('i', 8)) if self.oo is not None else bv(0, 8)

def delta(st, x): return z3.Select(st.g['refs'], x)
def own(ex, st, x): return delta(st, x) + sum((z3.If(h.p0 == x, bv(1), bv(0)) for h in ex.H if h.pre), bv(0))
def add(st, x, n): st.g['refs'] = z3.Store(st.g['refs'], x, z3.Select(st.g['refs'], x) + n)
def pv(p): return p.bv() if isinstance(p, Ptr) else p
def uses(ex, st, p): ex.prove(st, 'a shared state is used only while a reference to it is held', z3.And(z3.Not(ex.ptr_eq(p, NULL)), own(ex, st, pv(p)) >= 1))
def sev(st, *e): st.g['sevs'] = st.g.get('sevs', ()) + (e,)
def handle_contracts(ex, lay):
    ex.auto_cands = getattr(ex, 'auto_cands', []) + [array_init(lay)]; fut_contracts(ex); val_contracts(ex); val_contracts(ex, r'Fn<.*>', 'Fn'); C = ex.contract; ex.alloc_fails = True
    def new(ex, st, c):
        outs = c_new(ex, st, c)
        for o in outs:
            if o.kind == 'ret': o.val.base.x = 'raw'
        return outs
    ex.contract(r'operator new\(unsigned long\)', new, True)
    def addref(ex, st, c):
        p = c.args[0]
        if p.base in st.g.get('_allocs', ()) and ('counted', p.base) not in st.g:
            L = lambda n, t: ex.load1(st, p.add(lay.off(SB, n)), t); st.g[('counted', p.base)] = True
            ex.prove(st, 'a new shared state has no references and no result', z3.And(L('use_count_', ('i', 64)) == 0, L('ready_', ('i', 8)) == 0, L('except_', PTR).bv() == 0))
        else: uses(ex, st, p)
        add(st, p.bv(), bv(1)); return [Out('ret', st, None)]
    def rel(ex, st, c): uses(ex, st, c.args[0]); add(st, c.args[0].bv(), bv(-1 & (1 << 64) - 1)); return [Out('ret', st, None)]
    C(r'(boost::fibers::detail::)?intrusive_ptr_add_ref\(boost::fibers::detail::shared_state_base\*\)', addref); C(r'(boost::fibers::detail::)?intrusive_ptr_release\(boost::fibers::detail::shared_state_base\*\)', rel)
    S = r'boost::fibers::detail::shared_state(<.*>|_base)::'
    def same_exc(ex, st, what, tinfo=None, code=None):
        o = ex.throw(st, tinfo, tag='state'); o.val.data['code'] = bv(FERR[code], 32) if code else None; o.val.data['what'] = what; return o
    def setv(ex, st, c):
        a = c.args[1] if len(c.args) > 1 else None; uses(ex, st, c.args[0]); outs = []; sev(st, 'set_value', c.args[0].bv(), (val_id(ex, st, a) if a is not None and 'Val&)' not in c.dem else a.bv() if a is not None else None), re.sub(r'.*\(', '(', c.dem))
        s = st.fork(); s.g['setfailed'] = 'satisfied'; outs.append(same_exc(ex, s, 'set', PAS, 'promise_already_satisfied'))
        if a is not None and 'Val&)' not in c.dem: s = st.fork(); s.g['setfailed'] = 'user'; outs.append(ex.throw(s, None, tag='user'))
        return outs + [Out('ret', st, None)]
    C(S + r'set_value\(.*\)', setv)
    def sete(ex, st, c):
        p = ex.load1(st, c.args[1], PTR); uses(ex, st, c.args[0]); sev(st, 'set_exception', c.args[0].bv(), p); s = st.fork(); s.g['setfailed'] = 'satisfied'
        ex.prove(st, 'an exception that is set is not null', p.bv() != 0) if not ex.user_eptr else None
        return [same_exc(ex, s, 'set', PAS, 'promise_already_satisfied'), Out('ret', st, None)]
    C(S + r'set_exception\(.*\)', sete)
    def od(ex, st, c): uses(ex, st, c.args[0]); sev(st, 'owner_destroyed', c.args[0].bv()); return [Out('ret', st, None)]
    C(S + r'owner_destroyed\(\)', od)
    def get(ex, st, c):
        uses(ex, st, c.args[0]); sev(st, 'get', c.args[0].bv()); s = st.fork(); st.g['got'] = c.args[0].bv(); return [same_exc(ex, s, 'get'), Out('ret', st, ex.stored if 'void' not in c.dem else None)]
    C(S + r'get\(\)', get)
    def gep(ex, st, c):
        this = c.args[1]; uses(ex, st, this); sev(st, 'get_exception_ptr', this.bv()); ex.store(st, c.args[0], ex.gexc, 8); return [Out('ret', st, None)]
    C(S + r'get_exception_ptr\(\)', gep)
    def wait(kind):
        def f(ex, st, c):
            uses(ex, st, c.args[0]); sev(st, kind, c.args[0].bv(), ex.load1(st, c.args[1], ('i', 64)) if len(c.args) > 1 else None)
            if kind == 'wait': return [Out('ret', st, None)]
            r = z3.FreshConst(z3.BitVecSort(32), 'status'); st.assume(z3.Or(r == 1, r == 2)); ex.status = r; return [Out('ret', st, r)]
        return f
    C(S + r'wait\(\) const', wait('wait')); C(r'.*' + S + r'wait_for<.*', wait('wait_for')); C(r'.*' + S + r'wait_until<.*', wait('wait_until'))
    def run(ex, st, c):
        a = c.args[1]; val_used(ex, st, a); uses(ex, st, c.args[0]); sev(st, 'run', c.args[0].bv(), val_id(ex, st, a)); s = st.fork(); return [same_exc(ex, s, 'run', PAS, 'promise_already_satisfied'), Out('ret', st, None)]
    C(r'virtual .*task_(base|object).*::run\(.*', run)
    def reset(ex, st, c):
        uses(ex, st, c.args[1]); sev(st, 'reset', c.args[1].bv()); s = st.fork(); n = ex.symobj('fresh', TB, True); st.assume(z3.And(*[z3.And(n.bv() != h.p0) for h in ex.H if h.pre])); add(st, n.bv(), bv(1)); ex.fresh = n
        ex.store(st, c.args[0], n, 8); return [same_exc(ex, s, 'reset'), Out('ret', st, None)]
    C(r'virtual .*task_(base|object).*::reset\(\).*', reset)
    def stored(ex, st, p, ty, mod=None, val=None):
        if p.base is ex.stored.base: ex.prove(st, 'the stored value is used only while a reference to its state is held', own(ex, st, st.g['got']) >= 1)
    ex.hooks_load.append(stored); ex.hooks_store.append(stored); ex.user_eptr = False

class After:
    def __init__(s, ex, st):
        s.p1 = {h.name: h.ptr(ex, st).bv() for h in ex.H}; s.o1 = {h.name: h.obt(ex, st) for h in ex.H}; s.p0 = {h.name: h.p0 for h in ex.H if h.pre}; s.o0 = {h.name: h.o0 for h in ex.H if h.pre}; s.ev = st.g.get('sevs', ())
    def same(s, n): return z3.And(s.p1[n] == s.p0[n], s.o1[n] == s.o0[n])
    def empty(s, n): return z3.And(s.p1[n] == 0, s.o1[n] == 0)
    def evs(s, *k): return [e for e in s.ev if e[0] in k]
def mkunit(lay, us, name, fnre, R, handles, args, spec, covers=(), contracts=None, held_this=False, owned=None):
    """handles: (name, kind, pre, post)*; args(ex, st) -> arguments; spec(ex, o, A, P)"""
    def con(ex): handle_contracts(ex, lay); contracts(ex) if contracts else None
    def setup(ex, st):
        ex.H = [Handle(ex, lay, k, R, n, pre, post) for n, k, pre, post in handles]; ex.h = {h.name: h for h in ex.H}; st.g['refs'] = z3.K(z3.BitVecSort(64), bv(0)); ex.ptr_labels.update({(h.cls, h.po): TB for h in ex.H if h.kind == 'task'})
        ex.stored = ex.symobj('stored value', 'Val', True); ex.gexc = ex.symobj('stored exception', 'exception', True); ex.v0 = val_id(ex, st, ex.stored); ex.moved_ids = [ex.v0]
        for h in ex.H:
            if h.pre: h.p0 = h.ptr(ex, st).bv(); h.o0 = h.obt(ex, st); st.assume(z3.ULE(h.o0, 1)); st.assume(z3.Implies(h.p0 == 0, h.o0 == 0))
        return args(ex, st)
    def post(ex, o):
        st = o.st; P = lambda n, c, s=None: ex.prove(s or st, n, c if not isinstance(c, bool) else B(c), name); no_live_locals(ex, st, name)
        if o.kind == 'stop': P('the operation does not terminate the program', False); return
        A = After(ex, st); x = z3.FreshConst(z3.BitVecSort(64), 'anystate'); st.assume(x != 0)
        n1 = sum((z3.If(A.p1[h.name] == x, bv(1), bv(0)) for h in ex.H if h.post and (h.pre or o.kind == 'ret')), bv(0)); n0 = sum((z3.If(h.p0 == x, bv(1), bv(0)) for h in ex.H if h.pre), bv(0)); n1 = n1 + z3.If(x == st.g['fibers'], bv(1), bv(0)) if 'fibers' in st.g else n1
        if held_this: n1 = n1 + z3.If(x == ex.this.bv(), bv(1), bv(0))
        if owned: n1 = sum((z3.If(x == y, bv(1), bv(0)) for y in owned(ex, o)), n1)
        P('every shared state has exactly as many references as there are handles to it', delta(st, x) == n1 - n0)
        for h in ex.H:
            if h.post and h.oo is not None and (h.pre or o.kind == 'ret'): P('a handle whose future was retrieved has a state', z3.And(z3.ULE(A.o1[h.name], 1), z3.Implies(A.p1[h.name] == 0, A.o1[h.name] == 0)))
        na = st.g.get('_allocs', ()); nf = st.g.get('_frees', ()); P('memory allocated for a state that was not created is given back', len(na) - len(nf) == len([r for r in na if ('counted', r) in st.g]))
        for f in nf: P('memory is given back to where it came from', any(f.base is r for r in na))
        spec(ex, o, A, P)
    us.append(Unit(name, fnre, setup, post, tuple(covers), con, fnre=True))
def errors(ex, o, A, P, cond, key):
    """o is an exception outcome of the library: which, under which condition"""
    t, code = E[key]; P('the error is reported as %s' % code, z3.And(B(o.val.tinfo == t), o.val.data['code'] == FERR[code] if o.val.data.get('code') is not None else B(False))); P('%s is reported only when it applies' % code, cond); ex.cover(key, o.st)
def abandoned(ex, o, A, P, p, obt):
    """events of a state whose last owner goes: owner_destroyed exactly when its future was retrieved"""
    od = A.evs('owner_destroyed'); P('an abandoned state is not used otherwise', len(A.ev) == len(od)); P('a state is abandoned at most once', len(od) <= 1)
    P('a state whose future was retrieved is abandoned when its owner goes, any other is not', z3.And(od[0][1] == p, obt != 0, p != 0) if od else z3.Or(obt == 0, p == 0))
    ex.cover('abandoned' if od else 'not abandoned', o.st)
q = re.escape
def hre(kind, R): return {'promise': r'boost::fibers::promise<%s ?>' % R, 'future': r'boost::fibers::future<%s ?>' % R, 'shared_future': r'boost::fibers::shared_future<%s ?>' % R, 'task': r'boost::fibers::packaged_task<%s ?\(Val\) ?>' % R}[kind]

def owners(lay, us, kind, R):
    H = hre(kind, R); W = r'Owner<' + H + ' ?>::'; N = '%s<%s> ' % ('packaged_task' if kind == 'task' else kind, R)
    noexc = lambda o, P: P('the operation does not throw', o.kind == 'ret')
    def destroy(ex, o, A, P): noexc(o, P); abandoned(ex, o, A, P, A.p0['h'], A.o0['h'])
    mkunit(lay, us, N + 'destructor', W + r'destroy\(.*', R, [('h', kind, True, False)], lambda ex, st: [ex.h['h'].P], destroy, ('abandoned', 'not abandoned'))
    def mctor(ex, o, A, P): noexc(o, P); P('a move transfers the state and leaves the source empty', z3.And(A.p1['h'] == A.p0['o'], A.o1['h'] == A.o0['o'], A.empty('o'))); P('a move abandons nothing', not A.ev)
    mkunit(lay, us, N + 'move constructor', W + r'move_ctor\(.*', R, [('h', kind, False, True), ('o', kind, True, True)], lambda ex, st: [ex.h['h'].P, ex.h['o'].P], mctor)
    def massign(ex, o, A, P): noexc(o, P); P('a move transfers the state and leaves the source empty', z3.And(A.p1['h'] == A.p0['o'], A.o1['h'] == A.o0['o'], A.empty('o'))); abandoned(ex, o, A, P, A.p0['h'], A.o0['h'])
    mkunit(lay, us, N + 'move assignment', W + r'move_assign\(.*', R, [('h', kind, True, True), ('o', kind, True, True)], lambda ex, st: [ex.h['h'].P, ex.h['o'].P], massign, ('abandoned', 'not abandoned'))
    def selfassign(ex, o, A, P): noexc(o, P); P('moving a handle to itself changes nothing', z3.And(A.same('h'), B(not A.ev)))
    mkunit(lay, us, N + 'move assignment to itself', W + r'move_assign\(.*', R, [('h', kind, True, True)], lambda ex, st: [ex.h['h'].P, ex.h['h'].P], selfassign)
    def swp(ex, o, A, P): noexc(o, P); P('swap exchanges the states and nothing else', z3.And(A.p1['h'] == A.p0['o'], A.o1['h'] == A.o0['o'], A.p1['o'] == A.p0['h'], A.o1['o'] == A.o0['h'], B(not A.ev)))
    for f, t in (('swap_mem', 'swap'), ('swap_free', 'swap (free function)')): mkunit(lay, us, N + t, W + f + r'\(.*', R, [('h', kind, True, True), ('o', kind, True, True)], lambda ex, st: [ex.h['h'].P, ex.h['o'].P], swp)
    def getf(ex, o, A, P):
        if o.kind == 'exc':
            if o.val.tinfo == FAR: errors(ex, o, A, P, A.o0['h'] != 0, 'FAR')
            else: k = 'PU' if kind == 'promise' else 'PTU'; errors(ex, o, A, P, z3.And(A.p0['h'] == 0, A.o0['h'] == 0), k)
            P('a failed get_future changes nothing', A.same('h')); return
        ex.cover('future', o.st); P('the future refers to the state of its owner, and was not retrieved before', z3.And(A.o0['h'] == 0, A.p0['h'] != 0, A.p1['f'] == A.p0['h'])); P('the owner keeps its state and remembers that the future was retrieved', z3.And(A.p1['h'] == A.p0['h'], A.o1['h'] == 1, B(not A.ev)))
    mkunit(lay, us, N + 'get_future', (r'Pr<%s ?>' if kind == 'promise' else r'Ta<%s ?>') % R + r'::get_future\(.*', R, [('f', 'future', False, True), ('h', kind, True, True)], lambda ex, st: [ex.h['f'].P, ex.h['h'].P], getf, ('future', 'FAR', 'PU' if kind == 'promise' else 'PTU'))

def fresh_owner(lay, us, kind, R, name, fnre, args, spec=None, covers=(), R2=None):
    """a constructor that creates a state"""
    def sp(ex, o, A, P):
        st = o.st; al = [r for r in st.g.get('_allocs', ()) if ('counted', r) in st.g]
        if o.kind == 'exc': ex.cover('fails', st); P('the exception that made it fail is passed on, and nothing is left behind', z3.And(B(o.val.tag in ('bad_alloc', 'user')), B(not al and not A.ev))); return
        ex.cover('created', st); P('a new owner has a state of its own whose future was not retrieved yet', z3.And(B(len(al) == 1 and not A.ev), A.p1['h'] == Ptr(al[0], 0).bv() if al else B(False), A.o1['h'] == 0))
        if spec: spec(ex, o, A, P, al[0] if al else None)
    mkunit(lay, us, name, fnre, R, [('h', kind, False, True)], args, sp, ('created', 'fails') + covers)

def promises(lay, us, R):
    N = 'promise<%s> ' % R; W = r'Pr<%s ?>::' % R; h = lambda ex: ex.h['h'].P
    owners(lay, us, 'promise', R)
    fresh_owner(lay, us, 'promise', R, N + 'constructor', W + r'ctor\(.*', lambda ex, st: [h(ex)]); fresh_owner(lay, us, 'promise', R, N + 'constructor (allocator)', W + r'ctor_alloc\(.*', lambda ex, st: [h(ex), ex.symobj('alloc', None, True)])
    def forwards(ev, arg):
        def sp(ex, o, A, P):
            st = o.st; P('setting a result leaves the promise as it is', A.same('h'))
            if not A.ev and o.kind == 'exc': errors(ex, o, A, P, A.p0['h'] == 0, 'PU'); return
            P('the result is set in the state of this promise, once', z3.And(B(len(A.ev) == 1 and A.ev[0][0] == ev), A.ev[0][1] == A.p0['h']) if A.ev else False)
            if A.ev and arg is not None: P('the result that is set is the one given', (A.ev[0][2].bv() if isinstance(A.ev[0][2], Ptr) else A.ev[0][2]) == arg(ex))
            if o.kind == 'ret': ex.cover('set', st); P('success is reported only when the result was set', 'setfailed' not in st.g)
            else: ex.cover('refused', st); P('the failure of the state is passed on', z3.And(B('setfailed' in st.g), B(o.val.tinfo == (PAS if st.g.get('setfailed') == 'satisfied' else None) and o.val.tag in ('state', 'user'))))
        return sp
    def withv(ex, st): ex.uval = ex.symobj('value', 'Val', True); ex.vid = val_id(ex, st, ex.uval); return [h(ex), ex.uval]
    hs = [('h', 'promise', True, True)]; cov = ('set', 'refused', 'PU')
    for f, r, a in (('copy', 'Val', lambda ex: ex.vid), ('move', 'Val', lambda ex: ex.vid), ('ref', 'Val&', lambda ex: ex.uval.bv()), ('none', 'void', None)):
        if r == R: mkunit(lay, us, N + 'set_value' + (' (%s)' % f if R == 'Val' else ''), r'PrSet::%s\(.*' % f, R, hs, withv if a else (lambda ex, st: [h(ex)]), forwards('set_value', a), cov)
    def withe(ex, st): ex.uval = ex.symobj('eptr', 'exception_ptr', True); ex.vid = ex.load1(st, ex.uval, PTR).bv(); ex.user_eptr = True; return [h(ex), ex.uval]
    mkunit(lay, us, N + 'set_exception', W + r'set_exception\(.*', R, hs, withe, forwards('set_exception', lambda ex: ex.vid), cov)

def waitables(lay, us, kind, R):
    H = hre(kind, R); W = r'Waitable<' + H + ' ?>::'; N = '%s<%s> ' % (kind, R); h = lambda ex: ex.h['h'].P; hs = [('h', kind, True, True)]
    ok = lambda o, A, P: (P('the operation does not throw', o.kind == 'ret'), P('no state is waited for or changed', not A.ev))
    def ctor(ex, o, A, P): ok(o, A, P); P('a default-constructed future has no state', A.p1['h'] == 0)
    mkunit(lay, us, N + 'default constructor', W + r'ctor\(.*', R, [('h', kind, False, True)], lambda ex, st: [h(ex)], ctor)
    mkunit(lay, us, N + 'destructor', W + r'destroy\(.*', R, [('h', kind, True, False)], lambda ex, st: [h(ex)], lambda ex, o, A, P: ok(o, A, P))
    def mv(ex, o, A, P): ok(o, A, P); P('a move transfers the state and leaves the source empty', z3.And(A.p1['h'] == A.p0['o'], A.p1['o'] == 0))
    def cp(ex, o, A, P): ok(o, A, P); P('a copy refers to the same state', z3.And(A.p1['h'] == A.p0['o'], A.p1['o'] == A.p0['o']))
    def same(ex, o, A, P): ok(o, A, P); P('assigning a future to itself changes nothing', A.same('h'))
    two = lambda ex, st: [ex.h['h'].P, ex.h['o'].P]; one = lambda ex, st: [h(ex), h(ex)]
    mkunit(lay, us, N + 'move constructor', W + r'move_ctor\(.*', R, [('h', kind, False, True), ('o', kind, True, True)], two, mv); mkunit(lay, us, N + 'move assignment', W + r'move_assign\(.*', R, [('h', kind, True, True), ('o', kind, True, True)], two, mv); mkunit(lay, us, N + 'move assignment to itself', W + r'move_assign\(.*', R, hs, one, same)
    if kind == 'shared_future':
        X = r'Sh<%s ?>::' % R
        mkunit(lay, us, N + 'copy constructor', X + r'copy_ctor\(.*', R, [('h', kind, False, True), ('o', kind, True, True)], two, cp); mkunit(lay, us, N + 'copy assignment', X + r'copy_assign\(.*', R, [('h', kind, True, True), ('o', kind, True, True)], two, cp); mkunit(lay, us, N + 'copy assignment to itself', X + r'copy_assign\(.*', R, hs, one, same)
        mkunit(lay, us, N + 'constructor from a future', X + r'from_future\(.*', R, [('h', kind, False, True), ('o', 'future', True, True)], two, mv); mkunit(lay, us, N + 'assignment from a future', X + r'assign_future\(.*', R, [('h', kind, True, True), ('o', 'future', True, True)], two, mv)
    else:
        def share(ex, o, A, P):
            if o.kind == 'exc': errors(ex, o, A, P, A.p0['o'] == 0, 'FU'); return
            ex.cover('shared', o.st); P('no state is waited for or changed', not A.ev); P('share() transfers the state to the shared_future and leaves the future empty', z3.And(A.p0['o'] != 0, A.p1['h'] == A.p0['o'], A.p1['o'] == 0))
        mkunit(lay, us, N + 'share', r'Fu<%s ?>::share\(.*' % R, R, [('h', 'shared_future', False, True), ('o', kind, True, True)], two, share, ('shared', 'FU'))
    def valid(ex, o, A, P): ok(o, A, P); P('valid() tells whether the future has a state', z3.And((o.val if z3.is_bool(o.val) else o.val != 0) == (A.p0['h'] != 0), A.same('h')))
    mkunit(lay, us, N + 'valid', W + r'valid\(.*', R, hs, lambda ex, st: [h(ex)], valid)
    def via(ev, arg=None, res=None):
        def sp(ex, o, A, P):
            P('the future keeps its state', A.same('h'))
            if o.kind == 'exc': errors(ex, o, A, P, z3.And(A.p0['h'] == 0, B(not A.ev)), 'FU'); return
            ex.cover('done', o.st); P('exactly this state is asked, once', z3.And(B(len(A.ev) == 1 and A.ev[0][0] == ev), A.ev[0][1] == A.p0['h']) if A.ev else False)
            if arg is not None and A.ev: P('the caller\'s limit is passed on', A.ev[0][2] == arg(ex))
            if res is not None: P('the answer of the state is passed on', res(ex, o))
        return sp
    cov = ('done', 'FU')
    mkunit(lay, us, N + 'wait', W + r'wait\(.*', R, hs, lambda ex, st: [h(ex)], via('wait'), cov)
    def withlim(ex, st): t = ex.symobj('limit', None, True); ex.lim = ex.load1(st, t, ('i', 64)); return [h(ex), t]
    for k in ('wait_for', 'wait_until'): mkunit(lay, us, N + k, W + k + r'\(.*', R, hs, withlim, via(k, lambda ex: ex.lim, lambda ex, o: o.val == ex.status), cov)
    def withres(ex, st): ex.res = ex.symobj('result', 'exception_ptr', True); ex.res.base.x = 'raw'; return [ex.res, h(ex)]
    mkunit(lay, us, N + 'get_exception_ptr', W + r'get_exception_ptr\(.*', R, hs, withres, via('get_exception_ptr', None, lambda ex, o: ex.load1(o.st, ex.res, PTR).bv() == ex.gexc.bv()), cov)
    def get(ex, o, A, P):
        st = o.st
        if o.kind == 'exc' and not A.ev: errors(ex, o, A, P, A.p0['h'] == 0, 'FU'); P('a failed get() changes nothing', A.same('h')); return
        P('exactly this state is asked for its result, once', z3.And(B([e[0] for e in A.ev] == ['get']), A.ev[0][1] == A.p0['h']) if A.ev else False)
        if kind == 'future': P('get() invalidates the future, whatever its outcome', A.p1['h'] == 0)
        else: P('get() of a shared_future leaves it as it is', A.same('h')); P('get() of a shared_future leaves the stored value alone', val_id(ex, st, ex.stored) == ex.v0)
        if o.kind == 'exc':
            if o.val.tag == 'user': ex.cover('element throws', st); P('only moving the value out may throw', kind == 'future' and R == 'Val'); return
            ex.cover('rethrows', st); P('the exception of the state is passed on', o.val.tag == 'state' and o.val.data.get('what') == 'get'); return
        ex.cover('returns', st)
        if R == 'Val' and kind == 'future': P('the value returned is the one that was set', val_id(ex, st, ex.res) == ex.v0)
        elif R != 'void': P('the reference returned is the one to the stored value', ex.ptr_eq(o.val, ex.stored))
    def withval(ex, st):
        if R == 'Val' and kind == 'future': ex.res = ex.symobj('result', 'Val', True); ex.res.base.x = 'raw'; return [ex.res, h(ex)]
        return [h(ex)]
    f = {'Val': 'val', 'Val&': 'ref', 'void': 'none'}[R]
    mkunit(lay, us, N + 'get', (r'FuGet::' if kind == 'future' else r'ShGet::') + f + r'\(.*', R, hs, withval, get, ('returns', 'rethrows', 'FU') + (('element throws',) if kind == 'future' and R == 'Val' else ()))

def u_count(lay, us):
    uc = lay.off(SB, 'use_count_')
    for kind, fname in (('add', 'tu_state_add_ref(%s*)' % SB), ('rel', 'tu_state_release(%s*)' % SB)):
        def h(ex, st, k, p, ty, args, order, mod, kind=kind):
            if not (p.base is ex.F.base and isint(p.off) and p.off == uc): return None
            old = freshbv('count'); ex.prove(st, 'the counter is changed by one atomic operation', B(k.startswith('rmw:') and 'last' not in st.g))
            if not k.startswith('rmw:'): return [Out('ret', st, old)] if k == 'load' else [Out('ret', st, None)]
            st.assume(z3.And(z3.ULT(old, bv(1 << 62)), old != 0 if kind == 'rel' else B(True))); new = ex.rmw_new(k[4:], old, args[0], ty); o = str(order[0] if isinstance(order, tuple) else order)
            ex.prove(st, 'the counter changes by exactly one', new == (old + 1 if kind == 'add' else old - 1)); outs = []
            if kind == 'add': st.g['last'] = False; return [Out('ret', st, old)]
            ex.prove(st, 'a reference is given up with release ordering', B(o in ('release', 'acq_rel', 'seq_cst')))
            for s, last in ex.split2(st, simp(new == 0)): s.g['last'] = last; s.g['acq'] = o in ('acq_rel', 'seq_cst'); outs.append(Out('ret', s, old))
            return outs
        def contracts(ex):
            stdlib(ex)
            def dele(ex, st, c): P = lambda n, g: ex.prove(st, n, g); P('this state is released, once, by whoever gave up the last reference', z3.And(ex.ptr_eq(c.args[0], ex.F), B(bool(st.g.get('last')) and not st.g.get('deleted')))); P('what others did with it is visible before it is destroyed (acquire)', B(bool(st.g.get('acq')))); st.g['deleted'] = True; return [Out('ret', st, None)]
            ex.contract(r'virtual .*shared_state_base::deallocate_future\(\).*', dele)
            def fence(st, order):
                if any(x in str(order) for x in ('acquire', 'acq_rel', 'seq_cst')): st.g['acq'] = True
            ex.on_fence = fence
        def setup(ex, st, h=h): ex.F = ex.symobj('F', SB, True); ex.hooks_atomic.append(h); return [ex.F]
        def post(ex, o, kind=kind, fname=fname):
            st = o.st; P = lambda n, c: ex.prove(st, n, c, fname); P('the call returns normally', B(o.kind == 'ret' and 'last' in st.g))
            if kind == 'rel': P('the last release destroys the state, any other does not', B(bool(st.g.get('deleted')) == bool(st.g.get('last')))); ex.cover('last' if st.g.get('last') else 'not last', st)
        us.append(Unit('shared state: %s reference' % ('add' if kind == 'add' else 'release'), fname, setup, post, ('last', 'not last') if kind == 'rel' else (), contracts))

def u_dealloc(lay, us, which, R):
    """deallocate_future: destroys the object, then gives its memory back"""
    cls = rec(lay, D + ('shared_state_object<%s, std::allocator<int>>' % R if which == 'state' else 'task_object<Fn<%s>, std::allocator<int>, %s, Val>' % (R, R))); short = D + ('shared_state_object' if which == 'state' else 'task_object')
    fn = q(short) + (r'<%s, std::allocator<int> ?>' % R if which == 'state' else r'<Fn<%s ?>, std::allocator<int>, %s, Val>' % (R, R)) + r'::deallocate_future\(\)'
    size = lay.rec[cls]['size']
    def contracts(ex):
        stdlib(ex)
        def dtor(ex, st, c): P = lambda n, g: ex.prove(st, n, g); P('this object is destroyed, once, before its memory is given back', z3.And(ex.ptr_eq(c.args[0], ex.this), B('destroyed' not in st.g and 'freed' not in st.g))); st.g['destroyed'] = True; return [Out('ret', st, None)]
        ex.contract(r'virtual .*::~\w+\(\).*\[complete\]', dtor); ex.contract(q(short) + r'<.*::~\w+\(\)', dtor)
        def free(ex, st, c):
            P = lambda n, g: ex.prove(st, n, g); P('the memory of this object is given back, once, after it was destroyed', z3.And(ex.ptr_eq(c.args[0], ex.this), B('destroyed' in st.g and 'freed' not in st.g))); st.g['freed'] = True
            if len(c.args) > 1: P('the size given back is the size allocated', c.args[1] == size)
            return [Out('ret', st, None)]
        ex.contract(r'operator delete\(void\*(, unsigned long)?\)', free, True)
    def setup(ex, st): ex.this = ex.symobj('this', short, True); return [ex.this]
    def use(ex, st, p, ty, mod=None, val=None): 
        if p.base is ex.this.base: ex.prove(st, 'the object is not used after it was destroyed', B('destroyed' not in st.g))
    def setup2(ex, st): a = setup(ex, st); ex.hooks_load.append(use); ex.hooks_store.append(use); return a
    def post(ex, o): ex.prove(o.st, 'the object was destroyed and its memory given back', B(o.kind == 'ret' and 'freed' in o.st.g), fn); ex.cover('done', o.st)
    us.append(Unit('%s<%s>::deallocate_future' % (short.split('::')[-1], R), fn, setup2, post, ('done',), contracts, fnre=True))

def u_state_life(lay, us, R):
    """construction and destruction of a shared state: the value is destroyed exactly when one was set"""
    cls = rec(lay, D + 'shared_state_object<%s, std::allocator<int>>' % R); W = r'St<boost::fibers::detail::shared_state_object<%s, std::allocator<int> ?> ?>::' % R; SO = lay.off(cls, 'storage_') if R == 'Val' else None
    def contracts(ex): ex.auto_cands = getattr(ex, 'auto_cands', []) + [array_init(lay)]; fut_contracts(ex); cell_contracts(ex, lambda p: ('stored',) if SO is not None and p.base is ex.this.base and isint(p.off) and p.off == SO else None)
    C0 = contracts
    def contracts(ex): C0(ex); ex.contract(r'boost::fibers::(mutex::~mutex|condition_variable(_any)?::~condition_variable(_any)?)\(\)', c_void)
    rd = lambda ex, st: ex.load1(st, ex.this.add(lay.off(SB, 'ready_')), ('i', 8)); exc = lambda ex, st: ex.load1(st, ex.this.add(lay.off(SB, 'except_')), PTR).bv()
    def setup(ex, st):
        ex.this = ex.symobj('this', cls, True); st.assume(z3.ULE(rd(ex, st), 1)); s0 = z3.And(rd(ex, st) != 0, exc(ex, st) == 0); st.g[('stored',)] = s0; ex.s0 = s0; st.assume(z3.Implies(rd(ex, st) == 0, exc(ex, st) == 0)); return [ex.this]
    def post(ex, o):
        P = lambda n, c: ex.prove(o.st, n, c if not isinstance(c, bool) else B(c), 'shared_state<%s> destructor' % R); P('destroying a state does not throw', o.kind == 'ret')
        if R == 'Val': P('a value that was set is destroyed with its state', z3.Not(o.st.g[('stored',)]))
        for n, c in (('with value', ex.s0), ('without', z3.Not(ex.s0))):
            if ex.check(o.st, c) == z3.sat: ex.cover(n, o.st)
    us.append(Unit('shared_state<%s> destructor' % R, W + r'destroy\(.*', setup, post, ('with value', 'without'), contracts, fnre=True))
    def setupc(ex, st): ex.this = ex.symobj('this', cls, True); ex.this.base.x = 'raw'; st.g[('stored',)] = B(False); return [ex.this, ex.symobj('alloc', None, True)]
    def postc(ex, o):
        P = lambda n, c: ex.prove(o.st, n, c if not isinstance(c, bool) else B(c), 'shared_state<%s> constructor' % R); P('a new state is empty and not referenced', z3.And(B(o.kind == 'ret'), rd(ex, o.st) == 0, exc(ex, o.st) == 0, ex.load1(o.st, ex.this.add(lay.off(SB, 'use_count_')), ('i', 64)) == 0, z3.Not(o.st.g[('stored',)])))
        if R == 'Val&': P('a new state refers to no value', ex.load1(o.st, ex.this.add(lay.off(cls, 'value_')), PTR).bv() == 0)
    us.append(Unit('shared_state<%s> constructor' % R, W + r'ctor\(.*', setupc, postc, (), contracts, fnre=True))

def units11(lay):
    us = []
    for R in RS: promises(lay, us, R); waitables(lay, us, 'future', R); waitables(lay, us, 'shared_future', R); owners(lay, us, 'task', R); u_dealloc(lay, us, 'state', R); u_dealloc(lay, us, 'task', R); u_state_life(lay, us, R)
    u_count(lay, us); from . import futures; return us + [u for u in futures.units(lay) if u.name.startswith('owner_destroyed')] + futures.category_units(lay)

# ---------------------------------------------------------------------------------- C12
FNR = lambda R: r'Fn<%s ?>' % R
TO = lambda R: r'boost::fibers::detail::task_object<Fn<%s ?>, std::allocator<int>, %s, Val>::' % (R, R)
FUNW = '_ZTIN10__cxxabiv115__forced_unwindE'
def u_run(lay, us, R):
    """task_object::run: the function is called once with the arguments given; what comes out goes into the state"""
    cls = rec(lay, D + 'task_object<Fn<%s>, std::allocator<int>, %s, Val>' % (R, R)); FO = lay.off(cls, 'fn_'); name = 'task_object<%s>::run' % R
    def contracts(ex):
        handle_contracts(ex, lay); thr = ex.throw; ex.throw = lambda st, tinfo=None, **k: thr(st, tinfo or '_ZTI9UserError', **k)   # a user's exception is not a forced unwind
        def call(ex, st, c):
            sret = R == 'Val'; f, a = (c.args[1], c.args[2]) if sret else (c.args[0], c.args[1])
            ex.prove(st, 'the function of this task is called', ex.ptr_eq(f, ex.this.add(FO))); val_used(ex, st, a); sev(st, 'call', f.bv(), val_id(ex, st, a)); outs = []
            for k, t in (('fn', None), ('std', '_ZTISt13runtime_error'), ('unwind', FUNW)): s = st.fork(); s.g['fnthrew'] = k; outs.append(ex.throw(s, t, tag='fn:' + k))
            if R == 'Val': live_set(ex, st, c.args[0], True, 'ctor'); ex.store(st, c.args[0], ex.rid, 8); r = None
            elif R == 'Val&': r = ex.uval
            else: r = None
            st.g['returned'] = True; ex.store(st, a, freshbv('argafter'), 8); return outs + [Out('ret', st, r)]
        ex.contract(r'Fn<.*>::operator\(\)\(Val&&\)', call)
    def args(ex, st):
        ex.this = ex.symobj('this', cls, True); ex.arg = ex.symobj('arg', 'Val', True); ex.aid = val_id(ex, st, ex.arg); ex.rid = freshbv('result'); ex.uval = ex.symobj('referred', 'Val', True); ex.moved_ids += [ex.aid, ex.rid]; add(st, ex.this.bv(), bv(1)); st.g['others'] = ex.this.bv(); return [ex.this, ex.arg]
    def spec(ex, o, A, P):
        st = o.st; ev = A.ev; calls = A.evs('call'); k = [e[0] for e in ev]; thr = st.g.get('fnthrew')
        P('the function is called at most once', len(calls) <= 1)
        for e in calls: P('the function is called with the argument given', e[2] == ex.aid)
        for e in ev:
            if e[0].startswith('set'): P('the result goes into the state of this task', e[1] == ex.this.bv())
        if not calls: ex.cover('argument throws', st); P('the function is not called only when its arguments could not be passed, and then that exception is the result', B(k == ['set_exception'] and bool(st.g.get('valthrew')))) 
        elif thr == 'unwind': ex.cover('unwound', st); P('a fiber that is being unwound passes through', B(k == ['call'] and o.kind == 'exc' and o.val.tag == 'fn:unwind')); return
        elif thr:
            ex.cover('function throws', st); P('an exception thrown by the function is the result', B(k == ['call', 'set_exception']))
        else:
            P('the result of the function is set, and nothing else unless that fails', B(k[:2] == ['call', 'set_value'] and ((k[2:] == ['set_exception']) == ('valuefailed' in st.g)) and len(k) <= 3))
            if len(ev) > 1 and R != 'void': P('the value that is set is the one the function returned', ev[1][2] == (ex.rid if R == 'Val' else ex.uval.bv()))
            if len(k) == 2: ex.cover('value', st)
        for e in A.evs('set_exception'):
            x = ex.eptrs.get(e[2].base); P('the exception stored is the one that was thrown', B(x is not None and (x.tag == 'fn:' + thr if thr else x.tag in ('user', 'state'))))
        if o.kind == 'exc': ex.cover('satisfied', st); P('only a task that was run before is refused, with promise_already_satisfied', B(o.val.tinfo == PAS and st.g.get('setfailed') == 'satisfied' and bool(A.evs('set_exception'))))
        else: P('the call returns only when the outcome was stored', B(st.g.get('exc_ok') or k == ['call', 'set_value']))
    def contracts2(ex):
        contracts(ex); h0 = ex.find_contract('boost::fibers::detail::shared_state<%s>::set_value(%s)' % (R, {'Val': 'Val&&', 'Val&': 'Val&', 'void': ''}[R]), '')[0]; h1 = ex.find_contract('boost::fibers::detail::shared_state_base::set_exception(std::__exception_ptr::exception_ptr)', '')[0]
        def setv(ex, st, c):
            outs = h0(ex, st, c)
            for o in outs:
                if o.kind == 'exc': o.st.g['valuefailed'] = True
            return outs
        def sete(ex, st, c):
            st.g.pop('setfailed', None); outs = h1(ex, st, c)
            for o in outs:
                if o.kind == 'ret': o.st.g['exc_ok'] = True
            return outs
        ex.contract(r'boost::fibers::detail::shared_state<.*>::set_value\(.*\)', setv, True); ex.contract(r'boost::fibers::detail::shared_state(<.*>|_base)::set_exception\(.*\)', sete, True)
    mkunit(lay, us, name, TO(R) + r'run\(Val&&\)', R, [], args, spec, ('argument throws', 'unwound', 'function throws', 'value', 'satisfied'), contracts2, held_this=True)

def fn_unit(ex, st, P, r, cls, lay):
    """the callable of a new task is the one given"""
    L = ('live', r, lay.off(cls, 'fn_')); P('a task owns a living callable', B(bool(st.g.get(L)))); P('the callable of a new task is the one given', ex.load1(st, Ptr(r, lay.off(cls, 'fn_')), ('i', 64)) == ex.fid)
def u_task_reset(lay, us, R):
    cls = rec(lay, D + 'task_object<Fn<%s>, std::allocator<int>, %s, Val>' % (R, R)); FO = lay.off(cls, 'fn_')
    def args(ex, st):
        ex.this = ex.symobj('this', cls, True); ex.res = ex.symobj('result', None, True); ex.fid = ex.load1(st, ex.this.add(FO), ('i', 64)); ex.moved_ids += [ex.fid]; add(st, ex.this.bv(), bv(1)); return [ex.res, ex.this]
    def spec(ex, o, A, P):
        st = o.st; al = [r for r in st.g.get('_allocs', ()) if ('counted', r) in st.g]; P('the old state is not touched', not A.ev); [st.assume(Ptr(r, 0).bv() != ex.this.bv()) for r in al]
        if o.kind == 'exc': ex.cover('fails', st); P('nothing is left behind when no fresh state can be made', B(not al and o.val.tag in ('bad_alloc', 'user'))); return
        ex.cover('fresh', st); P('one fresh task is made and returned with one reference', z3.And(B(len(al) == 1), ex.load1(st, ex.res, PTR).bv() == Ptr(al[0], 0).bv(), delta(st, Ptr(al[0], 0).bv()) == 1) if al else False)
        if al: fn_unit(ex, st, P, al[0], cls, lay)
    mkunit(lay, us, 'task_object<%s>::reset' % R, TO(R) + r'reset\(\)', R, [], args, spec, ('fresh', 'fails'), held_this=True, owned=lambda ex, o: [ex.load1(o.st, ex.res, PTR).bv()] if o.kind == 'ret' else [])

def tasks(lay, us, R):
    N = 'packaged_task<%s> ' % R; W = r'Ta<%s ?>::' % R; h = lambda ex: ex.h['h'].P; hs = [('h', 'task', True, True)]
    def empty(ex, o, A, P): P('a default-constructed task is empty', z3.And(B(o.kind == 'ret' and not A.ev), A.empty('h')))
    mkunit(lay, us, N + 'default constructor', W + r'ctor_empty\(.*', R, [('h', 'task', False, True)], lambda ex, st: [h(ex)], empty)
    def fnarg(ex, st): ex.f = ex.symobj('callable', 'Fn', True); ex.fid = val_id(ex, st, ex.f); ex.moved_ids += [ex.fid]; return ex.f
    for k, alloc in (('copy', 'std::allocator<packaged_task<%s (Val)>>'), ('move', ''), ('alloc', 'int')):
        def sp(ex, o, A, P, r, k=k):
            if r is None: return
            A_ = {'alloc': 'int'}.get(k, 'boost::fibers::packaged_task<%s' % R + (' (Val)>' if R != 'Val&' else '(Val)>')); cls = rec(lay, D + 'task_object<Fn<%s>, std::allocator<%s>, %s, Val>' % (R, A_, R)); fn_unit(ex, o.st, P, r, cls, lay)
            if k == 'copy': P('copying the callable leaves the one given alone', val_id(ex, o.st, ex.f) == ex.fid)
        fresh_owner(lay, us, 'task', R, N + {'copy': 'constructor (copied callable)', 'move': 'constructor (moved callable)', 'alloc': 'constructor (allocator)'}[k], W + r'ctor_%s\(.*' % k, (lambda ex, st: [h(ex), ex.symobj('alloc', None, True), fnarg(ex, st)]) if k == 'alloc' else (lambda ex, st: [h(ex), fnarg(ex, st)]), sp)
    def valid(ex, o, A, P): P('valid() tells whether there is a task', z3.And(B(o.kind == 'ret' and not A.ev), (o.val if z3.is_bool(o.val) else o.val != 0) == (A.p0['h'] != 0), A.same('h')))
    mkunit(lay, us, N + 'valid', W + r'valid\(.*', R, hs, lambda ex, st: [h(ex)], valid)
    def inv(ex, o, A, P):
        st = o.st; P('invoking a task leaves the handle as it is', A.same('h'))
        if o.kind == 'exc' and o.val.tinfo == PTU: errors(ex, o, A, P, z3.And(A.p0['h'] == 0, B(not A.ev)), 'PTU'); return
        if o.kind == 'exc' and o.val.tag == 'user': ex.cover('argument throws', st); P('nothing is run when the argument cannot be passed', not A.ev); return
        P('the task is run once, with the argument given', z3.And(A.ev[0][1] == A.p0['h'], A.ev[0][2] == ex.aid) if [e[0] for e in A.ev] == ['run'] else False)
        if o.kind == 'exc': ex.cover('refused', st); P('the refusal of a second run is passed on', o.val.tinfo == PAS and o.val.data.get('what') == 'run')
        else: ex.cover('run', st)
    def witharg(ex, st): ex.arg = ex.symobj('arg', 'Val', True); ex.aid = val_id(ex, st, ex.arg); ex.moved_ids += [ex.aid]; return [h(ex), ex.arg]
    mkunit(lay, us, N + 'operator()', W + r'invoke\(.*', R, hs, witharg, inv, ('PTU', 'argument throws', 'refused', 'run'))
    def reset(ex, o, A, P):
        st = o.st; od = A.evs('owner_destroyed')
        if o.kind == 'exc' and o.val.tinfo == PTU: errors(ex, o, A, P, A.p0['h'] == 0, 'PTU'); P('a failed reset changes nothing', z3.And(A.same('h'), B(not A.ev))); return
        P('the task makes its fresh successor, once', z3.And(B(len(A.evs('reset')) == 1 and len(A.ev) == 1 + len(od)), A.evs('reset')[0][1] == A.p0['h']) if A.evs('reset') else False)
        if o.kind == 'exc': ex.cover('fails', st); P('a failed reset changes nothing', z3.And(A.same('h'), B(not od))); return
        ex.cover('reset', st); P('the handle gets the fresh state, whose future was not retrieved', z3.And(A.p1['h'] == ex.fresh.bv(), A.o1['h'] == 0)); P('the old state is abandoned exactly when its future was retrieved', z3.And(B(len(od) == 1), A.o0['h'] != 0, od[0][1] == A.p0['h']) if od else A.o0['h'] == 0)
        ex.cover('abandoned' if od else 'not abandoned', st)
    mkunit(lay, us, N + 'reset', W + r'reset\(.*', R, hs, lambda ex, st: [h(ex)], reset, ('PTU', 'fails', 'reset', 'abandoned', 'not abandoned'))

def asyncs(lay, us, R):
    c, po, oo = desc(lay, 'task', R); W = r'As<%s ?>::' % R
    def contracts(ex):
        ex.ptr_labels[(c, po)] = TB
        def ctor(ex, st, k):
            f, pol, props, sa, pt, a = k.args; P = lambda n, g: ex.prove(st, n, g if not isinstance(g, bool) else B(g)); L = lambda s: (ex.load1(s, pt.add(po), PTR), ex.load1(s, pt.add(oo), ('i', 8)))
            val_used(ex, st, a); p, ob = L(st); P('a fiber is made once', 'fiber' not in st.g); outs = []
            P('the fiber is given the task whose future is returned, marked as retrieved', z3.And(z3.Not(ex.ptr_eq(p, NULL)), ob == 1)); P('the fiber is given the argument', val_id(ex, st, a) == ex.aid)
            s = st.fork(); s.g['fiberfails'] = 1; outs.append(ex.throw(s, None, tag='fiber'))                       # nothing was moved yet
            s = st.fork(); ex.store(s, pt.add(po), NULL, 8); ex.store(s, pt.add(oo), bv(0, 8), 1); sev(s, 'owner_destroyed', p.bv()); add(s, p.bv(), bv(-1 & (1 << 64) - 1)); s.g['fiberfails'] = 2; outs.append(ex.throw(s, None, tag='fiber'))
            ex.store(st, pt.add(po), NULL, 8); ex.store(st, pt.add(oo), bv(0, 8), 1); st.g['fibers'] = p.bv(); st.g['fiber'] = f; st.g['policy'] = pol; st.g['salloc'] = sa; ex.ctx = ex.symobj('new context', 'boost::fibers::context', True); ex.store(st, f, ex.ctx, 8); return outs + [Out('ret', st, None)]
        ex.contract(r'boost::fibers::fiber::fiber<.*>\(boost::fibers::launch, boost::fibers::fiber_properties\*, std::allocator_arg_t, .*', ctor)
        def detach(ex, st, k): ex.prove(st, 'the fiber is detached, once', B('fiber' in st.g and k.args[0].base is st.g['fiber'].base and 'detached' not in st.g)); st.g['detached'] = True; ex.store(st, k.args[0], NULL, 8); return [Out('ret', st, None)]
        ex.contract(r'boost::fibers::fiber::detach\(\)', detach); ex.contract(r'boost::context::stack_traits::default_size\(\)', lambda ex, st, c: [Out('ret', st, freshbv('stacksize'))])
    def args(kind):
        def f(ex, st):
            ex.f = ex.symobj('callable', 'Fn', True); ex.fid = val_id(ex, st, ex.f); ex.arg = ex.symobj('arg', 'Val', True); ex.aid = val_id(ex, st, ex.arg); ex.moved_ids += [ex.fid, ex.aid]; ex.pol = z3.FreshConst(z3.BitVecSort(32), 'policy'); st.assume(z3.ULE(ex.pol, 1)); ex.sa = ex.symobj('salloc', 'boost::context::basic_fixedsize_stack', True); al = ex.symobj('alloc', None, True); m = ex.h['f'].P
            return {'plain': [m, ex.f, ex.arg], 'policy': [m, ex.pol, ex.f, ex.arg], 'stack': [m, ex.pol, ex.sa, ex.f, ex.arg], 'alloc': [m, ex.pol, ex.sa, al, ex.f, ex.arg]}[kind]
        return f
    def spec(kind):
        def sp(ex, o, A, P):
            st = o.st; al = [r for r in st.g.get('_allocs', ()) if ('counted', r) in st.g]
            if o.kind == 'exc': 
                ex.cover('fails', st); P('async fails only when the task, its arguments or its fiber cannot be made', o.val.tag in ('bad_alloc', 'user', 'fiber')); P('no fiber is left running when async fails', 'fiber' not in st.g)
                if al: P('the state of a task that got no fiber is abandoned once', z3.And(B(len(A.ev) == 1 and A.ev[0][0] == 'owner_destroyed'), A.ev[0][1] == Ptr(al[0], 0).bv()) if A.ev else False)
                return
            ex.cover('launched', st); P('the future returned is the one of the task given to the fiber', z3.And(B(len(al) == 1 and 'fibers' in st.g), A.p1['f'] == st.g['fibers'], A.p1['f'] == Ptr(al[0], 0).bv()) if 'fibers' in st.g and al else False); P('the fiber was detached', 'detached' in st.g); P('the state is not used otherwise', not A.ev)
            pol = st.g.get('policy')
            if pol is not None: P('the fiber is launched as asked', pol == (ex.pol if kind != 'plain' else 1))
            if al:
                A_ = 'int' if kind == 'alloc' else 'boost::fibers::packaged_task<%s' % R + (' (Val)>' if R != 'Val&' else '(Val)>'); fn_unit(ex, st, P, al[0], rec(lay, D + 'task_object<Fn<%s>, std::allocator<%s>, %s, Val>' % (R, A_, R)), lay)
        return sp
    for kind, t in (('plain', 'async(fn, args)'), ('policy', 'async(policy, fn, args)'), ('stack', 'async(policy, stack allocator, fn, args)'), ('alloc', 'async(policy, stack allocator, allocator, fn, args)')):
        mkunit(lay, us, t + ', result ' + R, W + kind + r'\(.*', R, [('f', 'future', False, True)], args(kind), spec(kind), ('launched', 'fails'), contracts)
def units12(lay):
    us = []
    for R in RS: u_run(lay, us, R); u_task_reset(lay, us, R); tasks(lay, us, R); asyncs(lay, us, R)
    return us
