"""Assumed contracts of the intrusive containers of boost.intrusive (and std::deque), as abstract sequences.
A container at (region, offset) has ghost state (h, t, arr): its elements are arr[h..t)."""
from .lib import *
from .core import _ctr
ARR = z3.ArraySort(BV64, BV64)

def seq_key(p):
    if not isint(p.off): raise ToolError('container at a symbolic address')
    return ('seq', p.base, p.off)
def seq_fresh(st, name='q', empty=False):
    h = freshbv(name + '.h'); t = freshbv(name + '.t'); a = fresh(name + '.e', ARR)
    st.assume(z3.And(z3.UGE(h, bv(1 << 40)), z3.ULE(h, t), z3.ULT(t, bv(1 << 62))))
    if empty: st.assume(h == t)
    return (h, t, a)
def seq_get(st, p):
    k = seq_key(p)
    if k not in st.g:
        st.g[k] = seq_fresh(st, empty=p.base.kind in ('stack', 'heap'))
    return st.g[k]
def seq_set(st, p, v): st.g[seq_key(p)] = tuple(v)
def seq_empty(s): return s[0] == s[1]
def seq_len(s): return s[1] - s[0]

class Hook:
    """which container types, by their hook member: element class, hook offset"""
    def __init__(self, field, cls, off): self.field = field; self.cls = cls; self.off = off

def hooks_of(ex, lay):
    h = {}
    for cls, f in (('boost::fibers::context', ('ready_hook_', 'sleep_hook_', 'worker_hook_', 'terminated_hook_', 'remote_ready_hook_')), ('boost::fibers::waker_with_hook', ('waker_queue_hook_',))):
        if cls in lay.rec:
            for x in f: h[x] = Hook(x, cls, lay.off(cls, x))
    return h
def hook_for(ex, dem):
    m = re.search(r'&boost::fibers::\w+::(\w+_hook_)', dem)
    if not m: raise ToolError('container with unknown hook: %s' % dem[:120])
    n = m.group(1)
    if n not in ex.hookinfo: raise ToolError('unknown hook %s' % n)
    return ex.hookinfo[n]
def linked(st, field, p):
    return st.g.get(('linked', field, p.base, p.off)) if isint(p.off) else None
def set_linked(st, field, p, v):
    if isint(p.off): st.g[('linked', field, p.base, p.off)] = v
def elem(ex, st, hk, t):
    p = ex.sym(simp(t), hk.cls)
    if p.base.cls is None: p.base.cls = hk.cls
    st.assume(p.bv() != 0)
    return p
def protect(ex, st, p, what):
    """a container that belongs to a monitor is accessed only under its lock"""
    f = getattr(ex, 'protect_fn', None)
    if f: f(ex, st, p)
    for m in ex.monitors:
        if m.matches(p.base) and isint(p.off) and p.off in getattr(m, 'containers', {}):
            ex.prove(st, 'the container %s is accessed only under its lock' % m.containers[p.off], z3.BoolVal(is_held(st, m, p.base)))
            return m
    return None
def ev(ex, st, e):
    log(st, e)
    f = getattr(ex, 'on_container', None)
    if f: f(ex, st, e)

def iter_cands(ex, fn, st0, phi0, H):
    """loop invariant candidates: an iterator carried round a loop designates the first element of a container"""
    l = []
    for k in st0.g:
        if not (isinstance(k, tuple) and len(k) == 3 and k[0] == 'seq'): continue
        hk = ex.seq_hooks.get((k[1], k[2]))
        if hk is None: continue
        def isbegin(s, it, k=k, hk=hk):
            q = s.g.get(k)
            if q is None or not isinstance(it, Ptr): return z3.BoolVal(True)
            return z3.If(seq_empty(q), it.bv() == Ptr(k[1], k[2]).bv(), z3.And(it.bv() == z3.Select(q[2], q[0]) + hk.off, it.bv() != Ptr(k[1], k[2]).bv()))
        for r, v in phi0.items():
            if ('phi', r) in H and isinstance(v, Ptr): l.append(('%s is begin of %s' % (r, id(k[1])), lambda s, ph, r=r, f=isbegin: f(s, ph[r])))
        for c in list(H):
            if c[0] == 'cell' and H[c].get('ptr'): l.append(('cell %s+%s is begin of %s' % (id(c[1]), c[2], id(k[1])), lambda s, ph, c=c, f=isbegin: f(s, ex.load1(s, Ptr(c[1], c[2]), PTR))))
    return l
def intrusive_contracts(ex, lay):
    ex.hookinfo = hooks_of(ex, lay); ex.seq_hooks = {}
    ex.auto_cands = getattr(ex, 'auto_cands', []) + [iter_cands]
    C = ex.contract
    L = r'boost::intrusive::(?:slist_impl|list_impl|slist|list)<.*>::'
    def fn(f):
        def g(ex, st, c):
            hk = hook_for(ex, c.dem); p = c.args[0]
            if isint(p.off): ex.seq_hooks[(p.base, p.off)] = hk
            protect(ex, st, p, '')
            return f(ex, st, c, hk, p)
        return g
    def fit(f):
        """functions that return an iterator: by value or through a hidden result pointer"""
        def g(ex, st, c):
            if c.retty != VOID: return fn(f)(ex, st, c)
            import copy
            c2 = copy.copy(c); c2.args = c.args[1:]
            outs = fn(f)(ex, st, c2)
            for o in outs:
                if o.kind == 'ret': ex.store(o.st, c.args[0], o.val, 8); o.val = None
            return outs
        return g
    def empty(ex, st, c, hk, p): return [Out('ret', st, simp(seq_empty(seq_get(st, p))))]
    def size(ex, st, c, hk, p): return [Out('ret', st, simp(seq_len(seq_get(st, p))))]
    def nonempty(ex, st, p, what):
        s = seq_get(st, p)
        ex.prove(st, '%s only of a non-empty queue' % what, z3.Not(seq_empty(s)))
        st.assume(z3.Not(seq_empty(s)))
        return s
    def front(ex, st, c, hk, p):
        s = nonempty(ex, st, p, 'the front is taken')
        return [Out('ret', st, elem(ex, st, hk, z3.Select(s[2], s[0])))]
    def back(ex, st, c, hk, p):
        s = nonempty(ex, st, p, 'the back is taken')
        return [Out('ret', st, elem(ex, st, hk, z3.Select(s[2], s[1] - 1)))]
    def pop_front(ex, st, c, hk, p):
        s = nonempty(ex, st, p, 'an element is popped')
        e = elem(ex, st, hk, z3.Select(s[2], s[0]))
        seq_set(st, p, (simp(s[0] + 1), s[1], s[2])); set_linked(st, hk.field, e, False)
        ev(ex, st, ('pop', p, e, hk.field, 'front'))
        return [Out('ret', st, None)]
    def pop_back(ex, st, c, hk, p):
        s = nonempty(ex, st, p, 'an element is popped')
        e = elem(ex, st, hk, z3.Select(s[2], s[1] - 1))
        seq_set(st, p, (s[0], simp(s[1] - 1), s[2])); set_linked(st, hk.field, e, False)
        ev(ex, st, ('pop', p, e, hk.field, 'back'))
        return [Out('ret', st, None)]
    def push(where):
        def f(ex, st, c, hk, p):
            x = c.args[1]; s = seq_get(st, p)
            l = linked(st, hk.field, x)
            if l is not None: ex.prove(st, 'an element is not linked twice through one hook (%s)' % hk.field, z3.BoolVal(l is False) if not isinstance(l, z3.ExprRef) else z3.Not(l))
            if where == 'back': n = (s[0], simp(s[1] + 1), z3.Store(s[2], s[1], x.bv()))
            else: n = (simp(s[0] - 1), s[1], z3.Store(s[2], s[0] - 1, x.bv()))
            if x.base.kind in ('stack', 'heap'): x.base.escaped = True
            seq_set(st, p, n); set_linked(st, hk.field, x, True)
            ev(ex, st, ('push', p, x, hk.field, where))
            return [Out('ret', st, None)]
        return f
    def remove_(ex, st, hk, p, x):
        s = seq_get(st, p); l = linked(st, hk.field, x)
        k = freshbv('rk'); a2 = fresh('q.e', ARR)
        st.assume(z3.And(z3.ULE(s[0], k), z3.ULT(k, s[1]), z3.Select(s[2], k) == x.bv()))
        st.assume(z3.Implies(k == s[0], z3.And(*[])) if False else z3.BoolVal(True))
        seq_set(st, p, (s[0], simp(s[1] - 1), a2)); set_linked(st, hk.field, x, False)
        ev(ex, st, ('remove', p, x, hk.field))
    def remove(ex, st, c, hk, p):
        x = c.args[1]; l = linked(st, hk.field, x)
        # slist::remove(value) compares by address here; removing an element that is not linked changes nothing
        if l is False: return [Out('ret', st, None)]
        if isinstance(l, z3.ExprRef):
            r = []
            for s2, b in ex.split2(st, l):
                if b: remove_(ex, s2, hk, p, x)
                r.append(Out('ret', s2, None))
            return r
        remove_(ex, st, hk, p, x)
        return [Out('ret', st, None)]
    def clear(ex, st, c, hk, p):
        s = seq_get(st, p); seq_set(st, p, (s[1], s[1], s[2])); ev(ex, st, ('clear', p, None, hk.field, seq_empty(s)))
        return [Out('ret', st, None)]
    def swap(ex, st, c, hk, p):
        q = c.args[1]; protect(ex, st, q, '')
        a, b = seq_get(st, p), seq_get(st, q); seq_set(st, p, b); seq_set(st, q, a)
        ev(ex, st, ('swap', p, q, hk.field))
        return [Out('ret', st, None)]
    def ctor(ex, st, c, hk, p):
        h = bv(1 << 41); seq_set(st, p, (h, h, fresh('q.e', ARR))); return [Out('ret', st, None)]
    def mctor(ex, st, c, hk, p):
        q = c.args[1]; h = bv(1 << 41); seq_set(st, p, seq_get(st, q)); seq_set(st, q, (h, h, fresh('q.e', ARR)))
        ev(ex, st, ('swap', p, q, hk.field))
        return [Out('ret', st, None)]
    def dtor(ex, st, c, hk, p):
        ev(ex, st, ('destroy', p, None, hk.field, seq_empty(seq_get(st, p)))); return [Out('ret', st, None)]
    def begin(ex, st, c, hk, p):
        s = seq_get(st, p)
        r = []
        for s2, b in ex.split2(st, seq_empty(s)):
            if b: r.append(Out('ret', s2, p))
            else:
                e = elem(ex, s2, hk, z3.Select(s[2], s[0])); s2.assume(e.add(hk.off).bv() != p.bv()); r.append(Out('ret', s2, e.add(hk.off)))
        return r
    def end(ex, st, c, hk, p): return [Out('ret', st, p)]
    for nm, f in (('empty() const', empty), ('size() const', size), ('front()', front), ('front() const', front), ('back()', back), ('back() const', back),
                  ('pop_front()', pop_front), ('pop_back()', pop_back), ('clear()', clear)):
        C(L + re.escape(nm), fn(f))
    C(L + r'c?begin\(\)( const)?', fit(begin)); C(L + r'c?end\(\)( const)?', fit(end))
    C(L + r'push_back\(.*\)', fn(push('back'))); C(L + r'push_front\(.*\)', fn(push('front')))
    C(L + r'remove\(.*\)', fn(remove)); C(L + r'swap\(.*\)', fn(swap))
    C(r'boost::intrusive::(?:slist_impl|list_impl|slist|list)<.*>::(slist|list|slist_impl|list_impl)\(\)', fn(ctor))
    C(r'boost::intrusive::(?:slist_impl|list_impl|slist|list)<.*>::(slist|list|slist_impl|list_impl)\(.*&&\)', fn(mctor))
    C(r'boost::intrusive::(?:slist_impl|list_impl|slist|list)<.*>::~(slist|list|slist_impl|list_impl)\(\)', fn(dtor))
    # ordered multiset: begin() is a least element
    T = r'boost::intrusive::(?:bstree_impl|multiset_impl|multiset|bstbase3|bstbase2|bstbase)<.*>::'
    def tinsert(ex, st, c, hk, p):
        x = c.args[-1]; l = linked(st, hk.field, x)
        if l is not None: ex.prove(st, 'an element is not linked twice through one hook (%s)' % hk.field, z3.BoolVal(l is False))
        s = seq_get(st, p); n = fresh('q.e', ARR)
        seq_set(st, p, (s[0], simp(s[1] + 1), n)); set_linked(st, hk.field, x, True)
        ev(ex, st, ('insert', p, x, hk.field))
        return [Out('ret', st, x.add(hk.off))]
    def terase(ex, st, c, hk, p):
        """erase(iterator) -> iterator to the next element"""
        it = c.args[1]
        if it.base.kind == 'stack': it = ex.load1(st, it, PTR)
        x = it.add(-hk.off); s = seq_get(st, p)
        isfront = simp(z3.Select(s[2], s[0]) == x.bv())
        ex.prove(st, 'only an element of the set is erased', z3.Not(seq_empty(s)))
        fr = ex.proved(st, isfront)
        if fr: seq_set(st, p, (simp(s[0] + 1), s[1], s[2]))
        else: seq_set(st, p, (s[0], simp(s[1] - 1), fresh('q.e', ARR)))
        set_linked(st, hk.field, x, False)
        ev(ex, st, ('erase', p, x, hk.field, fr))
        return begin(ex, st, c, hk, p)
    C(T + r'c?begin\(\)( const)?', fit(begin)); C(T + r'c?end\(\)( const)?', fit(end)); C(T + r'empty\(\) const', fn(empty)); C(T + r'size\(\) const', fn(size))
    C(T + r'insert\(.*\)', fit(tinsert)); C(T + r'erase\(boost::intrusive::tree_iterator<.*', fit(terase))
    C(r'boost::intrusive::(?:bstree_impl|multiset_impl|multiset)<.*>::(bstree_impl|multiset_impl|multiset)\(.*\)', fn(ctor))
    C(r'boost::intrusive::(?:bstree_impl|multiset_impl|multiset)<.*>::~(bstree_impl|multiset_impl|multiset)\(\)', fn(dtor))
    # hooks
    def hk_at(ex, p):
        for h in ex.hookinfo.values():
            if p.base.cls == h.cls and isint(p.off) and p.off == h.off: return h, Ptr(p.base, 0)
            if p.base.cls is None and isint(p.off) and p.off == h.off and h.cls.endswith('waker_with_hook'): return h, Ptr(p.base, 0)
        raise ToolError('hook at unknown place %s' % p)
    def is_linked(ex, st, c):
        h, x = hk_at(ex, c.args[0]); l = linked(st, h.field, x)
        if l is None and getattr(ex, 'linked_fn', None): ex.linked_fn(ex, st, x)
        if l is None: l = fresh('linked_' + h.field, z3.BoolSort()); set_linked(st, h.field, x, l)
        return [Out('ret', st, l if isinstance(l, z3.ExprRef) else z3.BoolVal(l))]
    def unlink(ex, st, c):
        h, x = hk_at(ex, c.args[0]); l = linked(st, h.field, x)
        ex.prove(st, 'only a linked element is unlinked (%s)' % h.field, z3.BoolVal(l is not False) if not isinstance(l, z3.ExprRef) else l)
        set_linked(st, h.field, x, False); ev(ex, st, ('unlink', None, x, h.field))
        return [Out('ret', st, None)]
    C(r'boost::intrusive::(generic_hook|list_member_hook|slist_member_hook|set_member_hook)<.*>::is_linked\(\) const', is_linked)
    C(r'boost::intrusive::(generic_hook|list_member_hook|slist_member_hook|set_member_hook)<.*>::unlink\(\)', unlink)
    C(r'boost::intrusive::(generic_hook|list_member_hook|slist_member_hook|set_member_hook)<.*>::(generic_hook|list_member_hook|slist_member_hook|set_member_hook)\(\)',
      lambda ex, st, c: Out('ret', st, None))
    C(r'boost::intrusive::(generic_hook|list_member_hook|slist_member_hook|set_member_hook)<.*>::~(generic_hook|list_member_hook|slist_member_hook|set_member_hook)\(\)',
      lambda ex, st, c: Out('ret', st, None))
