"""C09: channel iterators.  Ghost per iterator object: does its storage hold a living element.  value_pop through its
contract (proved as C06, C07, C08): a fresh element, or fiber_error once the channel is closed and drained."""
from ..lib import *
from .channels import NS
PROPS = ['C09']
B = z3.BoolVal
def prop(pid):
    return dict(srcs=['tu/iterators.cpp'], units=units,
                trusted=['contract of value_pop (C06, C07, C08): it delivers the next value or throws fiber_error when the channel is closed and drained', 'the element type is the external class Val: its special members may do anything their contract allows, including throw'],
                assumptions=['one instantiation (an opaque element type) stands for every element type', 'the element type does not itself throw boost::fibers::fiber_error'])
FE = '_ZTIN5boost6fibers11fiber_errorE'
UEXC = ('_ZTISt13runtime_error', '_ZTI9Something')
def uexc(ex, st):
    r = []
    for t in UEXC: e = st.fork(); e.g['valthrew'] = B(True); r.append(ex.throw(e, t, tag='user'))
    return r
def units(lay):
    us = []
    for tag, ch in (('b', 'buffered_channel'), ('u', 'unbuffered_channel')):
        CH = NS + ch + '<Val>'; ITL = NS + ch + '<struct Val>::iterator' if NS + ch + '<struct Val>::iterator' in lay.rec else CH + '::iterator'; IT = CH + '::iterator'
        S, CO, SZ = lay.off(ITL, 'storage_'), lay.off(ITL, 'chan_'), lay.rec[ITL]['size']
        mk(us, tag, ch, CH, IT, S, CO, SZ)
    return us
def mk(us, tag, ch, CH, IT, S, CO, SZ):
    def isit(ex, p): return p.base in ex.its or (p.base.kind == 'stack' and isint(p.base.size) and p.base.size == SZ)
    def elem(st, b): return st.g.get(('elem', b), B(False))
    def contracts(ex):
        std_contracts(ex); ex.its = set(); ex.copied = False
        def born(ex, st, p):
            if isit(ex, p):
                ex.prove(st, 'an element is constructed only where none lives, in the storage of the iterator', z3.And(z3.Not(elem(st, p.base)), B(isint(p.off) and p.off == S))); st.g[('elem', p.base)] = B(True); st.g['cur'] = simp(st.g['cur'] + 1)
            else: live_set(ex, st, p, True, 'ctor')
        def lives(ex, st, p): return elem(st, p.base) if isit(ex, p) else B(live_get(st, p) is not False)
        def used(ex, st, p): ex.prove(st, 'only living element objects are used', lives(ex, st, p))
        def dies(ex, st, p):
            if isit(ex, p):
                ex.prove(st, 'an element is destroyed only while it lives', z3.And(elem(st, p.base), B(isint(p.off) and p.off == S))); st.g[('elem', p.base)] = B(False); st.g['cur'] = simp(st.g['cur'] - 1)
            else: live_set(ex, st, p, False, 'dtor')
        def vpop(ex, st, c):
            r, ch = c.args; ex.prove(st, 'values are fetched from the channel iterated over', ex.ptr_eq(ch, ex.C)); outs = []
            ex.prove(st, 'a new element is fetched only after the last one was destroyed', st.g['cur'] == 0)
            e = st.fork(); e.g['ended'] = B(True); outs.append(ex.throw(e, FE)); outs += uexc(ex, st)
            born(ex, st, r); v = freshbv('value'); ex.store(st, r, v, 8); st.g['last'] = v; st.g['fetched'] = simp(st.g['fetched'] + 1)
            return outs + [Out('ret', st, None)]
        ex.contract(re.escape(CH) + r'::value_pop\(\)', vpop)
        def ctor(move):
            def f(ex, st, c):
                d, s = c.args; used(ex, st, s); out = uexc(ex, st); v = ex.load1(st, s, ('i', 64)); born(ex, st, d); ex.store(st, d, v, 8)
                if move: ex.store(st, s, freshbv('movedfrom'), 8)
                return out + [Out('ret', st, None)]
            return f
        def asg(move):
            def f(ex, st, c):
                d, s = c.args; used(ex, st, s); used(ex, st, d); out = uexc(ex, st); v = ex.load1(st, s, ('i', 64)); ex.store(st, d, v, 8)
                if move: ex.store(st, s, freshbv('movedfrom'), 8)
                return out + [Out('ret', st, d)]
            return f
        C = ex.contract
        C(r'Val::Val\(Val const&\)', ctor(False)); C(r'Val::Val\(Val&&\)', ctor(True)); C(r'Val::operator=\(Val const&\)', asg(False)); C(r'Val::operator=\(Val&&\)', asg(True))
        C(r'Val::~Val\(\)', lambda ex, st, c: (dies(ex, st, c.args[0]), [Out('ret', st, None)])[1])
        def use(ex, st, c):
            p = c.args[0]; ok = z3.And(lives(ex, st, p), B(isit(ex, p) and isint(p.off) and p.off == S), ex.load1(st, p, ('i', 64)) == st.g['last'])
            if ex.copied: ex.prove(st, 'the element seen through a copied iterator is the current one', ok)
            else: ex.prove(st, 'the body of the loop sees the value fetched last, once', z3.And(ok, st.g['seen'] == st.g['fetched'] - 1))
            st.g['seen'] = simp(st.g['seen'] + 1); e = st.fork(); e.g['userthrew'] = True; return [Out('ret', st, None), ex.throw(e, None, tag='user')]
        C(r'tu_use\(Val&\)', use)
        def cands(ex, fn, st0, phi0, H):
            its = [k[1] for k in st0.g if isinstance(k, tuple) and k[0] == 'elem']; l = []
            chan = lambda s, b: ex.load1(s, Ptr(b, CO), PTR).bv()
            for b in its:
                l += [('chan or null', lambda s, ph, b=b: z3.Or(chan(s, b) == 0, chan(s, b) == ex.C.bv())), ('element iff not at the end', lambda s, ph, b=b: elem(s, b) == (chan(s, b) != 0)), ('one element', lambda s, ph, b=b: s.g['cur'] == z3.If(elem(s, b), bv(1), bv(0))), ('fetched is seen', lambda s, ph, b=b: s.g['seen'] + z3.If(elem(s, b), bv(1), bv(0)) == s.g['fetched']), ('last value', lambda s, ph, b=b: z3.Implies(elem(s, b), ex.load1(s, Ptr(b, S), ('i', 64)) == s.g['last'])), ('at the end', lambda s, ph, b=b: s.g['ended'] == z3.Not(elem(s, b)))]
            return l
        ex.auto_cands = getattr(ex, 'auto_cands', []) + [cands]
    def base(ex, st): ex.C = ex.symobj('channel', CH, True); st.g.update(cur=bv(0), fetched=bv(0), seen=bv(0), last=freshbv('last'), ended=B(False), valthrew=B(False))
    def iterator(ex, st, name, hold):
        it = ex.symobj(name, IT, True); ex.its.add(it.base); st.g[('elem', it.base)] = B(hold)
        ex.store(st, it.add(CO), ex.C if hold else NULL, 8)
        if hold: st.g['cur'] = simp(st.g['cur'] + 1); st.g['fetched'] = simp(st.g['fetched'] + 1); ex.store(st, it.add(S), st.g['last'], 8)
        return it
    def inv(ex, st, it, fn):
        c = ex.load1(st, it.add(CO), PTR).bv(); e = elem(st, it.base); P = lambda n, g: ex.prove(st, n, g, fn)
        P('an iterator holds a living element exactly if it is not at the end', e == (c != 0)); P('an iterator that is not at the end refers to its channel', z3.Or(c == 0, c == ex.C.bv()))
        P('an iterator is at the end exactly if the channel was closed and drained', st.g['ended'] == (c == 0)); P('no element is lost', st.g['cur'] == z3.If(e, bv(1), bv(0)))
        P('the element is the value fetched last', z3.Implies(e, ex.load1(st, it.add(S), ('i', 64)) == st.g['last']))
        for nm, k in (('more', e), ('end', z3.Not(e))):
            if ex.check(st, k) == z3.sat: ex.cover(nm, st)
    U = lambda n, fn, setup, post, cov, fnre=None: us.append(Unit('%s %s' % (ch, n), fn, setup, post, cov, contracts, **({'fnre': fnre} if fnre else {})))
    def only_user(ex, o, fn): ex.prove(o.st, 'only an exception of the element type ends an iteration early', o.st.g['valthrew'], fn)
    # begin
    fnb = '%s boost::fibers::begin<Val>(%s&)' % (IT, CH)
    def s(ex, st): base(ex, st); r = ex.newregion('sym', 'result', cls=IT); r.x = 'raw'; ex.its.add(r); ex.it = Ptr(r, 0); st.g[('elem', r)] = B(False); return [ex.it, ex.C]
    def p(ex, o, fn=fnb):
        if o.kind != 'ret': only_user(ex, o, fn); return
        inv(ex, o.st, ex.it, fn); ex.prove(o.st, 'begin fetches at most one value', z3.ULE(o.st.g['fetched'], 1), fn)
    U('begin', fnb, s, p, ('more', 'end'))
    fne = '%s boost::fibers::end<Val>(%s&)' % (IT, CH)
    def pe(ex, o, fn=fne): ex.prove(o.st, 'the end iterator holds no element and fetches none', z3.And(B(o.kind == 'ret'), ex.load1(o.st, ex.it.add(CO), PTR).bv() == 0, z3.Not(elem(o.st, ex.it.base)), o.st.g['fetched'] == 0), fn); ex.cover('end', o.st)
    U('end', fne, s, pe, ('end',))
    fni = IT + '::operator++()'
    def si(ex, st): base(ex, st); ex.it = iterator(ex, st, 'it', True); return [ex.it]
    def pi(ex, o, fn=fni):
        if o.kind != 'ret': only_user(ex, o, fn); ex.prove(o.st, 'after an exception the iterator holds an element exactly if it is not at the end', z3.And(elem(o.st, ex.it.base) == (ex.load1(o.st, ex.it.add(CO), PTR).bv() != 0), o.st.g['cur'] == z3.If(elem(o.st, ex.it.base), bv(1), bv(0))), fn); ex.prove(o.st, 'increment does not terminate the program', B(o.kind == 'exc'), fn); return
        inv(ex, o.st, ex.it, fn); ex.prove(o.st, 'increment fetches exactly one value, or none at the end', o.st.g['fetched'] == z3.If(o.st.g['ended'], bv(1), bv(2)), fn); ex.prove(o.st, 'increment returns the iterator', ex.ptr_eq(o.val, ex.it), fn)
    U('operator++', fni, si, pi, ('more', 'end'))
    for op in ('operator*', 'operator->'):
        fn = '%s::%s()' % (IT, op)
        def pd(ex, o, fn=fn):
            ex.prove(o.st, 'dereferencing gives the element itself', B(o.kind == 'ret') if o.kind != 'ret' else ex.ptr_eq(o.val, ex.it.add(S)), fn); inv(ex, o.st, ex.it, fn); ex.prove(o.st, 'dereferencing fetches nothing', o.st.g['fetched'] == 1, fn); ex.cover('returns', o.st)
        U(op, fn, si, pd, ('more', 'returns'))
    for op, k, f in (('==', True, 'eq'), ('!=', False, 'ne')):
        for a in (True, False):
            for b in (True, False):
                fn = 'tu_%s_%s(%s&, %s&)' % (f, tag, IT, IT)
                def sc(ex, st, a=a, b=b): base(ex, st); return [iterator(ex, st, 'i', a), iterator(ex, st, 'j', b)]
                def pc(ex, o, a=a, b=b, k=k, fn=fn):
                    v = o.val if o.kind == 'ret' else None; v = (v != 0 if z3.is_bv(v) else v)
                    ex.prove(o.st, 'iterators compare equal exactly if both or neither are at the end', v == B((a == b) == k) if v is not None else False, fn); ex.cover('returns', o.st)
                U('%s(%s,%s)' % (op, 'it' if a else 'end', 'it' if b else 'end'), fn, sc, pc, ('returns',))
    fnl = 'tu_iterate_%s(%s&)' % (tag, CH)
    def sl(ex, st): base(ex, st); return [ex.C]
    def pl(ex, o, fn=fnl):
        st = o.st
        if o.kind != 'ret': ex.prove(st, 'only an exception of the element type or of the loop body ends an iteration early', z3.Or(st.g['valthrew'], B(bool(st.g.get('userthrew')))), fn); return
        ex.prove(st, 'iteration ends only when the channel is closed and drained', st.g['ended'], fn); ex.prove(st, 'every value fetched was seen, once', st.g['seen'] == st.g['fetched'], fn); ex.prove(st, 'every element was destroyed, once', st.g['cur'] == 0, fn); no_live_locals(ex, st, fn); ex.cover('ends', st)
        if ex.check(st, st.g['fetched'] == 3) == z3.sat: ex.cover('three', st)
    U('range-based for', fnl, sl, pl, ('ends', 'three'))
    fns = 'tu_stop_%s(%s&)' % (tag, CH)
    def ps(ex, o, fn=fns):
        st = o.st
        if o.kind != 'ret': return
        ex.prove(st, 'an element is destroyed also if the iteration stops early', st.g['cur'] == 0, fn); ex.cover('stops', st)
    U('abandoned iteration', fns, sl, ps, ('stops',))
    def own(ex, st, it, hold, val, what, fn):     # the iterator holds an element (with this value) exactly if it is not at the end
        c = ex.load1(st, it.add(CO), PTR).bv(); e = elem(st, it.base); P = lambda n, g: ex.prove(st, n, g, fn)
        P('%s holds a living element exactly if it is not at the end' % what, e == (c != 0))
        if hold is not None: P('%s is at the position expected' % what, z3.And(e == B(hold), c == (ex.C.bv() if hold else 0), ex.load1(st, it.add(S), ('i', 64)) == val if hold and val is not None else True))
    for nm in ('copy', 'move', 'assign', 'move-assign', 'destroy'):
        for a in (True, False):
            for b in ((True, False) if 'assign' in nm else (None,)):
                fn = 'tu_%s_%s(%s)' % (nm.replace('-', ''), tag, ', '.join(['%s&' % IT] * (1 if b is None else 2)))
                def sc(ex, st, nm=nm, a=a, b=b):
                    base(ex, st); ex.i = iterator(ex, st, 'i', a); ex.j = None; st.g['v0'] = st.g['last']
                    if b is not None: v = st.g['last']; st.g['last'] = freshbv('other'); ex.j = iterator(ex, st, 'j', b); st.g['last'] = v
                    ex.copied = True; return [ex.i] + ([ex.j] if ex.j else [])
                def pc(ex, o, nm=nm, a=a, b=b, fn=fn):
                    st = o.st; P = lambda n, g: ex.prove(st, n, g, fn)
                    if o.kind != 'ret': P('only an exception of the element type passes through', z3.Or(st.g['valthrew'], B(bool(st.g.get('userthrew'))))); P('copying iterators does not terminate the program', B(o.kind == 'exc'))
                    else:
                        ex.cover('returns', st); P('copying fetches nothing', st.g['seen'] == (1 if a and nm not in ('destroy',) else 0))
                    if nm == 'destroy': P('destroying an iterator destroys its element', z3.And(st.g['cur'] == 0, z3.Not(elem(st, ex.i.base)))); return
                    own(ex, st, ex.i, a if 'move' not in nm else None, st.g['v0'] if 'move' not in nm else None, 'the iterator copied from', fn)
                    if ex.j: own(ex, st, ex.j, a if o.kind == 'ret' else None, None, 'the iterator assigned to', fn)
                    P('every element that is not held by an iterator is destroyed', st.g['cur'] == z3.If(elem(st, ex.i.base), bv(1), bv(0)) + (z3.If(elem(st, ex.j.base), bv(1), bv(0)) if ex.j else 0))
                U('%s(%s%s)' % (nm, 'it' if a else 'end', '' if b is None else ',it' if b else ',end'), fn, sc, pc, ('returns',))
    fnself = 'tu_self_%s(%s&)' % (tag, IT)
    def ss(ex, st): base(ex, st); ex.copied = True; ex.i = iterator(ex, st, 'i', True); st.g['v0'] = st.g['last']; return [ex.i]
    def psf(ex, o): own(ex, o.st, ex.i, True, o.st.g['v0'], 'the iterator assigned to itself', fnself); ex.prove(o.st, 'no element is lost', o.st.g['cur'] == 1, fnself); ex.cover('returns', o.st)
    U('self assignment', fnself, ss, psf, ('returns',))
