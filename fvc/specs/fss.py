"""C19: fiber-specific storage.  The map of a fiber is an abstract partial map key -> (pointer, cleanup function);
its ordered-tree implementation (libstdc++) is assumed."""
from ..lib import *
from ..core import _ctr
from ..containers import *
from .life import offs, T_CTX, u_terminate, CTX, NS
PROPS = ['C19']
FN = NS + 'detail::fss_cleanup_function'; FP = NS + 'fiber_specific_ptr<Obj>'
VP, CF, HDR = 0, 8, 32      # layout of the mapped value inside a tree node (header 32 bytes, key 8 bytes)
MAP = r'(?:.* )?std::map<unsigned long, boost::fibers::context::fss_data, .*>::'
def prop(pid):
    return dict(srcs=['tu/fss.cpp', 'context.cpp', 'scheduler.cpp', 'tu/life.cpp', 'fiber.cpp'], units=units, trusted=T_CTX[:4] + ['std::map<uintptr_t, fss_data> (find/end/begin/empty/erase/insert/operator[]): a partial map; node addresses are stable', 'std::map destructor destroys the values that are left'],
                assumptions=['a cleanup function called by reset() or by the destructor of a fiber_specific_ptr does not itself use that same fiber_specific_ptr', 'a cleanup function does not let an exception escape from the end of a fiber',
                             'at the destruction of a fiber_specific_ptr no other fiber still has a value in it (documented precondition)'])
def refc(st, b): return st.g.get(('fref', b), 0)
def fn_refs(ex):
    def add(ex, st, c):
        ex.prove(st, 'a reference is taken only to a living cleanup function', z3.BoolVal(c.args[0].base.kind != 'null' and not st.g.get(('fgone', c.args[0].base))))
        st.g[('fref', c.args[0].base)] = refc(st, c.args[0].base) + 1; return [Out('ret', st, None)]
    def rel(ex, st, c): unref(ex, st, c.args[0]); return [Out('ret', st, None)]
    ex.contract(r'boost::fibers::detail::intrusive_ptr_add_ref\(.*fss_cleanup_function\*\)', add); ex.contract(r'boost::fibers::detail::intrusive_ptr_release\(.*fss_cleanup_function\*\)', rel)
def unref(ex, st, p):
    ex.prove(st, 'only a reference that is held is released', z3.BoolVal(refc(st, p.base) >= 1)); st.g[('fref', p.base)] = refc(st, p.base) - 1
    if refc(st, p.base) <= 0: st.g[('fgone', p.base)] = True
def call_contract(ex):
    def call(ex, st, c):
        P = lambda n, g: ex.prove(st, n, g); f, d = c.args[0], c.args[1]
        no_spinlock(ex, st, 'a cleanup function runs')
        P('a cleanup function is kept alive while it runs', z3.BoolVal(refc(st, f.base) >= 1)); P('cleanup functions get non-null pointers only', d.bv() != 0)
        log(st, ('cleanup', f, d))
        if ex.on_cleanup: ex.on_cleanup(ex, st, f, d)
        return [Out('ret', st, None)]
    ex.on_cleanup = None
    ex.contract(r'virtual .*fss_cleanup_function::operator\(\)\(.*', call)
def map_contracts(ex, O):
    """the map of fiber ex.C; the slot of key ex.key is node ex.N"""
    def m(ex, st, c): ex.prove(st, 'only the data of this fiber is touched', ex.ptr_eq(c.args[0], ex.C.add(O.fss_data_)))
    def key(ex, st, p, what): ex.prove(st, 'only the slot of this fiber_specific_ptr is %s' % what, ex.load1(st, p, ('i', 64)) == ex.key)
    def end(ex): return ex.C.add(O.fss_data_ + 8)
    ex.map_end = end
    def find(ex, st, c): m(ex, st, c); key(ex, st, c.args[1], 'looked up'); return [Out('ret', st, ex.N if st.g['present'] else end(ex))]
    def fend(ex, st, c): m(ex, st, c); return [Out('ret', st, end(ex))]
    def count(ex, st, c): m(ex, st, c); key(ex, st, c.args[1], 'looked up'); return [Out('ret', st, bv(1 if st.g['present'] else 0))]
    def drop(ex, st):
        st.g['present'] = False; st.g['dead'] = True; unref(ex, st, ex.load1(st, ex.N.add(HDR + 8 + CF), PTR))
    def erase(ex, st, c):
        m(ex, st, c)
        if 'unsigned long const&' in c.dem.rsplit('erase', 1)[1]:
            key(ex, st, c.args[1], 'erased'); was = st.g['present']
            if was: drop(ex, st)
            return [Out('ret', st, bv(1 if was else 0))]
        ex.prove(st, 'only the slot of this fiber_specific_ptr, which exists, is erased', z3.And(z3.BoolVal(st.g['present']), ex.ptr_eq(c.args[1], ex.N)))
        if st.g['present']: drop(ex, st)
        return [Out('ret', st, ex.sym(freshbv('nextnode')))]
    def insert(ex, st, c):
        m(ex, st, c); p = c.args[1]; key(ex, st, p, 'inserted')
        if st.g['present']: return [Out('ret', st, [ex.N, z3.BoolVal(False)])]
        vp = ex.load1(st, p.add(8 + VP), PTR); f = ex.load1(st, p.add(8 + CF), PTR); st.g['present'] = True; st.g['dead'] = False
        ex.store(st, ex.N.add(HDR), ex.key, 8); ex.store(st, ex.N.add(HDR + 8 + VP), vp, 8); ex.store(st, ex.N.add(HDR + 8 + CF), f, 8)
        if 'const&' not in re.split(r'::(?:insert|emplace)', c.dem, 1)[-1].rsplit('(', 1)[1]: ex.store(st, p.add(8 + CF), NULL, 8)
        else: st.g[('fref', f.base)] = refc(st, f.base) + 1
        return [Out('ret', st, [ex.N, z3.BoolVal(True)])]
    def index(ex, st, c):
        m(ex, st, c); key(ex, st, c.args[1], 'looked up')
        if not st.g['present']: st.g['present'] = True; st.g['dead'] = False; ex.store(st, ex.N.add(HDR), ex.key, 8); ex.store(st, ex.N.add(HDR + 8 + VP), NULL, 8); ex.store(st, ex.N.add(HDR + 8 + CF), NULL, 8)
        return [Out('ret', st, ex.N.add(HDR + 8))]
    def emplace(ex, st, c):
        # (key, fss_data): constructed in place; insert_or_assign replaces the value of a key that exists
        m(ex, st, c); n = re.search(r'::(emplace|try_emplace|insert_or_assign|emplace_hint)\b', c.dem).group(1)
        if len(c.args) == 2: return insert(ex, st, c)
        if n == 'emplace_hint': c.args = [c.args[0]] + c.args[2:]
        key(ex, st, c.args[1], 'inserted'); p = c.args[2]; had = st.g['present']
        mv = 'const&' not in c.dem.split(n, 1)[1].rsplit('(', 1)[1].rsplit(',', 1)[1]
        if had and n == 'insert_or_assign': unref(ex, st, ex.load1(st, ex.N.add(HDR + 8 + CF), PTR))
        if not had or n == 'insert_or_assign':
            vp = ex.load1(st, p.add(VP), PTR); f = ex.load1(st, p.add(CF), PTR); st.g['present'] = True; st.g['dead'] = False
            ex.store(st, ex.N.add(HDR), ex.key, 8); ex.store(st, ex.N.add(HDR + 8 + VP), vp, 8); ex.store(st, ex.N.add(HDR + 8 + CF), f, 8)
            if mv: ex.store(st, p.add(CF), NULL, 8)
            else: st.g[('fref', f.base)] = refc(st, f.base) + 1
        return [Out('ret', st, ex.N if n == 'emplace_hint' else [ex.N, z3.BoolVal(not had)])]
    C = lambda rx, h: ex.contract(MAP + rx, h)
    C(r'(emplace|try_emplace|insert_or_assign|emplace_hint)<.*', emplace)
    C(r'find\(.*', find); C(r'c?end\(\).*', fend); C(r'count\(.*', count); C(r'erase(\[abi:\w+\])?\(.*', erase); C(r'insert(<.*>)?\(.*', insert); C(r'operator\[\]\(.*', index)
    def dead(ex, st, p, ty, mod, val=None):
        if p.base is ex.N.base and st.g.get('dead'): ex.prove(st, 'a slot is not used after it was erased', False)
        return None
    ex.hooks_load.append(dead); ex.hooks_store.append(dead)

def u_map(lay, O, us):
    def contracts(ex): setup_me(ex); stdlib(ex); fn_refs(ex); map_contracts(ex, O); call_contract(ex)
    def base(ex, st, present):
        ex.C = ex.symobj('C', CTX, True); ex.N = ex.symobj('node', 'node', True); ex.ptrobj = ex.symobj('ptr', FP, True); ex.key = ex.ptrobj.bv(); st.g['present'] = present; st.g['dead'] = not present
        ex.F0 = ex.symobj('oldfn', FN, True); ex.V0 = ex.sym(freshbv('old')); ex.F1 = ex.symobj('newfn', FN, True); ex.V1 = ex.sym(freshbv('new'))
        if present:
            st.mem = Ev('w', ex.N.base, HDR + 8 + VP, 8, ex.V0, st.mem); st.mem = Ev('w', ex.N.base, HDR + 8 + CF, 8, ex.F0, st.mem); st.mem = Ev('w', ex.N.base, HDR, 8, ex.key, st.mem); st.assume(ex.V0.bv() != 0); st.g[('fref', ex.F0.base)] = 1
    for present in (True, False):
        nm = 'value set' if present else 'no value'
        fn = CTX + '::get_fss_data(void const*) const'
        def setup(ex, st, present=present): base(ex, st, present); return [ex.C, ex.ptrobj]
        def post(ex, o, present=present, fn=fn):
            st = o.st; P = lambda n, c: ex.prove(st, n, c, fn)
            P('the value of this fiber is returned, null if there is none', z3.And(z3.BoolVal(o.kind == 'ret'), ex.ptr_eq(o.val, ex.V0 if present else NULL)) if o.kind == 'ret' else False)
            P('looking up a value changes nothing', z3.And(z3.BoolVal(st.g['present'] == present and refc(st, ex.F0.base) == (1 if present else 0) and not st.g.get('_log')), ex.ptr_eq(ex.load1(st, ex.N.add(HDR + 8 + VP), PTR), ex.V0) if present else z3.BoolVal(True)))
        us.append(Unit('context::get_fss_data (%s)' % nm, fn, setup, post, (), contracts))
        fn2 = CTX + '::set_fss_data(void const*, boost::intrusive_ptr<%s> const&, void*, bool)' % FN
        for same in ((False, True) if present else (False,)):
            def setup2(ex, st, present=present, same=same):
                base(ex, st, present)
                if same: ex.F1 = ex.F0
                ex.cfp = ex.symobj('cleanup_fn', 'intrusive_ptr', True); ex.store(st, ex.cfp, ex.F1, 8); st.g[('fref', ex.F1.base)] = refc(st, ex.F1.base) + 1; ex.ce = freshbv('cleanup', 1); ex.r0 = refc(st, ex.F1.base)
                ex.orig = dict(st.g); return [ex.C, ex.ptrobj, ex.cfp, ex.V1, simp(ex.ce == 1)]
            def post2(ex, o, present=present, same=same, fn2=fn2):
                st = o.st; P = lambda n, c: ex.prove(st, n, c, fn2); l = [e for e in st.g.get('_log', ()) if e[0] == 'cleanup']
                P('the call returns normally', z3.BoolVal(o.kind == 'ret')); ce = ex.ce == 1; isnull = ex.V1.bv() == 0
                P('the cleanup function is called exactly once for the replaced value if asked for, else not', z3.BoolVal(len(l) == 1 and present) == z3.And(ce, z3.BoolVal(present)) if len(l) <= 1 else False)
                for e in l: P('the old value is cleaned up by its own cleanup function', z3.And(ex.ptr_eq(e[1], ex.F0), ex.ptr_eq(e[2], ex.V0)))
                P('the slot exists afterwards exactly for a non-null value', z3.BoolVal(bool(st.g['present'])) == z3.Not(isnull))
                if st.g['present']:
                    P('the slot holds the new value and its cleanup function', z3.And(ex.ptr_eq(ex.load1(st, ex.N.add(HDR + 8 + VP), PTR), ex.V1), ex.ptr_eq(ex.load1(st, ex.N.add(HDR + 8 + CF), PTR), ex.F1), ex.load1(st, ex.N.add(HDR), ('i', 64)) == ex.key))
                    P('the slot owns one reference to the cleanup function', z3.BoolVal(refc(st, ex.F1.base) == (2 if not same else 2) and (same or refc(st, ex.F0.base) == 0)))
                else: P('an empty slot owns no cleanup function', z3.BoolVal(refc(st, ex.F1.base) == 1 and (same or refc(st, ex.F0.base) == 0)))
                P('the cleanup function of the pointer itself stays alive', ex.ptr_eq(ex.load1(st, ex.cfp, PTR), ex.F1))
                if not ex.feasible(st, z3.Not(isnull)): ex.cover('null', st)
                if not ex.feasible(st, isnull): ex.cover('value', st)
            us.append(Unit('context::set_fss_data (%s%s)' % (nm, ', same function' if same else ''), fn2, setup2, post2, ('null', 'value'), contracts))

def u_cleanup(lay, O, us):
    """the end of a fiber: every entry is cleaned up exactly once, also those that cleanup functions add"""
    fn = CTX + '::cleanup_fss_data_()'
    def contracts(ex):
        setup_me(ex); stdlib(ex); fn_refs(ex); call_contract(ex)
        def m(ex, st, c): ex.prove(st, 'only the data of this fiber is touched', ex.ptr_eq(c.args[0], ex.C.add(O.fss_data_)))
        def isempty(ex, st):
            """-> [(state, empty)]"""
            k = st.g.get('known')
            if k in ('empty', 'some'): return [(st, k == 'empty')]
            a = st.fork(); a.g['known'] = 'empty'; st.g['known'] = 'some'; return [(a, True), (st, False)]
        def empty(ex, st, c): m(ex, st, c); return [Out('ret', s, z3.BoolVal(e)) for s, e in isempty(ex, st)]
        def entry(ex, st):
            if st.g.get('node') is None:
                N = ex.symobj('node', 'node', True); F = ex.symobj('fn', FN, True); V = ex.sym(freshbv('value')); st.assume(V.bv() != 0)
                st.mem = Ev('w', N.base, HDR + 8 + VP, 8, V, st.mem); st.mem = Ev('w', N.base, HDR + 8 + CF, 8, F, st.mem); st.g[('fref', F.base)] = 1; st.g['node'] = ('node', N, F, V); st.g['stage'] = ()
            return st.g['node'][1]
        def begin(ex, st, c):
            m(ex, st, c); return [Out('ret', s, ex.C.add(O.fss_data_ + 8) if e else entry(ex, s)) for s, e in isempty(ex, st)]
        def end(ex, st, c): m(ex, st, c); return [Out('ret', st, ex.C.add(O.fss_data_ + 8))]
        def advance(st):
            n = st.g.get('node')
            if n and set(st.g['stage']) == {'erased', 'cleaned'} and len(st.g['stage']) == 2 and refc(st, n[2].base) == 0:
                for k in (('fref', n[2].base), ('fgone', n[2].base)): st.g.pop(k, None)
                st.g.pop('node'); st.g.pop('stage'); st.g['_log'] = (); st.g['known'] = None
        ex.advance = advance
        def erase(ex, st, c):
            m(ex, st, c); n = st.g.get('node')
            ex.prove(st, 'only an entry that exists is erased', z3.And(z3.BoolVal(n is not None and 'erased' not in st.g.get('stage', ())), ex.ptr_eq(c.args[1], n[1]) if n else z3.BoolVal(False)))
            if n: st.g['stage'] = st.g['stage'] + ('erased',); unref(ex, st, n[2]); st.g['known'] = None; advance(st)
            return [Out('ret', st, ex.sym(freshbv('nextnode')))]
        C = lambda rx, h: ex.contract(MAP + rx, h)
        C(r'empty\(\) const', empty); C(r'c?begin\(\).*', begin); C(r'c?end\(\).*', end); C(r'erase(\[abi:\w+\])?\(std::_Rb_tree_.*', erase)
        def cl(ex, st, f, d):
            n = st.g.get('node'); ex.prove(st, 'an entry is cleaned up by its own cleanup function, with its value, once', z3.And(ex.ptr_eq(f, n[2]), ex.ptr_eq(d, n[3]), z3.BoolVal('cleaned' not in st.g['stage'])) if n else z3.BoolVal(False))
            ex.prove(st, 'an entry is taken out before its cleanup function, which may use fiber-specific data or suspend, runs', z3.BoolVal(n is not None and 'erased' in st.g['stage']))
            if n: st.g['stage'] = st.g['stage'] + ('cleaned',)
            st.g['known'] = None   # the cleanup function may have added entries
        ex.on_cleanup = cl
        def rel(ex, st, c): unref(ex, st, c.args[0]); advance(st); return [Out('ret', st, None)]
        ex.contract(r'boost::fibers::detail::intrusive_ptr_release\(.*fss_cleanup_function\*\)', rel, True)
        def gone(ex, st, p, ty, mod, val=None):
            n = st.g.get('node')
            if n and p.base is n[1].base and 'erased' in st.g['stage']: ex.prove(st, 'an entry is not used after it was erased', False)
            return None
        ex.hooks_load.append(gone)
    def setup(ex, st): ex.C = ex.symobj('C', CTX, True); return [ex.C]
    def post(ex, o):
        st = o.st; P = lambda n, c: ex.prove(st, n, c, fn)
        P('the end of a fiber returns normally', z3.BoolVal(o.kind == 'ret')); P('no entry is left over', z3.BoolVal(st.g.get('known') == 'empty' and st.g.get('node') is None)); ex.cover('done', st)
    us.append(Unit('context::cleanup_fss_data_', fn, setup, post, ('done',), contracts))

def u_ptr(lay, O, us):
    off = lay.off(FP, 'cleanup_fn_')
    def contracts(ex):
        setup_me(ex); stdlib(ex); fn_refs(ex)
        def get(ex, st, c): ex.prove(st, 'the slot of this pointer in the running fiber is read', z3.And(ex.ptr_eq(c.args[0], ex.ME), ex.ptr_eq(c.args[1], ex.p))); return [Out('ret', st, st.g['slot'][1])]
        def set_(ex, st, c):
            P = lambda n, g: ex.prove(st, n, g); C, p, fnp, d, ce = c.args
            P('the slot of this pointer in the running fiber is written', z3.And(ex.ptr_eq(C, ex.ME), ex.ptr_eq(p, ex.p))); f = ex.load1(st, fnp, PTR)
            P('the value is stored with the cleanup function of this pointer', z3.And(ex.ptr_eq(f, ex.F), f.bv() != 0)); P('the cleanup function is alive', z3.BoolVal(refc(st, ex.F.base) >= 1))
            log(st, ('set', d, ce, st.g['slot'][1])); st.g['slot'] = ('slot', d); return [Out('ret', st, None)]
        ex.contract(r'boost::fibers::context::get_fss_data\(.*', get); ex.contract(r'boost::fibers::context::set_fss_data\(.*', set_)
    def cleaned(ex, st):
        """condition: the old value was cleaned up (exactly once overall) ; values set"""
        l = [e for e in st.g.get('_log', ()) if e[0] == 'set']
        return l
    for op, fname in (('get', FP + '::get() const'), ('operator->', FP + '::operator->() const'), ('operator*', FP + '::operator*() const'), ('release', FP + '::release()'), ('reset', FP + '::reset(Obj*)'), ('~fiber_specific_ptr', FP + '::~fiber_specific_ptr()')):
        def setup(ex, st, op=op):
            ex.p = ex.symobj('p', FP, True); ex.F = ex.symobj('F', FN, True); ex.store(st, ex.p.add(off), ex.F, 8); st.g[('fref', ex.F.base)] = 1; ex.old = ex.sym(freshbv('old')); ex.new = ex.sym(freshbv('new')); st.g['slot'] = ('slot', ex.old)
            return [ex.p, ex.new] if op == 'reset' else [ex.p]
        def post(ex, o, op=op, fname=fname):
            st = o.st; P = lambda n, c: ex.prove(st, n, c, fname); l = cleaned(ex, st); now = st.g['slot'][1]
            P('the call returns normally', z3.BoolVal(o.kind == 'ret'))
            if o.kind != 'ret': return
            ncl = z3.Sum(*[z3.If(z3.And(e[2] if z3.is_bool(e[2]) else e[2] == 1, e[3].bv() != 0), 1, 0) for e in l]) if l else z3.IntVal(0)
            if op in ('get', 'operator->', 'operator*'): P('the value last set by this fiber is returned', ex.ptr_eq(o.val, ex.old)); P('reading changes nothing', z3.BoolVal(not l))
            elif op == 'release': P('release returns the value', ex.ptr_eq(o.val, ex.old)); P('release gives the value up without cleaning it up', z3.And(now.bv() == 0, ncl == 0))
            elif op == 'reset':
                P('the new value is stored', ex.ptr_eq(now, ex.new)); diff = ex.old.bv() != ex.new.bv()
                P('the replaced value is cleaned up exactly once, an unchanged one not at all', ncl == z3.If(z3.And(diff, ex.old.bv() != 0), 1, 0))
            else:
                P('the value of the running fiber is cleaned up exactly once', z3.And(now.bv() == 0, ncl == z3.If(ex.old.bv() != 0, 1, 0))); P('the pointer releases its cleanup function', z3.BoolVal(refc(st, ex.F.base) == 0))
            if op != '~fiber_specific_ptr': P('the pointer keeps its cleanup function', z3.And(ex.ptr_eq(ex.load1(st, ex.p.add(off), PTR), ex.F), z3.BoolVal(refc(st, ex.F.base) == 1)))
        us.append(Unit('fiber_specific_ptr::' + op, fname, setup, post, (), contracts))
    # construction and the two cleanup functions, run through the object that was made
    for custom in (False, True):
        fname = 'tu_fss_ctor%s(%s*%s)' % ('_fn' if custom else '', FP, ', void (*)(Obj*)' if custom else '')
        def contracts2(ex):
            setup_me(ex); stdlib(ex); fn_refs(ex)
            def dtor(ex, st, c): log(st, ('dtor', c.args[0])); return [Out('ret', st, None)]
            def dele(ex, st, c): log(st, ('delete', c.args[0])); return [Out('ret', st, None)]
            ex.contract(r'Obj::~Obj\(\)', dtor); ex.contract(r'operator delete\(void\*.*', dele, True)
            def user(ex, st, c): log(st, ('fn', c.args[0])); return [Out('ret', st, None)]
            ex.contract(r'indirect:userfn', user)
        def setup(ex, st, custom=custom):
            ex.p = ex.symobj('p', FP, True); ex.store(st, ex.p.add(off), ex.sym(freshbv('raw')), 8); ex.ufn = ex.sym(freshbv('userfn'), 'userfn')
            return [ex.p, ex.ufn] if custom else [ex.p]
        def post(ex, o, custom=custom, fname=fname):
            st = o.st; P = lambda n, c: ex.prove(st, n, c, fname)
            if o.kind == 'exc': P('only a failing allocation makes the constructor fail', z3.BoolVal('bad_alloc' in str(o.val.tinfo))); return
            F = ex.load1(st, ex.p.add(off), PTR); P('a cleanup function was made', z3.BoolVal(F.base.kind == 'heap'))
            if F.base.kind != 'heap': return
            P('the pointer holds the only reference to its cleanup function', ex.load1(st, F.add(lay.off(FN, 'use_count_')), ('i', 64)) + refc(st, F.base) == 1)
            vt = ex.load1(st, F, PTR); call = ex.load1(st, vt.add(16), PTR); V = ex.sym(freshbv('value'), 'Obj'); st.assume(V.bv() != 0); st.g['_log'] = ()
            P('the cleanup function has code', z3.BoolVal(call.base.kind == 'fn'))
            if call.base.kind != 'fn': return
            for o2 in ex.exec_fn(ex.prog.fn[call.base.name], [F, V], st):
                if not ex.feasible(o2.st): continue
                s = o2.st; l = [e for e in s.g.get('_log', ()) if e[0] in ('dtor', 'delete', 'fn')]; Q = lambda n, c: ex.prove(s, n, c, fname); Q('the cleanup function returns normally', z3.BoolVal(o2.kind == 'ret'))
                if custom: Q('the function given by the user is called exactly once, with the value; a null function not at all', z3.Or(z3.And(ex.ufn.bv() == 0, z3.BoolVal(not l)), z3.And(ex.ufn.bv() != 0, ex.ptr_eq(l[0][1], V)) if [e[0] for e in l] == ['fn'] else z3.BoolVal(False)))
                else: Q('the default cleanup deletes the value exactly once', z3.And(ex.ptr_eq(l[0][1], V), ex.ptr_eq(l[1][1], V)) if [e[0] for e in l] == ['dtor', 'delete'] else False)
                ex.cover('called', s)
        us.append(Unit('fiber_specific_ptr (%s cleanup function)' % ('user\'s' if custom else 'default'), fname, setup, post, ('called',), contracts2))
    # reference count of the cleanup function
    uc = lay.off(FN, 'use_count_')
    for kind, fname in (('add', 'tu_fss_add_ref(%s*)' % FN), ('rel', 'tu_fss_release(%s*)' % FN)):
        def h(ex, st, k, p, ty, args, order, mod, kind=kind):
            if not (p.base is ex.F.base and isint(p.off) and p.off == uc): return None
            old = freshbv('count'); ex.prove(st, 'the counter is changed by one atomic operation', z3.BoolVal(k.startswith('rmw:') and 'last' not in st.g))
            if not k.startswith('rmw:'): return [Out('ret', st, old)] if k == 'load' else [Out('ret', st, None)]
            st.assume(z3.And(old != 0, z3.ULT(old, bv(1 << 62)))); new = ex.rmw_new(k[4:], old, args[0], ty); o = str(order[0] if isinstance(order, tuple) else order)
            ex.prove(st, 'the counter changes by exactly one', new == (old + 1 if kind == 'add' else old - 1)); outs = []
            if kind == 'rel': ex.prove(st, 'a reference is given up with release ordering', z3.BoolVal(o in ('release', 'acq_rel', 'seq_cst')))
            for s, last in ex.split2(st, simp(new == 0)): s.g['last'] = last; s.g['acq'] = o in ('acq_rel', 'seq_cst'); outs.append(Out('ret', s, old))
            return outs
        def contracts3(ex):
            stdlib(ex)
            def dele(ex, st, c):
                P = lambda n, g: ex.prove(st, n, g); P('this cleanup function is deleted, once, by whoever released the last reference', z3.And(ex.ptr_eq(c.args[0], ex.F), z3.BoolVal(bool(st.g.get('last')) and not st.g.get('deleted')))); P('what others did with it is visible before it is deleted (acquire)', z3.BoolVal(bool(st.g.get('acq')))); st.g['deleted'] = True; return [Out('ret', st, None)]
            ex.contract(r'virtual .*fss_cleanup_function::~fss_cleanup_function\(\) \[deleting\].*', dele)
            def fence(st, order):
                if any(x in str(order) for x in ('acquire', 'acq_rel', 'seq_cst')): st.g['acq'] = True
            ex.on_fence = fence
        def setup(ex, st, h=h): ex.F = ex.symobj('F', FN, True); ex.hooks_atomic.append(h); return [ex.F]
        def post(ex, o, kind=kind, fname=fname):
            st = o.st; P = lambda n, c: ex.prove(st, n, c, fname); P('the call returns normally', z3.BoolVal(o.kind == 'ret' and 'last' in st.g))
            if kind == 'rel': P('the last release deletes the cleanup function, any other does not', z3.BoolVal(bool(st.g.get('deleted')) == bool(st.g.get('last')))); ex.cover('last' if st.g.get('last') else 'not last', st)
        us.append(Unit('cleanup function: %s reference' % ('add' if kind == 'add' else 'release'), fname, setup, post, ('last', 'not last') if kind == 'rel' else (), contracts3))

def units(lay):
    us = []; O = offs(lay); u_map(lay, O, us); u_cleanup(lay, O, us); u_ptr(lay, O, us); u_terminate(lay, O, us); return us
