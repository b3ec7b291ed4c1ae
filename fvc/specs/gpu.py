"""C29: waitfor_all() for CUDA and HIP streams.  The stream K is arbitrary; std::set and std::vector are abstracted to what they say about K."""
from ..lib import *
PROPS = ['C29']
NS = 'boost::fibers::'
GPU = dict(cuda=('cu_stream_stub', 'cudaError', 'cudaStreamAddCallback'), hip=('ihip_stream_stub', 'hipError', 'hipStreamAddCallback'))
ST, RES = 8, 0      # std::tuple< stream, status >: the status comes first in libstdc++
B_ = z3.BoolVal
def prop(pid):
    return dict(srcs=['tu/gpu.cpp', 'condition_variable.cpp', 'mutex.cpp'], units=units,
                trusted=['contracts of mutex::lock/unlock (proved as C01, C03)', 'contracts of condition_variable::wait/notify (proved as C04)', 'std::set and std::vector (libstdc++): a set iterates each element once, push_back within the reserved capacity does not throw',
                         'the layout of std::tuple in libstdc++', 'the declarations of the GPU run-times in fvc/tu/stubs (no tool kit is installed)'],
                assumptions=['the run-time calls a registered callback exactly once, with the stream and its status, on any thread, as soon as it is registered; a callback that could not be registered is never called',
                             'one iteration over a set at a time'])

def units(lay):
    us = []
    for ns in GPU:
        for many in (False, True): mk(lay, us, ns, many)
        top(lay, us, ns)
    return us

def mk(lay, us, ns, many):
    S, E, ADD = GPU[ns]; CLS = '%s%s::detail::%s' % (NS, ns, 'many_streams_rendezvous' if many else 'single_stream_rendezvous'); nm = CLS.split('::')[-1]
    MO, CO = lay.off(CLS, 'mtx_'), lay.off(CLS, 'cv_')
    O = SimpleNamespace(**{f: lay.off(CLS, f) for f in (('stx_', 'results_') if many else ('st_', 'status_', 'done_'))})
    lo = min(vars(O).values())
    def eqK(ex, p): return ex.ptr_eq(p, ex.K)
    def shared(ex, st, what):
        ex.prove(st, 'the rendezvous is used only under its mutex from the first callback on', z3.Or(B_(st.g['lk']), z3.Not(st.g['pub'])))
        ex.prove(st, 'the rendezvous is not touched after its mutex was released: the waiter may have destroyed it', B_(not st.g['gone']))
    def touch(ex, st, p, ty, mod, val=None):
        if p.base is not ex.this.base: return None
        if isinstance(p.off, int) and p.off < lo: return None
        shared(ex, st, 'field'); return None
    # -------------------------------------------------- the mutex: what callbacks do meanwhile
    def interfere(ex, st):
        g = st.g
        if many:
            f = z3.And(g['regK'], g['pendK'], fresh('completes', z3.BoolSort()))
            g['S'] = z3.And(g['S'], z3.Not(f)); g['c'] = z3.If(f, g['c'] + 1, g['c']); g['v'] = z3.If(f, ex.rep, g['v']); g['pendK'] = z3.And(g['pendK'], z3.Not(f)); g['emp'] = None; g['vers'] = freshbv('version')
        else:
            d0 = ex.load1(st, ex.this.add(O.done_), ('i', 8)); f = z3.And(g['reg'], g['pend'], fresh('completes', z3.BoolSort())); g['pend'] = z3.And(g['pend'], z3.Not(f))
            s0 = ex.load1(st, ex.this.add(O.st_), ('i', 64)); v0 = ex.load1(st, ex.this.add(O.status_), ('i', 32))
            for off, v, n in ((O.done_, z3.If(f, bv(1, 8), d0), 1), (O.st_, z3.If(f, ex.K.bv(), s0), 8), (O.status_, z3.If(f, ex.rep, v0), 4)): ex.store(st, ex.this.add(off), simp(v), n)
    def lock(ex, st, c):
        ex.prove(st, 'the mutex of the rendezvous is used', ex.ptr_eq(c.args[0], ex.this.add(MO))); ex.prove(st, 'the mutex is not locked twice', B_(not st.g['lk']))
        ex.prove(st, 'the rendezvous is not touched after its mutex was released: the waiter may have destroyed it', B_(not st.g['gone']))
        st.g['lk'] = True; interfere(ex, st); st.g['notified'] = False; return [Out('ret', st, None)]
    def unlock(ex, st, c):
        ex.prove(st, 'the mutex of the rendezvous is used', ex.ptr_eq(c.args[0], ex.this.add(MO))); ex.prove(st, 'the mutex is held when it is released', B_(st.g['lk']))
        st.g['lk'] = False; atrelease(ex, st)
        if ex.kind == 'callback': st.g['gone'] = True
        return [Out('ret', st, None)]
    def inv(ex, g): return z3.And(z3.Implies(z3.Not(ex.G), z3.And(z3.Not(g['S']), g['c'] == 0, z3.Not(g['regK']))), z3.Implies(ex.G, z3.If(g['S'], g['c'] == 0, g['c'] == 1)), z3.Implies(g['c'] == 1, g['v'] == ex.rep), z3.Implies(g['S'], z3.Or(z3.Not(g['regK']), g['pendK'])), z3.Implies(g['pendK'], g['S']))
    def atrelease(ex, st):
        g = st.g; P = lambda n, x: ex.prove(st, n, x)
        if many: P('each given stream is either still awaited or reported exactly once, with its own status, when the mutex is released', inv(ex, g) if ex.kind != 'callback' else z3.And(inv(ex, dict(g, pendK=z3.And(g['pendK'], z3.Not(eqK(ex, ex.x)))))))
        if ex.kind != 'callback': return
        if many:
            P('a callback reports its own stream', z3.Implies(eqK(ex, ex.x), z3.And(z3.Not(g['S']), g['c'] == 1, g['v'] == ex.status))); P('a callback leaves the other streams alone', z3.Implies(z3.Not(eqK(ex, ex.x)), z3.And(g['S'] == ex.s1, g['c'] == ex.c1)))
            e = g['emp']; P('the last callback wakes the waiter before it releases the mutex', z3.Or(B_(g['notified']), z3.Not(e) if e is not None else B_(False)))
        else:
            P('a callback reports completion, its stream and its status', z3.And(ex.load1(st, ex.this.add(O.done_), ('i', 8)) == 1, ex.load1(st, ex.this.add(O.st_), ('i', 64)) == ex.x.bv(), ex.load1(st, ex.this.add(O.status_), ('i', 32)) == ex.status))
            P('a callback wakes the waiter before it releases the mutex', B_(g['notified']))
    def notify(ex, st, c):
        ex.prove(st, 'the condition variable of the rendezvous is used', ex.ptr_eq(c.args[0], ex.this.add(CO))); ex.prove(st, 'the waiter is woken under the mutex: else it may have destroyed the rendezvous', B_(st.g['lk'] and not st.g['gone']))
        st.g['notified'] = True; return [Out('ret', st, None)]
    def wait(ex, st, c):
        mp, owns = lk_lock_ptr(ex, st, c.args[1]); g = st.g
        ex.prove(st, 'the waiter holds the mutex of the rendezvous when it waits', z3.And(ex.ptr_eq(c.args[0], ex.this.add(CO)), ex.ptr_eq(mp, ex.this.add(MO)), owns != 0, B_(g['lk'])))
        if many: ex.prove(st, 'the waiter waits only while a stream is awaited', z3.Not(g['emp']) if g['emp'] is not None else B_(False))
        else: ex.prove(st, 'the waiter waits only while its stream is not complete', ex.load1(st, ex.this.add(O.done_), ('i', 8)) == 0)
        interfere(ex, st); g['waited'] = B_(True); return [Out('ret', st, None)]
    # -------------------------------------------------- the run-time
    def add(ex, st, c):
        s, cb, data, flags = c.args; g = st.g; P = lambda n, x: ex.prove(st, n, x)
        if cb.base.kind != 'fn': raise ToolError('callback that is not a function')
        f = ex.prog.fn.get(cb.base.name); dem = f.dem if f else cb.base.name
        if 'trampoline<' not in dem: raise ToolError('unknown callback %s' % dem)
        P('the callback of this rendezvous is registered', B_('trampoline<%s>' % CLS in dem)); P('the callback gets this rendezvous', ex.ptr_eq(data, ex.this)); P('the flags are 0', flags == 0 if not isinstance(flags, int) else B_(flags == 0))
        P('a callback is registered without holding the mutex', B_(not g['lk']))
        mine = eqK(ex, s)
        if many:
            P('a callback is registered only for a given stream, and once', z3.Implies(mine, z3.And(ex.G, z3.Not(g['regK']), g['S'], g['c'] == 0))); P('the results have room for every stream before the first callback may run', g['room'])
        else:
            P('the callback is registered once, for the given stream', z3.And(mine, z3.Not(g['reg']))); P('the rendezvous is not complete before the callback may run', ex.load1(st, ex.this.add(O.done_), ('i', 8)) == 0)
        err = freshbv('error', 32); st2 = st.fork(); h = st2.g
        if many: h['regK'] = z3.Or(h['regK'], mine); h['pendK'] = z3.Or(h['pendK'], mine)
        else: h['reg'] = B_(True); h['pend'] = B_(True)
        h['pub'] = B_(True); st2.note('callback registered')
        st.assume(z3.And(err != 0, z3.Implies(mine, err == ex.rep))); st.note('registration fails')
        if many: g['failK'] = z3.Or(g['failK'], mine)
        return [Out('ret', st2, bv(0, 32)), Out('ret', st, err)]
    # -------------------------------------------------- std::set
    def skey(ex, p): return 'S' if ex.ptr_same(p, ex.this.add(O.stx_)) else ('S', p.base, p.off)
    def sget(ex, st, p):
        k = skey(ex, p)
        if k == 'S': shared(ex, st, 'set')
        if k not in st.g: raise ToolError('a set that was not constructed here')
        return k
    def s_ctor(ex, st, c):
        P = lambda n, x: ex.prove(st, n, x); k = skey(ex, c.args[0]); src = c.args[1]; outs = []
        e = st.fork(); e.note('the allocation of the set fails'); outs.append(ex.throw(e, '_ZTISt9bad_alloc', tag='alloc'))
        if 'initializer_list' in c.dem.rsplit('::set(', 1)[-1].split(',')[0]:
            if ex.kind != 'ctor': raise ToolError('initializer_list')
            P('the set holds the given streams', z3.And(ex.ptr_eq(src, ex.lp), c.args[2] == ex.ln)); st.g[k] = ex.G
        else:
            sk = sget(ex, st, src); st.g[k] = st.g[sk]
            if '&&' in c.dem.rsplit('::set(', 1)[-1]: st.g[sk] = B_(False)
        if k == 'S': st.g['emp'] = None; st.g['vers'] = freshbv('version')
        return [Out('ret', st, None)] + outs
    def s_size(ex, st, c):
        k = sget(ex, st, c.args[0]); n = freshbv('size'); st.assume(z3.Implies(n == 0, z3.Not(st.g[k])))
        if k == 'S':
            if st.g['emp'] is not None: st.assume((n == 0) == st.g['emp'])
            else: st.g['emp'] = simp(n == 0)
            if ex.kind == 'ctor': st.g['sz'] = n
        return [Out('ret', st, n)]
    def s_empty(ex, st, c):
        k = sget(ex, st, c.args[0]); e = fresh('empty', z3.BoolSort()); st.assume(z3.Implies(e, z3.Not(st.g[k])))
        if k == 'S':
            if st.g['emp'] is not None: st.assume(e == st.g['emp'])
            st.g['emp'] = e
        return [Out('ret', st, e)]
    def s_erase(ex, st, c):
        k = sget(ex, st, c.args[0]); x = ex.load1(st, c.args[1], PTR); me = eqK(ex, x); r = z3.If(me, z3.If(st.g[k], bv(1), bv(0)), freshbv('erased') & 1)
        st.g[k] = z3.And(st.g[k], z3.Not(me))
        if k == 'S': st.g['emp'] = None; st.g['vers'] = freshbv('version')
        return [Out('ret', st, simp(r))]
    def s_count(ex, st, c):
        k = sget(ex, st, c.args[0]); x = ex.load1(st, c.args[1], PTR); return [Out('ret', st, simp(z3.If(eqK(ex, x), z3.If(st.g[k], bv(1), bv(0)), freshbv('count') & 1)))]
    def s_begin(ex, st, c):
        k = sget(ex, st, c.args[0]); g = st.g; g['itset'] = k; g['i'] = bv(0); g['n'] = freshbv('elements'); g['posK'] = freshbv('position'); st.assume(z3.And(z3.ULT(g['n'], bv(1 << 40)), z3.Implies(g[k], z3.ULT(g['posK'], g['n'])))); g['itv'] = g['vers'] if k == 'S' else bv(0); g['inK'] = g[k]
        return [Out('ret', st, ex.symobj('iterator', 'it', True))]
    def s_end(ex, st, c): sget(ex, st, c.args[0]); return [Out('ret', st, ex.symobj('end', 'it', True))]
    def it_ok(ex, st):
        g = st.g
        if 'itset' not in g: raise ToolError('an iterator of an unknown set')
        if g['itset'] == 'S': shared(ex, st, 'iterator'); ex.prove(st, 'a set is not changed while it is iterated', g['itv'] == g['vers'])
    def it_ne(ex, st, c): it_ok(ex, st); return [Out('ret', st, simp(st.g['i'] != st.g['n']) if '!=' in c.dem else simp(st.g['i'] == st.g['n']))]
    def it_inc(ex, st, c): it_ok(ex, st); ex.prove(st, 'the end of a set is not passed', z3.ULT(st.g['i'], st.g['n'])); st.g['i'] = simp(st.g['i'] + 1); return [Out('ret', st, ex.symobj('previous', 'it', True) if c.dem.endswith('(int)') else c.args[0])]
    def it_deref(ex, st, c):
        it_ok(ex, st); g = st.g; at = g['i']
        if ex.load1(st, c.args[0], PTR).base.name.startswith('previous'): at = simp(at - 1)
        ex.prove(st, 'the end of a set is not read', z3.ULT(at, g['n'])); x = ex.sym(freshbv('stream')); st.assume(eqK(ex, x) == z3.And(g['inK'], at == g['posK']))
        n = ex.symobj('node', 'node', True); ex.store(st, n, x, 8); return [Out('ret', st, n)]
    # a vector of streams, filled from a set: its elements in the same order
    def l_ctor(ex, st, c):
        a = c.args[1:3]
        if len(a) < 2 or not all(isinstance(x, Ptr) and x.base.name.startswith(n) for x, n in zip(a, ('iterator', 'end'))) or 'itset' not in st.g: raise ToolError('a vector of streams that is not filled from a set')
        e = st.fork(); e.note('the allocation of the vector fails'); st.g[('S', c.args[0].base, c.args[0].off)] = st.g[st.g['itset']]
        return [Out('ret', st, None), ex.throw(e, '_ZTISt9bad_alloc', tag='alloc')]
    def l_other(ex, st, c): raise ToolError('vector of streams: %s' % c.dem[:80])
    # -------------------------------------------------- std::vector
    def vmine(ex, st, p, what):
        if not ex.ptr_same(p, ex.this.add(O.results_)): raise ToolError('another vector')
        shared(ex, st, 'results')
    def v_ctor(ex, st, c):
        if len(c.args) == 1: vmine(ex, st, c.args[0], 'constructed'); st.g['c'] = bv(0); st.g['room'] = B_(False); return [Out('ret', st, None)]
        vmine(ex, st, c.args[1], 'copied'); e = st.fork(); e.note('copying the results fails')
        st.g['returned'] = (c.args[0], st.g['c'], st.g['v'])
        mv = '&&' in c.dem.rsplit('::vector(', 1)[-1]
        return [Out('ret', st, None)] + ([ex.throw(e, '_ZTISt9bad_alloc', tag='alloc')] if not mv else [])
    def v_reserve(ex, st, c):
        vmine(ex, st, c.args[0], 'reserved'); e = st.fork(); e.note('reserve() fails'); n = c.args[1]
        ok = z3.UGE(n, st.g['sz']) if 'sz' in st.g else (B_(False))
        if ex.kind == 'ctor': ok = z3.Or(ok, z3.UGE(n, ex.ln))
        st.g['room'] = z3.Or(st.g['room'], ok); return [Out('ret', st, None), ex.throw(e, '_ZTISt9bad_alloc', tag='alloc')]
    def v_push(ex, st, c):
        vmine(ex, st, c.args[0], 'extended'); outs = []
        if len(c.args) == 2: x = ex.load1(st, c.args[1].add(ST), PTR); v = ex.load1(st, c.args[1].add(RES), ('i', 32))
        else: x = ex.load1(st, c.args[1], PTR); v = ex.load1(st, c.args[2], ('i', 32))
        if ex.feasible(st, z3.Not(st.g['room'])): e = st.fork(); e.assume(z3.Not(e.g['room'])); e.note('push_back() fails'); outs.append(ex.throw(e, '_ZTISt9bad_alloc', tag='alloc'))
        me = eqK(ex, x); st.g['c'] = simp(z3.If(me, st.g['c'] + 1, st.g['c'])); st.g['v'] = simp(z3.If(me, v, st.g['v']))
        return [Out('ret', st, c.args[0])] + outs
    def contracts(ex):
        setup_me(ex); stdlib(ex); C = ex.contract
        ex.ptr_same = lambda p, q: p.base is q.base and p.off == q.off
        C(r'boost::fibers::mutex::lock\(\)', lock); C(r'boost::fibers::mutex::unlock\(\)', unlock); C(ADD, add)
        C(r'boost::fibers::mutex::~?mutex\(\)', c_void); C(r'boost::fibers::condition_variable(_any)?::~?condition_variable(_any)?\(\)', c_void)
        C(r'boost::fibers::condition_variable(_any)?::notify_(one|all)\(\)', notify)
        C(r'(void )?boost::fibers::condition_variable_any::wait<std::unique_lock<boost::fibers::mutex> ?>\(.*', wait); C(r'boost::fibers::condition_variable::wait\(std::unique_lock<boost::fibers::mutex>&\)', wait)
        if many:
            SET = r'std::set<%s\*, .*>::' % S; VEC = r'(?:void |.*& )?std::vector<std::tuple<%s\*, %s>, .*>::' % (S, E)
            C(SET + r'set\(.*', s_ctor); C(SET + r'~set\(\)', c_void); C(SET + r'size\(\) const', s_size); C(SET + r'empty\(\) const', s_empty); C(SET + r'erase\(%s\* const&\)' % S, s_erase); C(SET + r'(count|contains)\(.*', s_count)
            C(SET + r'c?begin\(\) const', s_begin); C(SET + r'c?end\(\) const', s_end)
            C(r'std::operator[!=]=\(std::_Rb_tree_const_iterator<.*', it_ne); C(r'std::_Rb_tree_const_iterator<.*>::operator(!=|==)\(.*', it_ne); C(r'std::_Rb_tree_const_iterator<.*>::operator\*\(\) const', it_deref); C(r'std::_Rb_tree_const_iterator<.*>::operator\+\+\((int)?\)', it_inc)
            LST = r'(?:void |.*& )?std::vector<%s\*, .*>::' % S; NIT = r'.*__gnu_cxx::__normal_iterator<%s\* ?(const)?\*, .*' % S
            C(LST + r'~vector\(\)', c_void); C(LST + r'vector<.*', l_ctor); C(LST + r'c?begin\(\).*', s_begin); C(LST + r'c?end\(\).*', s_end); C(LST + r'size\(\) const', s_size); C(LST + r'(?!operator=).*', l_other)
            C(r'.*__gnu_cxx::operator[!=]=<%s\*.*' % S, it_ne); C(NIT + r'::operator\*\(\) const', it_deref); C(NIT + r'::operator\+\+\((int)?\)', it_inc)
            C(VEC + r'vector\(.*', v_ctor); C(VEC + r'~vector\(\)', c_void); C(VEC + r'reserve\(.*', v_reserve); C(VEC + r'(push_back\(|emplace_back<).*', v_push)
        ex.hooks_load.append(touch); ex.hooks_store.append(touch)
        def cands(ex, fn, st0, phi0, H):
            if not many: return [('pending', lambda s, ph: s.g['pend'] == (ex.load1(s, ex.this.add(O.done_), ('i', 8)) == 0)), ('done', lambda s, ph: z3.Implies(ex.load1(s, ex.this.add(O.done_), ('i', 8)) != 0, z3.And(ex.load1(s, ex.this.add(O.st_), ('i', 64)) == ex.K.bv(), ex.load1(s, ex.this.add(O.status_), ('i', 32)) == ex.rep))),
                                 ('bool', lambda s, ph: z3.ULE(ex.load1(s, ex.this.add(O.done_), ('i', 8)), 1)), ('reg', lambda s, ph: s.g['reg'] == st0.g['reg']), ('pub', lambda s, ph: s.g['pub'] == st0.g['pub'])]
            l = [('inv', lambda s, ph: z3.And(z3.Implies(z3.Not(ex.G), z3.And(z3.Not(s.g['S']), s.g['c'] == 0, z3.Not(s.g['regK']))), z3.Implies(ex.G, z3.If(s.g['S'], s.g['c'] == 0, s.g['c'] == 1)), z3.Implies(s.g['c'] == 1, s.g['v'] == ex.rep), z3.Implies(s.g['pendK'], s.g['S']))),
                 ('pending', lambda s, ph: z3.Implies(z3.And(s.g['S'], s.g['regK']), s.g['pendK'])), ('room', lambda s, ph: s.g['room'] == st0.g['room']), ('regs', lambda s, ph: s.g['regK'] == st0.g['regK']), ('pubs', lambda s, ph: s.g['pub'] == st0.g['pub']), ('regpub', lambda s, ph: z3.Implies(s.g['regK'], s.g['pub']))]
            if 'itset' in st0.g:
                l += [(k + ' same', lambda s, ph, k=k: s.g[k] == st0.g[k]) for k in ('n', 'posK', 'inK', 'itv', 'vers')]
                l += [('i', lambda s, ph: z3.ULE(s.g['i'], s.g['n'])), ('ahead', lambda s, ph: z3.Implies(z3.And(ex.G, z3.ULE(s.g['i'], s.g['posK'])), z3.And(s.g['S'], s.g['c'] == 0, z3.Not(s.g['regK']), z3.Not(s.g['pendK']), z3.Not(s.g['failK'])))),
                      ('behind', lambda s, ph: z3.Implies(z3.And(ex.G, z3.UGT(s.g['i'], s.g['posK'])), z3.And(s.g['regK'] != s.g['failK'], z3.Implies(s.g['failK'], z3.And(z3.Not(s.g['S']), s.g['c'] == 1)))))]
                if st0.g['itset'] != 'S': l.append(('copy same', lambda s, ph, k=st0.g['itset']: s.g[k] == st0.g[k]))
            return l
        ex.auto_cands = getattr(ex, 'auto_cands', []) + [cands]
    def base(ex, st, kind):
        ex.kind = kind; ex.this = ex.symobj('this', CLS, True); ex.K = ex.sym(freshbv('K')); ex.rep = freshbv('reported', 32); ex.G = fresh('given', z3.BoolSort())
        T, F = B_(True), B_(False)
        st.g.update(lk=False, gone=False, notified=False, pub=B_(kind != 'ctor'), waited=F)
        if many: st.g.update(S=F, c=bv(0), v=freshbv('v', 32), regK=F, pendK=F, failK=F, room=F, emp=None, vers=freshbv('version'))
        else: st.g.update(reg=F, pend=F)
    P_ = lambda ex, o, fn: (lambda n, c: ex.prove(o.st, n, c, fn))
    # -------------------------------------------------- constructor
    if not many:
        fn = '%s::%s(%s*)' % (CLS, nm, S)
        def setup(ex, st):
            base(ex, st, 'ctor'); return [ex.this, ex.K]
        def post(ex, o):
            st = o.st; P = P_(ex, o, fn); P('the call returns normally', B_(o.kind == 'ret'))
            if o.kind != 'ret': return
            P('the mutex is not held afterwards', B_(not st.g['lk'])); g = st.g
            if ex.feasible(st, z3.Not(g['reg'])):
                P('a stream that could not be registered counts as complete, with the error of the registration', z3.Or(g['reg'], z3.And(ex.load1(st, ex.this.add(O.done_), ('i', 8)) == 1, ex.load1(st, ex.this.add(O.st_), ('i', 64)) == ex.K.bv(), ex.load1(st, ex.this.add(O.status_), ('i', 32)) == ex.rep))); ex.cover('failed', st)
            else: ex.cover('registered', st)
        us.append(Unit('%s %s constructor' % (ns, nm), fn, setup, post, ('failed', 'registered'), contracts))
    else:
        fn = '%s::%s(std::initializer_list<%s*>)' % (CLS, nm, S)
        def setup(ex, st):
            base(ex, st, 'ctor'); ex.lp = ex.symobj('list', 'List', True); ex.ln = freshbv('listed'); st.assume(z3.And(z3.ULT(ex.ln, bv(1 << 40)), z3.Implies(ex.ln == 0, z3.Not(ex.G)))); return [ex.this, ex.lp, ex.ln]
        def post(ex, o):
            st = o.st; P = P_(ex, o, fn); g = st.g
            if o.kind == 'exc': P('the constructor fails only while no callback can run', z3.Not(g['pub'])); P('the mutex is not held afterwards', B_(not g['lk'])); return
            P('the call returns normally', B_(o.kind == 'ret'))
            if o.kind != 'ret': return
            P('the mutex is not held afterwards', B_(not g['lk']))
            P('every given stream is registered, or it counts as complete with the error of the registration', z3.Implies(ex.G, z3.Or(z3.And(g['regK'], z3.Not(g['failK'])), z3.And(g['failK'], z3.Not(g['S']), g['c'] == 1, g['v'] == ex.rep))))
            P('the rendezvous awaits or has reported exactly the given streams', inv(ex, g)); P('the results have room for every stream', z3.Or(g['room'], z3.Not(g['pub']))); ex.cover('constructed', st)
        us.append(Unit('%s %s constructor' % (ns, nm), fn, setup, post, ('constructed',), contracts))
    # -------------------------------------------------- callback
    fn2 = 'void %s%s::detail::trampoline<%s>(%s*, %s, void*)' % (NS, ns, CLS, S, E)
    def setup2(ex, st):
        base(ex, st, 'callback'); ex.status = freshbv('status', 32); g = st.g
        if many:
            ex.x = ex.sym(freshbv('completed')); g.update(S=fresh('S', z3.BoolSort()), c=freshbv('c'), regK=fresh('reg', z3.BoolSort()), pendK=fresh('pend', z3.BoolSort()), room=B_(True))
            st.assume(inv(ex, g)); st.assume(z3.Implies(eqK(ex, ex.x), z3.And(ex.G, g['regK'], g['pendK'], ex.status == ex.rep)))
        else: ex.x = ex.K; g['reg'] = B_(True); g['pend'] = B_(True); st.assume(ex.status == ex.rep); ex.store(st, ex.this.add(O.done_), bv(0, 8), 1)
        return [ex.x, ex.status, ex.this]
    def lockcb(ex, st, c):
        o = lock(ex, st, c); g = st.g
        # this callback itself has not reported yet
        if many: st.assume(z3.Implies(eqK(ex, ex.x), z3.And(g['pendK'], g['S'], g['c'] == 0))); ex.s1 = g['S']; ex.c1 = g['c']
        else: st.assume(ex.load1(st, ex.this.add(O.done_), ('i', 8)) == 0)
        return o
    def contracts2(ex): ex.contract(r'boost::fibers::mutex::lock\(\)', lockcb); contracts(ex)
    def post2(ex, o):
        P = P_(ex, o, fn2); P('a callback returns normally', B_(o.kind == 'ret')); P('a callback reports under the mutex and releases it', B_(o.st.g['gone'] and not o.st.g['lk'])); ex.cover('returns', o.st)
    us.append(Unit('%s %s callback' % (ns, nm), fn2, setup2, post2, ('returns',), contracts2))
    # -------------------------------------------------- wait
    fn3 = CLS + '::wait()'
    def setup3(ex, st):
        base(ex, st, 'wait'); g = st.g; ex.ret = ex.symobj('result', 'tuple', True)
        if many:
            g.update(S=fresh('S', z3.BoolSort()), c=freshbv('c'), regK=fresh('reg', z3.BoolSort()), pendK=fresh('pend', z3.BoolSort()), room=B_(True)); st.assume(inv(ex, g)); st.assume(z3.Implies(g['S'], g['regK']))
        else:
            g['reg'] = fresh('reg', z3.BoolSort()); g['pend'] = fresh('pend', z3.BoolSort()); d = ex.load1(st, ex.this.add(O.done_), ('i', 8))
            st.assume(z3.And(z3.ULE(d, 1), z3.Implies(g['pend'], g['reg']), g['pend'] == (d == 0), z3.Implies(d == 1, z3.And(ex.load1(st, ex.this.add(O.st_), ('i', 64)) == ex.K.bv(), ex.load1(st, ex.this.add(O.status_), ('i', 32)) == ex.rep))))
        return [ex.ret, ex.this]
    def post3(ex, o):
        st = o.st; P = P_(ex, o, fn3); g = st.g
        P('the mutex is not held afterwards', B_(not g['lk']))
        if o.kind == 'exc' and many: return
        P('the call returns normally', B_(o.kind == 'ret'))
        if o.kind != 'ret': return
        if many:
            r = g.get('returned'); P('the results are returned', B_(r is not None) if r is None else ex.ptr_eq(r[0], ex.ret))
            if r: P('the result holds every given stream exactly once, with the status the run-time reported, and no other', z3.If(ex.G, z3.And(r[1] == 1, r[2] == ex.rep), r[1] == 0)); P('the fiber waits until every stream is complete', z3.Not(g['S']))
        else:
            P('the fiber waits until the stream is complete', z3.Not(g['pend'])); P('the stream and the status the run-time reported are returned', z3.And(ex.load1(st, ex.ret.add(ST), ('i', 64)) == ex.K.bv(), ex.load1(st, ex.ret.add(RES), ('i', 32)) == ex.rep))
        ex.cover('returns', st)
    us.append(Unit('%s %s wait' % (ns, nm), fn3, setup3, post3, ('returns',), contracts))

def top(lay, us, ns):
    S, E, ADD = GPU[ns]; D = '%s%s::detail::' % (NS, ns)
    def mkt(name, fn, cls, k):
        CLS = D + cls
        def contracts(ex):
            setup_me(ex); stdlib(ex)
            def ctor(ex, st, c):
                P = lambda n, x: ex.prove(st, n, x); l = st.g['seq']; P('one rendezvous is made', B_(l == ())); st.g['obj'] = c.args[0]
                if k == 1: P('the rendezvous is made for the given stream', ex.ptr_eq(c.args[1], ex.s[0])); outs = []
                else:
                    n = simp(c.args[2]); n = n.as_long() if z3.is_bv_value(n) else None; P('the rendezvous is made for every given stream and no other', B_(n is not None and n >= 1)); outs = []
                    if n is not None:
                        el = [ex.load1(st, c.args[1].add(8 * i), PTR) for i in range(n)]
                        P('the rendezvous is made for every given stream and no other', z3.And([z3.Or([ex.ptr_eq(a, b) for b in el]) for a in ex.s] + [z3.Or([ex.ptr_eq(a, b) for a in ex.s]) for b in el]))
                    e = st.fork(); e.g['failed'] = True; outs = [ex.throw(e, '_ZTISt9bad_alloc', tag='alloc')]
                st.g['seq'] = ('made',); return [Out('ret', st, None)] + outs
            def wait(ex, st, c):
                ex.prove(st, 'the fiber waits on the rendezvous of its streams', z3.And(B_(st.g['seq'] == ('made',)), ex.ptr_eq(c.args[1], st.g['obj']) if 'obj' in st.g else B_(False))); st.g['seq'] += ('waited',); ex.store(st, c.args[0].add(ST), ex.s[0].bv(), 8); ex.store(st, c.args[0].add(RES), ex.rep, 4); st.g['dest'] = c.args[0]; o = [Out('ret', st, None)]
                if k > 1: e = st.fork(); e.g['failed'] = True; o.append(ex.throw(e, '_ZTISt9bad_alloc', tag='alloc'))
                return o
            def dtor(ex, st, c): ex.prove(st, 'the rendezvous is destroyed only after the fiber waited on it', B_(st.g['seq'] == ('made', 'waited'))); st.g['seq'] += ('gone',); return [Out('ret', st, None)]
            C = ex.contract; esc = re.escape(CLS); C(esc + r'::%s\(.*' % cls, ctor); C(esc + r'::~%s\(\)' % cls, dtor); C(esc + r'::wait\(\)', wait)
        def setup(ex, st): ex.s = [ex.sym(freshbv('stream%d' % i)) for i in range(k)]; ex.ret = ex.symobj('result', 'tuple', True); ex.rep = freshbv('reported', 32); st.g['seq'] = (); return [ex.ret] + ex.s
        def post(ex, o):
            st = o.st; P = lambda n, c: ex.prove(st, n, c, fn)
            if o.kind == 'exc': P('a failure comes from the rendezvous', B_(bool(st.g.get('failed')))); return
            P('the fiber returns only after it waited for its streams', B_(o.kind == 'ret' and st.g['seq'] == ('made', 'waited', 'gone')))
            if 'dest' in st.g: P('the result of the rendezvous is returned', ex.ptr_eq(st.g['dest'], ex.ret) if k > 1 else z3.And(ex.load1(st, ex.ret.add(ST), ('i', 64)) == ex.s[0].bv(), ex.load1(st, ex.ret.add(RES), ('i', 32)) == ex.rep))
            ex.cover('returns', st)
        us.append(Unit(name, fn, setup, post, ('returns',), contracts))
    mkt('%s::waitfor_all(stream)' % ns, '%s%s::waitfor_all(%s*)' % (NS, ns, S), 'single_stream_rendezvous', 1)
    T = 'std::tuple<%s*, %s>' % (S, E)
    mkt('%s::waitfor_all(streams)' % ns, 'std::vector<%s, std::allocator<%s>> %s%s::waitfor_all<%s*, %s*>(%s*, %s*, %s*)' % ((T, T, NS, ns) + (S,) * 5), 'many_streams_rendezvous', 3)
