"""Instruction execution, calls, exceptions, loops."""
from .core import *
from .core import _ctr

class LoopVar: pass

class Executor(Exec):
    # ------------------------------------------------------------------ functions
    def exec_fn(self, fn, args, st):
        fn.ensure()
        if self.depth > self.maxdepth: raise ToolError('inlining depth exceeded at %s' % fn.dem)
        if sum(1 for f, _ in self.fnstack if f is fn) > 2: raise ToolError('recursion in %s' % fn.dem)
        env = {}
        for (n, ty, at), a in zip(fn.params, args):
            if 'byval' in at and isinstance(a, Ptr):
                r = self.newregion('stack', 'byval_' + n); sz = fn.mod.sizeof(at['byval'])
                st.mem = Ev('cpy', r, 0, sz, None, st.mem, (st.mem, a.base, a.off)); a = Ptr(r, 0)
            env[n] = a
        self.depth += 1; self.fnstack.append((fn, None))
        try:
            outs, _, _ = self.run(fn, [(st, env, fn.order[0], None, 0)], None)
        finally:
            self.depth -= 1; self.fnstack.pop()
        return outs

    def run(self, fn, work, loop):
        """explore; loop = (header, blocks) when running a loop body. -> (outs, backs, exits)"""
        outs = []; backs = []; exits = []
        while work:
            st, env, bn, prev, idx = work.pop()
            blk = fn.blocks[bn]
            if idx == 0:
                # phis are evaluated by goto(); nothing to do here
                pass
            n = len(blk.ins); i = idx
            while i < n:
                ins = blk.ins[i]; i += 1
                self.fnstack[-1] = (fn, ins)
                self.steps += 1
                if self.steps > self.maxsteps: raise ToolError('step limit')
                op = ins.op
                if op in ('br', 'switch'):
                    for s2, tgt in self.branch(fn, st, env, ins):
                        self.goto(fn, s2, env, bn, tgt, loop, work, outs, backs, exits)
                    break
                if op == 'ret':
                    v = self.val(fn, env, ins.a[0], ins.a[1]) if ins.a else None
                    outs.append(Out('ret', st, v)); break
                if op == 'unreachable':
                    if self.feasible(st): self.prove(st, 'unreachable code is not reached', False)
                    break
                if op == 'resume':
                    outs.append(Out('exc', st, st.exc)); break
                try:
                    if op in ('call', 'invoke'):
                        res = self.call(fn, st, env, ins)
                    else:
                        res = self.simple(fn, st, env, ins)
                except NullDeref as e:
                    if self.feasible(st): self.prove(st, 'no null or wild pointer is dereferenced', False)
                    break
                if res is None: continue
                # list of Out
                if op != 'invoke':
                    live = []
                    for o in res:
                        if o.kind == 'ret': live.append(o)
                        else: outs.append(o)
                    if len(live) == 1:
                        st = live[0].st
                        if ins.res is not None: env[ins.res] = live[0].val
                        continue
                    for o in live:
                        e2 = dict(env)
                        if ins.res is not None: e2[ins.res] = o.val
                        work.append((o.st, e2, bn, prev, i))
                    break
                else:
                    for k, o in enumerate(res):
                        if o.kind == 'stop': outs.append(o); continue
                        e2 = dict(env)
                        if o.kind == 'ret':
                            if ins.res is not None: e2[ins.res] = o.val
                            self.goto(fn, o.st, e2, bn, ins.a['normal'], loop, work, outs, backs, exits)
                        else:
                            o.st.exc = o.val
                            self.goto(fn, o.st, e2, bn, ins.a['unwind'], loop, work, outs, backs, exits)
                    break
        return outs, backs, exits

    def goto(self, fn, st, env, frm, to, loop, work, outs, backs, exits):
        blk = fn.blocks[to]
        if loop is not None:
            if to == loop[0]:
                vals = {p.res: self.phival(fn, env, p, frm) for p in blk.phis}
                backs.append((st, env, vals)); return
            if to not in loop[1]:
                exits.append((st, env, frm, to)); return
        env = dict(env)
        vals = [(p.res, self.phival(fn, env, p, frm)) for p in blk.phis]
        if to in fn.loops:
            o, ex = self.run_loop(fn, to, st, env, dict(vals))
            outs.extend(o)
            for (s2, e2, f2, t2) in ex:
                self.goto(fn, s2, e2, f2, t2, loop, work, outs, backs, exits)
            return
        for r, v in vals: env[r] = v
        work.append((st, env, to, frm, 0))

    def phival(self, fn, env, phi, frm):
        for v, l in phi.a:
            if l == frm: return self.val(fn, env, phi.ty, v)
        raise ToolError('phi without predecessor %s in %s' % (frm, fn.dem))

    def branch(self, fn, st, env, ins):
        if ins.op == 'br':
            if len(ins.a) == 1: return [(st, ins.a[0])]
            c = self.val(fn, env, ins.a[0][0], ins.a[0][1])
            return self.split(st, c, ins.a[1], ins.a[2])
        v = self.val(fn, env, ins.a[0][0], ins.a[0][1]); c = cval(v)
        if c is not None:
            for (ct, cv), l in ins.a[2]:
                if cv[1] & ((1 << ct[1]) - 1) == c: return [(st, l)]
            return [(st, ins.a[1])]
        r = []; neg = []
        for (ct, cv), l in ins.a[2]:
            cond = v == bv(cv[1] & (1 << ct[1]) - 1, ct[1])
            if self.feasible(st, cond):
                s = st.fork(); s.assume(cond); r.append((s, l))
            neg.append(z3.Not(cond))
        s = st.fork()
        for q in neg: s.assume(q)
        if self.feasible(s): r.append((s, ins.a[1]))
        return r
    def split(self, st, c, a, b):
        if isinstance(c, bool): c = z3.BoolVal(c)
        c = simp(c)
        if z3.is_true(c): return [(st, a)]
        if z3.is_false(c): return [(st, b)]
        t = self.feasible(st, c); f = self.feasible(st, z3.Not(c))
        r = []
        if t:
            s = st.fork() if f else st
            if f: s.assume(c)
            r.append((s, a))
        if f:
            s = st
            if t: s = st.fork(); s.assume(z3.Not(c))
            r.append((s, b))
        return r
    def split2(self, st, c):
        """-> [(state, bool)]"""
        return self.split(st, c, True, False)

    # ------------------------------------------------------------------ simple instructions
    def simple(self, fn, st, env, ins):
        op = ins.op; mod = fn.mod; V = lambda tv: self.val(fn, env, tv[0], tv[1])
        if op == 'alloca':
            cnt = 1
            if ins.a is not None:
                cnt = cval(V(ins.a))
                if cnt is None: raise ToolError('dynamic alloca')
            r = self.newregion('stack', ins.res or 'tmp', mod.sizeof(ins.ty)*cnt)
            if ins.ty[0] == 'st': r.cls = self.clean_cls(ins.ty[1])
            env[ins.res] = Ptr(r, 0); return None
        if op == 'load':
            p = V(ins.a[0])
            if ins.a[1] is not None:
                return self.atomic_load(st, p, ins.ty, ins.a[1], mod)
            pre = self.on_access(st, p, ins.ty, mod, False)
            if pre is not None: return pre
            r = self.load(st, p, ins.ty, mod)
            if len(r) == 1: env[ins.res] = r[0][1]; return None
            return [Out('ret', s, v) for s, v in r]
        if op == 'store':
            v = V(ins.a[0]); p = V(ins.a[1])
            if ins.a[2] is not None: return self.atomic_store(st, p, ins.ty, v, ins.a[2], mod)
            self.on_access(st, p, ins.ty, mod, True, v)
            self.store_val(st, p, ins.ty, v, mod); return None
        if op == 'getelementptr':
            b = V(ins.a[0])
            if b.base.kind == 'sym' and b.base.cls is None and b.off == 0 and ins.ty[0] == 'st' and isint(b.off):
                b.base.cls = self.clean_cls(ins.ty[1])
            env[ins.res] = self.gep(mod, ins.ty, b, [(t, self.val(fn, env, t, v)) for t, v in ins.a[1:]]); return None
        if op == 'icmp':
            c, a, b = ins.a
            env[ins.res] = self.icmp(c, ins.ty, self.val(fn, env, ins.ty, a), self.val(fn, env, ins.ty, b)); return None
        if op == 'select':
            c = V(ins.a[0]); a = V(ins.a[1]); b = V(ins.a[2]); cc = simp(c)
            if z3.is_true(cc): env[ins.res] = a; return None
            if z3.is_false(cc): env[ins.res] = b; return None
            m = self.merge(cc, a, b)
            if m is not None: env[ins.res] = m; return None
            return [Out('ret', s, a if k else b) for s, k in self.split2(st, cc)]
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a = self.val(fn, env, ins.ty, ins.a[0]); b = self.val(fn, env, ins.ty, ins.a[1])
            env[ins.res] = self.binop(op, a, b, st); return None
        if op == 'zext':
            v = V(ins.a); w = ins.ty[1]
            env[ins.res] = simp(z3.If(v, bv(1, w), bv(0, w)) if z3.is_bool(v) else z3.ZeroExt(w - v.size(), v)); return None
        if op == 'sext':
            v = V(ins.a); w = ins.ty[1]
            env[ins.res] = simp(z3.If(v, bv(-1 & (1 << w) - 1, w), bv(0, w)) if z3.is_bool(v) else z3.SignExt(w - v.size(), v)); return None
        if op == 'trunc':
            v = V(ins.a); w = ins.ty[1]
            env[ins.res] = simp(z3.Extract(0, 0, v) == 1) if w == 1 else simp(z3.Extract(w-1, 0, v)); return None
        if op == 'ptrtoint': env[ins.res] = simp(self.toint(V(ins.a), ins.ty[1])); return None
        if op == 'inttoptr':
            v = V(ins.a); env[ins.res] = self.sym(v); return None
        if op in ('bitcast', 'freeze', 'addrspacecast'): env[ins.res] = V(ins.a); return None
        if op in ('fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc', 'fneg'):
            v = V(ins.a); w = ins.ty[1]
            env[ins.res] = z3.Function('%s_%d_%d' % (op, v.size(), w), v.sort(), z3.BitVecSort(w))(v); return None
        if op == 'fcmp':
            a = self.val(fn, env, ins.ty, ins.a[1]); b = self.val(fn, env, ins.ty, ins.a[2])
            env[ins.res] = z3.Function('fcmp_%s_%d' % (ins.a[0], a.size()), a.sort(), a.sort(), z3.BoolSort())(a, b); return None
        if op == 'extractvalue':
            v = V(ins.a[0])
            for k in ins.a[1]: v = v[k]
            env[ins.res] = v; return None
        if op == 'insertvalue':
            v = V(ins.a[0]); e = V(ins.a[1])
            def ins_at(a, idx):
                a = list(a) 
                if len(idx) == 1: a[idx[0]] = e
                else: a[idx[0]] = ins_at(a[idx[0]], idx[1:])
                return a
            env[ins.res] = ins_at(v, ins.a[2]); return None
        if op == 'landingpad':
            return self.landingpad(fn, st, env, ins)
        if op == 'atomicrmw':
            o, p, v, order = ins.a
            return self.atomic_rmw(st, o, V(p), ins.ty, V(v), order, mod)
        if op == 'cmpxchg':
            p, c, n, o1, o2, weak = ins.a
            return self.atomic_cas(st, V(p), ins.ty, V(c), V(n), o1, o2, weak, mod)
        if op == 'fence':
            self.on_fence(st, ins.a); return None
        raise ToolError('instruction %s' % op)
    def clean_cls(self, n):
        n = re.sub(r'^(class|struct|union)\.', '', n); n = re.sub(r'\.base$', '', n); return re.sub(r'\.\d+$', '', n)
    def on_access(self, st, p, ty, mod, write, val=None):
        for h in self.hooks_load if not write else self.hooks_store:
            r = h(self, st, p, ty, mod, val) if write else h(self, st, p, ty, mod)
            if r is not None: return r
        return None
    def on_fence(self, st, order): pass
    # ------------------------------------------------------------------ atomics
    def local(self, p): return p.base.kind == 'stack' and not p.base.escaped
    def fresh_of(self, ty, name, cls=None):
        if ty == PTR: return self.sym(freshbv(name), cls)
        if ty == ('i', 1): return fresh(name, z3.BoolSort())
        return freshbv(name, ty[1])
    def atomic_hook(self, st, kind, p, ty, args, order, mod):
        for h in self.hooks_atomic:
            r = h(self, st, kind, p, ty, args, order, mod)
            if r is not None: return r
        return None
    def atomic_load(self, st, p, ty, order, mod):
        if p.base.kind == 'null': raise NullDeref(p)
        r = self.atomic_hook(st, 'load', p, ty, (), order, mod)
        if r is not None: return r
        if not self.local(p): 
            self.store_val(st, p, ty, self.label_ptr(p.base, p.off, self.fresh_of(ty, 'atom')), mod)
            self.trusted.add('atomic loads of unconstrained cells return arbitrary values')
        return [Out('ret', s, v) for s, v in self.load(st, p, ty, mod)]
    def atomic_store(self, st, p, ty, v, order, mod):
        if p.base.kind == 'null': raise NullDeref(p)
        r = self.atomic_hook(st, 'store', p, ty, (v,), order, mod)
        if r is not None: return r
        self.store_val(st, p, ty, v, mod); return None
    def rmw_new(self, o, old, v, ty):
        if o == 'xchg': return v
        if o in ('add', 'sub', 'and', 'or', 'xor'): return self.binop(o, old, v, None)
        raise ToolError('atomicrmw %s' % o)
    def atomic_rmw(self, st, o, p, ty, v, order, mod):
        if p.base.kind == 'null': raise NullDeref(p)
        r = self.atomic_hook(st, 'rmw:' + o, p, ty, (v,), order, mod)
        if r is not None: return r
        if not self.local(p): self.store_val(st, p, ty, self.fresh_of(ty, 'atom'), mod)
        res = []
        for s, old in self.load(st, p, ty, mod):
            self.store_val(s, p, ty, self.rmw_new(o, old, v, ty), mod); res.append(Out('ret', s, old))
        return res
    def atomic_cas(self, st, p, ty, c, n, o1, o2, weak, mod):
        if p.base.kind == 'null': raise NullDeref(p)
        r = self.atomic_hook(st, 'cas', p, ty, (c, n, weak), (o1, o2), mod)
        if r is not None: return r
        if not self.local(p): self.store_val(st, p, ty, self.fresh_of(ty, 'atom'), mod)
        return self.cas_plain(st, p, ty, c, n, weak, mod)
    def cas_plain(self, st, p, ty, c, n, weak, mod):
        res = []
        for s, old in self.load(st, p, ty, mod):
            eq = self.icmp('eq', ty, old, c)
            for s2, k in self.split2(s, eq):
                if k:
                    if weak:
                        s3 = s2.fork(); res.append(Out('ret', s3, [old, z3.BoolVal(False)]))
                    self.store_val(s2, p, ty, n, mod); res.append(Out('ret', s2, [old, z3.BoolVal(True)]))
                else: res.append(Out('ret', s2, [old, z3.BoolVal(False)]))
        return res
    # ------------------------------------------------------------------ exceptions
    def typeid(self, name):
        if name not in self.typeids: self.typeids[name] = len(self.typeids) + 10
        return self.typeids[name]
    BASES = {  # external type infos used by the library (libstdc++)
        '_ZTISt12system_error': ['_ZTISt13runtime_error'], '_ZTISt13runtime_error': ['_ZTISt9exception'],
        '_ZTISt11logic_error': ['_ZTISt9exception'], '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt9exception': [],
        '_ZTISt12future_error': ['_ZTISt11logic_error'],'_ZTISt12out_of_range': ['_ZTISt11logic_error'],
        '_ZTISt16invalid_argument':['_ZTISt11logic_error'],
        '_ZTIN10__cxxabiv115__forced_unwindE': [],
    }
    def bases(self, ti):
        if ti in self.BASES: return self.BASES[ti]
        g = self.prog.glob.get(ti)
        if g is None: return []
        l = re.findall(r'ptr @(_ZTI[\w.$]+)', g[1])
        return [x for x in l if x != ti]
    def derives(self, a, b):
        if a == b: return True
        return any(self.derives(x, b) for x in self.bases(a))
    def landingpad(self, fn, st, env, ins):
        cleanup, clauses = ins.a
        e = st.exc
        if e is None: raise ToolError('landingpad without exception')
        def mk(s, sel): return Out('ret', s, [e.ptr, bv(sel, 32)])
        res = []; cur = st
        for k, (ty, v) in clauses:
            if k == 'filter': 
                res.append(mk(cur, self.typeid('filter'))); return res
            if v[0] == 'null': res.append(mk(cur, self.typeid('...'))); return res
            ti = v[1]
            if e.tinfo is None:
                # unknown user exception: may or may not match
                if getattr(e, 'never', None) and ti in e.never: continue
                s2 = cur.fork(); e2 = Exc(ti, e.ptr, e.data, e.tag)
                s2.exc = e2; s2.note('exception of type %s' % ti); res.append(mk(s2, self.typeid(ti)))
            elif self.derives(e.tinfo, ti): res.append(mk(cur, self.typeid(ti))); return res
        if cleanup: res.append(mk(cur, 0))
        elif clauses or True:
            # no clause matches: the exception propagates past this frame
            res.append(Out('exc', cur, e))
        return res
    def throw(self, st, tinfo, data=None, tag=None):
        r = self.newregion('heap', 'exc')
        return Out('exc', st, Exc(tinfo, Ptr(r, 0), data, tag))
    # ------------------------------------------------------------------ calls
    def contract(self, rx, handler, first=False):
        item = (re.compile(rx), handler, rx)
        if first: self.contracts.insert(0, item)
        else: self.contracts.append(item)
        self.ccache = {}
    def find_contract(self, name, dem):
        if name in self.ccache: return self.ccache[name]
        h = None
        for r, hd, rx in self.contracts:
            if r.fullmatch(dem) or r.fullmatch(name): h = (hd, rx); break
        self.ccache[name] = h
        return h
    def call(self, fn, st, env, ins):
        d = ins.a; cv = d['callee']
        if cv[0] == 'asm': return self.on_asm(st, cv[1]) if getattr(self, 'on_asm', None) else [Out('ret', st, None)]
        if cv[0] == 'glob': name = cv[1]
        elif cv[0] == 'loc':
            p = env[cv[1]]
            if p.base.kind == 'fn': name = p.base.name
            elif p.base.kind == 'null': raise NullDeref(p)
            else: name = 'indirect:' + (p.base.cls or '?')
        else: raise ToolError('callee %r' % (cv,))
        if name.startswith('llvm.'):
            return self.intrinsic(fn, st, env, ins, name)
        args = [self.val(fn, env, t, v) if t != ('meta',) else None for t, v, at in d['args']]
        # byval arguments
        for k, (t, v, at) in enumerate(d['args']):
            pass
        return self.invoke_name(st, name, args, [t for t, _, _ in d['args']], ins.ty, ins, fn, p if cv[0] == 'loc' else None)
    def invoke_name(self, st, name, args, argtys, retty, ins, fn, fptr=None):
        if name.startswith('virtual:'):
            dem = self.virtual_name(name)
        else: dem = self.prog.dem.get(name, name)
        c = Call(); c.name = name; c.dem = dem; c.args = args; c.argtys = argtys; c.retty = retty; c.ins = ins; c.fn = fn
        c.loc = None; c.mod = fn.mod if fn else None; c.attrs = fptr
        h = self.find_contract(name, dem)
        if h is not None:
            self.contract_used[h[1]] = self.contract_used.get(h[1], 0) + 1
            r = h[0](self, st, c)
            if r is None: return [Out('ret', st, None)]
            if isinstance(r, Out): return [r]
            if isinstance(r, list): return r
            return [Out('ret', st, r)]
        f = self.prog.fn.get(name)
        if f is None:
            raise ToolError('no contract and no body for %s (called in %s)' % (dem, fn.dem if fn else '?'))
        self.inlined[dem] = self.inlined.get(dem, 0) + 1
        return self.exec_fn(f, args, st)
    def virtual_name(self, name):
        _, cls, slot = name.rsplit(':', 2)[0], None, None
        m = re.match(r'virtual:(.*):(\d+)$', name); cls, slot = m.group(1), int(m.group(2))
        vt = (self.layouts.vtables.get(cls) or self.layouts.vtables.get(cls.split('<')[0])) if self.layouts else None
        if vt and slot in vt: return 'virtual ' + vt[slot]
        raise ToolError('virtual call slot %d of %s unknown' % (slot, cls))
    def intrinsic(self, fn, st, env, ins, name):
        d = ins.a; A = lambda k: self.val(fn, env, d['args'][k][0], d['args'][k][1])
        b = name.split('.')[1]
        if b in ('lifetime', 'dbg', 'assume', 'experimental', 'invariant', 'donothing','prefetch'): 
            if name=='llvm.assume': pass
            return [Out('ret', st, None)]
        if b == 'expect': return [Out('ret', st, A(0))]
        if b == 'threadlocal': return [Out('ret', st, A(0))]
        if b in ('memcpy', 'memmove'):
            dst, src, n = A(0), A(1), cval(A(2))
            if n is None: 
                h = self.find_contract('memcpy_sym', 'memcpy_sym')
                if h: return h[0](self, st, (dst, src, A(2)))
                raise ToolError('memcpy with symbolic length at %s' % self.curloc())
            if n == 0: return [Out('ret', st, None)]
            if dst.base.kind == 'null' or src.base.kind == 'null': raise NullDeref(dst)
            self.hook_block(st, dst, src, n)
            st.mem = Ev('cpy', dst.base, dst.off, n, None, st.mem, (st.mem, src.base, src.off))
            return [Out('ret', st, None)]
        if b == 'memset':
            dst, v, n = A(0), A(1), cval(A(2))
            if n is None: raise ToolError('memset with symbolic length at %s' % self.curloc())
            if n: st.mem = Ev('set', dst.base, dst.off, n, v, st.mem)
            return [Out('ret', st, None)]
        if name == 'llvm.eh.typeid.for' or name.startswith('llvm.eh.typeid'):
            p = A(0); return [Out('ret', st, bv(self.typeid(p.base.name), 32))]
        if b in ('umul', 'uadd', 'usub', 'smul', 'sadd', 'ssub'):
            x, y = A(0), A(1); w = x.size()
            f = {'umul': (x*y, z3.Not(z3.BVMulNoOverflow(x, y, False))), 'uadd': (x+y, z3.ULT(x+y, x)), 'usub': (x-y, z3.ULT(x, y)),
                 'smul': (x*y, z3.Not(z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)))),
                 'sadd': (x+y, z3.Not(z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)))),
                 'ssub': (x-y, z3.Not(z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))))}[b]
            return [Out('ret', st, [simp(f[0]), simp(f[1])])]
        if b in ('umax', 'umin', 'smax', 'smin'):
            x, y = A(0), A(1)
            c = {'umax': z3.UGT(x, y), 'umin': z3.ULT(x, y), 'smax': x > y, 'smin': x < y}[b]
            return [Out('ret', st, simp(z3.If(c, x, y)))]
        if b == 'abs': x = A(0); return [Out('ret', st, simp(z3.If(x < 0, -x, x)))]
        if b == 'trap': return [Out('stop', st, 'trap')]
        if b == 'objectsize': return [Out('ret', st, bv(-1 & (1 << 64)-1))]
        if b == 'is': return [Out('ret', st, z3.BoolVal(False))]
        if b in ('ctlz', 'cttz', 'ctpop','floor','ceil','fmuladd','fabs'):
            x = A(0); return [Out('ret', st, z3.Function(name, x.sort(), x.sort())(x))]
        raise ToolError('intrinsic %s' % name)
    def hook_block(self, st, dst, src, n): pass
    # ------------------------------------------------------------------ loops
    def writes_since(self, mem, stop):
        n = mem
        while n is not None and n is not stop:
            yield n; n = n.parent
    def run_loop(self, fn, header, st0, env0, phi0):
        L = fn.loops[header]; loop = (header, L); blk = fn.blocks[header]
        if any(b in fn.loops and b != header for b in L): pass
        H = {}        # key -> info
        birth = next(_ctr)
        key0 = (fn.name, header)
        loc = self.curloc()
        dropped = set()
        invs = [f for rx, f in self.loop_specs.items() if re.fullmatch(rx, fn.dem)]
        shapes = [self.gshape(st0, st0, birth, phi0)]; shset = {shapes[0][0]}
        def header_state(shape):
            st = st0.fork(); env = dict(env0); ph = dict(phi0)
            for k, info in list(H.items()):
                if k[0] == 'phi': ph[k[1]] = shape[2][k[1]] if k[1] in shape[2] else self.havoc_like(phi0[k[1]], k[1], info)
            for k, info in H.items():
                if k[0] == 'cell':
                    _, base, off, size = k
                    if info['ptr']:
                        if info.get('mode') == 'off': v = Ptr(info['base'], freshbv('lo'))
                        else: v = self.sym(freshbv('lh'), info.get('cls'))
                        if info.get('mode') != 'off' and info.get('ioff'): v = Ptr(v.base, info['ioff'])
                    else: v = freshbv('lh', size*8)
                    st.mem = Ev('w', base, off, size, v, st.mem)
                elif k[0] == 'arr':
                    _, base = k; n = next(_ctr)
                    st.mem = Ev('hv', None, None, None, None, st.mem, self.hv_array(base, n))
                elif k[0] == 'wild':
                    _, cls, off, size = k; n = next(_ctr)
                    st.mem = Ev('hv', None, None, None, None, st.mem, self.hv_wild(cls, off, size, n))
            st.g = {k: self.gfresh(k, v, st) for k, v in shape[1].items()}
            for r, v in ph.items(): env[r] = v
            return st, env, ph
        def candidates():
            l = []
            for r, v in phi0.items():
                if ('phi', r) in H and isinstance(v, z3.BitVecRef):
                    l.append(('%s>=init' % r, lambda s, ph, r=r, v=v: z3.UGE(ph[r], v)))
                    l.append(('%s<=init' % r, lambda s, ph, r=r, v=v: z3.ULE(ph[r], v)))
                elif ('phi', r) in H and isinstance(v, Ptr):
                    l.append(('%s!=null' % r, lambda s, ph, r=r: z3.Not(self.ptr_eq(ph[r], NULL))))
            for k, info in H.items():   # a local whose address is taken
                if k[0] == 'cell' and k[1].kind == 'stack' and info['ptr']: l.append(('%s+%d!=null' % (id(k[1]), k[2]), lambda s, ph, k=k: self.load1(s, Ptr(k[1], k[2]), ('i', 64)) != 0))
            for f in getattr(self, 'auto_cands', []): l.extend(f(self, fn, st0, phi0, H))
            for k, (b, op, bound) in enumerate(self.bound_cands(fn, L, blk, env0, phi0, H)):
                l.append(('bound%d' % k, lambda s, ph, b=b, op=op, bound=bound: (z3.ULE if op == 'u' else (lambda a, c: a <= c))(ph[b], bound)))
            return l
        for attempt in range(40):
            cl = [(n, f) for n, f in candidates() if n not in dropped]
            ok0 = []
            for n, f in cl:
                if self.proved_cand(st0, f(st0, phi0)): ok0.append((n, f))
                else: dropped.add(n)
            cl = ok0
            ctx = dict(fn=fn, header=header, st0=st0, phi0=phi0, env0=env0)
            grew = False; allbacks = []
            si = 0
            while si < len(shapes):
                shape = shapes[si]; si += 1
                st, env, ph = header_state(shape)
                for n, f in cl: st.assume(f(st, ph))
                for f in invs:
                    for n, g in f(self, ctx, st, ph): st.assume(g)
                hmem = st.mem
                ph_h = ph; st_h = st.fork()
                self.dry += 1
                try: outs, backs, exits = self.run(fn, [(st, env, header, None, 0)], loop)
                finally: self.dry -= 1
                for (b, be, bph) in backs:
                    if not self.feasible(b): continue
                    allbacks.append((b, be, bph))
                    for r in phi0:
                        if ('phi', r) in H:
                            info = H[('phi', r)]
                            if info.get('mode') == 'off' and isinstance(bph[r], Ptr) and bph[r].base is not phi0[r].base:
                                info['mode'] = 'full'; grew = True
                            continue
                        if not self.same(b, ph_h[r], bph[r]):
                            v0 = phi0[r]; v1 = bph[r]
                            mode = 'full'
                            if isinstance(v0, Ptr) and isinstance(v1, Ptr) and v0.base is v1.base and v0.base.kind != 'null': mode = 'off'
                            H[('phi', r)] = dict(mode=mode, ioff=self.inner_off(v1), cls=v1.base.cls if isinstance(v1, Ptr) else None); grew = True
                    seen = set()
                    for e in self.writes_since(b.mem, hmem):
                        if e.k == 'hv':
                            if not getattr(e.x, 'keys', None): raise ToolError('nested havoc in loop at %s' % loc)
                            k = e.x.keys
                            if k[0] == 'arr' and (k[1].birth > birth and k[1].kind != 'sym'): continue
                            if k not in H: H[k] = {}; grew = True
                            continue
                        base = e.base
                        if base.birth > birth and base.kind != 'sym': continue
                        if base.kind == 'sym' and base.birth > birth and self.depends_fresh(base.addr, birth):
                            if not isint(e.off) or not isint(e.size): raise ToolError('loop writes through iteration-dependent pointer with symbolic offset at %s' % loc)
                            k = ('wild', base.cls, e.off, e.size)
                            if k not in H: H[k] = {}; grew = True
                            continue
                        if not isint(e.off):
                            k = ('arr', base)
                            if k not in H: H[k] = {}; grew = True
                            continue
                        if ('arr', base) in H: 
                            continue
                        if e.k == 'w': cells = [(e.off, e.size, isinstance(e.val, Ptr), e.val)]
                        else:
                            cells = [(o, 8, False, None) for o in range(e.off, e.off + e.size - 7, 8)]
                            if e.size % 8: cells += [(e.off + e.size//8*8 + q, 1, False, None) for q in range(e.size % 8)]
                        for off, size, isp, val in cells:
                            k = ('cell', base, off, size)
                            if k in H and H[k].get('mode') == 'off' and k not in seen:
                                seen.add(k)
                                try: c = self._raw1(b, base, off, size, PTR)
                                except ToolError: c = None
                                if not isinstance(c, Ptr) or c.base is not H[k]['base']: H[k]['mode'] = 'full'; grew = True
                                continue
                            if k in H or k in seen: continue
                            seen.add(k)
                            ty = PTR if isp else ('i', size*8)
                            try:
                                a = self._raw1(st_h, base, off, size, ty)
                                c = self._raw1(b, base, off, size, ty)
                            except ToolError:
                                a = None; c = None
                            if a is None or not self.same(b, a, c):
                                H[k] = dict(ptr=isp, cls=val.base.cls if isp else None, ioff=self.inner_off(val)); grew = True
                                if isp and isinstance(a, Ptr) and isinstance(c, Ptr) and a.base is c.base and a.base.kind == 'sym' and k[1].kind == 'stack': H[k].update(mode='off', base=a.base)
                    sh = self.gshape(b, st0, birth, bph)
                    if sh[0] not in shset:
                        shset.add(sh[0]); shapes.append(sh)
                        if len(shapes) > 48: raise ToolError('too many ghost states in the loop at %s: %s' % (loc, sh[0][:1500]))
                if grew: break
            if grew: continue
            bad = False
            for (b, be, bph) in allbacks:
                for n, f in cl:
                    if n in dropped: continue
                    if not self.proved_cand(b, f(b, bph)): dropped.add(n); bad = True
            if bad: continue
            break
        else: raise ToolError('loop invariant inference did not converge at %s' % loc)
        # final run with obligations on
        outs = []; exits = []
        ctx = dict(fn=fn, header=header, st0=st0, phi0=phi0, env0=env0)
        for f in invs:
            for n, g in f(self, ctx, st0, phi0): self.prove(st0, 'loop invariant "%s" holds initially' % n, g)
        for shape in shapes:
            st, env, ph = header_state(shape)
            for n, f in cl:
                if n not in dropped: st.assume(f(st, ph))
            for f in invs:
                for n, g in f(self, ctx, st, ph): st.assume(g)
            o, backs, e = self.run(fn, [(st, env, header, None, 0)], loop)
            outs += o; exits += e
            for (b, be, bph) in backs:
                for f in invs:
                    for n, g in f(self, ctx, b, bph): self.prove(b, 'loop invariant "%s" is preserved' % n, g)
        if not self.dry: self.loops_done = getattr(self, 'loops_done', 0) + 1
        return outs, exits
    # ghost state at a loop header: discrete parts are enumerated, symbolic leaves generalised
    def flagval(self, v):
        """a local flag whose value is known: True/False, 0/1"""
        if isinstance(v, bool): return v
        if not isinstance(v, z3.ExprRef): return None
        if z3.is_bool(v): return True if z3.is_true(simp(v)) else False if z3.is_false(simp(v)) else None
        if z3.is_bv(v) and v.size() in (1, 8):
            x = simp(v)
            if z3.is_bv_value(x) and x.as_long() in (0, 1): return x.as_long()
        return None
    def gshape(self, st, st0, birth=None, phis={}):
        """-> (key, {ghost: shape value}); leaves that differ from the state before the loop become Leaf"""
        d = {}; keys = []
        for k in sorted(set(st.g) | set(st0.g), key=str):
            x = st0.g.get(k); y = st.g.get(k)
            if y is None and x is None:
                if k in st.g: d[k] = ('=', None)
                continue
            # facts about objects that exist in this iteration only do not survive it
            if x is None and birth is not None and isinstance(k, tuple) and any(isinstance(q, Region) and q.birth > birth for q in k): continue
            if isinstance(y, tuple) and (k == '_log' or (isinstance(k, tuple) and str(k[0]).startswith('_log'))) and y is not x:
                n = len(x or ())
                if (x or ()) == y[:n] if not any(self.symleaf(e) for e in (x or ())) else all(p is q for p, q in zip(x or (), y)):
                    y = (x or ()) + (('loop', tuple(sorted({str(e[0]) for e in y[n:] if e[0] != 'loop'} | {q for e in y[n:] if e[0] == 'loop' for q in e[1]}))),)
            v = self.gabs(st, x, y, birth); d[k] = v; keys.append('%s=%s' % (k if not isinstance(k, tuple) else tuple(id(q) if isinstance(q, Region) else q for q in k), self.gkeystr(v)))
        flags = {r: v for r, v in phis.items() if self.flagval(v) is not None}
        keys += ['%s:%s' % (r, self.flagval(v)) for r, v in sorted(flags.items())]
        return ';'.join(keys), d, flags
    def symleaf(self, e): return any(isinstance(q, (z3.ExprRef, Ptr)) or (isinstance(q, tuple) and self.symleaf(q)) for q in e) if isinstance(e, tuple) else False
    def gabs(self, st, x, y, birth=None):
        if y is x: return ('=', y)
        if hasattr(y, 'g_abs'): return y.g_abs(self, st, x)
        if isinstance(y, z3.ExprRef):
            if isinstance(x, z3.ExprRef) and x.sort() == y.sort() and (z3.eq(simp(x), simp(y)) or self.proved(st, x == y)): return ('=', x)
            # a value fixed before the loop stays fixed
            if x is None and birth is not None:
                y1 = simp(y)
                if not self.depends_fresh(y1, birth): return ('=', y1)
            return ('leaf', y.sort())
        if isinstance(y, Ptr):
            if isinstance(x, Ptr) and x.base is y.base and isint(x.off) and isint(y.off) and x.off == y.off: return ('=', x)
            if y.base.kind in ('null', 'stack', 'heap', 'global', 'fn') and isint(y.off): return ('=', y)
            return ('leafp', y.base.cls)
        if isinstance(y, (tuple, list)):
            xs = (list(x)[:len(y)] + [None]*max(0, len(y) - len(x))) if isinstance(x, (tuple, list)) else [None]*len(y)
            return ('tup', tuple(self.gabs(st, p, q, birth) for p, q in zip(xs, y)))
        return ('=', y)
    def gkeystr(self, v):
        if v[0] == 'tup': return '(' + ','.join(self.gkeystr(q) for q in v[1]) + ')'
        if v[0] == '=':
            y = v[1]
            return str(y) if isinstance(y, (str, int, bool, type(None))) else (str(id(y.base)) + '+' + str(y.off) if isinstance(y, Ptr) else (str(id(y)) if not isinstance(y, z3.ExprRef) else 'e%d' % y.get_id()) if not isinstance(y, tuple) else '(' + ','.join(self.gkeystr(('=', q)) for q in y) + ')')
        return str(v)
    def gfresh(self, k, v, st):
        if v[0] == '=': return v[1]
        if v[0] == 'leaf': return fresh('g', v[1])
        if v[0] == 'leafp': return self.sym(freshbv('gp'), v[1])
        if v[0] == 'tup': return tuple(self.gfresh(k, q, st) for q in v[1])
        return v[1].g_fresh(self, st, v)
    def _raw1(self, st, base, off, size, ty):
        r = self.load_raw(st, base, off, size, ty)
        if len(r) == 1: return r[0][1]
        if ty == PTR:
            v = r[-1][1].bv()
            for c, x in r[:-1][::-1]: v = z3.If(c, x.bv(), v)
            return self.sym(simp(v))
        v = r[-1][1]
        for c, x in r[:-1][::-1]: v = z3.If(c, x, v)
        return simp(v)
    def bound_cands(self, fn, L, blk, env0, phi0, H):
        """phi <= N for comparisons of a havocked integer phi with a loop-invariant value"""
        res = []
        for b in L:
            for ins in fn.blocks[b].ins:
                if ins.op == 'icmp' and ins.ty[0] == 'i':
                    c, x, y = ins.a
                    for p, q in ((x, y), (y, x)):
                        if p[0] == 'loc' and ('phi', p[1]) in H and z3.is_bv(phi0.get(p[1])) :
                            if q[0] == 'int': bound = self.const(fn.mod, ins.ty, q)
                            elif q[0] == 'loc' and q[1] in env0 and q[1] not in phi0: bound = env0[q[1]]
                            else: continue
                            res.append((p[1], 's' if c[0] == 's' else 'u', bound))
        return res
    def depends_fresh(self, t, birth):
        seen = set(); work = [t]
        while work:
            x = work.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                m = re.search(r'!(\d+)$', x.decl().name())
                if m and int(m.group(1)) > birth: return True
            work.extend(x.children())
        return False
    def hv_array(self, base, n):
        def f(ex, b, off, size, ty):
            if b is not base:
                return None
            o = bv(off & (1<<64)-1) if isint(off) else off
            t = memfun(size*8, 'H%d_' % n)(base.addr, o)
            return ex.sym(t) if ty == PTR else ex.conv(t, ty, size)
        f.keys = ('arr', base)
        return f
    def hv_wild(self, cls, o0, s0, n):
        def f(ex, b, off, size, ty):
            if b.kind != 'sym' or not isint(off): return None
            if b.cls != cls and b.cls and cls: return None
            if off >= o0 + s0 or o0 >= off + size: return None
            t = memfun(size*8, 'W%d_' % n)(b.addr, bv(off & (1<<64)-1))
            return ex.sym(t) if ty == PTR else ex.conv(t, ty, size)
        f.keys = ('wild', cls, o0, s0)
        return f
    def havoc_like(self, v, name, info=None):
        if isinstance(v, Ptr):
            if info and info.get('mode') == 'off': return Ptr(v.base, freshbv('lo_' + name))
            w = self.sym(freshbv('lp_' + name), v.base.cls)
            if info and info.get('ioff') and info.get('cls'): w = self.sym(freshbv('lp_' + name), info['cls']); w = Ptr(w.base, info['ioff'])
            return w
        if isinstance(v, list): return [self.havoc_like(x, name) for x in v]
        return fresh('lv_' + name, v.sort())
    def inner_off(self, v):
        """an iterator designates a hook inside an element: keep the element as the region"""
        if isinstance(v, Ptr) and v.base.kind == 'sym' and v.base.cls and isint(v.off) and 0 < v.off < 4096: return v.off
        return 0
    def same(self, st, a, b):
        if a is b: return True
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)): return False
            return self.proved(st, self.ptr_eq(a, b))
        if isinstance(a, list): return all(self.same(st, x, y) for x, y in zip(a, b))
        if a is None or b is None: return a is b
        if a.sort() != b.sort(): return False
        return self.proved(st, a == b)
