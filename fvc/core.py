"""Symbolic state, memory model, executor and loop handling of the verifier."""
import z3, re, itertools, time
from .ir import *

BV64 = z3.BitVecSort(64)
class ToolError(Exception):
    """the verifier cannot decide (never reported as a violation)"""

def bv(n, w=64): return z3.BitVecVal(n, w)
def isint(x): return isinstance(x, int)
def simp(t): return z3.simplify(t)
def cval(t):
    """python int of a constant term, else None"""
    if isinstance(t, int): return t
    if isinstance(t, bool): return int(t)
    if z3.is_bv_value(t): return t.as_long()
    if z3.is_true(t): return 1
    if z3.is_false(t): return 0
    return None

_ctr = itertools.count(1)
def fresh(name, sort):
    return z3.Const('%s!%d' % (name, next(_ctr)), sort)
def freshbv(name, w=64): return fresh(name, z3.BitVecSort(w))

class Region:
    """an allocation: stack/heap/global/fn/vt/null, or 'sym' (whatever a symbolic address points to)"""
    __slots__ = ('kind', 'name', 'addr', 'cls', 'size', 'birth', 'escaped', 'x', 'dist')
    def __init__(self, kind, name, addr=None, cls=None, size=None):
        self.kind = kind; self.name = name; self.cls = cls; self.size = size; self.birth = next(_ctr); self.escaped = False; self.x = None
        self.addr = addr if addr is not None else z3.Const('&%s!%d' % (name, self.birth), BV64)
        self.dist = False     # 'sym' region declared distinct from every other declared one
    def __repr__(self): return '<%s %s>' % (self.kind, self.name)
NULLR = Region('null', 'null', bv(0))

class Ptr:
    __slots__ = ('base', 'off')
    def __init__(self, base, off=0):
        self.base = base; 
        if not isint(off):
            c = cval(off)
            if c is not None: off = c
        if isint(off) and off >= 1 << 63: off -= 1 << 64
        self.off = off
    def bv(self):
        if self.base.kind == 'null': return self.offbv()
        if isint(self.off) and self.off == 0: return self.base.addr
        return self.base.addr + self.offbv()
    def offbv(self): return bv(self.off & (1 << 64) - 1) if isint(self.off) else self.off
    def __repr__(self): return 'Ptr(%s+%s)' % (self.base.name, self.off)
    def add(self, d):
        if isint(self.off) and isint(d): return Ptr(self.base, self.off + d)
        a = self.offbv(); b = bv(d & (1<<64)-1) if isint(d) else d
        return Ptr(self.base, simp(a + b))
NULL = Ptr(NULLR, 0)

class Undef: pass

class Exc:
    """an in-flight exception: tinfo (mangled _ZTI name, or None = unknown user type), object pointer, data"""
    def __init__(self, tinfo, ptr, data=None, tag=None):
        self.tinfo = tinfo; self.ptr = ptr; self.data = data or {}; self.tag = tag
    def __repr__(self): return 'Exc(%s,%s)' % (self.tinfo, self.tag)

class State:
    __slots__ = ('pc', 'mem', 'g', 'trace', 'exc')
    def __init__(self):
        self.pc = []; self.mem = None; self.g = {}; self.trace = None; self.exc = None
    def fork(self):
        s = State(); s.pc = list(self.pc); s.mem = self.mem; s.g = dict(self.g); s.trace = self.trace; s.exc = self.exc
        return s
    def assume(self, c):
        if c is True: return self
        if isinstance(c, bool): c = z3.BoolVal(c)
        c = simp(c)
        if not z3.is_true(c): self.pc.append(c)
        return self
    def note(self, what): self.trace = (what, self.trace)
    def notes(self):
        l = []; t = self.trace
        while t: l.append(t[0]); t = t[1]
        return l[::-1]

class Out:
    """outcome of a call: kind 'ret' | 'exc' | 'stop' """
    __slots__ = ('kind', 'st', 'val')
    def __init__(self, kind, st, val=None): self.kind = kind; self.st = st; self.val = val

class Ev:
    __slots__ = ('k', 'base', 'off', 'size', 'val', 'parent', 'x')
    def __init__(self, k, base, off, size, val, parent, x=None):
        self.k = k; self.base = base; self.off = off; self.size = size; self.val = val; self.parent = parent; self.x = x

_Mf = {}
def memfun(w, tag='M'):
    f = _Mf.get((w, tag))
    if f is None:
        f = z3.Function('%s%d' % (tag, w), BV64, BV64, z3.BitVecSort(w)); _Mf[(w, tag)] = f
    return f

class Obl:
    __slots__ = ('name', 'unit', 'loc', 'status', 'time', 'model', 'notes', 'backend', 'goal','pc')

class Call:
    __slots__ = ('name', 'dem', 'args', 'argtys', 'retty', 'ins', 'fn', 'loc', 'attrs', 'mod')

class Exec:
    def __init__(self, prog, layouts=None, timeout=10000):
        self.prog = prog; self.contracts = []; self.ccache = {}
        self.syms = {}          # id -> (term, Region)
        self.regs = {}          # global regions
        self.addr_reg = {}      # term id -> region of nonsym
        self.obls = []; self.dry = 0; self.unit = '?'
        self.timeout = timeout; self.nq = 0; self.qtime = 0.0
        self._solver = None; self._solver_pc = None
        self.ptr_labels = {}    # (cls, off) -> pointee cls
        self.layouts = layouts or {}
        self.typeids = {}
        self.inlined = {}; self.contract_used = {}
        self.depth = 0; self.maxdepth = 60
        self.steps = 0; self.maxsteps = 400000
        self.loop_specs = {}    # (fn dem regex) -> callback
        self.hooks_load = []; self.hooks_store = []; self.hooks_atomic = []
        self.covers = {}
        self.fnstack = []
        self.axioms = []
        self.vt_resolve = None
        self.noinline = []
        self.default_ptr_distinct = True
        self.unknown_calls = {}
        self.second = False
        self.seed = 0
        self.trusted = set(); self.shaky = []
    # ------------------------------------------------------------------ solver
    def _get_solver(self, pc):
        sp = self._solver_pc
        if sp is not None:
            n = len(sp)
            if n <= len(pc) and all(a is b for a, b in zip(sp, pc)):
                for c in pc[n:]: self._solver.add(c)
                self._solver_pc = list(pc)
                return self._solver
        s = z3.Solver(); s.set('timeout', self.timeout)
        for a in self.axioms: s.add(a)
        for c in pc: s.add(c)
        self._solver = s; self._solver_pc = list(pc)
        return s
    def check(self, st, cond=None, timeout=None):
        """sat / unsat / unknown of pc and cond"""
        if cond is not None:
            cond = simp(cond) if not isinstance(cond, bool) else z3.BoolVal(cond)
            if z3.is_false(cond): return z3.unsat
        t = time.time(); self.nq += 1
        s = self._get_solver(st.pc)
        if cond is None or z3.is_true(cond): r = s.check()
        else:
            s.push(); s.add(cond); r = s.check()
            self._lastmodel = None
            if r == z3.sat: self._lastmodel = s.model()
            s.pop()
        if r == z3.unknown:
            # one retry in a fresh solver
            s2 = z3.SolverFor('QF_UFBV') if False else z3.Solver(); s2.set('timeout', 2 * (timeout or self.timeout))
            for a in self.axioms: s2.add(a)
            for c in st.pc: s2.add(c)
            if cond is not None: s2.add(cond)
            r = s2.check()
            if r == z3.sat: self._lastmodel = s2.model()
        self.qtime += time.time() - t
        return r
    def feasible(self, st, cond=None): return self.check(st, cond) != z3.unsat
    def proved(self, st, goal):
        if isinstance(goal, bool):
            if goal: return True
            return self.check(st) == z3.unsat
        g = simp(goal)
        if z3.is_true(g): return True
        return self.check(st, z3.Not(g)) == z3.unsat
    def prove(self, st, name, goal, loc=None):
        """record and discharge an obligation"""
        if self.dry: return
        o = Obl(); o.name = name; o.unit = self.unit; o.loc = loc or self.curloc(); o.notes = None; o.model = None
        t = time.time(); o.goal = None; o.pc = None
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        g = simp(goal)
        if z3.is_true(g): o.status = 'proved'; o.backend = 'simplifier'
        else:
            r = self.check(st, z3.Not(g))
            o.backend = 'z3'
            if r == z3.unsat: o.status = 'proved'
            elif r == z3.sat:
                o.status = 'failed'; o.model = self._model_text(st, g); o.notes = st.notes()
            else:
                b = self._second(st, g, '20000')         # z3 gave no answer twice: ask cvc5
                if b == 'z3+cvc5': o.status = 'proved'; o.backend = 'cvc5'
                else: o.status = 'unknown'; o.notes = st.notes()
            if r == z3.unsat and self.second: o.backend = self._second(st, g)
        o.time = time.time() - t
        self.obls.append(o)
        return o
    def _model_text(self, st, g):
        try:
            m = getattr(self, '_lastmodel', None)
            if m is None: return 'path condition satisfiable; obligation is false: %s' % (g,)
            d = sorted(str(x) + ' = ' + str(m[x]) for x in m.decls() if not str(x).startswith('&'))
            return 'negated obligation satisfiable, goal %s, model: ' % (str(g)[:600],) + '; '.join(d)[:3000]
        except Exception as e: return 'model unavailable: %s' % e
    def proved_cand(self, st, goal):
        """a loop invariant candidate: kept only if proved.  If it is dropped because no solver gives an answer, obligations that fail
        later in this unit may fail for want of the candidate: the unit is then undecided (r.err), not violated"""
        if isinstance(goal, bool): return goal or self.check(st) == z3.unsat
        g = simp(goal)
        if z3.is_true(g): return True
        r = self.check(st, z3.Not(g))
        if r == z3.unknown:
            if self._second(st, g, '20000') == 'z3+cvc5': return True
            self.shaky.append(str(g)[:300])
        return r == z3.unsat
    def _second(self, st, g, limit='10000'):
        """ask cvc5 about the SMT-LIB text (thorough tier: to confirm; otherwise where z3 gives no answer)"""
        try:
            import cvc5
            s = z3.Solver()
            for a in self.axioms: s.add(a)
            for c in st.pc: s.add(c)
            s.add(z3.Not(g))
            txt = s.to_smt2()
            tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
            slv = cvc5.Solver(tm) if tm else cvc5.Solver()
            slv.setOption('tlimit-per', limit)
            ip = cvc5.InputParser(slv)
            ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + txt, 'q')
            sm = ip.getSymbolManager(); res = None
            while True:
                cmd = ip.nextCommand()
                if cmd.isNull(): break
                out = cmd.invoke(slv, sm)
                if out.strip() in ('unsat', 'sat', 'unknown'): res = out.strip()
            if res == 'unsat': return 'z3+cvc5'
            if res == 'sat' and self.second: raise ToolError('cvc5 disagrees with z3 on %s' % self.unit)
            return 'z3 (cvc5 %s)' % res
        except ToolError: raise
        except Exception as e: return 'z3 (cvc5 error %s)' % str(e)[:60]
    def cover(self, name, st):
        """reachability cover: the path must be satisfiable"""
        if self.dry: return
        if self.covers.get((self.unit, name)): return
        self.covers[(self.unit, name)] = (self.check(st) == z3.sat)
    def curloc(self):
        for fn, ins in reversed(self.fnstack):
            if ins is not None:
                l = fn.mod.loc(ins.dbg)
                if l and '/boost/fiber/' in l[0] or l and '/repo/' in l[0]: return '%s:%d (%s)' % (l[0].split('/repo/')[-1], l[1], fn.dem)
        if self.fnstack:
            fn, ins = self.fnstack[-1]
            l = fn.mod.loc(ins.dbg) if ins is not None else None
            return '%s (%s)' % ('%s:%d' % l if l else '?', fn.dem)
        return '?'
    # ------------------------------------------------------------------ pointers
    def sym(self, t, cls=None, name=None):
        """Ptr for a 64 bit address term"""
        t = simp(t)
        c = cval(t)
        if c is not None:
            if c == 0: return NULL
            return Ptr(NULLR, c)
        r = self.addr_reg.get(t.get_id())
        if r is not None: return Ptr(r[1], 0)
        # const + X  (z3 normal form puts the constant first)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_BADD:
            ch = t.children()
            for i, x in enumerate(ch):
                rr = self.addr_reg.get(x.get_id())
                if rr is not None:
                    rest = [y for j, y in enumerate(ch) if j != i]
                    o = rest[0]
                    for y in rest[1:]: o = o + y
                    return Ptr(rr[1], simp(o))
            if z3.is_bv_value(ch[0]):
                x = ch[1]
                for y in ch[2:]: x = x + y
                x = simp(x)
                p = self.sym(x, cls)
                return p.add(ch[0].as_signed_long())
        r = Region('sym', name or str(t)[:60], t, cls)
        self.addr_reg[t.get_id()] = (t, r)
        return Ptr(r, 0)
    def newregion(self, kind, name, size=None, cls=None, addr=None):
        r = Region(kind, name, addr, cls, size); self.addr_reg[r.addr.get_id()] = (r.addr, r)
        return r
    def symobj(self, name, cls, distinct=False):
        """a declared external object (non-null)"""
        r = self.newregion('sym', name, cls=cls); r.dist = distinct
        self.axioms.append(z3.And(z3.UGE(r.addr, bv(4096)), z3.ULT(r.addr, bv(1 << 47)))); self._solver = None; self._solver_pc = None
        return Ptr(r, 0)
    def ptr_eq(self, p, q):
        if p.base is q.base:
            if isint(p.off) and isint(q.off): return z3.BoolVal(p.off == q.off)
            return simp(p.offbv() == q.offbv())
        hard = ('stack', 'heap', 'global', 'fn', 'vt')
        for a, b in ((p, q), (q, p)):
            if a.base.kind == 'null' and isint(a.off) and a.off == 0 and (b.base.kind in hard): return z3.BoolVal(False)
            if a.base.kind == 'null' and isint(a.off) and a.off == 0 and isint(b.off) and b.off != 0 and b.base.kind == 'sym':
                # p->field == null: an interior pointer of an object is never null (in-bounds GEP)
                if b.off > 0 and b.off < 4096: return simp(b.bv() == 0)
        if p.base.kind in hard and q.base.kind in hard: return z3.BoolVal(False)
        if p.base.dist and q.base.dist: return z3.BoolVal(False)
        for a, b in ((p, q), (q, p)):
            if a.base.kind in hard and not a.base.escaped and b.base.kind == 'sym': return z3.BoolVal(False)
        return simp(p.bv() == q.bv())
    def alias(self, st, b1, b2):
        """relation of two bases: True (same), False (distinct) or a condition"""
        if b1 is b2: return True
        hard = ('stack', 'heap', 'global', 'fn', 'vt', 'null')
        if b1.kind in hard and b2.kind in hard: return False
        if b1.dist and b2.dist: return False
        for a, b in ((b1, b2), (b2, b1)):
            if a.kind in hard: 
                return False
        if b1.cls and b2.cls and not self.cls_compatible(b1.cls, b2.cls): return False
        c = simp(b1.addr == b2.addr)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if not self.feasible(st, c): return False
        if self.check(st, z3.Not(c)) == z3.unsat: return True
        return c
    def cls_compatible(self, a, b): return a == b
    # ------------------------------------------------------------------ memory
    def tysize(self, mod, ty): return mod.sizeof(ty)
    def store(self, st, p, val, size):
        """raw store of one scalar"""
        if p.base.kind == 'null': raise ToolError('store through null/constant pointer at %s' % self.curloc())
        if isinstance(val, Ptr) and val.base.kind in ('stack', 'heap') and p.base.kind != 'stack': val.base.escaped = True
        st.mem = Ev('w', p.base, p.off, size, val, st.mem)
    def toint(self, v, w):
        if isinstance(v, Ptr):
            t = v.bv()
            return t if w == 64 else z3.Extract(w-1, 0, t)
        if z3.is_bool(v): return z3.If(v, bv(1, w), bv(0, w))
        return v
    def conv(self, v, ty, size):
        """value stored -> value of type ty (same size)"""
        if ty == PTR:
            return v if isinstance(v, Ptr) else self.sym(self.toint(v, 64))
        if ty[0] == 'i' and ty[1] == 1:
            if z3.is_bool(v): return v
            v = self.toint(v, size*8)
            return simp(z3.Extract(0, 0, v) == 1)
        if ty[0] == 'i':
            t = self.toint(v, size*8)
            if t.size() > ty[1]: t = simp(z3.Extract(ty[1]-1, 0, t))
            return t
        if ty[0] == 'f':
            return self.toint(v, size*8)
        raise ToolError('conv %r' % (ty,))
    def load_raw(self, st, base, off, size, ty, mem=None):
        """-> list of (cond, value)"""
        node = st.mem if mem is None else mem[0]
        res = []; neg = []
        offb = bv(off & (1<<64)-1) if isint(off) else off
        def emit(c, v):
            res.append((c, v))
        while node is not None:
            e = node; node = node.parent
            if e.k == 'hv':
                r = e.x(self, base, off, size, ty)
                if r is None: continue
                emit(None, r); break
            a = True if e.base is base else (self.alias(st, e.base, base) if True else False)
            if a is False: continue
            if e.k == 'cps':
                # block copy of symbolic extent: [off, off+len) <- source snapshot
                eo = bv(e.off & (1<<64)-1) if isint(e.off) else e.off
                d = simp(offb - eo); ins = simp(z3.ULT(d, e.size))
                if not self.feasible(st, ins): continue
                if a is not True: raise ToolError('block copy may-alias at %s' % self.curloc())
                if self.feasible(st, z3.And(ins, z3.ULT(e.size - d, bv(size)))) or self.feasible(st, z3.And(z3.Not(ins), z3.ULT(eo - offb, bv(size)))):
                    raise ToolError('partial overlap with a block copy at %s' % self.curloc())
                smem, sbase, soff = e.x
                for c, v in self.load_raw(st, sbase, simp((bv(soff) if isint(soff) else soff) + d), size, ty, (smem,)): emit(ins if c is None else z3.And(ins, c), v)
                if not self.feasible(st, z3.Not(ins)): break
                continue
            if isint(e.off) and isint(off):
                if e.off >= off + size or off >= e.off + e.size: continue
                exact = (e.off == off and e.size == size)
                oc = True
            else:
                eo = bv(e.off & (1<<64)-1) if isint(e.off) else e.off
                if e.k == 'w' and e.size == size:
                    oc = simp(eo == offb)
                    if z3.is_false(oc): continue
                    if z3.is_true(oc): oc = True
                    else:
                        if not self.feasible(st, oc): continue
                        if self.check(st, z3.Not(oc)) == z3.unsat: oc = True
                    exact = True
                else:
                    ov = z3.And(z3.ULT(eo - offb + (size-1), bv(size - 1 + e.size))) if isint(e.size) else None
                    if ov is None or self.feasible(st, ov):
                        if e.k == 'set' and a is True and isint(e.size) and e.size >= size:
                            # inside the cleared block, or outside; never across its border
                            ins = simp(z3.ULE(offb - eo, bv(e.size - size)))
                            if self.feasible(st, z3.And(ov, z3.Not(ins))): raise ToolError('symbolic offset at the border of a block write at %s' % self.curloc())
                            v = self.conv(simp(z3.Concat(*([e.val] * size))) if size > 1 else e.val, ty, size)
                            if self.check(st, z3.Not(ins)) == z3.unsat: emit(None, v); break
                            emit(ins, v); continue
                        if e.k == 'set' or e.k == 'cpy': raise ToolError('symbolic offset over block write at %s' % self.curloc())
                        raise ToolError('partial overlap with symbolic offset at %s' % self.curloc())
                    continue
            if e.k == 'w':
                if exact: v = self.conv(e.val, ty, size)
                elif e.off <= off and off + size <= e.off + e.size:
                    t = self.toint(e.val, e.size*8); lo = (off - e.off)*8
                    v = self.conv(simp(z3.Extract(lo+size*8-1, lo, t)), ty, size)
                else:
                    # combine bytes
                    if a is not True: raise ToolError('partial may-alias at %s' % self.curloc())
                    bs = []
                    for k in range(size):
                        if e.off <= off+k < e.off+e.size:
                            t = self.toint(e.val, e.size*8); lo = (off+k-e.off)*8; bs.append(z3.Extract(lo+7, lo, t))
                        else:
                            r = self.load_raw(st, base, off+k, 1, ('i', 8), (node,))
                            if len(r) != 1: raise ToolError('byte merge')
                            bs.append(self.toint(r[0][1], 8))
                    t = simp(z3.Concat(*bs[::-1])) if len(bs) > 1 else bs[0]
                    v = self.conv(t, ty, size)
            elif e.k == 'set':
                if e.off <= off and off + size <= e.off + e.size:
                    b = e.val
                    t = simp(z3.Concat(*([b]*size))) if size > 1 else b
                    v = self.conv(t, ty, size)
                else: raise ToolError('partial memset overlap at %s' % self.curloc())
            elif e.k == 'cpy':
                if not (e.off <= off and off + size <= e.off + e.size): raise ToolError('partial memcpy overlap at %s' % self.curloc())
                smem, sbase, soff = e.x
                so = soff + (off - e.off) if isint(soff) else simp(soff + (off - e.off))
                r = self.load_raw(st, sbase, so, size, ty, (smem,))
                if a is True:
                    for c, v in r: emit(c, v)
                    break
                raise ToolError('memcpy may-alias')
            cond = None
            if a is not True: cond = a
            if oc is not True: cond = oc if cond is None else z3.And(cond, oc)
            emit(cond, v)
            if cond is None: break
        else:
            emit(None, self.init_val(base, off, size, ty))
        return res
    def init_val(self, base, off, size, ty):
        if base.kind == 'global':
            v = self.global_init(base, off, size, ty)
            if v is not None: return v
        if base.kind == 'vt':
            return Ptr(self.fnregion('virtual:%s:%d' % (base.name, off//8)), 0)
        if base.cls and isint(off) and off == 0 and ty == PTR and self.vt_resolve:
            v = self.vt_resolve(base.cls)
            if v is not None: return v
        w = size*8
        ob = bv(off & (1<<64)-1) if isint(off) else off
        t = memfun(w)(base.addr, ob)
        if ty == PTR:
            p = self.sym(t)
            if p.base.cls is None and base.cls is not None and isint(off):
                c = self.ptr_labels.get((base.cls, off))
                if c: p.base.cls = c
            return p
        return self.conv(t, ty, size)
    def label_ptr(self, base, off, v):
        if isinstance(v, Ptr) and v.base.kind == 'sym' and v.base.cls is None and base.cls is not None and isint(off):
            c = self.ptr_labels.get((base.cls, off))
            if c: v.base.cls = c
        return v
    def load(self, st, p, ty, mod=None):
        """-> list of (state, value); aggregates are loaded element-wise"""
        if ty[0] in ('st', 'lit', 'arr'):
            rty = mod.resolve(ty)
            n = rty[1] if rty[0] == 'arr' else len(rty[2])
            outs = [(st, [])]
            for i in range(n):
                o, ft = mod.field(rty, i)
                nx = []
                for s, l in outs:
                    for s2, v in self.load(s, p.add(o), ft, mod): nx.append((s2, l + [v]))
                outs = nx
            return outs
        if p.base.kind == 'null':
            raise NullDeref(p)
        size = mod.sizeof(ty) if mod else (8 if ty == PTR else (ty[1]+7)//8)
        r = self.load_raw(st, p.base, p.off, size, ty)
        if len(r) == 1:
            return [(st, self.label_ptr(p.base, p.off, r[0][1]))]
        if all(not isinstance(v, Ptr) for _, v in r):
            v = r[-1][1]
            for c, x in r[:-1][::-1]: v = z3.If(c, x, v)
            return [(st, simp(v))]
        outs = []; neg = []
        for c, v in r:
            s = st.fork()
            for n in neg: s.assume(z3.Not(n))
            if c is not None: s.assume(c); neg.append(c)
            if self.feasible(s): outs.append((s, self.label_ptr(p.base, p.off, v)))
        return outs
    def load1(self, st, p, ty, mod=None):
        """single-valued load for specifications (pointers merged as terms)"""
        if p.base.kind == 'null': raise ToolError('spec load through null')
        size = mod.sizeof(ty) if mod else (8 if ty == PTR else (ty[1]+7)//8)
        r = self.load_raw(st, p.base, p.off, size, ty)
        if len(r) == 1: return self.label_ptr(p.base, p.off, r[0][1])
        if ty == PTR:
            v = r[-1][1].bv()
            for c, x in r[:-1][::-1]: v = z3.If(c, x.bv(), v)
            return self.label_ptr(p.base, p.off, self.sym(simp(v)))
        v = r[-1][1]
        for c, x in r[:-1][::-1]: v = z3.If(c, x, v)
        return simp(v)
    def store_val(self, st, p, ty, val, mod):
        if ty[0] in ('st', 'lit', 'arr'):
            rty = mod.resolve(ty); n = rty[1] if rty[0] == 'arr' else len(rty[2])
            for i in range(n):
                o, ft = mod.field(rty, i)
                self.store_val(st, p.add(o), ft, val[i], mod)
            return
        if p.base.kind == 'null': raise NullDeref(p)
        size = mod.sizeof(ty)
        if z3.is_bool(val) if not isinstance(val, (Ptr, list)) else False: val = z3.If(val, bv(1, size*8), bv(0, size*8))
        elif not isinstance(val, Ptr) and val.size() < size*8: val = z3.ZeroExt(size*8 - val.size(), val)
        self.store(st, p, val, size)
    # ------------------------------------------------------------------ globals
    def globreg(self, name):
        r = self.regs.get(name)
        if r is None:
            r = self.newregion('global', name); self.regs[name] = r
        return r
    def fnregion(self, name):
        k = 'fn:' + name
        r = self.regs.get(k)
        if r is None:
            r = self.newregion('fn', name); self.regs[k] = r
            self.axioms.append(z3.And(z3.URem(r.addr, bv(16)) == 0, r.addr != 0)); self._solver = None; self._solver_pc = None   # ABI: functions are aligned
        return r
    def global_init(self, base, off, size, ty):
        g = self.prog.glob.get(base.name)
        if g is None: return None
        mod, txt = g
        c = base.x
        if c is None:
            base.x = c = (False, None, None)
            m = re.match(r'^(?:(?:linkonce_odr|dso_local|internal|private|unnamed_addr|local_unnamed_addr|available_externally|weak_odr|hidden|comdat) )*(thread_local )?(?:(?:unnamed_addr|local_unnamed_addr) )*(constant|global) (.*)$', txt)
            if m and m.group(2) == 'constant':
                body = re.sub(r', (comdat|align|!dbg|section).*$', '', m.group(3))
                try:
                    p = P(tokenize(body), mod); t = p.type(); v = p.value(t); base.x = c = (True, t, v)
                except IRError: pass
        if not c[0]: return None
        return self.const_at(mod, c[1], c[2], off, size, ty)
    def const_at(self, mod, t, v, off, size, ty):
        if not isint(off): return None
        r = mod.resolve(t)
        if v[0] == 'zero':
            return self.conv(bv(0, size*8), ty, size) if ty != PTR else NULL
        if r[0] in ('lit', 'arr', 'vec'):
            if v[0] != 'agg': return None
            n = r[1] if r[0] != 'lit' else len(r[2])
            for i in range(n):
                o, ft = mod.field(r, i); s = mod.sizeof(ft)
                if o <= off and off + size <= o + s: return self.const_at(mod, ft, v[1][i][1], off-o, size, ty)
            return None
        if off != 0: return None
        x = self.const(mod, r, v)
        return self.conv(x, ty, size)
    def const(self, mod, ty, v):
        k = v[0]
        if k == 'int':
            if ty == ('i', 1): return z3.BoolVal(bool(v[1]))
            return bv(v[1] & (1 << ty[1]) - 1, ty[1])
        if k == 'null': return NULL
        if k == 'undef':
            r = mod.resolve(ty)
            if r == PTR: return self.sym(freshbv('undef'))
            if r[0] == 'i': return z3.Const('undef!%d' % next(_ctr), z3.BoolSort()) if r[1] == 1 else freshbv('undef', r[1])
            if r[0] == 'f': return freshbv('undef', r[1])
            if r[0] == 'lit': return [self.const(mod, f, v) for f in r[2]]
            if r[0] == 'arr': return [self.const(mod, r[2], v) for _ in range(r[1])]
            return None
        if k == 'zero':
            r = mod.resolve(ty)
            if r == PTR: return NULL
            if r[0] == 'i': return self.const(mod, r, ('int', 0))
            if r[0] == 'f': return bv(0, r[1])
            if r[0] == 'lit': return [self.const(mod, f, v) for f in r[2]]
            if r[0] == 'arr': return [self.const(mod, r[2], v) for _ in range(r[1])]
        if k == 'agg': return [self.const(mod, t, x) for t, x in v[1]]
        if k == 'glob':
            n = v[1]
            if n in self.prog.fn or any(n in m.decls for m in self.prog.mods): return Ptr(self.fnregion(n), 0)
            return Ptr(self.globreg(n), 0)
        if k == 'fp':
            return bv(hash(v[1]) & (1 << ty[1]) - 1, ty[1]) if not v[1].startswith('0x') else bv(int(v[1], 16) & (1 << ty[1]) - 1, ty[1])
        if k == 'ce':
            op = v[1]
            if op == 'gep':
                args = v[3]; base = self.const(mod, PTR, args[0][1])
                return self.gep(mod, v[2], base, [(t, self.const(mod, t, x)) for t, x in args[1:]])
            if op == 'ptrtoint': return self.toint(self.const(mod, PTR, v[3]), v[4][1])
            if op == 'inttoptr': return self.sym(self.const(mod, v[2], v[3]))
            if op in ('bitcast', 'addrspacecast'): return self.const(mod, v[4], v[3])
            if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl'):
                a = self.const(mod, v[2], v[3]); b = self.const(mod, v[2], v[4])
                return self.binop(op, a, b, None)
        raise ToolError('constant %r' % (v,))
    # ------------------------------------------------------------------ instruction helpers
    def gep(self, mod, ty, base, idx):
        p = base; t = ty; first = True
        for ity, i in idx:
            if first:
                s = mod.sizeof(t); first = False
                c = cval(i)
                if c is not None:
                    w = ity[1]
                    if c >= 1 << (w-1): c -= 1 << w
                    p = p.add(c*s)
                else: p = p.add(simp(self.sx64(i)*s))
            else:
                r = mod.resolve(t)
                c = cval(i)
                if r[0] == 'lit':
                    o, t = mod.field(r, c); p = p.add(o)
                else:
                    s = mod.sizeof(r[2]); t = r[2]
                    if c is not None:
                        w = ity[1]
                        if c >= 1 << (w-1): c -= 1 << w
                        p = p.add(c*s)
                    else: p = p.add(simp(self.sx64(i)*s))
        return p
    def sx64(self, i):
        if i.size() == 64: return i
        return z3.SignExt(64 - i.size(), i)
    def binop(self, op, a, b, st):
        if isinstance(a, Ptr): a = a.bv()
        if isinstance(b, Ptr): b = b.bv()
        if z3.is_bool(a):
            if op == 'and': return simp(z3.And(a, b))
            if op == 'or': return simp(z3.Or(a, b))
            if op in ('xor', 'add', 'sub'): return simp(z3.Xor(a, b))
            raise ToolError('i1 %s' % op)
        if op == 'add': r = a + b
        elif op == 'sub':
            r = a - b
        elif op == 'mul': r = a * b
        elif op == 'udiv': r = z3.UDiv(a, b)
        elif op == 'sdiv': r = a / b
        elif op == 'urem': return self.urem(st, a, b)
        elif op == 'srem': r = z3.SRem(a, b)
        elif op == 'shl': r = a << b
        elif op == 'lshr': r = z3.LShR(a, b)
        elif op == 'ashr': r = a >> b
        elif op == 'and': r = a & b
        elif op == 'or': r = a | b
        elif op == 'xor': r = a ^ b
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            return z3.Function('%s%d' % (op, a.size()), a.sort(), a.sort(), a.sort())(a, b)
        else: raise ToolError(op)
        return simp(r)
    def urem(self, st, a, n):
        if z3.is_bv_value(n) or st is None: return simp(z3.URem(a, n))
        # instances of the division lemma instead of bit-blasting a 64 bit remainder
        if self.proved(st, z3.ULT(a, n)): return a
        m2 = z3.And(z3.UGE(a, n), z3.ULT(a - n, n))
        if self.proved(st, m2): return simp(a - n)
        if self.proved(st, z3.And(z3.ULE(a, n), n != 0)): return simp(z3.If(a == n, bv(0), a))
        if self.proved(st, z3.And(n != 0, z3.Or(z3.ULT(a, n), z3.ULT(a - n, n)))): return simp(z3.If(z3.ULT(a, n), a, a - n))
        r = z3.Function('urem64', BV64, BV64, BV64)(a, n)
        st.assume(z3.Implies(n != 0, z3.ULT(r, n)))
        st.assume(z3.Implies(z3.ULT(a, n), r == a))
        st.assume(z3.Implies(z3.And(n != 0, z3.UGE(a, n), z3.ULT(a - n, n)), r == a - n))
        st.assume(z3.Implies(z3.And(n != 0, n & (n - 1) == 0), r == a & (n - 1)))
        return r
    def icmp(self, c, ty, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr): a = self.sym(a)
            if not isinstance(b, Ptr): b = self.sym(b)
            if c == 'eq': return self.ptr_eq(a, b)
            if c == 'ne': return simp(z3.Not(self.ptr_eq(a, b)))
            if a.base is b.base and not (isint(a.off) and isint(b.off)):
                a, b = a.offbv(), b.offbv()
                c = {'ult':'slt','ule':'sle','ugt':'sgt','uge':'sge'}.get(c, c)
            elif a.base is b.base:
                a, b = bv(a.off & (1<<64)-1), bv(b.off & (1<<64)-1)
                c = {'ult':'slt','ule':'sle','ugt':'sgt','uge':'sge'}.get(c, c)
            else: a, b = a.bv(), b.bv()
        if z3.is_bool(a):
            if c == 'eq': return simp(a == b)
            if c == 'ne': return simp(a != b)
            a = z3.If(a, bv(1, 1), bv(0, 1)); b = z3.If(b, bv(1, 1), bv(0, 1))
        f = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
             'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
             'sgt': lambda: a > b, 'sge': lambda: a >= b}[c]
        return simp(f())
    def val(self, fn, env, ty, v):
        if v[0] == 'loc':
            if v[1] not in env: raise ToolError('undefined SSA %s in %s' % (v[1], fn.dem))
            return env[v[1]]
        return self.const(fn.mod, fn.mod.resolve(ty) if ty[0] == 'st' else ty, v)
    def merge(self, c, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if a.base is b.base:
                if isint(a.off) and isint(b.off) and a.off == b.off: return a
                return Ptr(a.base, simp(z3.If(c, a.offbv(), b.offbv())))
            return None
        if isinstance(a, list): 
            r = [self.merge(c, x, y) for x, y in zip(a, b)]
            return None if any(x is None for x in r) else r
        return simp(z3.If(c, a, b))

class NullDeref(Exception):
    def __init__(self, p): self.p = p
