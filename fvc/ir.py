"""Textual LLVM IR (18) front end: lazy parsing of modules, types, functions."""
import re, subprocess

TOK = re.compile(r'''\s*(
   c"(?:[^"\\]|\\.)*" | "(?:[^"\\]|\\.)*" |
   [%@\#!$](?:"(?:[^"\\]|\\.)*"|[-A-Za-z0-9_.$]+) |
   \.\.\. | -?\d+\.\d+(?:e[+-]?\d+)? | 0x[0-9A-Fa-f]+ | -?\d+ | [A-Za-z_][A-Za-z0-9_.]* | [-=,()<>\[\]{}*:|!] | ;
)''', re.X)

class IRError(Exception): pass

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '': break
            raise IRError('tokenize: %r' % s[i:i+60])
        t = m.group(1)
        if t == ';': break
        out.append(t); i = m.end()
    return out

PTR = ('ptr',); VOID = ('void',)
def unq(name):
    # %"foo bar" -> foo bar
    n = name[1:]
    if n.startswith('"'): n = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1),16)), n[1:-1])
    return n

class P:
    """token stream parser"""
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.mod = mod
    def peek(self, k=0):
        return self.t[self.i+k] if self.i+k < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def accept(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def expect(self, x):
        y = self.next()
        if y != x: raise IRError('expected %r got %r in %s' % (x, y, ' '.join(self.t)))
    # ---- types
    def type(self):
        t = self.next()
        if t == 'ptr':
            if self.peek() == 'addrspace':
                self.next(); self.expect('('); self.next(); self.expect(')')
            ty = PTR
        elif t == 'void': ty = VOID
        elif re.fullmatch(r'i\d+', t): ty = ('i', int(t[1:]))
        elif t in ('float',): ty = ('f', 32)
        elif t in ('double',): ty = ('f', 64)
        elif t == 'x86_fp80': ty = ('f', 80)
        elif t == 'fp128': ty = ('f', 128)
        elif t == 'label': ty = ('label',)
        elif t == 'metadata': ty = ('meta',)
        elif t == 'token': ty = ('token',)
        elif t == 'opaque': ty = ('opaque',)
        elif t[0] == '%': ty = ('st', unq(t))
        elif t == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']'); ty = ('arr', n, e)
        elif t == '{': ty = ('lit', False, tuple(self._tylist('}')))
        elif t == '<':
            if self.peek() == '{':
                self.next(); l = self._tylist('}'); self.expect('>'); ty = ('lit', True, tuple(l))
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>'); ty = ('vec', n, e)
        else: raise IRError('type? %r in %s' % (t, ' '.join(self.t)))
        while self.peek() == '(':   # function type
            self.next(); ps = []
            while not self.accept(')'):
                if self.accept('...'): ps.append('...')
                else: ps.append(self.type()); self._skip_attrs()
                self.accept(',')
            ty = ('fn', ty, tuple(ps))
        return ty
    def _tylist(self, end):
        l = []
        while not self.accept(end):
            l.append(self.type()); self.accept(',')
        return l
    ATTR = set('''noundef nonnull zeroext signext inreg noalias nocapture readonly writeonly readnone returned immarg
      nest swiftself swifterror allocalign allocptr nofree noinline nounwind writable dead_on_unwind nofpclass dllexport dso_local
      local_unnamed_addr unnamed_addr mustprogress'''.split())
    def _skip_attrs(self):
        d = {}
        while True:
            t = self.peek()
            if t in self.ATTR: self.next(); d[t] = True
            elif t == 'align':
                self.next()
                if self.accept('('): d['align'] = int(self.next()); self.expect(')')
                else: d['align'] = int(self.next())
            elif t in ('dereferenceable', 'dereferenceable_or_null', 'nofpclass','range'):
                self.next(); self.expect('('); d[t] = self.next()
                while not self.accept(')'): self.next()
            elif t in ('sret', 'byval', 'byref', 'inalloca', 'preallocated', 'elementtype'):
                self.next(); self.expect('('); d[t] = self.type(); self.expect(')')
            elif t is not None and t[0] == '"' : self.next()
            else: return d
    # ---- values -> ('loc',name) ('glob',name) ('int',n) ('null',) ('undef',) ('zero',) ('agg',[(ty,val)]) ('ce',op,...)
    def value(self, ty):
        t = self.next()
        if t[0] == '%': return ('loc', unq(t))
        if t[0] == '@': return ('glob', unq(t))
        if t == 'null': return ('null',)
        if t in ('undef', 'poison'): return ('undef',)
        if t == 'true': return ('int', 1)
        if t == 'false': return ('int', 0)
        if t == 'zeroinitializer': return ('zero',)
        if re.fullmatch(r'-?\d+', t): return ('int', int(t))
        if re.fullmatch(r'-?\d+\.\d+(e[+-]?\d+)?', t): return ('fp', t)
        if t.startswith('0x'): return ('fp', t)
        if t.startswith('c"'): return ('cstr', t)
        if t == '{' or t == '[':
            end = '}' if t == '{' else ']'
            l = []
            while not self.accept(end):
                e = self.type(); l.append((e, self.value(e))); self.accept(',')
            return ('agg', l)
        if t == '<':
            if self.accept('{'):
                l = []
                while not self.accept('}'):
                    e = self.type(); l.append((e, self.value(e))); self.accept(',')
                self.expect('>'); return ('agg', l)
            l = []
            while not self.accept('>'):
                e = self.type(); l.append((e, self.value(e))); self.accept(',')
            return ('agg', l)
        if t == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'): self.next()
            if self.peek()=='inrange': 
                self.next()
            self.expect('('); sty = self.type(); self.expect(',')
            args = []
            while not self.accept(')'):
                self.accept('inrange')
                e = self.type(); args.append((e, self.value(e))); self.accept(',')
            return ('ce', 'gep', sty, args)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext','addrspacecast'):
            self.expect('('); e = self.type(); v = self.value(e); self.expect('to'); to = self.type(); self.expect(')')
            return ('ce', t, e, v, to)
        if t in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl'):
            while self.peek() in ('nuw', 'nsw'): self.next()
            self.expect('('); e = self.type(); a = self.value(e); self.expect(','); e2 = self.type(); b = self.value(e2); self.expect(')')
            return ('ce', t, e, a, b)
        if t == 'asm': 
            while self.peek()[0] != '"': self.next()
            a = self.next(); 
            self.expect(','); b = self.next()
            return ('asm', a, b)
        if t in ('dso_local_equivalent','no_cfi'): return self.value(ty)
        raise IRError('value? %r in %s' % (t, ' '.join(self.t)))
    def tv(self):
        ty = self.type(); self._skip_attrs(); return (ty, self.value(ty))

class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'text', 'x')
    def __init__(self, op, res, ty, a, dbg, text):
        self.op = op; self.res = res; self.ty = ty; self.a = a; self.dbg = dbg; self.text = text; self.x = None
    def __repr__(self): return self.text

class Block:
    def __init__(self, name): self.name = name; self.ins = []; self.phis = []
    def succs(self):
        t = self.ins[-1]
        if t.op == 'br': return [t.a[-1]] if len(t.a) == 1 else [t.a[1], t.a[2]]
        if t.op == 'switch': return [t.a[1]] + [l for _, l in t.a[2]]
        if t.op == 'invoke': return [t.a['normal'], t.a['unwind']]
        return []

class Fn:
    def __init__(self, mod, name, header, lines):
        self.mod = mod; self.name = name; self.header = header; self.lines = lines; self.parsed = False
        self.dem = None
    def ensure(self):
        if not self.parsed: self._parse(); self.parsed = True
        return self
    def _parse(self):
        hdr = self.header
        m = re.search(r'!dbg !(\d+)', hdr); self.dbg = int(m.group(1)) if m else None
        toks = tokenize(hdr[:hdr.rindex('{')] if hdr.rstrip().endswith('{') else hdr)
        i = next(k for k, t in enumerate(toks) if t[0] == '@')
        # find return type: walk back is hard; parse forward skipping keywords
        p = P(toks, self.mod); p.next()
        LINK = set('''linkonce_odr linkonce weak weak_odr internal private dso_local hidden external available_externally
                       protected default fastcc ccc local_unnamed_addr unnamed_addr'''.split())
        while p.peek() in LINK: p.next()
        p._skip_attrs(); self.retty = p.type(); p._skip_attrs()
        p.next()
        p.expect('('); self.params = []; k = 0
        while not p.accept(')'):
            if p.accept('...'): self.vararg = True; continue
            ty = p.type(); at = p._skip_attrs()
            if p.peek() and p.peek()[0] == '%': nm = unq(p.next())
            else: nm = str(k)
            k += 1
            self.params.append((nm, ty, at)); p.accept(',')
        self.attrs = []
        while p.peek() is not None:
            t = p.next()
            if t[0] == '#': self.attrs.append(int(t[1:]))
        self.blocks = {}; self.order = []
        nunn = len([1 for (n, _, _) in self.params if n.isdigit()])
        cur = None
        lines = self.lines
        j = 0
        while j < len(lines):
            ln = lines[j]; j += 1
            s = ln.strip()
            if not s or s.startswith(';'): continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-A-Za-z0-9_.$]+):', ln)
            if m:
                nm = m.group(1)
                if nm.startswith('"'): nm = unq('%' + nm)
                cur = Block(nm); self.blocks[nm] = cur; self.order.append(nm); continue
            if cur is None:
                nm = 'entry' if not re.match(r'^\d', s) else str(nunn)
                nm = str(nunn)
                cur = Block(nm); self.blocks[nm] = cur; self.order.append(nm)
            # join continuation lines
            if s.startswith('switch') or ' switch ' in s:
                while ']' not in s: s += ' ' + lines[j].strip(); j += 1
            elif re.match(r'^(%\S+ = )?invoke ', s):
                while ' unwind label' not in s: s += ' ' + lines[j].strip(); j += 1
            elif re.match(r'^%\S+ = landingpad', s):
                while j < len(lines) and re.match(r'^\s+(catch|cleanup|filter)\b', lines[j]):
                    s += ' ' + lines[j].strip(); j += 1
                    
            ins = self._ins(s)
            if ins.op == 'phi': cur.phis.append(ins)
            else: cur.ins.append(ins)
        self._loops()
    def _ins(self, s):
        text = s
        dbg = None
        m = re.search(r', !dbg !(\d+)', s)
        if m: dbg = int(m.group(1))
        m = re.search(r', !(dbg|tbaa|prof|llvm\.loop|srcloc|nosanitize|noundef|range|nonnull|heapallocsite|align|tbaa\.struct|invariant\.group|noalias|alias\.scope|dereferenceable) !', s)
        if m: s = s[:m.start()]
        toks = tokenize(s); p = P(toks, self.mod)
        res = None
        if p.peek(1) == '=':
            res = unq(p.next()); p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'): op = p.next()
        I = lambda ty, a: Ins(op, res, ty, a, dbg, text)
        if op == 'alloca':
            ty = p.type(); cnt = None
            while p.accept(','):
                if p.peek() == 'align': p._skip_attrs()
                else: cnt = p.tv()
            return I(ty, cnt)
        if op == 'load':
            at = p.accept('atomic'); p.accept('volatile')
            ty = p.type(); p.expect(','); ptr = p.tv()
            order = None
            if at: 
                order = self._order(p)
            return I(ty, (ptr, order))
        if op == 'store':
            at = p.accept('atomic'); p.accept('volatile')
            v = p.tv(); p.expect(','); ptr = p.tv()
            order = self._order(p) if at else None
            return I(v[0], (v, ptr, order))
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
            ty = p.type(); args = []
            while p.accept(','): args.append(p.tv())
            return I(ty, args)
        if op in ('call', 'invoke'):
            while p.peek() in ('fastcc', 'ccc', 'coldcc','fast','nnan','nsz'): p.next()
            rat = p._skip_attrs(); rty = p.type(); 
            if rty[0] == 'fn': fnty = rty; rty = rty[1]
            callee = p.value(PTR)
            p.expect('('); args = []
            while not p.accept(')'):
                ty = p.type()
                if ty == ('meta',):
                    # skip metadata operand
                    depth = 0
                    while p.peek() not in (',', ')') or depth:
                        t = p.next()
                        if t == '(': depth += 1
                        elif t == ')': depth -= 1
                    args.append((ty, ('undef',), {}))
                else:
                    at = p._skip_attrs(); args.append((ty, p.value(ty), at))
                p.accept(',')
            d = dict(callee=callee, args=args, rat=rat, attrs=[])
            while p.peek() is not None and p.peek()[0] in '#"':
                t = p.next()
                if t[0] == '#': d['attrs'].append(int(t[1:]))
            if op == 'invoke':
                p.expect('to'); p.expect('label'); d['normal'] = unq(p.next())
                p.expect('unwind'); p.expect('label'); d['unwind'] = unq(p.next())
            return I(rty, d)
        if op == 'br':
            if p.accept('label'): return I(None, [unq(p.next())])
            c = p.tv(); p.expect(','); p.expect('label'); a = unq(p.next()); p.expect(','); p.expect('label'); b = unq(p.next())
            return I(None, [c, a, b])
        if op == 'switch':
            v = p.tv(); p.expect(','); p.expect('label'); d = unq(p.next()); p.expect('[')
            cs = []
            while not p.accept(']'):
                c = p.tv(); p.expect(','); p.expect('label'); cs.append((c, unq(p.next())))
            return I(None, (v, d, cs))
        if op == 'ret':
            if p.peek() == 'void': return I(VOID, None)
            v = p.tv(); return I(v[0], v)
        if op == 'phi':
            ty = p.type(); inc = []
            while True:
                p.expect('['); v = p.value(ty); p.expect(','); l = unq(p.next()); p.expect(']'); inc.append((v, l))
                if not p.accept(','): break
            return I(ty, inc)
        if op == 'icmp':
            c = p.next(); ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
            return I(ty, (c, a, b))
        if op == 'fcmp':
            while p.peek() in ('fast','nnan','nsz','ninf'): p.next()
            c = p.next(); ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
            return I(ty, (c, a, b))
        if op == 'select':
            c = p.tv(); p.expect(','); a = p.tv(); p.expect(','); b = p.tv(); return I(a[0], (c, a, b))
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = []
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint', 'fast','nnan','nsz'): fl.append(p.next())
            ty = p.type(); a = p.value(ty); p.expect(','); b = p.value(ty)
            r = I(ty, (a, b)); r.x = fl; return r
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp',
                  'fpext', 'fptrunc', 'addrspacecast'):
            while p.peek() in ('nneg','nuw','nsw'): p.next()
            v = p.tv(); p.expect('to'); return I(p.type(), v)
        if op == 'freeze': v = p.tv(); return I(v[0], v)
        if op == 'fneg': v = p.tv(); return I(v[0], v)
        if op == 'extractvalue':
            v = p.tv(); idx = []
            while p.accept(','): idx.append(int(p.next()))
            return I(v[0], (v, idx))
        if op == 'insertvalue':
            v = p.tv(); p.expect(','); e = p.tv(); idx = []
            while p.accept(','): idx.append(int(p.next()))
            return I(v[0], (v, e, idx))
        if op == 'landingpad':
            ty = p.type(); cl = []; cleanup = False
            while p.peek() is not None:
                t = p.next()
                if t == 'cleanup': cleanup = True
                elif t == 'catch': cl.append(('catch', p.tv()))
                elif t == 'filter': cl.append(('filter', p.tv()))
            return I(ty, (cleanup, cl))
        if op == 'resume': return I(None, p.tv())
        if op == 'unreachable': return I(None, None)
        if op == 'atomicrmw':
            p.accept('volatile'); o = p.next(); ptr = p.tv(); p.expect(','); v = p.tv(); order = self._order(p)
            return I(v[0], (o, ptr, v, order))
        if op == 'cmpxchg':
            weak = p.accept('weak'); p.accept('volatile'); ptr = p.tv(); p.expect(','); c = p.tv(); p.expect(','); n = p.tv()
            o1 = self._order(p); o2 = self._order(p)
            return I(c[0], (ptr, c, n, o1, o2, weak))
        if op == 'fence': return I(None, self._order(p))
        raise IRError('instruction? %s' % text)
    def _order(self, p):
        if p.peek() == 'syncscope':
            p.next(); p.expect('('); p.next(); p.expect(')')
        return p.next()
    # --- CFG: dominators & natural loops
    def _loops(self):
        succ = {b: self.blocks[b].succs() for b in self.order}
        pred = {b: [] for b in self.order}
        for b, ss in succ.items():
            for s in ss: pred[s].append(b)
        entry = self.order[0]
        # RPO
        seen = set(); post = []
        st = [(entry, iter(succ[entry]))]; seen.add(entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(succ[s]))); break
            else:
                post.append(b); st.pop()
        rpo = post[::-1]; num = {b: i for i, b in enumerate(rpo)}
        idom = {entry: entry}; ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for q in pred[b]:
                    if q in idom:
                        if new is None: new = q
                        else:
                            x, y = q, new
                            while x != y:
                                while num[x] > num[y]: x = idom[x]
                                while num[y] > num[x]: y = idom[y]
                            new = x
                if idom.get(b) != new: idom[b] = new; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == entry: return False
                b = idom[b]
        self.loops = {}   # header -> set of blocks
        for b in rpo:
            for s in succ[b]:
                if dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x); work.extend(q for q in pred[x] if q in num)
                elif num[s] <= num[b]:
                    raise IRError('irreducible loop in %s' % self.name)

class Module:
    def __init__(self, path, tag=''):
        self.path = path; self.types = {}; self.globals = {}; self.fns = {}; self.decls = set(); self.aliases = {}
        self.md = {}; self.attr = {}
        lines = open(path).read().split('\n')
        i = 0; n = len(lines)
        while i < n:
            ln = lines[i]; i += 1
            if not ln: continue
            c = ln[0]
            if c == '%':
                m = re.match(r'^(%(?:"(?:[^"\\]|\\.)*"|[-A-Za-z0-9_.$]+)) = type (.*)$', ln)
                self.types[unq(m.group(1))] = m.group(2)
            elif c == '@':
                m = re.match(r'^(@(?:"(?:[^"\\]|\\.)*"|[-A-Za-z0-9_.$]+)) = (.*)$', ln)
                if re.search(r'\balias\b', m.group(2).split('"')[0].split('ptr @')[0]):
                    t = re.search(r'ptr (@(?:"(?:[^"\\]|\\.)*"|[-A-Za-z0-9_.$]+))', m.group(2))
                    self.aliases[unq(m.group(1))] = unq(t.group(1))
                else: self.globals[unq(m.group(1))] = m.group(2)
            elif ln.startswith('define'):
                m = re.search(r'(@(?:"(?:[^"\\]|\\.)*"|[-A-Za-z0-9_.$]+))\(', ln)
                j = i
                while lines[j] != '}': j += 1
                nm = unq(m.group(1))
                self.fns[nm] = Fn(self, nm, ln, lines[i:j]); i = j+1
            elif ln.startswith('declare'):
                m = re.search(r'(@(?:"(?:[^"\\]|\\.)*"|[-A-Za-z0-9_.$]+))\(', ln); self.decls.add(unq(m.group(1)))
                a = re.findall(r'#(\d+)', ln)
                self.decls.add(unq(m.group(1)))
            elif c == '!':
                m = re.match(r'^!(\d+) = (.*)$', ln)
                if m: self.md[int(m.group(1))] = m.group(2)
            elif ln.startswith('attributes #'):
                m = re.match(r'^attributes #(\d+) = \{(.*)\}', ln); self.attr[int(m.group(1))] = m.group(2)
        self._tc = {}; self._lc = {}
    def typedef(self, name):
        t = self._tc.get(name)
        if t is None:
            p = P(tokenize(self.types[name]), self); t = p.type(); self._tc[name] = t
        return t
    def size_align(self, ty):
        r = self._lc.get(ty)
        if r: return r
        k = ty[0]
        if k == 'ptr': r = (8, 8)
        elif k == 'i':
            b = (ty[1]+7)//8; a = 1
            while a < b and a < 16: a *= 2
            r = ((b+a-1)//a*a, a)
        elif k == 'f': r = {32: (4, 4), 64: (8, 8), 80: (16, 16), 128: (16, 16)}[ty[1]]
        elif k == 'arr':
            s, a = self.size_align(ty[2]); r = (s*ty[1], a)
        elif k == 'vec':
            s, a = self.size_align(ty[2]); r = (s*ty[1], s*ty[1])
        elif k == 'st': r = self.size_align(self.typedef(ty[1]))
        elif k == 'lit':
            off = 0; al = 1
            for f in ty[2]:
                s, a = self.size_align(f)
                if ty[1]: a = 1
                off = (off+a-1)//a*a + s; al = max(al, a)
            r = ((off+al-1)//al*al, al)
        elif k == 'opaque': r = (0, 1)
        else: raise IRError('size of %r' % (ty,))
        self._lc[ty] = r
        return r
    def sizeof(self, ty): return self.size_align(ty)[0]
    def resolve(self, ty):
        while ty[0] == 'st': ty = self.typedef(ty[1])
        return ty
    def field(self, ty, i):
        """(offset, type) of element i"""
        ty = self.resolve(ty)
        if ty[0] == 'arr' or ty[0] == 'vec': return (i*self.sizeof(ty[2]), ty[2])
        off = 0
        for k, f in enumerate(ty[2]):
            s, a = self.size_align(f)
            if ty[1]: a = 1
            off = (off+a-1)//a*a
            if k == i: return (off, f)
            off += s
        raise IRError('field %r %d' % (ty, i))
    def loc(self, dbg):
        """(file, line) of a DILocation (innermost)"""
        if dbg is None or dbg not in self.md: return None
        t = self.md[dbg]
        m = re.search(r'line: (\d+)', t); line = int(m.group(1)) if m else 0
        for _ in range(20):
            f = re.search(r'file: !(\d+)', t)
            if f and int(f.group(1)) in self.md:
                ft = self.md[int(f.group(1))]
                fm = re.search(r'filename: "([^"]*)"', ft); 
                return (fm.group(1) if fm else '?', line)
            s = re.search(r'scope: !(\d+)', t)
            if not s: break
            t = self.md[int(s.group(1))]
        return ('?', line)

class Program:
    """several modules with one symbol table"""
    def __init__(self, mods):
        self.mods = mods; self.fn = {}; self.dem = {}; self.glob = {}
        names = set()
        for m in mods:
            for n, f in m.fns.items():
                if n not in self.fn or 'available_externally' in self.fn[n].header: self.fn[n] = f
                names.add(n)
            names |= m.decls
            names |= set(m.globals) | set(m.aliases)
        for m in mods:
            for a, t in m.aliases.items():
                if a not in self.fn and t in m.fns: self.fn[a] = m.fns[t]
            for g, t in m.globals.items():
                if g not in self.glob or re.match(r'^(dso_local )?external ', self.glob[g][1]): self.glob[g] = (m, t)
        nl = sorted(names)
        out = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(nl), capture_output=True, text=True).stdout.split('\n')
        for a, b in zip(nl, out): self.dem[a] = b
        for n, f in self.fn.items(): f.dem = self.dem.get(n, n)
        self.bydem = {}
        for n in self.fn: self.bydem.setdefault(self.dem.get(n, n), []).append(n)
    def find(self, dem):
        """function by exact demangled name (prefers C2/D2 variants), error if absent"""
        l = self.bydem.get(dem)
        if not l: raise IRError('function not found: %s' % dem)
        return self.fn[l[0]]
    def findre(self, rx):
        r = re.compile(rx)
        l = [n for d, ns in self.bydem.items() if r.fullmatch(d) for n in ns]
        return [self.fn[n] for n in l]
