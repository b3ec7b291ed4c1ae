"""Compiles /repo's current sources (and instantiation TUs) to unoptimised IR on every run."""
import os, re, subprocess, tempfile, shutil, concurrent.futures, atexit, sys
from .ir import Module, Program
from .core import ToolError
REPO = os.environ.get('FVC_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
CXX = 'clang++-18'; OPT = '/usr/lib/llvm-18/bin/opt'
FLAGS = ['-std=gnu++17', '-DNDEBUG', '-I%s/include' % REPO, '-I%s/src' % REPO, '-I%s/tu/stubs' % HERE, '-DBOOST_FIBER_NO_LIB', '-DBOOST_FIBERS_SOURCE', '-w',
         '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-fno-discard-value-names']

class Layouts:
    def __init__(self): self.rec = {}; self.vtables = {}
    def parse(self, txt):
        for blk in txt.split('*** Dumping AST Record Layout')[1:]:
            lines = blk.split('\n')
            ents = []; size = None; align = 1
            for ln in lines[1:]:
                m = re.match(r'^\s*(\d+)(?::[\d-]+)? \| ( *)(.*)$', ln)
                if m: ents.append((int(m.group(1)), len(m.group(2))//2, m.group(3))); continue
                m = re.match(r'^\s*\| \[sizeof=(\d+)(?:, dsize=\d+)?(?:, align=(\d+))?', ln)
                if m: size = int(m.group(1)); align = int(m.group(2) or 1); break
                if ln.startswith('***'): break
            if not ents: continue
            name = re.sub(r'^(class|struct|union) ', '', ents[0][2]); name = re.sub(r' \(empty\)$', '', name)
            if name in self.rec: continue
            f = {}; order = []
            active = 1; skip_until = None
            basedepth = {1}
            depths = {1: True}   # depth -> is field level (direct or via bases)
            for off, d, t in ents[1:]:
                for k in list(depths):
                    if k > d: del depths[k]
                if not depths.get(d): continue
                if t.endswith('(base)') or t.endswith('(base) (empty)') or t.endswith('(primary base)') or t.endswith('(virtual base)'):
                    depths[d+1] = True; continue
                if t.endswith('pointer)'): continue
                t = re.sub(r' \(empty\)$', '', t)
                m = re.match(r'^(.*?)\s*([A-Za-z_]\w*)$', t)
                if m and m.group(2) not in f: f[m.group(2)] = (off, m.group(1)); order.append(m.group(2))
            self.rec[name] = dict(fields=f, order=order, size=size, align=align)
        for m in re.finditer(r"VTable indices for '([^']*)' \(\d+ entr[^\n]*\n((?:\s+\d+ \| [^\n]*\n)+)", txt):
            d = self.vtables.setdefault(m.group(1), {})
            for x in re.finditer(r'\s+(\d+) \| ([^\n]*)\n', m.group(2)): d[int(x.group(1))] = x.group(2)
    def off(self, cls, field):
        r = self.rec.get(cls)
        if r is None: raise ToolError('no layout for class %s' % cls)
        if field not in r['fields']:
            alt = self.renamed(cls, field)
            if alt is None: raise ToolError('class %s has no field %s' % (cls, field))
            return r['fields'][alt][0]
        return r['fields'][field][0]
    baseline = None
    def renamed(self, cls, field):
        """a private field that was renamed: the only new field of the same type"""
        import json
        if Layouts.baseline is None:
            try: Layouts.baseline = json.load(open(os.path.join(HERE, 'layout_baseline.json')))
            except Exception: Layouts.baseline = {}
        b = Layouts.baseline.get(cls)
        if not b or field not in b: return None
        old = b[field]; cur = self.rec[cls]['fields']
        c = [n for n, (o, t) in cur.items() if n not in b and t == old[1]]
        if len(c) == 1: return c[0]
        c = [n for n in c if cur[n][0] == old[0]]
        return c[0] if len(c) == 1 else None

_tmp = None
def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='fvc_'); atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp

def compile_one(src, extra=(), tag=''):
    d = tmpdir(); b = os.path.join(d, re.sub(r'[^A-Za-z0-9]', '_', src) + tag)
    lay = b + '.lay'
    with open(lay, 'w') as f:
        r = subprocess.run([CXX] + FLAGS + list(extra) + ['-Xclang', '-fdump-record-layouts', '-Xclang', '-fdump-vtable-layouts', '-S', '-emit-llvm', src, '-o', b + '.ll'],
                           stdout=f, stderr=subprocess.PIPE, text=True)
    if r.returncode: raise ToolError('compile of %s failed: %s' % (src, r.stderr[-1500:]))
    r = subprocess.run([OPT, '-passes=sroa', '-S', b + '.ll', '-o', b + '.o.ll'], capture_output=True, text=True)
    if r.returncode: raise ToolError('opt failed: %s' % r.stderr[-500:])
    return b + '.o.ll', lay

def build(srcs, extra=(), tag=''):
    """srcs: names relative to /repo/src or /verif/fvc/tu -> Program, Layouts"""
    paths = []
    for s in srcs:
        p = os.path.join(HERE, 'tu', s[3:]) if s.startswith('tu/') else os.path.join(REPO, 'src', s)
        if os.path.exists(p): paths.append(p)
        else: raise ToolError('missing source %s' % p)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda p: compile_one(p, extra, tag), paths))
    lay = Layouts()
    for _, l in res: lay.parse(open(l, errors='replace').read())
    return Program([Module(b) for b, _ in res]), lay

# ---------------------------------------------------------------------------------- native builds (replay of counterexamples)
def native(src, exe, timeout, flags=(), stress=False, d=None):
    d = d or tmpdir(); import glob
    m = re.match(r'// flags: (.*)', open(src).read()); flags = list(flags) + (m.group(1).split() if m else [])
    srcs = glob.glob(REPO + '/src/*.cpp') + glob.glob(REPO + '/src/algo/*.cpp')
    inc = ['-I%s/include' % REPO, '-I' + os.path.join(os.path.dirname(HERE), 'replay'), '-I%s/tu/stubs' % HERE]
    if stress: srcs = srcs + [os.path.join(os.path.dirname(HERE), 'replay', 'perturb.cpp')]; flags += ['-DFVC_STRESS']
    def comp(s):
        o = os.path.join(d, 'n%s_' % ('s' if stress else '') + re.sub(r'[^A-Za-z0-9]', '_', s) + '.o')
        r = subprocess.run(['g++', '-std=gnu++17', '-O1', '-g', '-w'] + list(flags) + (['-finstrument-functions'] if stress and not s.endswith('perturb.cpp') else []) + inc + ['-c', s, '-o', o], capture_output=True, text=True)
        if r.returncode: raise ToolError('native compile of %s failed: %s' % (s, r.stderr[-800:]))
        return o
    with concurrent.futures.ThreadPoolExecutor(8) as ex: objs = list(ex.map(comp, [src] + srcs))
    r = subprocess.run(['g++'] + objs + list(flags) + ['-o', exe, '-lboost_context', '-lpthread'], capture_output=True, text=True)
    if r.returncode: raise ToolError('native link failed: %s' % r.stderr[-800:])
    try: r = subprocess.run([exe], capture_output=True, text=True, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired as e:
        return True, 'FAIL: the scenario did not terminate within %ss\n%s' % (timeout, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''))
    txt = r.stdout + r.stderr
    if 'WARNING: ThreadSanitizer: data race' in txt: txt = 'FAIL: data race reported by ThreadSanitizer\n' + txt; return True, txt
    if r.returncode: return True, txt + ('\nFAIL: native driver ended with status %d' % r.returncode if 'FAIL' not in txt else '')
    return False, txt
