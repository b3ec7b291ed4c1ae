"""check <property id>: verify every function the property depends on against its contract.

exit 0: every obligation discharged (known findings excepted); exit 1: VIOLATION line; exit 2: internal error."""
import sys, os, json, time, re, multiprocessing, signal, subprocess, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
from fvc import build as B
from fvc.core import ToolError
from fvc.ir import IRError
from fvc.lib import run_unit, CANDS

MODULES = dict(C01='mutexes', C02='mutexes', C03='mutexes')
def load_modules():
    p = os.path.join(HERE, 'specs')
    for f in sorted(os.listdir(p)):
        if f.endswith('.py') and f != '__init__.py':
            src = open(os.path.join(p, f)).read()
            m = re.search(r'^PROPS\s*=\s*\[(.*?)\]', src, re.M | re.S)
            if m:
                for x in re.findall(r"'(C\d+)'", m.group(1)): MODULES[x] = f[:-3]

_G = {}
def _alarm(*a): raise ToolError('time limit of the unit exceeded')
def _work(i):
    prog, lay, us, second, timeout, limit = _G['x']
    u = us[i]
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(limit)
    try: r = run_unit(prog, lay, u, second, timeout)
    finally: signal.alarm(0)
    return dict(name=r.name, fn=r.fn, err=r.err, time=r.time, nq=r.nq, qtime=r.qtime, loops=r.loops, inlined=r.inlined, contracts=r.contracts, trusted=sorted(r.trusted),
                covers={k[1]: v for k, v in r.covers.items()}, bounded=getattr(u, 'bounded', None),
                obls=[dict(name=o.name, loc=o.loc, status=o.status, backend=getattr(o, 'backend', None), time=round(o.time, 4), model=o.model, notes=o.notes) for o in r.obls])

def verify(pid, tier):
    mod = importlib.import_module('fvc.specs.' + MODULES[pid])
    spec = mod.prop(pid)
    prog, lay = B.build(spec['srcs'])
    us = spec['units'](lay, prog) if spec.get('prog') else spec['units'](lay)
    names = [u.name for u in us]
    assert len(set(names)) == len(names), 'duplicate unit names'
    only = os.environ.get('FVC_UNIT')
    if only: us = [u for u in us if re.search(only, u.name)]
    n = min(int(os.environ.get('FVC_JOBS', '8')), max(1, len(us)))
    def run(us):
        _G['x'] = (prog, lay, us, tier == 'thorough', 20000 if tier == 'thorough' else 10000, 800 if tier == 'thorough' else 300)
        if n == 1: return [_work(i) for i in range(len(us))]
        with multiprocessing.get_context('fork').Pool(n, maxtasksperchild=8) as pool: return pool.map(_work, range(len(us)), chunksize=1)
    bad = lambda res: any(r['err'] or any(o['status'] != 'proved' for o in r['obls']) for r in res)
    CANDS.clear(); res = run(us)
    # class invariants that the code keeps though the contracts do not need them: tried when the units fail without them
    CANDS.update(spec.get('cands', ()))
    while CANDS and bad(res):
        r2 = run(us)
        lost = {c for c in CANDS for r in r2 for o in r['obls'] if o['name'] == 'class invariant ' + c and o['status'] != 'proved'}
        if lost: CANDS.difference_update(lost); continue
        if not bad(r2): res = r2
        break
    return spec, res

def known():
    try: return json.load(open(os.path.join(ROOT, 'known_findings.json')))['findings']
    except FileNotFoundError: return []

def has_stress(src):
    t = open(src).read()
    return any('void stress() {' in x for x in [t] + [open(os.path.join(ROOT, 'replay', h)).read() for h in re.findall(r'#include "(\w+\.hpp)"', t)])
def replay(pid, timeout=300, stress=False, asan=False):
    """run the native scenarios of the property against the current /repo; -> (True/False/None, text).
    stress: the scenarios that do not depend on timing, with random delays at every function entry and exit"""
    src = os.path.join(ROOT, 'replay', pid + '.cpp')
    if not os.path.exists(src): return None, 'no native replay driver for this property'
    d = B.tmpdir()
    try:
        if stress and not has_stress(src): return False, ''
        if asan and '// asan' not in open(src).read(): return False, ''
        if asan: d = os.path.join(d, 'asan'); os.makedirs(d, exist_ok=True)
        return B.native(src, os.path.join(d, 'replay_' + pid + ('_s' if stress else '')), timeout, ['-fsanitize=address'] if asan else [], stress=stress, d=d)
    except Exception as e: return None, 'replay could not be built or run: %s' % e

def main():
    load_modules()
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    verbose = '-v' in sys.argv
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    evp = os.path.join(ROOT, 'evidence', pid + '.json'); os.makedirs(os.path.dirname(evp), exist_ok=True)
    err = None; spec = None; res = []
    try: spec, res = verify(pid, tier)
    except (ToolError, IRError) as e: err = str(e)
    except Exception as e: err = 'internal: ' + traceback.format_exc()
    failed = []; kf = []; undecided = []
    obls = 0; disch = 0; bobl = 0
    backends = {}
    fns = []; trusted = set(); inlined = {}; contracts = {}
    ks = [k for k in known() if k['property'] == pid]
    hit = set()
    for r in res:
        for o in r['obls']:
            if r['bounded']: bobl += 1
            else: obls += 1
            if o['status'] == 'proved':
                if not r['bounded']: disch += 1
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
            elif o['status'] == 'failed':
                k = [i for i, x in enumerate(ks) if re.fullmatch(x['unit'], r['name']) and re.fullmatch(x['obligation'], o['name'])]
                if k: hit.update(k); kf.append((r, o, ks[k[0]]))
                else: failed.append((r, o))
        if r['err']: undecided.append((r['name'], r['err']))
        fns.append(dict(unit=r['name'], function=r['fn'], obligations=len(r['obls']), discharged=sum(o['status'] == 'proved' for o in r['obls']),
                        loops_with_invariant=r['loops'], time_s=round(r['time'], 2), solver_s=round(r['qtime'], 2), queries=r['nq'],
                        covers=sorted(k for k, v in r['covers'].items() if v), error=r['err'], bounded=r['bounded']))
        trusted.update(r['trusted'])
        for k, v in r['inlined'].items(): inlined[k] = inlined.get(k, 0) + v
        for k, v in r['contracts'].items(): contracts[k] = contracts.get(k, 0) + v
        if verbose or r['err'] or any(o['status'] != 'proved' for o in r['obls']):
            print('%-60s %4d obligations %s %.2fs %s' % (r['name'][:60], len(r['obls']), 'ok' if all(o['status'] == 'proved' for o in r['obls']) and not r['err'] else 'NOT OK', r['time'], r['err'] or ''))
    for i in sorted(hit):
        print('KNOWN-FINDING: property=%s %s' % (pid, ks[i]['what']))
    for i, k in enumerate(ks):
        if i not in hit: print('note: known finding not observed any more: %s' % k['what'])
    status = 0; rp = None; note = None
    if err: undecided.append(('build', err))
    standin = None
    if not failed and not undecided and os.environ.get('FVC_UNIT') is None:
        # every obligation is discharged: the native scenarios exercise what the proof assumes (contracts of dependencies, code outside the verified functions)
        ok, txt = replay(pid)
        standin = {True: 'failed', False: 'passed', None: 'not available: ' + txt[:200]}[ok]
        if ok:
            ok2, txt2 = replay(pid)      # reported only if it fails again
            if ok2: undecided.append(('native scenarios of replay/%s.cpp' % pid, 'the native scenarios fail although every obligation is discharged: ' + '; '.join(l for l in txt2.split('\n') if 'FAIL' in l)[:500]))
            else: standin = 'failed once, passed when repeated: ' + txt[-300:]
    if failed or undecided:
        rpath = os.path.join('evidence', '%s.replay.txt' % pid)
        L = ['property %s' % pid]
        for r, o in sorted(failed, key=lambda x: x[1]['name'])[:60]:
            L += ['', 'FAILED OBLIGATION: %s' % o['name'], '  function: %s' % r['fn'], '  at: %s' % o['loc'], '  back end: %s' % o['backend'], '  counterexample: %s' % o['model'], '  path: %s' % (o['notes'],)]
        for n, e in undecided: L += ['', 'UNDECIDED: %s: %s' % (n, e)]
        if standin != 'failed': ok, txt = replay(pid)
        else: ok, txt = ok2, txt2
        if ok is False and failed:
            ok, txt2 = replay(pid, stress=True); txt += txt2
            if ok: txt = 'with random delays (replay/perturb.cpp):\n' + txt
            elif ok is False:
                ok, txt2 = replay(pid, asan=True); txt += txt2
                if ok: txt = 'with -fsanitize=address:\n' + txt
            if ok is None: ok = False
        L += ['', 'native replay against /repo: %s' % {True: 'FAILS on the real code', False: 'no failing input found', None: 'not available'}[ok], txt[-6000:]]
        open(os.path.join(ROOT, rpath), 'w').write('\n'.join(L) + '\n')
        for x in dict.fromkeys('failed obligation: %s [%s] at %s' % (o['name'], r['name'], o['loc']) for r, o in failed): print(x)
        for n, e in undecided: print('undecided: %s: %s' % (n, e.strip().split('\n')[-1][:300]))
        if ok: print('replay: ' + '; '.join(l for l in txt.split('\n') if 'FAIL' in l)[:500])
        if failed or ok:
            print('VIOLATION property=%s replay=%s%s' % (pid, rpath, '' if ok else ' no-failing-input-found')); status = 1
        elif ok is False:
            # the verifier cannot reach this code: the native scenarios stand in, labelled bounded, never counted as proved
            print('UNDECIDED by proof; the bounded native scenarios of %s pass' % pid); note = 'undecided units replaced by the bounded native scenarios in replay/%s.cpp' % pid
        else: status = 2
    ev = dict(property=pid, tier=tier, seed=seed, level='proof',
              coverage=dict(obligations=obls, discharged=disch, checker_cmd='python3-vt fvc/check.py %s --tier %s' % (pid, tier),
                            trusted_base=sorted(set((spec or {}).get('trusted', [])) | trusted | COMMON_TRUST),
                            functions_under_contract=fns, backends=backends, solver_s=round(sum(r['qtime'] for r in res), 2), solver_queries=sum(r['nq'] for r in res),
                            functions_inlined=sorted(inlined), contracts_used=sorted(contracts), bounded_obligations=bobl,
                            known_findings=[k['what'] for i, k in enumerate(ks) if i in hit], undecided=[list(x) for x in undecided], bounded_standin=note, native_scenarios=dict(driver='replay/%s.cpp' % pid, result=standin, role='bounded: exercises the assumed contracts on the real code; not counted as proof')),
              assumptions=sorted((spec or {}).get('assumptions', [])) + COMMON_ASSUME,
              wall_s=round(time.time() - t0, 2), violations=len(failed))
    json.dump(ev, open(evp, 'w'), indent=1)
    print('%s: %d functions, %d obligations, %d discharged, %d failed, %d undecided, %.1fs' % (pid, len(fns), obls + bobl, disch, len(failed), len(undecided), time.time() - t0))
    sys.exit(status)

COMMON_TRUST = {'clang 18 front end (C++ to LLVM IR at -O1 -disable-llvm-passes) and opt -passes=sroa', 'fvc symbolic executor / VC generator (/verif/fvc)', 'Z3 4.x (python z3-solver)',
                'Itanium C++ ABI run-time (exceptions, RTTI, vtables) as contracted in fvc/lib.py'}
COMMON_ASSUME = ['sequentially consistent memory inside lock-protected critical sections; code under a spinlock is verified against arbitrary interference at every acquisition (rely/guarantee)',
                 'NDEBUG build configuration on x86-64 Linux: BOOST_ASSERT conditions are not assumed',
                 'termination is not verified (partial correctness)']
if __name__ == '__main__': main()
