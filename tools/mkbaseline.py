"""fvc/layout_baseline.json: the fields of every class of the library at the commit the contracts were written for, so
that a private field that is only renamed is still recognised (build.Layouts.renamed)"""
import json, os, sys, importlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT)
from fvc import check, build as B
check.load_modules(); out = {}; done = set()
for pid, mod in sorted(check.MODULES.items()):
    spec = importlib.import_module('fvc.specs.' + mod).prop(pid); k = tuple(spec['srcs'])
    if k in done: continue
    done.add(k); _, lay = B.build(spec['srcs'])
    for c, r in lay.rec.items():
        if c.startswith('boost::fibers') and r['fields'] and ' at /' not in c and '(unnamed' not in c and '(lambda' not in c: out.setdefault(c, {f: [o, t] for f, (o, t) in r['fields'].items()})
json.dump(out, open(os.path.join(ROOT, 'fvc', 'layout_baseline.json'), 'w'), indent=0, sort_keys=True)
print(len(out), 'classes')
