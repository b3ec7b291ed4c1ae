import json, sys, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from fvc import check
check.load_modules()
NOTES = json.load(open(os.path.join(ROOT, 'tools', 'notes.json')))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []; na = []
for p in props:
    i = p['id']
    if i in check.MODULES and i in NOTES['level']:
        checks.append(dict(property=i, quick_cmd='python3-vt fvc/check.py %s --tier quick' % i, thorough_cmd='python3-vt fvc/check.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
                           technique='deductive verification: contracts on the compiled real functions, modular VC generation (fvc), Z3 discharges every obligation', level='proof', level_note=NOTES['level'][i]))
    else: na.append(dict(property=i, reason=NOTES['na'].get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='python3-vt -m compileall -q fvc', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the contracts live in /verif/fvc/specs and bind to the functions of /repo by name; every run recompiles /repo to LLVM IR and verifies that text.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])
