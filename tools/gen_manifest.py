"""Regenerate MANIFEST.json from the check modules (checks/cNN.py) and NOT_APPLICABLE below."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ('dynamic symbolic execution of the real Python code, every path and assertion decided by an SMT solver (z3); '
        'counterexamples replayed on the unpatched code')
NOTE = ('Bounded: the solver shows the assertions for all input values of every feasible path within the stated '
        'bounds (see the evidence file: bounds, functions encoded, paths, queries, solver time). Floats are modelled as '
        'exact reals; fitz geometry helpers by exact stand-ins compared with the C functions in setup_cmd.')
PENDING = 'not claimed: no sound check within reach was completed'
NA = {}

props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(ROOT, 'checks', i.lower() + '.py')
    if i in NA or not os.path.exists(f):
        na.append(dict(property=i, reason=NA.get(i, PENDING)))
        continue
    doc = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', None) in ('NOTE',):
            doc[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append(dict(property=i, quick_cmd=f'/opt/venv/bin/python run.py {i} --tier quick',
                       thorough_cmd=f'/opt/venv/bin/python run.py {i} --tier thorough',
                       evidence_file=f'evidence/{i}.json', technique=TECH, level='model_checking',
                       level_note=(NOTE + ' ' + doc.get('NOTE', '')).strip()))
m = dict(version=1, setup_cmd='/opt/venv/bin/python run.py --selftest', checks=checks, not_applicable=na,
         notes='No hooks are needed in /repo: symbolic values are injected from outside. Commits in /repo are fix: '
               'commits only (listed in known_findings.txt).')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
