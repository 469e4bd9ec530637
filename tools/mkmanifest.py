#!/usr/bin/env python3
"""Write MANIFEST.json from the checks that exist in pfcmon/checks."""
import json, os, importlib.util, ast
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{HERE}/properties.jsonl')]
checks, na = [], []
for p in props:
    pid = p['id']
    f = f'{HERE}/pfcmon/checks/{pid.lower()}.py'
    if not os.path.exists(f):
        na.append(dict(property=pid, reason='check not built yet'))
        continue
    mod = ast.parse(open(f).read())
    vals = {}
    for n in mod.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                vals[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    checks.append(dict(
        property=pid,
        quick_cmd=f'python3 run_check.py {pid} --tier quick',
        thorough_cmd=f'python3 run_check.py {pid} --tier thorough',
        evidence_file=f'evidence/{pid}.json',
        technique=vals.get('TECHNIQUE', 'runtime monitoring: online reference-model monitor over randomised '
                                        'executions of the real code'),
        level='exploration',
        level_note='Held on the executions observed (counts and distinct cases in the evidence), not verified. '
                   'Assumes: ' + '; '.join(vals.get('ASSUMPTIONS', []))))
m = dict(version=1, setup_cmd='python3 run_check.py --selfcheck',
         hooks=dict(guard='PFC_MONITOR', enable='no hook was needed: the monitors observe the public API, the files '
                    'and the recorded calls of generated user code, so the guard variable is unused',
                    source_commits=[]),
         checks=checks, not_applicable=na,
         notes='All checks are pure Python, run from /verif against the working tree of /repo; see DESIGN.md.')
json.dump(m, open(f'{HERE}/MANIFEST.json', 'w'), indent=1)
open(f'{HERE}/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
