#!/usr/bin/env python3
"""Source of MANIFEST.json (run: python3 tools/manifest_src.py): one check per mon/props/cNN.py."""
import json, os, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    fn = os.path.join(V, 'mon', 'props', p['id'].lower() + '.py')
    if not os.path.exists(fn):
        na.append(dict(property=p['id'], reason='check not built yet'))
        continue
    consts = {}
    for n in ast.parse(open(fn).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('TECHNIQUE', 'NOTE'):
            consts[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append(dict(property=p['id'], quick_cmd='./run.sh {} quick'.format(p['id']), thorough_cmd='./run.sh {} thorough'.format(p['id']),
        technique=consts.get('TECHNIQUE', 'runtime monitoring: generated workloads on the real code, observed by independent reference monitors'),
        level='exploration',
        level_note=consts.get('NOTE', 'Every execution of the sampled workloads satisfied the monitors; inputs outside the generated families are not covered. Trusts the reference encoders/decoders in mon/, numpy, pandas.')))
m = dict(version=1, setup_cmd='bash ./setup.sh',
         hooks=dict(guard='none (no hook needed in /repo; monitors wrap the public API, the audit-hook and the file system from outside)', enable='nothing to enable', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='Run ./run.sh <property> <quick|thorough> [--seed N] [--only workload] [--index i] [--replay file] [-v]. Known and fixed findings: known_findings.txt.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not claimed')
