"""Writes MANIFEST.json from vf/budget.json (claimed properties) and properties.jsonl."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
b = json.load(open(os.path.join(R, 'vf', 'budget.json')))
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
checks, na = [], []
NA = {}
for p in props:
    i = p['id']
    if i in b:
        checks.append(dict(property=i, quick_cmd='./check %s --tier quick' % i,
            thorough_cmd='./check %s --tier thorough' % i,
            technique=b[i].get('technique', 'runtime monitoring against an independent reference model under generated workloads'),
            level='exploration',
            level_note=b[i].get('note', 'Monitors every execution of the generated workload; assures absence of violations on the executions observed only. Trusts the reference in vf/ (terms.py, ref.py), numpy and scipy.')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'monitor not built yet')))
m = dict(version=1, setup_cmd='./setup', checks=checks, not_applicable=na,
         notes='No hooks: the monitors observe the public API, and fault injection replaces library functions inside the worker process only.')
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
