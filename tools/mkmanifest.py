"""Write MANIFEST.json: a property is claimed when its check exists"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
NOTE = {}
try:
    exec(open(os.path.join(V, 'tools', 'notes.py')).read())
except FileNotFoundError:
    pass
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'sim', 'props', i.lower() + '.py')):
        checks.append(dict(
            property=i,
            quick_cmd='sh check.sh %s quick' % i,
            thorough_cmd='sh check.sh %s thorough' % i,
            technique='deterministic simulation with seeded fault injection',
            level='exploration',
            level_note=NOTE.get(i, 'seeded search over simulated runs; '
                                'sampled, not exhaustive')))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='sh setup.sh', checks=checks,
         not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
