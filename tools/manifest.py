"""writes /verif/MANIFEST.json from the registry: every property with a check is claimed, the rest is not_applicable"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from checks.registry import REGISTRY, NOT_APPLICABLE, TECH
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    if p in REGISTRY:
        t, note = TECH.get(p, TECH['default'])
        checks.append(dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p,
                           technique=t, level='model_checking', level_note=note))
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, 'machinery not built (yet)')) for p in props if p not in REGISTRY]
assert not set(REGISTRY) - set(props)
json.dump(dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=na,
               notes='TLA+ specifications in spec/, checked with TLC and bound to the code by trace validation; see DESIGN.md. No hooks are needed in /repo: the library has public observation points and user hooks of its own.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
