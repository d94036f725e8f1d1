#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.PROPS / props.NOT_APPLICABLE"""
import json
import os
import props
from checks import REGISTRY
R = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}, ensure_ascii=False) + '\n')
na = [{'property': p['id'], 'reason': p['na']} for p in props.PROPS if p.get('na')]
checks = []
for p in props.PROPS:
    if p.get('na'):
        continue
    assert p['id'] in REGISTRY, p['id']
    checks.append({'property': p['id'],
                   'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                   'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                   'technique': p.get('technique') or props.TECHNIQUE,
                   'level': REGISTRY[p['id']][3],
                   'level_note': p['level_note']})
m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa checks check.py || true', 'checks': checks, 'not_applicable': na,
     'notes': props.NOTES}
with open(os.path.join(R, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
