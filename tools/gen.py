#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/meta.py and engine/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'engine'), os.path.join(V, 'tools')]
import props, meta
ids = []
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for m in meta.META:
        ids.append(m['id'])
        f.write(json.dumps(dict(id=m['id'], title=m['title'], statement=m['statement'],
                                quantifier=dict(over=m['over'], text=m['quant']), why_tests_cant=m['why'],
                                anchors=dict(files=m['files'], mechanism=[dict(name=a, where=b) for a, b in m['mech']],
                                             observe_at=m.get('observe', []), hook_needed=None))) + '\n')
        assert len(m['title']) <= 80, m['id']
checks, na = [], []
for m in meta.META:
    pid = m['id']
    if pid in props.PROPS:
        p = props.PROPS[pid]
        checks.append(dict(property=pid, quick_cmd='python3 check.py ' + pid, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + pid,
                           technique=m.get('technique', meta.AI), level=p.get('level', 'proof'),
                           level_note=m.get('note', meta.NOTE) + (' ' + m['limits'] if m.get('limits') else ''),
                           evidence_file='evidence/%s.json' % pid))
    else:
        na.append(dict(property=pid, reason=m['na']))
assert not set(props.PROPS) - set(ids), set(props.PROPS) - set(ids)
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na, notes=meta.NOTES), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
