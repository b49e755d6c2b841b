#!/usr/bin/env python3
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from table import P, TECH
V = os.path.dirname(HERE)
P.sort(key=lambda p: p['id'])
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                 why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                                                       observe_at=p['observe'], hook_needed=None))
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(d) + '\n')
m = dict(version=1, setup_cmd='python3-vt tools/setup.py', hooks=dict(guard='none', enable='no hooks: checks compile the unmodified sources', source_commits=[]),
         checks=[dict(property=p['id'], quick_cmd='python3-vt props/%s.py' % p['id'], thorough_cmd='VERIF_TIER=thorough python3-vt props/%s.py' % p['id'],
                      evidence_file='evidence/%s.json' % p['id'], technique=p['tech'] or TECH, level=p['level'], level_note=p['note'])
                 for p in P if not p['na']],
         not_applicable=[dict(property=p['id'], reason=p['na']) for p in P if p['na']],
         notes='see DESIGN.md')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for l in open(V + '/properties.jsonl'):
        jsonschema.validate(json.loads(l), json.load(open('/root/.vp/PROPERTIES.schema.json')))
except (ImportError, FileNotFoundError):
    pass
