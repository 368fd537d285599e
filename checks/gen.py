#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P, CLAIM, LEVEL, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + '/properties.jsonl', 'w') as f:
    for i, x in sorted(P.items()):
        assert len(x['title']) <= 80, (i, len(x['title']))
        f.write(json.dumps(dict(id=i, title=x['title'], statement=x['st'], quantifier=dict(over=x['over'], text=x['q']), why_tests_cant=x['why'],
            anchors=dict(files=x['files'], mechanism=[dict(name=a, where=b) for a, b in x['mech']], observe_at=x['obs'], hook_needed=None))) + '\n')
m = dict(version=1, setup_cmd='bash checks/setup.sh', checks=[], not_applicable=[])
for i in sorted(P):
    if i in CLAIM:
        m['checks'].append(dict(property=i, quick_cmd='python3 checks/run.py %s --tier quick' % i, thorough_cmd='python3 checks/run.py %s --tier thorough' % i,
            technique=CLAIM[i][0], level=LEVEL.get(i, 'exploration'), level_note=CLAIM[i][1]))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'no check yet')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
