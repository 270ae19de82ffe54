#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from checks/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/checks')
import registry as R
props = []
checks = []
na = []
for pid in sorted(R.ORDER):
    if pid in R.CHECKS:
        c = R.CHECKS[pid]
        props.append(c['prop'])
        checks.append(dict(property=pid, quick_cmd=f'python3 checks/run.py {pid} --tier quick',
                           thorough_cmd=f'python3 checks/run.py {pid} --tier thorough', technique=c['technique'],
                           level=c.get('level', 'other'), level_note=c.get('note', R.NOTE)))
    else:
        d, why = R.NOT_APPLICABLE[pid]
        props.append(d)
        na.append(dict(property=pid, reason=why))
with open(V + '/properties.jsonl', 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
json.dump(dict(version=1, setup_cmd='make -s -C engine', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(json.load(open(V + '/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
    for p in props: jsonschema.validate(p, json.load(open('/root/.vp/PROPERTIES.schema.json')))
except ImportError:
    pass
print(len(props), 'properties', len(checks), 'checks', len(na), 'not applicable')
