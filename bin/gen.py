#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/bin')
import props, checks
with open(V + '/properties.jsonl', 'w') as f:
    for p in props.P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
ids = [p['id'] for p in props.P]; assert len(set(ids)) == len(ids)
man = dict(version=1, setup_cmd='python3 bin/vp.py setup', checks=[], not_applicable=[], notes=checks.NOTES)
for i in ids:
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        man['checks'].append(dict(property=i, quick_cmd='python3 bin/vp.py check ' + i, thorough_cmd='python3 bin/vp.py check %s --tier thorough' % i,
            technique='symbolic execution of the LLVM IR compiled from /repo, path conditions and assertions decided by Z3', level='other', level_note=c['note']))
    else: man['not_applicable'].append(dict(property=i, reason=checks.NOT_APPLICABLE[i]))
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
try:
    import jsonschema
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for p in props.P: jsonschema.validate(p, json.load(open('/root/.vp/PROPERTIES.schema.json')))
    print('schemas ok:', len(man['checks']), 'checks,', len(man['not_applicable']), 'not applicable')
except ImportError: print('jsonschema not available: run with python3-vt')
