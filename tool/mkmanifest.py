#!/usr/bin/env python3
"""writes MANIFEST.json from the registered checks and properties.jsonl"""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
have = set()
for f in glob.glob(V + '/dwsa/props/*.py'):
    have |= set(re.findall(r"@prop\('(C\d+)'", open(f).read()))
TECH = json.load(open(V + '/tool/technique.json'))
NA = json.load(open(V + '/tool/not_applicable.json'))
checks = []
for p in props:
    i = p['id']
    if i in have:
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s quick' % i, thorough_cmd='python3-vt check.py %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=TECH.get(i, TECH['default']), level='other',
                           level_note=TECH['note']))
na = [dict(property=p['id'], reason=NA.get(p['id'], 'no check built yet')) for p in props if p['id'] not in have]
json.dump(dict(version=1, setup_cmd='bash tool/build.sh', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
