"""rewrite the table of planted bugs in DESIGN.md (run by hand after planting)"""
import os, json
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = ['| id | property | needs |', '|---|---|---|']
for s in sorted(os.listdir(R + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (R, s)))
    o.append('| %s | %s | %s |' % (s, m['property'], m['needs']))
t = open(R + '/DESIGN.md').read()
i = t.index('| id | property | needs |')
j = t.index('\n## 6.')
open(R + '/DESIGN.md', 'w').write(t[:i] + '\n'.join(o) + '\n' + t[j:])
