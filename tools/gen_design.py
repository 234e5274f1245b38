"""DESIGN.md from tools/design.md.in and tools/matrix.json (bug -> [property, result])."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(os.path.join(R, 'tools/matrix.json')))
rows = ['| planted bug | property | needs | quick check |', '|---|---|---|---|']
for b in sorted(m): rows.append('| %s | %s | %s | %s |' % (b, m[b]['property'], m[b]['needs'].replace('|', '/'), m[b]['result']))
open(os.path.join(R, 'DESIGN.md'), 'w').write(open(os.path.join(R, 'tools/design.md.in')).read().replace('@@MATRIX@@', '\n'.join(rows)))
