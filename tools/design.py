"""refresh the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
from collections import defaultdict
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = defaultdict(list)
for f in sorted(glob.glob(R + '/seeded/*/meta.json')):
    d[json.load(open(f))['property']].append(os.path.basename(os.path.dirname(f)))
t = '<!-- seeded -->\n| check | planted bugs it catches |\n|---|---|\n' + ''.join('| %s | %s |\n' % (k, ', '.join(v)) for k, v in sorted(d.items()))
t += '\n%d in all.\n<!-- /seeded -->' % sum(map(len, d.values()))
p = R + '/DESIGN.md'
s = open(p).read()
if '@@SEEDED@@' in s:
    s = s.replace('@@SEEDED@@', t)
else:
    s = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
