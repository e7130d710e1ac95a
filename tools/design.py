"""Rewrites the table of planted changes in DESIGN.md."""
import glob
import json
import os
import re

rows = ['| change | property | needs |', '|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
  m = json.load(open(d))
  rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'].replace('|', '/').replace('\n', ' ')))
s = open('/verif/DESIGN.md').read()
s = re.sub(r'<!-- seeded -->.*?<!-- /seeded -->', lambda _: '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->', s, flags=re.S)
open('/verif/DESIGN.md', 'w').write(s)
