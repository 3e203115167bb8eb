"""Fills the table of planted changes in DESIGN.md."""
import json
import os
import re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['<!-- seeded -->', '| change | caught by | needs | breaks |',
        '|--------|-----------|-------|--------|']
for name in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', name, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (name, m['property'], m['needs'],
                                           m['what_it_breaks']))
rows.append('<!-- /seeded -->')
path = os.path.join(here, 'DESIGN.md')
text = open(path).read()
table = '\n'.join(rows)
if 'SEEDTABLE' in text:
    text = text.replace('SEEDTABLE', table)
else:
    text = re.sub('<!-- seeded -->.*<!-- /seeded -->', lambda m: table, text,
                  flags=re.S)
open(path, 'w').write(text)
