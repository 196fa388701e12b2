"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = json.load(open(os.path.join(HERE, 'tools', 'missed.json')))
rows = []
for i in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', i, 'meta.json')))
    rows.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'),
                MISSED.get(i, 'caught')))
s = open(os.path.join(HERE, 'DESIGN.md')).read()
k = s.index('## Planted bugs')
s = s[:k] + """## Planted bugs

Each is caught by the check of its property (exit 1) unless the last column says
otherwise; "after strengthening" means the first version of the check missed it.

| id | property | what it breaks | needs | check |
|----|----------|----------------|-------|-------|
""" + '\n'.join(rows) + '\n'
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(s)
