#!/usr/bin/env python3
# Rewrites the table of seeded bugs at the end of DESIGN.md from seeded/*/meta.json.
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{i}/meta.json'))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {m.get('caught', 'caught by quick')} |")
d = open(root + '/DESIGN.md').read()
head = d[:d.index('## Seeded bugs')]
head += '''## Seeded bugs

Each lies in seeded/<id>/ (patch, demonstration, what it needs). All pass the existing tests. "caught by
quick" means the quick check of the property exits 1 with its VIOLATION line on the patched tree; where a
check first missed a change, the strengthening is described under "Strengthened after a miss".

| change | property | needs | result |
|---|---|---|---|
''' + '\n'.join(rows) + '\n'
open(root + '/DESIGN.md', 'w').write(head)
