#!/usr/bin/env python3
"""Writes DESIGN.md from design/*.md, the properties, about.py and the planted bugs."""
import glob, json, os
import about
from mkmanifest import NOTE
HERE = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.join(HERE, '..')
read = lambda n: open(os.path.join(HERE, 'design', n)).read().rstrip('\n') + '\n'
props = [json.loads(l) for l in open(os.path.join(TOP, 'properties.jsonl'))]
out = [read('head.md')]
out.append('## Per property\n')
out.append('Every check is seeded search over simulated runs of the real code (exploration: not exhaustive). "Over" is what the property '
           'quantifies over, "a case" what one seed makes, "oracle" what decides it.\n')
FAULTS = json.load(open(os.path.join(HERE, 'design', 'faults.json')))
for p in props:
    a = about.ABOUT.get(p['id'])
    if not a:
        continue
    out.append('**%s %s.** Over: %s. A case: %s%s Non-trivial: %s Oracle: %s. Simulated: %s.\n' % (
        p['id'], p['title'], p['quantifier']['text'], a['cases'][0].lower() + a['cases'][1:], ' ' + FAULTS[p['id']] if p['id'] in FAULTS else '',
        a['nontrivial'], NOTE[p['id']], '; '.join(x.split(' (')[0] for x in a['stub'])))
out.append(read('tail.md'))
by = {}
for f in sorted(glob.glob(os.path.join(TOP, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    by.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
missed = json.load(open(os.path.join(HERE, 'design', 'rounds.json')))
out.append('| property | planted bug (caught by the quick check of its property) | needs |\n|---|---|---|')
for p in sorted(by):
    for n, m in by[p]:
        out.append('| %s | %s%s | %s |' % (p, n, ' [%s]' % missed[n] if n in missed else '', m['needs'].replace('|', '/')))
out.append('')
open(os.path.join(TOP, 'DESIGN.md'), 'w').write('\n'.join(out))
print(len('\n'.join(out)), 'bytes')
