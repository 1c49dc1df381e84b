"""DESIGN.md from tools/DESIGN.in.md, the findings and the planted bugs."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + '/tools/DESIGN.in.md').read()
f = json.load(open(V + '/known_findings.json'))['findings']
fixed = '\n'.join('| %s | %s | %s |' % (
    x['property'], x['commit'], x['what'].split(x['commit'], 1)[1].strip())
    for x in f if x['status'] == 'fixed').replace('|\n|', '|\n|')
known = '\n'.join('* %s: %s' % (x['property'], x['what']) for x in f if x['status'] == 'known')
notes = json.load(open(V + '/tools/seed_notes.json'))
rows = ['| bug | property | needs | detected by |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    name = os.path.basename(os.path.dirname(d))
    rows.append('| %s | %s | %s | %s |' % (name, m['property'], m['needs'].replace('|', '/'),
                                          notes.get(name, m['property'] + ' (first)')))
for a, b in (('FIXED', fixed), ('KNOWN', known), ('SEEDS', '\n'.join(rows)), ('EXTRA', '')):
    t = t.replace('@@%s@@' % a, b)
open(V + '/DESIGN.md', 'w').write(t)
