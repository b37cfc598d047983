"""Rewrite the table of planted bugs in DESIGN.md."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | caught by | breaks | needs |', '| --- | --- | --- | --- |']
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    d = json.load(open(f)); rows.append('| %s | %s | %s | %s |' % (f.split('/')[-2], d['property'], d['what_it_breaks'].replace('|', '\\|'), d['needs'].replace('|', '\\|')))
p = root + '/DESIGN.md'; s = open(p).read()
if 'SEEDTABLE' in s: s = s.replace('SEEDTABLE', '<!-- seeds -->\n<!-- end -->')
s = re.sub(r'<!-- seeds -->.*<!-- end -->', lambda m: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- end -->', s, flags=re.S)
open(p, 'w').write(s)
