"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, glob, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
rows = ['| planted bug | property (caught by its quick check) | manifests with |', '|---|---|---|']
for d in sorted(glob.glob('seeded/*')):
    m = json.load(open(d + '/meta.json')); rows.append('| %s | %s | %s |' % (os.path.basename(d), m['property'] + m.get('note', ''), m['needs']))
t = open('DESIGN.md').read()
if 'SEEDTABLE' in t: t = t.replace('SEEDTABLE', '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- /table -->')
else: t = re.sub(r'<!-- table -->.*?<!-- /table -->', lambda _: '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- /table -->', t, flags=re.S)
open('DESIGN.md', 'w').write(t)
