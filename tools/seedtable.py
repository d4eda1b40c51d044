"""Writes the table of planted bugs into DESIGN.md (between the markers)."""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
also = json.load(open('tools/caught.json')) if os.path.exists('tools/caught.json') else {}
rows = ['| planted bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f))
    n = f.split('/')[1]
    rows.append('| %s | %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'], m['needs'], ', '.join(also.get(n.split('-')[0], [m['property']]))))
s = open('DESIGN.md').read()
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = s.replace('SEEDTABLE', t) if 'SEEDTABLE' in s else re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: t, s, flags=re.S)
open('DESIGN.md', 'w').write(s)
