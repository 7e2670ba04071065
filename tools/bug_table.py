"""Fills the table of planted bugs in DESIGN.md from /verif/seeded/*/meta.json (not run by any check)."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT = {}  # planted bug -> why no check catches it
rows = ['| planted bug | needs | what it breaks | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m, i = json.load(open(f)), os.path.basename(os.path.dirname(f))
    rows.append('| %s | %s | %s | %s |' % (i, m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/'), NOT.get(i, m['property'])))
p = R + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(<!-- seeded:begin -->\n).*?(<!-- seeded:end -->)', lambda k: k.group(1) + '\n'.join(rows) + '\n' + k.group(2), s, flags=re.S)
open(p, 'w').write(s)
