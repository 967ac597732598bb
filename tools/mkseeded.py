"""Write the table of the planted bugs in DESIGN.md"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | property | caught by | what it breaks |', '|---|---|---|---|']
S = os.path.join(V, 'seeded')
for name in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, name, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (name, m['property'], m.get('caught_by', m['property'] + ' quick'), m['what_it_breaks'].replace('|', '/').replace('\n', ' ')))
path = os.path.join(V, 'DESIGN.md')
text = open(path).read()
text = re.sub(r'(<!-- seeded -->\n).*?(<!-- /seeded -->)', lambda x: x.group(1) + '\n' + '\n'.join(rows) + '\n\n' + x.group(2), text, flags=re.S)
open(path, 'w').write(text)
