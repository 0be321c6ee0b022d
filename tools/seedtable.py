# rewrites the planted-bug table of DESIGN.md
import json, glob, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(H + '/seeded/b*')):
    m = json.load(open(d + '/meta.json')); rows.append("| %s | %s | %s | caught |" % (os.path.basename(d), m['property'], m['what_it_breaks'].replace('|', '/')))
t = "<!--seeds-->\n| id | property/check | what it breaks | result |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!--/seeds-->"
s = open(H + '/DESIGN.md').read()
s = s.replace('@@TABLE@@', '<!--seeds--><!--/seeds-->')
s = re.sub(r'<!--seeds-->.*?<!--/seeds-->', lambda _: t, s, flags=re.S)
open(H + '/DESIGN.md', 'w').write(s)
