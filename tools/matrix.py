"""rewrites the table of planted bugs at the end of DESIGN.md"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
det = {}
p = os.path.join(V, 'tools', 'detected.txt')
if os.path.exists(p):
    for l in open(p):
        k, v = l.split(None, 1)
        det[k] = v.strip()
rows = ['| id | property | what it needs | caught by |\n|---|---|---|---|']
for m in sorted(glob.glob(os.path.join(V, 'seeded/*/meta.json'))):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    rows.append(f"| {i} | {d['property']} | {d['needs']} | {det.get(i, '?')} |")

D = os.path.join(V, 'DESIGN.md')
s = open(D).read()
k = s.index('\n| id |') if '\n| id |' in s else len(s)
open(D, 'w').write(s[:k].rstrip() + '\n\n' + '\n'.join(rows) + '\n')
