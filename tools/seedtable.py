"""regenerates the table of planted bugs in DESIGN.md (between the markers)"""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | changed file | what breaks | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(f'{R}/seeded')):
    m = json.load(open(f'{R}/seeded/{d}/meta.json'))
    fs = sorted({l[6:].strip() for l in open(f'{R}/seeded/{d}/patch.diff') if l.startswith('+++ b/')})
    rows.append(f"| {d} | {', '.join(f.replace('src/neo/', '') for f in fs)} | {m['what_it_breaks']} | {m['property']} |")
p = f'{R}/DESIGN.md'
s = open(p).read()
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = s.replace('\nSEEDS\n', '\n' + t + '\n') if '\nSEEDS\n' in s else re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
