"""Writes the table of planted bugs into DESIGN.md (not part of any check)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = '| bug | caught by | what it breaks |\n|-----|-----------|----------------|\n'
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    t += f"| `{d}` | {m['property']} | {m['what_it_breaks']} |\n"
p = V + '/DESIGN.md'
s = open(p).read()
i = s.index('their property:\n') + len('their property:\n')
j = s.index('In addition, mutations')
open(p, 'w').write(s[:i] + '\n' + t + '\n' + s[j:])
