"""Write the table of planted bugs into DESIGN.md from lines 'id property result' on standard input (tools/tryseeds.py)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | needs | check | result |', '|--|--|--|--|']
for l in sys.stdin:
    i, p, r = l.split(None, 2)
    rows.append(f"| {i} | {json.load(open(f'{V}/seeded/{i}/meta.json'))['needs']} | {p} | {r.strip()} |")
p = V + '/DESIGN.md'; s = open(p).read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', s, flags=re.S)
open(p, 'w').write(s)
