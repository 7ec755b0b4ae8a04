#!/usr/bin/env python3
"""The case spaces of the last quick runs (evidence/*.json), written between the markers in DESIGN.md."""
import glob, json, os, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
for f in sorted(glob.glob(f'{V}/evidence/C*.json')):
    e = json.load(open(f))
    c = e['coverage']
    if e['tier'] != 'quick':
        continue
    out.append(f"- **{e['property']}** ({c['states']} states, {c['transitions']} transitions): " + '; '.join(
        f"{s['name']}" + (f" ({s['cases']:,})" if s['cases'] > 1 else '') for s in c['spaces']))
p = f'{V}/DESIGN.md'
s = open(p).read()
s = re.sub(r'(<!-- spaces -->\n).*(<!-- /spaces -->)', lambda m: m[1] + '\n'.join(out) + '\n' + m[2], s, flags=re.S)
open(p, 'w').write(s)
