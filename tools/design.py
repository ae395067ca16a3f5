"""Fills in the generated parts of DESIGN.md (findings, planted bugs) from known_findings.jsonl and seeded/.
usage: python3 tools/design.py  (caught.json: {"id": "how it is caught"})"""
import json, os, glob
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
s = open(os.path.join(H, 'tools', 'design.in.md')).read()
by = {}
for l in open(os.path.join(H, 'known_findings.jsonl')):
  if not l.strip(): continue
  d = json.loads(l)
  if d['status'] == 'fixed': by.setdefault(d['commit'], []).append((d['property'], d['what']))
fx = '\n'.join(f'* `{c}` ({", ".join(p for p, _ in v)}): {v[0][1]}' for c, v in by.items())
caught = json.load(open(os.path.join(H, 'tools', 'caught.json')))
rows = ['## 7 Planted bugs', '', 'Each passes the stable tests; `demo.sh` shows the failure. "input" = the check reports a failing input; "obligation" = a failed obligation, no input.', '',
        '| bug | property | breaks | needs | caught by |', '|---|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(H, 'seeded', '*', 'meta.json'))):
  i = f.split('/')[-2]; m = json.load(open(f))
  rows.append(f'| {i} | {m["property"]} | {m["what_it_breaks"]} | {m["needs"]} | {caught.get(i, "?")} |')
open(os.path.join(H, 'DESIGN.md'), 'w').write(s.replace('@FIXED@', fx).replace('@SEEDED@', '\n'.join(rows)))
