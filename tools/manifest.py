"""Regenerates MANIFEST.json from units.json and properties.jsonl."""
import json
reg = json.load(open('units.json'))
props = [json.loads(l) for l in open('properties.jsonl')]
checks, na = [], []
for p in props:
  i = p['id']
  r = reg.get(i)
  if r and r.get('claim', True):
    checks.append(dict(property=i, quick_cmd=f'python3-vt check.py {i} quick', thorough_cmd=f'python3-vt check.py {i} thorough',
      evidence_file=f'evidence/{i}.json',
      technique=r.get('technique', 'contract-based deductive verification of the real code (symbolic-execution VC generation, z3/cvc5)'),
      level=r.get('level', 'proof'), level_note=r.get('note', 'Every obligation generated from the current source is discharged by z3/cvc5; floats are treated as reals; back-end operations are under assumed contracts.')))
  else: na.append(dict(property=i, reason=(r or {}).get('na', 'check under construction')))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, sympy" && mkdir -p evidence', checks=checks, not_applicable=na,
  notes='See DESIGN.md. Verifier in vf/, contracts in vf/units/, run-time contract evaluation (replay) in fals/.'), open('MANIFEST.json', 'w'), indent=1)
