"""Writes DESIGN.md: prose plus tables generated from properties, evidence and trial results."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(os.path.join(ROOT, f)).read()
props = [json.loads(l) for l in rd('properties.jsonl').splitlines()]
out = [rd('tools/design_head.md').rstrip(), '', '## 2. What is decided, per property', '']
notes = json.loads(rd('tools/design_notes.json'))
for p in props:
  i = p['id']
  out += [f'### {i} {p["title"]}', '', notes.get(i, ''), '']
  f = os.path.join(ROOT, 'tools', 'coverage.json')
  cov = json.loads(open(f).read()).get(i) if os.path.exists(f) else None
  if cov:
    out += [f'*Encoded:* {cov["functions"]}.  ', f'*Quick bounds:* {cov["bounds"]}.  ',
            f'*Cost (quick):* {cov["cost"]}', '']
out += [rd('tools/design_tail.md').rstrip(), '']
tr = os.path.join(ROOT, 'tools', 'trial_results.json')
if os.path.exists(tr):
  t = json.loads(open(tr).read())
  out += ['## 6. Planted bugs and which checks catch them', '', '| planted bug | property | needs | caught by |', '|---|---|---|---|']
  for s in sorted(t):
    m = json.load(open(f'{ROOT}/seeded/{s}/meta.json')) if os.path.exists(f'{ROOT}/seeded/{s}') else None
    if m:
      out.append(f'| {s} | {m["property"]} | {m["needs"][:160]} | {t[s]} |')
  out.append('')
with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
  f.write('\n'.join(out))
