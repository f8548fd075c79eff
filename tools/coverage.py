"""Summarises the evidence of the last quick runs into tools/coverage.json (for DESIGN.md)."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(ROOT, 'tools', 'coverage.json')
out = json.load(open(f)) if os.path.exists(f) else {}
for e in sorted(glob.glob(f'{ROOT}/evidence/C*.json')):
  d = json.load(open(e))
  c = d['coverage']
  if d['tier'] != 'quick':
    continue
  fns = list(dict.fromkeys(x for h in c['harnesses'] for x in h['functions']))
  bs = list(dict.fromkeys(h['bounds'] for h in c['harnesses'] if h['bounds']))
  out[d['property']] = dict(functions=', '.join(f'`{x}`' for x in fns),
                            bounds='; '.join(bs[:14]) + (f'; … ({len(bs) - 14} more)' if len(bs) > 14 else ''),
                            cost=f'{c["states"]} harnesses, {c["claims"]} claims, {c["queries"]} solver queries, '
                                 f'{c["solver_s"]:.0f} s solver time')
json.dump(out, open(f, 'w'), indent=1)
