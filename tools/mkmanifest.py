"""Writes MANIFEST.json from the checks that exist (a property without a check must be in NA)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NA = {
}
PENDING = 'No check built yet.'
NOTE = ('Every value of the symbolic inputs within the stated bounds (sizes, coordinate ranges, step counts) is decided '
        'by SMT over the jaxpr traced from the current source; floats are modelled as exact reals with a tolerance, '
        'trigonometric functions by their algebraic identities. Every violation is replayed on the real code first.')
PYNOTE = ('The current Python source runs on symbolic integers, flags and strings, every branch followed where the solver finds it feasible; the claims on each path '
          'are decided by SMT for all values within the stated bounds. Every violation is replayed on the real code first.')
PYTECH = 'symbolic execution of the Python source + SMT (z3)'
EXTRA = {'C29': (PYTECH, PYNOTE), 'C34': (PYTECH, PYNOTE + ' tf.data is replaced by its documented meaning; replays use TensorFlow on real files.'), 'C35': (PYTECH, PYNOTE)}
checks, na = [], []
for p in props:
  i = p['id']
  if i in NA:
    na.append(dict(property=i, reason=NA[i]))
  elif os.path.exists(os.path.join(ROOT, 'checks', i.lower() + '.py')):
    checks.append(dict(property=i, quick_cmd=f'bash check.sh {i} quick', thorough_cmd=f'bash check.sh {i} thorough',
                       technique=EXTRA.get(i, ('symbolic execution of the traced program + SMT (z3, cvc5)',))[0],
                       level='model_checking', level_note=EXTRA[i][1] if i in EXTRA else NOTE))
  else:
    na.append(dict(property=i, reason=PENDING))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '.'); from svx.z3load import z3; s = z3.Solver(); s.add(z3.Int('x') > 0); assert s.check() == z3.sat\"",
         checks=checks, not_applicable=na,
         notes='No hooks in /repo. SVX_VERBOSE=1 prints per-harness timing; SVX_REPO selects another tree.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
  json.dump(m, f, indent=1)
  f.write('\n')
print(len(checks), len(na))
