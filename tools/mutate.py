"""Mutation campaign: which small changes to /repo do the checks miss?

python3 tools/mutate.py FILE_SUBSTRING... [--per N] [--seed S] [--out FILE]
Works on copies below /tmp; nothing here is part of a check.
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    'agents/actor_core': 'C20 C09', 'agents/agent_builder': 'C27', 'agents/constant_speed': 'C21', 'agents/expert': 'C09', 'agents/sim_agent': 'C21 C19',
    'agents/waypoint': 'C21', 'dataloader/womd_factories': 'C25', 'dataloader/womd_dataloader': 'C28', 'dataloader/womd_utils': 'C28 C25',
    'dataloader/dataloader_utils': 'C29', 'datatypes/action': 'C31', 'datatypes/array': 'C31', 'datatypes/object_state': 'C31 C02 C12',
    'datatypes/observation': 'C22 C11', 'datatypes/operations': 'C24 C31', 'datatypes/roadgraph': 'C23 C31', 'datatypes/route': 'C31',
    'datatypes/simulator_state': 'C04 C05 C31 C02', 'datatypes/traffic': 'C31', 'dynamics/abstract': 'C02 C03', 'dynamics/bicycle': 'C07 C08',
    'dynamics/delta': 'C06', 'dynamics/discretizer': 'C10', 'dynamics/state_dyn': 'C09', 'env/abstract': 'C05', 'env/base': 'C02 C04 C18 C01',
    'env/planning': 'C19 C04 C05', 'env/rollout': 'C26', 'wrappers/brax': 'C27', 'wrappers/dm': 'C27', 'metrics/comfort': 'C15', 'metrics/imitation': 'C16',
    'metrics/overlap': 'C13', 'metrics/roadgraph': 'C14', 'metrics/route': 'C17', 'metrics/metric_factory': 'C18', 'rewards/': 'C18', 'utils/geometry': 'C11 C12 C07',
}
SWAP = {}
for a, b in (('x', 'y'), ('vel_x', 'vel_y'), ('length', 'width'), ('cos', 'sin'), ('minimum', 'maximum'), ('sim_trajectory', 'log_trajectory'), ('is_sdc', 'is_modeled'),
             ('any', 'all'), ('logical_and', 'logical_or'), ('argmin', 'argmax'), ('ones_like', 'zeros_like'), ('min', 'max'), ('dir_x', 'dir_y'), ('floor', 'round'), ('is_valid', 'is_modeled'), ('is_done', 'remaining_timesteps')):
  SWAP[a], SWAP[b] = b, a
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '=='}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.BitAnd: '|', ast.BitOr: '&'}


def mutants(src):
  """(line, description, new source)"""
  tree = ast.parse(src)
  lines = src.split('\n')
  starts = [0]
  for l in lines:
    starts.append(starts[-1] + len(l.encode()) + 1)
  raw = src.encode()
  pos = lambda n: (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)
  seg = lambda n: raw[slice(*pos(n))].decode()
  out = []
  skip = set()
  for n in ast.walk(tree):
    if isinstance(n, (ast.Raise, ast.Assert)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
      skip |= {id(m) for m in ast.walk(n)}
    if isinstance(n, ast.Call) and ast.unparse(n.func).startswith(('chex.', 'checkify.')):
      skip |= {id(m) for m in ast.walk(n)}
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
      for d in n.decorator_list + [a.annotation for a in n.args.args + n.args.kwonlyargs if a.annotation] + ([n.returns] if n.returns else []):
        skip |= {id(m) for m in ast.walk(d)}
    if isinstance(n, ast.AnnAssign):
      skip |= {id(m) for m in ast.walk(n.annotation)}
  inside = set()
  for f in ast.walk(tree):
    if isinstance(f, ast.FunctionDef):
      inside |= {id(m) for b in f.body for m in ast.walk(b)}

  def put(n, new):
    a, b = pos(n)
    out.append((n.lineno, f'{seg(n)} -> {new}'.replace('\n', ' ')[:150], (raw[:a] + new.encode() + raw[b:]).decode()))
  for n in ast.walk(tree):
    if id(n) in skip or id(n) not in inside:
      continue
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
      put(n, f'{seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])}')
    elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) | isinstance(n.left, ast.JoinedStr):
      put(n, f'({seg(n.left)}) {BIN[type(n.op)]} ({seg(n.right)})')
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Invert, ast.Not)):
      put(n, f'({seg(n.operand)})')
    elif isinstance(n, ast.Constant) and type(n.value) in (int, float, bool):
      v = n.value
      put(n, str(not v) if isinstance(v, bool) else str(v + 1) if isinstance(v, int) else repr(v * 1.25 if v else 0.3))
    elif isinstance(n, ast.Attribute) and n.attr in SWAP:
      put(n, f'{seg(n.value)}.{SWAP[n.attr]}')
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'where' and len(n.args) == 3:
      put(n, f'{seg(n.func)}({seg(n.args[0])}, {seg(n.args[2])}, {seg(n.args[1])})')
  return out


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('what', nargs='*')
  ap.add_argument('--per', type=int, default=6)
  ap.add_argument('--seed', type=int, default=1)
  ap.add_argument('--out', default='/tmp/mutate.log')
  a = ap.parse_args()
  wt = f'/tmp/mutwt{a.seed}'
  if os.path.exists(wt):
    shutil.rmtree(wt)
  shutil.copytree('/repo', wt, symlinks=True, ignore=shutil.ignore_patterns('.git', 'docs', '*.ipynb'))
  rng = random.Random(a.seed)
  files = subprocess.run(['git', 'ls-files', 'waymax/*.py'], cwd='/repo', capture_output=True, text=True).stdout.split()
  for f in files:
    if f.endswith('_test.py') or (a.what and not any(w in f for w in a.what)):
      continue
    ps = [v for k, v in MAP.items() if k in f]
    if not ps:
      continue
    src = open(f'/repo/{f}').read()
    ms = mutants(src)
    rng.shuffle(ms)
    for line, what, new in ms[:a.per]:
      try:
        compile(new, f, 'exec')
      except SyntaxError:
        continue
      open(f'{wt}/{f}', 'w').write(new)
      t, res = time.time(), []
      for p in ps[0].split():
        r = subprocess.run(['bash', f'{ROOT}/check.sh', p, 'quick'], capture_output=True, text=True, env=dict(os.environ, SVX_REPO=wt, SVX_BUDGET='240'))
        res.append((p, r.returncode, (r.stdout + r.stderr).strip().split('\n')[0][:140]))
        if r.returncode == 1:
          break
      verdict = 'caught' if res[-1][1] == 1 else 'INCONCLUSIVE' if any(x[1] == 2 for x in res) else 'SURVIVED'
      with open(a.out, 'a') as g:
        g.write(f'{verdict} {f}:{line} [{what}] {time.time() - t:.0f}s {res if verdict != "caught" else res[-1][0]}\n')
    open(f'{wt}/{f}', 'w').write(src)
  shutil.rmtree(wt)


if __name__ == "__main__":
  main()
