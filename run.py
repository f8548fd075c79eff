"""Entry point: python run.py <property> [--tier quick|thorough] [--replay FILE]."""
import argparse
import importlib
import os
import sys

os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SVX_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('pid')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--replay')
  ap.add_argument('--only')
  ap.add_argument('--worker')
  ap.add_argument('--t0', type=float)
  a = ap.parse_args()
  import time
  t0 = a.t0 or time.time()
  seed = int(os.environ.get('VERIF_SEED', '1') or '1')
  import warnings
  warnings.filterwarnings('ignore')
  from svx import pool
  budget = float(os.environ.get('SVX_BUDGET') or (780 if a.tier == 'quick' else 5400))
  jobs = 1 if a.replay or a.worker else int(os.environ.get('SVX_JOBS') or 6)
  started = pool.start([sys.executable] + sys.argv, jobs, t0) if jobs > 1 else None
  verbose = os.environ.get('SVX_VERBOSE')
  err = os.dup(2)
  if not verbose:
    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)   # libraries chat on start-up
  try:
    from svx import harness
    mod = importlib.import_module('checks.' + a.pid.lower())
    hs = mod.harnesses(a.tier)
  finally:
    os.dup2(err, 2)
  if a.replay:
    return replay(harness, hs, a.replay)
  make = lambda: harness.Runner(a.pid.upper(), a.tier, seed)
  hs = [h for h in hs if not a.only or a.only in h.name]
  if a.worker:
    return pool.work(a.worker, make, hs, t0, budget) or 0
  r = make()
  r.t0 = t0
  if started:
    pool.finish(started, t0, budget, r)
  else:
    r.run_all(hs, budget)
  return r.finish(level=getattr(mod, 'LEVEL', 'model_checking'),
                  assumptions=getattr(mod, 'ASSUMPTIONS', ()))


def replay(harness, hs, path):
  import json
  with open(path) as f:
    d = json.load(f)
  h = [x for x in hs if x.name == d['harness']][0]
  if hasattr(h, 'replay'):
    return h.replay(d)
  from svx.harness import build_concrete, _name
  import numpy as np

  def val(l, nm):
    base = nm.split('[')[0]
    v = d['inputs'][base]
    if '[' in nm:
      for i in nm[nm.index('[') + 1:-1].split(','):
        v = v[int(i)]
    return v
  cargs = build_concrete(h.args, val)
  ok, failed, _ = h.eval_claims(cargs)
  print('assumptions hold:', ok, 'failed claims:', failed)
  return 1 if failed else 0


if __name__ == '__main__':
  try:
    rc = main()
  except Exception:
    import traceback
    traceback.print_exc()
    rc = 2
  sys.stdout.flush()
  sys.stderr.flush()
  os._exit(rc)
