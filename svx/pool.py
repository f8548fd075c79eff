"""Runs the harnesses of one check in several processes and merges the results."""
import fcntl
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

COUNTS = ('queries', 'unsat', 'sat', 'by_simplify', 'time')


def take(d):
  """The next harness index (one process each)."""
  with open(os.path.join(d, 'next'), 'a+') as f:
    fcntl.flock(f, fcntl.LOCK_EX)
    f.seek(0)
    k = int(f.read() or '0')
    f.seek(0)
    f.truncate()
    f.write(str(k + 1))
    return k


def work(d, make, hs, t0, budget):
  """Worker: decides harnesses until none is left."""
  with open(os.path.join(d, 'names.tmp%d' % os.getpid()), 'w') as f:
    json.dump([h.name for h in hs], f)
  os.replace(f.name, os.path.join(d, 'names'))
  flag = os.path.join(d, 'violated')
  while True:
    k = take(d)
    if k >= len(hs):
      return
    if os.path.exists(flag) and time.time() - t0 > 90:
      return
    r = make()
    r.t0 = t0
    r.slot = k
    r.run_all([hs[k]], budget)
    if r.violations:
      open(flag, 'w').close()
    out = {
        'rows': r.rows, 'errors': r.errors, 'undecided': r.undecided, 'known': r.known,
        'validated': r.validated, 'replays': r.replays, 'reached': r.reached, 'functions': r.functions,
        'engines': r.solving.engines, 'violations': [r.save(v) for v in r.violations],
        'solving': {c: getattr(r.solving, c) for c in COUNTS}}
    p = os.path.join(d, f'r{k}')
    with open(p + '.tmp', 'w') as f:
      json.dump(out, f, default=str)
    os.replace(p + '.tmp', p)


def start(cmd, jobs, t0):
  """Parent: starts the workers."""
  d = tempfile.mkdtemp(prefix='svx_pool_')
  env = dict(os.environ, SVX_JOBS='1')
  return d, [subprocess.Popen(cmd + ['--worker', d, '--t0', repr(t0)], env=env, start_new_session=True)
             for _ in range(jobs)]


def finish(started, t0, budget, r):
  """Parent: waits for the workers and merges what they decided into r."""
  d, ps = started
  try:
    end = None
    while any(p.poll() is None for p in ps):
      now = time.time()
      if end is None and os.path.exists(os.path.join(d, 'violated')) and now - t0 > 90:
        end = now + 60
      if now - t0 > budget + 40 or (end and now > end):
        for p in ps:
          if p.poll() is None:
            _stop(p)
        break
      time.sleep(.1)
    for p in ps:
      p.wait()
    merge(d, r, [p.returncode for p in ps])
  finally:
    for p in ps:
      _stop(p)
    shutil.rmtree(d, ignore_errors=True)


def _stop(p):
  try:
    os.killpg(p.pid, 9)
  except OSError:
    pass


def merge(d, r, codes):
  names = os.path.join(d, 'names')
  if not os.path.exists(names):
    r.errors.append(f'workers failed: {codes}')
    return
  with open(names) as f:
    names = json.load(f)
  missing = []
  for k, nm in enumerate(names):
    p = os.path.join(d, f'r{k}')
    if not os.path.exists(p):
      missing.append(nm)
      continue
    with open(p) as f:
      o = json.load(f)
    r.rows += o['rows']
    r.errors += o['errors']
    r.undecided += o['undecided']
    r.known += [tuple(x) for x in o['known']]
    r.saved += o['violations']
    r.validated += o['validated']
    r.replays += o['replays']
    r.reached += o['reached']
    for f in o['functions']:
      if f not in r.functions:
        r.functions.append(f)
    for e, n in o['engines'].items():
      r.solving.engines[e] = r.solving.engines.get(e, 0) + n
    for c in COUNTS:
      setattr(r.solving, c, getattr(r.solving, c) + o['solving'][c])
  if missing and not r.saved:
    r.errors.append(f'undecided (worker codes {codes}): {", ".join(missing[:8])}')
