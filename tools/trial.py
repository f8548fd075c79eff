"""Which checks catch which planted changes: python3 tools/trial.py [seed ids]."""
import json
import os
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(f'{ROOT}/seeded'))
WT = '/tmp/trialwt'
for i in ids:
  m = json.load(open(f'{ROOT}/seeded/{i}/meta.json'))
  shutil.rmtree(WT, ignore_errors=True)
  shutil.copytree(os.environ.get('BASE', '/repo'), WT, symlinks=True)
  subprocess.run(['git', 'apply', f'{ROOT}/seeded/{i}/patch.diff'], cwd=WT, check=True)
  t = time.time()
  pid = os.environ.get('PID', m['property'])
  r = subprocess.run(['bash', f'{ROOT}/check.sh', pid, 'quick'], capture_output=True, text=True, env=dict(os.environ, SVX_REPO=WT))
  print(i, pid, 'rc', r.returncode, f'{time.time() - t:.0f}s', ' | '.join(x.strip()[:110] for x in (r.stdout + r.stderr).strip().split('\n')[:2]), flush=True)
  out = f'{ROOT}/tools/trial_results.json'
  d = json.load(open(out)) if os.path.exists(out) else {}
  d[i] = pid if r.returncode == 1 and 'VIOLATION' in r.stdout + r.stderr else 'missed'
  json.dump(d, open(out, 'w'), indent=1, sort_keys=True)
shutil.rmtree(WT, ignore_errors=True)
