"""Makes /verif/seeded/<id>/ from a spec module and confirms it in a scratch copy.

python3 tools/seed.py specs.py [id ...]: specs.py defines S = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)].
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
WT = '/tmp/seedwt'


def sh(cmd, cwd, **kw):
  return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def demo(d, cwd):
  return sh(f'bash {d}/demo.sh', cwd, timeout=300)


def tests(cwd):
  env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', JAX_PLATFORMS='cpu', TF_CPP_MIN_LOG_LEVEL='2', MPLBACKEND='Agg')
  x = '/tmp/seed_junit.xml'
  sh(f"{PY} -m pytest -q --tb=short -n 8 -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o python_files='*_test.py' "
     f"-o junit_family=xunit2 --junitxml={x} waymax", cwd, env=env)
  ok = set()
  for c in ET.parse(x).getroot().iter('testcase'):
    if not any(k.tag in ('failure', 'error', 'skipped') for k in c):
      ok.add(f"{c.get('classname')}::{c.get('name')}")
  stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
  return [s for s in stable if s not in ok]


def main():
  specs = runpy.run_path(sys.argv[1])['S']
  want = sys.argv[2:]
  for s in specs:
    if want and s['id'] not in want:
      continue
    d = os.path.join(ROOT, 'seeded', s['id'])
    if os.path.exists(d) and not want:
      continue
    shutil.rmtree(WT, ignore_errors=True)
    shutil.copytree(os.environ.get('BASE', '/repo'), WT, symlinks=True)
    tmp = '/tmp/seednew'
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    shutil.copy(os.path.join(ROOT, 'tools/seedlib/st.py'), tmp)
    open(f'{tmp}/demo.py', 'w').write('from st import *\n' + s['demo'].strip() + "\nprint('ok')\n")
    open(f'{tmp}/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu\n'
                                      'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    r = demo(tmp, WT)
    if r.returncode:
      print(s['id'], 'DEMO FAILS ON BASE', r.stdout[-500:], r.stderr[-1500:])
      continue
    bad = False
    for f, old, new in s['edits']:
      p = f'{WT}/waymax/{f}'
      t = open(p).read()
      if t.count(old) != 1:
        print(s['id'], 'edit matches', t.count(old), 'times in', f)
        bad = True
        break
      open(p, 'w').write(t.replace(old, new))
    if bad:
      continue
    r = demo(tmp, WT)
    if not r.returncode:
      print(s['id'], 'DEMO PASSES WITH THE BUG')
      continue
    first = [x for x in r.stdout.split('\n') if x.startswith('FAIL')] or (r.stdout + r.stderr).strip().split('\n')[-1][:200]
    miss = tests(WT)
    if miss:
      print(s['id'], 'BREAKS TESTS', miss[:5])
      continue
    diff = sh('git diff', WT).stdout
    os.makedirs(d, exist_ok=True)
    for f in ('st.py', 'demo.py', 'demo.sh'):
      shutil.copy(f'{tmp}/{f}', d)
    open(f'{d}/patch.diff', 'w').write(diff)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    print(s['id'], 'OK:', first, flush=True)
  shutil.rmtree(WT, ignore_errors=True)


main()
