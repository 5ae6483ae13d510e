"""Development aid: runs the check of each seeded change's property on a scratch copy carrying it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(HERE, 'seeded')


def one(n):
  w = tempfile.mkdtemp(prefix='seed_')
  try:
    for x in ('optax', 'docs', 'README.md'): subprocess.run(['cp', '-r', '/repo/' + x, w], check=True)
    subprocess.run('patch -s -p1 < %s/%s/patch.diff' % (S, n), shell=True, cwd=w, check=True)
    p = json.load(open('%s/%s/meta.json' % (S, n)))['property']
    r = subprocess.run('python3-vt -m sa.check %s' % p, shell=True, cwd=HERE, env=dict(os.environ, OPTAX_SA_REPO=w), capture_output=True, text=True)
    return n, p, r.returncode
  finally: shutil.rmtree(w)


f = os.path.join(HERE, 'tools', 'seed_results.json')
res = {}
with ThreadPoolExecutor(6) as ex:
  for n, p, rc in ex.map(one, sys.argv[1:] or sorted(os.listdir(S))):
    print(n, p, rc, flush=True)
    res[n] = 'caught by ' + p if rc == 1 else 'missed by ' + p
if len(sys.argv) == 1: json.dump(res, open(f, 'w'), indent=1, sort_keys=True)
