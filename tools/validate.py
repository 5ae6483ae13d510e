"""Development aid, NOT a check (nothing in MANIFEST.json runs it).

python3-vt tools/validate.py            analyser vs. real optax on validate_cases.py
"""
import json, os, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))

REAL = r'''
import sys, json, warnings
warnings.simplefilter('ignore')
sys.path.insert(0, %r)
import jax_removed_names, jax, numpy as np
import validate_cases as C
out = {}
def leaf(x):
  if isinstance(x, (bool, int, float)): return ['py:' + type(x).__name__, [], [float(x)]]
  if hasattr(x, 'dtype'):
    if jax.dtypes.issubdtype(x.dtype, jax.dtypes.prng_key) if hasattr(jax.dtypes,'prng_key') else False: return ['key']
    return [str(x.dtype) + ('*' if getattr(x, 'weak_type', False) else ''), list(x.shape), np.asarray(x).astype('float64').reshape(-1).tolist()]
  return [repr(x)]
for k, f in C.CASES.items():
  try:
    r = f()
    ls, td = jax.tree_util.tree_flatten(r)
    out[k] = [leaf(x) for x in ls]
  except Exception as e:
    out[k] = 'EXC ' + type(e).__name__ + ' ' + str(e)[:200]
json.dump(out, open(sys.argv[1], 'w'))
''' % HERE


def main():
  sys.path.insert(0, os.path.dirname(HERE))
  from sa import engine, values as V, terms as T, interp as IT
  import numpy as np, traceback
  tmp = tempfile.mktemp()
  subprocess.run(['/opt/venv/bin/python', '-c', REAL, tmp], cwd='/repo', check=True,
                 env=dict(os.environ, PYTHONPATH='/opt/optax-compat:/repo', JAX_PLATFORMS='cpu', PYTHONDONTWRITEBYTECODE='1'))
  real = json.load(open(tmp))
  os.remove(tmp)
  only = sys.argv[1:]
  I = engine.new()
  old = I.find_module
  I.find_module = lambda n: os.path.join(HERE, 'validate_cases.py') if n == 'optax.validate_cases_' else old(n)
  m = I.load('optax.validate_cases_')
  cases = m.scope.vars['CASES']
  val = T.Valuation(2, 1)
  bad = 0
  for k, f in cases.items():
    if only and k not in only: continue
    try:
      r = I.call(f, [])
      ls = V.tree_leaves(r)
      got = []
      for x in ls:
        if isinstance(x, (bool, int, float)):
          got.append(['py:' + type(x).__name__, [], [float(x)]])
        elif isinstance(x, V.Arr):
          if 'key' in x.dtype: got.append(['key']); continue
          ts = list(x.a.reshape(-1))
          ev = T.evaluate(ts, val) if ts else []
          got.append([x.dtype + ('*' if x.weak else ''), list(x.shape), [float(np.broadcast_to(e, (2,))[0]) for e in ev]])
        else:
          got.append([repr(x)])
    except (V.Unsupported, V.AbsRaise) as e:
      got = 'EXC ' + repr(e)[:300] + str(getattr(e, 'where', ''))
    except Exception:
      got = 'CRASH ' + traceback.format_exc()[-300:]
    want = real[k]
    msg = None
    if isinstance(want, str) or isinstance(got, str):
      if not (isinstance(want, str) and isinstance(got, str) and got.startswith('EXC')):
        msg = 'real %s  got %s' % (str(want)[:300], str(got)[-400:])
    elif len(want) != len(got):
      msg = 'leaf count %d vs %d' % (len(want), len(got))
    else:
      for i, (w, g) in enumerate(zip(want, got)):
        if w[0] != g[0] or w[1:2] != g[1:2]:
          msg = (msg or '') + '\n   leaf %d: real %s got %s' % (i, w, g)
          continue
        if len(w) > 2:
          tol = 5e-2 if 'float16' in w[0] else 2e-3
          a, b = np.array(w[2], float), np.array(g[2], float)
          if not np.allclose(a, b, rtol=tol, atol=tol * 0.2, equal_nan=True):
            msg = (msg or '') + '\n   leaf %d: real %s got %s' % (i, w, g)
    if msg:
      bad += 1
      print('MISMATCH', k, msg[:600])
  print(len(cases), 'cases', bad, 'bad')


main()
