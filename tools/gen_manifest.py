"""Writes MANIFEST.json from the property modules that exist."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {
    'C40': 'convergence is a statement about limits of runtime trajectories over a problem class; no structural argument in reach decides it',
    'C41': 'expectations and variances over random draws; the per-sample equations behind them are decided in C27 and C28',
    'C42': 'a theorem about the mechanism and the sampling outside this library; its code-level premises are decided in C15 and C16',
    'C43': 'floating-point convergence of iterations is numerical; the exact-arithmetic iteration and its bounds are decided in C29',
    'C44': 'rounding error and backend agreement need execution on the backends',
}
TECH = {}
checks = []
na = []
for p in props:
  i = p['id']
  f = os.path.join(HERE, 'sa', 'props', i + '.py')
  if i in NA or not os.path.exists(f):
    na.append(dict(property=i, reason=NA.get(i, 'not yet built')))
    continue
  mod = __import__('sa.props.' + i, fromlist=['x'])
  checks.append(dict(
      property=i,
      quick_cmd='python3-vt -m sa.check %s --tier quick' % i,
      thorough_cmd='python3-vt -m sa.check %s --tier thorough' % i,
      technique=getattr(mod, 'TECHNIQUE', 'static abstract interpretation of the source to value graphs; global value numbering / random-interpretation equality with the documented equations'),
      level='other',
      level_note=' '.join(getattr(mod, 'NOTE', '''Sound up to the modelled semantics of jax/numpy primitives (validated against jax 0.4.18 during development) and the enumerated tree shapes, ranks and static configurations; equations are decided by value numbering or normal form where they close, otherwise by fingerprints over sampled valuations of the symbols (one-sided: a difference is real, equality holds with high probability). Real arithmetic with IEEE special values; rounding is not modelled.''').split())))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import sa.check"', checks=checks, not_applicable=na,
               notes='Checks parse /repo/optax on every run and never import or execute it. known_findings.txt lists recorded and repaired defects.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
