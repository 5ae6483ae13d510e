"""Writes DESIGN.md from tools/design_head.md, the property modules, evidence and seeds."""
import glob
import importlib
import json
import os
import sys
import textwrap
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
w = lambda s, ind='  ': textwrap.fill(' '.join(s.split()), 79, initial_indent='', subsequent_indent=ind)
out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read().rstrip(), '', '## 6. Properties', '']
for l in open(os.path.join(HERE, 'properties.jsonl')):
  p = json.loads(l)
  f = os.path.join(HERE, 'sa', 'props', p['id'] + '.py')
  if not os.path.exists(f): continue
  m = importlib.import_module('sa.props.' + p['id'])
  out += ['### %s %s' % (p['id'], p['title']), '']
  out.append(w('* Analysed: ' + m.__doc__))
  out.append(w('* Rule: ' + m.RULE))
  if hasattr(m, 'NOTE'): out.append(w('* Limits: ' + m.NOTE))
  e = os.path.join(HERE, 'evidence', p['id'] + '.json')
  if os.path.exists(e):
    d = json.load(open(e)); c = d['coverage']
    k = [x for x in sorted(c['decided_by']) if x != 'violated']
    out.append(w('* Size (quick): about %d obligations over %d functions of %s; decided by %s; about %d s.' % (
        c['obligations'], c['functions_analysed'], ', '.join(c['files'][:8]) + (' and others' if len(c['files']) > 8 else ''), ', '.join(k), max(1, round(d['wall_s'])))))
  out.append('')
out += ['## 7. Seeded changes', '', 'Each was confirmed to pass the stable tests and to fail its demonstration.', '']
res = json.load(open(os.path.join(HERE, 'tools', 'seed_results.json'))) if os.path.exists(os.path.join(HERE, 'tools', 'seed_results.json')) else {}
for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*'))):
  n = os.path.basename(d)
  m = json.load(open(os.path.join(d, 'meta.json')))
  out.append(w('* `%s` (%s, %s): %s. Needs: %s.' % (n, m['property'], res.get(n, 'added after the last run of tools/run_seeds.py'), m['what_it_breaks'].rstrip('.'), m['needs'].rstrip('.'))))
tail = os.path.join(HERE, 'tools', 'design_tail.md')
if os.path.exists(tail): out += ['', open(tail).read().rstrip()]
out += ['', '## 9. Defects of the pinned tree', '', 'From known_findings.txt ("known" are reported, "fixed" are repaired in /repo):', '']
for l in open(os.path.join(HERE, 'known_findings.txt')):
  l = l.strip()
  if l.startswith('known:'): out.append(w('* ' + l.replace('known:', 'Known:')))
  if l.startswith('fixed:'): out.append(w('* ' + l.replace('fixed:', 'Fixed:')))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
