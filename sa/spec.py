"""Specification framework: obligations, their decision, reports, evidence.

A property module defines `check(ctx)`.  It extracts abstract values from the
public API with the interpreter and states obligations with ctx.eq / ctx.true /
ctx.expect_raise ...  Every obligation is keyed by (rule, construct), never by
line numbers.
"""
import ast
import itertools
import json
import os
import sys
import time
import traceback

import numpy as np

from . import engine
from . import interp as IT
from . import terms as T
from . import values as V
from .values import AbsRaise, Arr, Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_known():
  """known_findings.txt: lines 'known: property=Cxx key=<key> :: <text>'."""
  out = {}
  p = os.path.join(VERIF, 'known_findings.txt')
  if os.path.exists(p):
    for line in open(p):
      line = line.strip()
      if not line.startswith('known:'): continue
      head, _, text = line[6:].partition('::')
      d = dict(x.split('=', 1) for x in head.split() if '=' in x)
      out[(d['property'], d['key'])] = text.strip()
  return out


class Skip(Exception):
  """The rest of this section does not apply to the tree under analysis."""


class Ctx:

  def __init__(self, pid, tier='quick', seed=1):
    self.pid, self.tier, self.seed = pid, tier, seed
    self.thorough = tier == 'thorough'
    self.rules = {}
    self.obl = []            # (key, verdict, tier)
    self.violations = []     # dict(key, text)
    self.undecided = []      # (key, text)
    self.notes = []
    self.functions = set()
    self.statements = set()
    self.calls = 0
    self.joins = 0
    self.terms = 0
    self.prims = set()
    self.samples = []
    self.section_name = ''
    self.anchor = ''
    self.I = None
    self.t0 = time.time()
    self.floor = 0
    self.n_val = 192 if self.thorough else 64

  # -- sections -------------------------------------------------------------

  def section(self, name, fn, *args, **kw):
    """Runs one group of obligations on a freshly analysed tree."""
    self.section_name = name
    T.reset()
    V.ROUNDING[0] = False
    self.anchor = ''
    self.I = engine.new()
    self.domain = None       # valuation of the documented arguments, when their domains depend on one another
    try:
      self.I.load('optax')
      fn(self, *args, **kw)
      # conditional raises of the analysed code, met while calling it with documented arguments
      for g, exc, where in self.I.raises:
        (x,) = T.evaluate([g], self.domain or self.val())
        if x.astype(bool).any(): self.violate('raises', name, 'reachable %r at %s under %s' % (exc, where, T.show(g, 5)))
    except Skip as e:
      self.notes.append('%s: %s' % (name, e))
    except AbsRaise as e:
      self.violate('raises', name, 'the analysed code raises %r at %s' % (e.exc, e.where))
    except Unsupported as e:
      self.undecided.append((name, 'outside the analysed language: %s' % e))
    except RecursionError:
      self.undecided.append((name, 'recursion limit'))
    except Exception:  # pylint: disable=broad-except
      self.undecided.append((name, 'analyser error\n' + traceback.format_exc()[-1500:]))
    finally:
      self.absorb()

  def literals(self, *files, lo=4, hi=2048):
    """Integers the analysed modules compare with (constants folded): sizes at which their code may change its mind."""
    out = set()
    for f in files:
      path = os.path.join(engine.REPO, 'optax', '_src', f)
      if not os.path.exists(path): continue
      with open(path) as fh: tree = ast.parse(fh.read())
      top = [n for n in ast.walk(tree) if isinstance(n, ast.Compare)]
      top += [n.value for n in ast.walk(tree) if isinstance(n, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and n.value is not None]
      top += [n.args[0] for n in ast.walk(tree) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'range' and n.args]
      top += [x for n in ast.walk(tree) if isinstance(n, ast.Slice) for x in (n.lower, n.upper) if x is not None]
      for t in top:
        for n in ([t] if not isinstance(t, ast.Compare) else [t.left] + t.comparators):
          v = fold(n)
          if isinstance(v, (int, float)) and not isinstance(v, bool) and lo <= abs(v) <= hi and v == int(v): out.add(abs(int(v)))
    return sorted(out)

  def sizes(self, *files, lo=4, hi=2048):
    return sorted({n + d for n in self.literals(*files, lo=lo, hi=hi)[-4:] for d in (0, 1)})

  def directed(self, *files, hi=300):
    """Trees whose leaf size or number of leaves passes such a threshold."""
    out = {}
    for n in self.literals(*files, lo=15, hi=hi)[-2:]:
      out['leaf of %d' % (n + 1)] = {'v': L(n + 1), 's': L(2)}
      out['%d leaves' % (n + 1)] = [L()] * (n + 1)
    return out

  def absorb(self):
    I = self.I
    if I is None: return
    self.functions |= I.functions
    self.statements |= I.visited
    self.calls += I.n_calls
    self.joins += I.n_joins
    self.prims |= I.used_prims
    self.terms += len(T.Term._table)

  def guard(self, name, fn, *args, rule='raises', **kw):
    """Runs fn; a raise of the analysed code is a violation of this obligation only."""
    try:
      return fn(*args, **kw)
    except AbsRaise as e:
      self.violate(rule, name, 'raises %r at %s' % (e.exc, e.where))
      return None

  # -- access ---------------------------------------------------------------

  def f(self, dotted):
    try:
      return self.I.optax(dotted)
    except AbsRaise as e:
      raise Unsupported('anchor optax.%s vanished: %r' % (dotted, e.exc)) from None

  def has(self, dotted):
    try:
      self.I.optax(dotted)
      return True
    except AbsRaise:
      return False

  def call(self, f, *args, **kw):
    if isinstance(f, str):
      nm, f = f, self.f(f)
      self.note_anchor('optax.' + nm, f)
    return self.I.call(f, list(args), kw)

  def note_anchor(self, nm, f):
    if isinstance(f, IT.Closure):
      self.anchor = '%s (%s:%d)' % (nm, os.path.relpath(f.module.path, self.I.repo), f.node.lineno)
    elif isinstance(f, IT.AClass) and f.module is not None:
      self.anchor = '%s (%s)' % (nm, os.path.relpath(f.module.path, self.I.repo))

  def init(self, tx, params): return self.I.call(self.I.getattr(tx, 'init'), [params])

  def update(self, tx, u, s, *p):
    r = self.I.call(self.I.getattr(tx, 'update'), [u, s] + list(p))
    if not (isinstance(r, tuple) and len(r) == 2):
      raise AbsRaise(V.ExcVal(ValueError, ('update does not return a pair',)), None)
    return r

  def tx(self, init, update):
    """A GradientTransformation built from analyser-side functions."""
    gt = self.f('GradientTransformation')
    return self.I.call(gt, [IT.Prim(init, 'init'), IT.Prim(update, 'update')])

  def scripted(self, src, **env):
    """Interprets driver source (user code calling the library); returns its variables."""
    import ast
    import textwrap
    I = self.I
    m = IT.Module('driver', 'driver')
    m.scope.vars.update({'__name__': 'driver'}, **env)
    I.where.append(('driver', 'driver'))
    saved = I.frames, I.line
    I.frames = [IT.Frame(None, len(I.pc), m.scope)]
    try:
      I.exec_block(ast.parse(textwrap.dedent(src)).body, m.scope)
    finally:
      I.where.pop()
      I.frames, I.line = saved
    return m.scope.vars

  def prim(self, fn, name='f'): return IT.Prim(fn, name)

  # -- decisions ------------------------------------------------------------

  def val(self, n=None, seed=None, **override):
    return T.Valuation(n or self.n_val, self.seed if seed is None else seed, override)

  def passed(self, rule, name, how):
    self.obl.append(('%s/%s' % (rule, name), 'holds', how))

  def violate(self, rule, name, text):
    key = '%s/%s' % (rule, name)
    self.obl.append((key, 'violated', ''))
    if self.anchor: text += '\n    construct: ' + self.anchor
    self.violations.append(dict(key=key, text=text, section=self.section_name))

  def true(self, rule, name, cond, text=''):
    """A structural fact."""
    if cond: self.passed(rule, name, 'structural')
    else: self.violate(rule, name, text or 'fact does not hold')
    return bool(cond)

  def where(self, term):
    p = getattr(term, 'prov', None)
    if not p: return ''
    (q, path), line = p
    return ' computed at %s:%d (%s)' % (os.path.relpath(path, self.I.repo) if path.startswith('/') else path, line, q)

  def eq(self, rule, name, actual, expected, val=None, dtypes=False, ieee=False, weak=False, tol=1e-9):
    """Trees equal in structure, leaf shape, (dtype) and value."""
    la, da = V.tree_flatten(actual)
    le, de = V.tree_flatten(expected)
    if da != de:
      return self._no(rule, name, 'tree structure is %s, documented %s' % (V.describe(actual), V.describe(expected)))
    tiers = set()
    v = val or self.val()
    for k, (x, y) in enumerate(zip(la, le)):
      lab = name if len(la) == 1 else '%s leaf %d' % (name, k)
      isarr = isinstance(x, (Arr, int, float, np.ndarray))
      if not isarr or not isinstance(y, (Arr, int, float, np.ndarray, T.Term)):
        if x is y or x == y: continue
        return self._no(rule, name, '%s: %r instead of %r' % (lab, x, y))
      X = V.as_arr(x)
      Y = y if isinstance(y, Arr) else (ref(y))
      if X.shape != Y.shape:
        return self._no(rule, name, '%s: shape %s, documented %s' % (lab, X.shape, Y.shape))
      if dtypes and X.dtype != Y.dtype:
        return self._no(rule, name, '%s: dtype %s, documented %s' % (lab, X.dtype, Y.dtype))
      for idx in np.ndindex(*X.shape):
        a, b = X.a[idx], Y.a[idx]
        if (a.op in _BOOL) != (b.op in _BOOL):
          a, b = T.b2n(a) if a.op in _BOOL else a, T.b2n(b) if b.op in _BOOL else b
        how, i = T.decide_equal(a, b, v, tol, ieee)
        if how == 'differs':
          return self._no(rule, name, self.explain(lab, idx, a, b, v, i))
        tiers.add(how)
    how = ('fingerprint' if 'fingerprint' in tiers else 'normal-form' if 'normal-form' in tiers else 'value-number')
    self.passed(rule, name, how)
    if len(self.samples) < 12:
      self.samples.append('%s/%s [%s]' % (rule, name, how))
    return True

  def same(self, actual, expected, val=None):
    """Whether two trees of arrays are equal, without an obligation."""
    la, da = V.tree_flatten(actual)
    le, de = V.tree_flatten(expected)
    if da != de: return False
    v = val or self.val()
    for x, y in zip(la, le):
      X, Y = V.as_arr(x), (y if isinstance(y, Arr) else ref(y))
      if X.shape != Y.shape: return False
      if any(T.decide_equal(X.a[i], Y.a[i], v, 1e-9, False)[0] == 'differs' for i in np.ndindex(*X.shape)): return False
    return True

  def _no(self, rule, name, text):
    self.violate(rule, name, text)
    return False

  def explain(self, lab, idx, a, b, v, i):
    if isinstance(i, tuple): v, i = i
    x, y = T.evaluate([a, b], v)
    vs = []
    for t in T.walk([a, b]):
      if t.op == 'v' and len(vs) < 14: vs.append('%s=%.6g' % (t.val[0], float(v[t.val][i])))
    return ('%s%s: the code computes\n      %s%s\n    documented\n      %s\n    e.g. at %s\n      code %.9g, documented %.9g'
            % (lab, list(idx) if idx else '', T.show(a, 6), self.where(a), T.show(b, 6), ', '.join(sorted(vs)),
               float(x[i]), float(y[i])))

  def holds(self, rule, name, cond, val=None, what=''):
    """A boolean term (or array of them) is true on every valuation."""
    v = val or self.val()
    arr = cond if isinstance(cond, np.ndarray) else (cond.a if isinstance(cond, Arr) else V.oarr(T.as_term(cond)))
    for idx in np.ndindex(*arr.shape):
      t = arr[idx]
      (x,) = T.evaluate([t], v)
      bad = np.nonzero(~x.astype(bool))[0]
      if len(bad):
        i = int(bad[0])
        vs = ['%s=%.6g' % (u.val[0], float(v[u.val][i])) for u in T.walk([t]) if u.op == 'v'][:14]
        return self._no(rule, name, '%s fails%s: %s\n    at %s' % (what or name, self.where(t), T.show(t, 6), ', '.join(sorted(vs))))
    self.passed(rule, name, 'fingerprint')
    return True

  def finite(self, rule, name, tree, val=None):
    leaves = [l for l in V.tree_leaves(tree) if isinstance(l, Arr)]
    ok = True
    for k, l in enumerate(leaves):
      ok = self.holds(rule, '%s leaf %d finite' % (name, k), V.vec(T.isfinite, l) if l.dtype != 'bool' else V.oarr(T.TRUE), val) and ok
    return ok

  def expect_raise(self, rule, name, thunk, excs=(ValueError,), why=''):
    """The call must raise on every path."""
    try:
      r = thunk()
    except AbsRaise as e:
      c = e.exc.cls if isinstance(e.exc, V.ExcVal) else None
      if excs is None or (isinstance(c, type) and issubclass(c, tuple(excs))):
        self.passed(rule, name, 'structural')
        return True
      return self._no(rule, name, 'raises %r, documented %s %s' % (e.exc, '/'.join(x.__name__ for x in excs), why))
    return self._no(rule, name, 'no error is raised; returns %s %s' % (V.describe(r) if not callable(r) else r, why))

  def no_raises(self, rule, name, start=0, val=None, ignore=()):
    """No recorded conditional raise of the analysed code is reachable."""
    v = val or self.val()
    for g, exc, where in self.I.raises[start:]:
      if isinstance(exc, V.ExcVal) and exc.cls in ignore: continue
      (x,) = T.evaluate([g], v)
      if x.astype(bool).any():
        return self._no(rule, name, 'reachable %r at %s under %s' % (exc, where, T.show(g, 5)))
    self.passed(rule, name, 'fingerprint')
    return True

  def raised_guard(self, start=0, excs=None):
    """Disjunction of the guards under which the code raises."""
    g = T.FALSE
    for c, exc, _ in self.I.raises[start:]:
      if excs is None or (isinstance(exc, V.ExcVal) and isinstance(exc.cls, type) and issubclass(exc.cls, excs)):
        g = T.lor(g, c)
    return g

  def no_events(self, rule, name, kinds, start=0):
    bad = [e for e in self.I.events[start:] if e['kind'] in kinds]
    if bad:
      seen, lines = set(), []
      for e in bad:
        k = (e['kind'], e['where'])
        if k in seen: continue
        seen.add(k)
        lines.append('%s at %s: %s' % (e['kind'], e['where'], e['detail']))
      return self._no(rule, name, '\n    '.join(lines[:6]))
    self.passed(rule, name, 'effect analysis')
    return True

  # -- symbols --------------------------------------------------------------

  @staticmethod
  def h(name, dom='unit', kind='float'): return V.pysym(name, dom, kind)

  @staticmethod
  def arr(name, shape=(), dom='real', dtype='float32', **kw): return V.sym(name, shape, dom, dtype, **kw)

  def tree(self, name, spec=None, dom='real', dtype=None):
    spec = TREE if spec is None else spec
    def go(s, path):
      if isinstance(s, dict): return {k: go(x, path + '.' + str(k)) for k, x in s.items()}
      if isinstance(s, list): return [go(x, path + '.' + str(k)) for k, x in enumerate(s)]
      if isinstance(s, L): return self.arr(path, s.shape, dom, dtype or s.dtype)
      if isinstance(s, tuple): return tuple(go(x, path + '.' + str(k)) for k, x in enumerate(s))
      if s is None: return None
      raise TypeError(s)
    return go(spec, name)

  # -- finishing ------------------------------------------------------------

  def finish(self, out=sys.stdout):
    known = load_known()
    fresh, knownhit = [], []
    for v in self.violations:
      (knownhit if (self.pid, v['key'].replace(' ', '_')) in known else fresh).append(v)
    if self.floor and len(self.obl) < self.floor and not fresh:
      self.undecided.append(('floor', 'only %d obligations were generated, %d expected' % (len(self.obl), self.floor)))
    tiers = {}
    for _, verdict, how in self.obl:
      tiers[how or verdict] = tiers.get(how or verdict, 0) + 1
    files = sorted({f for f, _ in self.functions})
    ev = dict(
        property=self.pid, level='other',
        tier=self.tier, seed=self.seed,
        coverage=dict(
            explanation=self.explanation,
            rule=self.rule,
            obligations=len(self.obl),
            obligations_holding=sum(1 for o in self.obl if o[1] == 'holds'),
            decided_by=tiers,
            functions_analysed=len(self.functions),
            function_names=sorted('%s:%s' % f for f in self.functions)[:400],
            statements_analysed=len(self.statements),
            files=files,
            abstract_calls=self.calls,
            branch_joins=self.joins,
            value_graph_nodes=self.terms,
            modelled_primitives=len(self.prims),
            undecided=len(self.undecided),
            known_findings=len(knownhit),
            samples=self.samples,
            notes=self.notes[:40],
        ),
        violations=len(fresh),
        wall_s=round(time.time() - self.t0, 2))
    self.evidence_extra(ev)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
      json.dump(ev, f, indent=1, default=str)
    print('%s [%s]: %d obligations over %d functions / %d statements of %d files; %s; %.1fs' % (
        self.pid, self.tier, len(self.obl), len(self.functions), len(self.statements), len(files),
        ', '.join('%s %d' % kv for kv in sorted(tiers.items())), time.time() - self.t0), file=out)
    for v in knownhit:
      print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, v['key'], known[(self.pid, v['key'].replace(' ', '_'))]), file=out)
    if fresh:
      rp = os.path.join(VERIF, 'evidence', self.pid + '.violation.txt')
      with open(rp, 'w') as f:
        for v in fresh:
          f.write('[%s] %s\n    %s\n' % (v['section'], v['key'], v['text']))
        f.write('replay: cd %s && python3-vt -m sa.check %s --tier %s\n' % (VERIF, self.pid, self.tier))
      for v in fresh[:8]:
        print('  violated %s\n    %s' % (v['key'], v['text']), file=out)
      print('VIOLATION property=%s replay=%s' % (self.pid, rp), file=out)
      return 1
    if self.undecided:
      for k, t in self.undecided[:6]:
        print('  UNDECIDED %s: %s' % (k, t if self.thorough else t[-500:]), file=out)
      print('ANALYSIS-BROKEN property=%s' % self.pid, file=out)
      return 2
    return 0

  rule = ''
  explanation = ''

  def evidence_extra(self, ev):
    pass


_BOOL = {'lt', 'le', 'eq', 'not', 'and', 'or', 'isnan', 'isfinite', 'isinf', 'appb'}


def fold(n):
  """Value of a constant arithmetic expression."""
  if isinstance(n, ast.Constant): return n.value if isinstance(n.value, (int, float)) else None
  if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
    v = fold(n.operand)
    return None if v is None else -v
  if isinstance(n, ast.BinOp):
    a, b = fold(n.left), fold(n.right)
    if a is None or b is None or abs(a) > 1e6 or abs(b) > 1e6: return None
    try:
      if isinstance(n.op, ast.Mult): return a * b
      if isinstance(n.op, ast.Add): return a + b
      if isinstance(n.op, ast.Sub): return a - b
      if isinstance(n.op, ast.Pow) and abs(b) < 32: return a ** b
      if isinstance(n.op, ast.LShift) and isinstance(a, int) and isinstance(b, int) and b < 32: return a << b
    except Exception: return None   # pylint: disable=broad-except
  return None


class L:
  """Leaf spec: shape and dtype."""
  def __init__(self, *shape, dtype='float32'): self.shape, self.dtype = shape, dtype


TREE = {'w': L(2, 2), 'b': (L(2),), 'z': [L()]}
MIXED = {'w': L(2, 2, dtype='float16'), 'b': (L(2, dtype='bfloat16'),), 'z': [L()]}
WIDE = {'k%02d' % i: [L(), L(1), L(2), (L(1, 2), L())][i % 4] for i in range(14)}      # more leaves than anything unrolled by hand
LONG = {'v': L(70), 'm': L(9, 8)}


def ref(x, dtype='float32', shape=None):
  """Reference leaf from Terms / object arrays."""
  if isinstance(x, Arr): return x
  if isinstance(x, T.Term): return Arr(V.oarr(x), 'bool' if x.op in _BOOL else dtype)
  if isinstance(x, (bool, int, float)): return V.as_arr(x)
  a = np.asarray(x, dtype=object)
  out = np.empty(a.shape, dtype=object)
  for i in np.ndindex(*a.shape): out[i] = T.as_term(a[i])
  del shape
  return Arr(out, dtype)


def tmap(f, *trees):
  """Reference-side tree map over Arr leaves; f gets object ndarrays of Terms."""
  def g(*ls):
    r = f(*[l.a if isinstance(l, Arr) else l for l in ls])
    return ref(r, ls[0].dtype if isinstance(ls[0], Arr) else 'float32')
  return V.tree_map(g, *trees)


def u(op):
  """Lifts a unary term operator to object arrays."""
  def f(x):
    if isinstance(x, T.Term): return T.unary(op, x)
    if isinstance(x, (int, float)): return T.unary(op, T.const(x))
    return V.vec(lambda t: T.unary(op, t), x)
  return f


sqrt, exp, log, absv, cos = u('sqrt'), u('exp'), u('log'), u('abs'), u('cos')


def vmax(a, b): return V.vec(lambda p, q: T.maximum(T.as_term(p), T.as_term(q)), _o(a), _o(b))
def vmin(a, b): return V.vec(lambda p, q: T.minimum(T.as_term(p), T.as_term(q)), _o(a), _o(b))


def where(c, a, b):
  return V.vec(lambda p, q, r: T.ite(p, T.as_term(q), T.as_term(r)), _o(c), _o(a), _o(b))


def vf(f, *xs): return V.vec(lambda *ts: f(*[T.as_term(t) for t in ts]), *[_o(x) for x in xs])


def _o(x):
  if isinstance(x, Arr): return x.a
  if isinstance(x, np.ndarray): return x
  return V.oarr(T.as_term(x))


def total(x):
  """Left-to-right sum of an object array (or list of arrays)."""
  if isinstance(x, (list, tuple)):
    return total([t for a in x for t in _o(a).reshape(-1)]) if any(not isinstance(a, T.Term) for a in x) else _sum(x)
  return _sum(list(_o(x).reshape(-1)))


def _sum(ts):
  r = T.ZERO
  for t in ts: r = T.add(r, t)
  return r


def hv(x):
  """Term of a python symbolic scalar / number."""
  return x.item() if isinstance(x, Arr) else T.as_term(x)


_ = itertools
