"""Hash-consed value graph ("gated SSA" terms) with IEEE-faithful evaluation,
symbolic differentiation, a polynomial normal form and random interpretation.

A Term denotes a scalar as a function of the analysis' symbols.  No rewriting
that is unsound in IEEE arithmetic is done by the constructors (0*x stays,
x-x stays); `normal_form` is the separate algebraic view.
"""
import math
import sys
import zlib
from fractions import Fraction

import numpy as np

sys.setrecursionlimit(200000)

INT32_MAX = 2**31 - 1
INF = math.inf
INT32_MIN = -2**31


PROV = None   # the running interpreter: source of provenance for reports


class Term:
  __slots__ = ('op', 'args', 'val', 'id', 'prov')
  _table = {}
  _n = 0

  def __repr__(self):
    return show(self)

  def __reduce__(self):
    raise TypeError

  # Arithmetic sugar (used by the reference side of specs).
  def __add__(self, o):
    if isinstance(o, np.ndarray): return NotImplemented
    return add(self, as_term(o))
  def __radd__(self, o):
    if isinstance(o, np.ndarray): return NotImplemented
    return add(as_term(o), self)
  def __sub__(self, o):
    if isinstance(o, np.ndarray): return NotImplemented
    return sub(self, as_term(o))
  def __rsub__(self, o):
    if isinstance(o, np.ndarray): return NotImplemented
    return sub(as_term(o), self)
  def __mul__(self, o):
    if isinstance(o, np.ndarray): return NotImplemented
    return mul(self, as_term(o))
  def __rmul__(self, o):
    if isinstance(o, np.ndarray): return NotImplemented
    return mul(as_term(o), self)
  def __truediv__(self, o):
    if isinstance(o, np.ndarray): return NotImplemented
    return div(self, as_term(o))
  def __rtruediv__(self, o):
    if isinstance(o, np.ndarray): return NotImplemented
    return div(as_term(o), self)
  def __pow__(self, o):
    if isinstance(o, np.ndarray): return NotImplemented
    return power(self, as_term(o))
  def __rpow__(self, o):
    if isinstance(o, np.ndarray): return NotImplemented
    return power(as_term(o), self)
  def __neg__(self): return neg(self)
  def __bool__(self):
    raise TypeError('truth value of a symbolic term')
  __hash__ = object.__hash__

  @property
  def is_const(self):
    return self.op == 'c'


def _mk(op, args=(), val=None, key=None):
  k = (op, tuple(a.id for a in args), key if key is not None else val)
  t = Term._table.get(k)
  if t is None:
    t = Term()
    t.op, t.args, t.val = op, args, val
    t.id = Term._n
    t.prov = (PROV.where[-1], PROV.line) if PROV is not None and PROV.where else None
    Term._n += 1
    Term._table[k] = t
  return t


def const(v):
  if isinstance(v, (bool, np.bool_)):
    v = bool(v)
  elif isinstance(v, (int, np.integer)):
    v = int(v)
  elif isinstance(v, (float, np.floating)):
    v = float(v)
    # Exact integers share the node of the integer constant (except -0.0).
    if v == v and abs(v) < 2**53 and v == int(v) and not (
        v == 0 and math.copysign(1, v) < 0):
      v = int(v)
  elif isinstance(v, (complex, np.complexfloating)):
    raise TypeError('complex constant')
  else:
    raise TypeError('not a constant: %r' % (v,))
  return _mk('c', (), v, (type(v).__name__, repr(v)))


TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)


def as_term(v):
  if isinstance(v, Term):
    return v
  return const(v)


def var(name, dom='real'):
  if isinstance(dom, tuple): dom = tuple(tuple(x) if isinstance(x, list) else x for x in dom)
  return _mk('v', (), (name, dom))


def is_c(t, v):
  return t.op == 'c' and not isinstance(t.val, bool) and t.val == v


def _num(t):
  return t.op == 'c'


def _cv(t):
  return float(t.val) if isinstance(t.val, bool) else t.val


def _fold(fn, *ts):
  """Constant-folds with numpy IEEE semantics (ints stay ints if exact)."""
  vals = [_cv(t) for t in ts]
  with np.errstate(all='ignore'):
    r = fn(*vals)
  return const(r)


def _pyop(op, a, b):
  if isinstance(a, int) and isinstance(b, int):
    return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b}[op]()
  a, b = np.float64(a), np.float64(b)
  with np.errstate(all='ignore'):
    return float({'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b}[op]())


def add(a, b):
  if _num(a) and _num(b):
    return const(_pyop('+', _cv(a), _cv(b)))
  if is_c(a, 0): return b
  if is_c(b, 0): return a
  return _mk('add', (a, b))


def sub(a, b):
  if _num(a) and _num(b):
    return const(_pyop('-', _cv(a), _cv(b)))
  if is_c(b, 0): return a
  return _mk('sub', (a, b))


def mul(a, b):
  if _num(a) and _num(b):
    return const(_pyop('*', _cv(a), _cv(b)))
  if is_c(a, 1): return b
  if is_c(b, 1): return a
  return _mk('mul', (a, b))


def neg(a):
  if _num(a): return const(-_cv(a)) if _cv(a) != 0 else const(0)
  if a.op == 'neg': return a.args[0]
  return _mk('neg', (a,))


def div(a, b):
  if _num(a) and _num(b):
    x, y = _cv(a), _cv(b)
    if isinstance(x, int) and isinstance(y, int) and y != 0 and x % y == 0:
      return const(x // y)
    with np.errstate(all='ignore'):
      return const(float(np.float64(x) / np.float64(y)))
  if is_c(b, 1): return a
  return _mk('div', (a, b))


def power(a, b):
  if _num(a) and _num(b):
    x, y = _cv(a), _cv(b)
    if isinstance(x, int) and isinstance(y, int) and 0 <= y < 64 and abs(x) < 64:
      return const(x ** y)
    with np.errstate(all='ignore'):
      return const(float(np.power(np.float64(x), np.float64(y))))
  if is_c(b, 1): return a
  if is_c(b, 0): return ONE
  return _mk('pow', (a, b))


_UNARY = {
    'sqrt': np.sqrt, 'exp': np.exp, 'log': np.log, 'log1p': np.log1p,
    'expm1': np.expm1, 'sin': np.sin, 'cos': np.cos, 'tan': np.tan,
    'tanh': np.tanh, 'sinh': np.sinh, 'cosh': np.cosh,
    'arctan': np.arctan, 'arcsin': np.arcsin, 'arccos': np.arccos,
    'abs': np.abs, 'sign': np.sign, 'floor': np.floor, 'ceil': np.ceil,
    'round': np.round, 'trunc': np.trunc,
    'sigmoid': lambda x: np.where(x >= 0, 1 / (1 + np.exp(-np.abs(x))),
                                  np.exp(-np.abs(x)) / (1 + np.exp(-np.abs(x)))) + (0 * x if np.isnan(x).any() else 0),
    'logsigmoid': lambda x: -np.logaddexp(0, -x),
}
try:
  from scipy import special as _sp  # pylint: disable=g-import-not-at-top
  _UNARY.update(erf=_sp.erf, erfc=_sp.erfc, lgamma=_sp.gammaln, digamma=_sp.digamma,
                erfinv=_sp.erfinv)
except Exception:  # pragma: no cover
  pass


def unary(op, a):
  if _num(a):
    x = np.float64(_cv(a))
    if op == 'abs' and isinstance(_cv(a), int):
      return const(abs(_cv(a)))
    with np.errstate(all='ignore'):
      return const(float(_UNARY[op](x)))
  if op == 'abs' and a.op == 'abs': return a
  if op in ('floor', 'ceil', 'round', 'trunc') and a.op in ('floor', 'ceil', 'round', 'trunc'):
    return a
  if op in ('floor', 'ceil', 'round', 'trunc') and int_valued(a):
    return a
  if a.op == 'stopgrad' and op in ('floor', 'ceil', 'round', 'trunc', 'sign'):
    return unary(op, a.args[0])
  return _mk(op, (a,))


_INT_DOMS = ('count', 'int', 'posint', 'bigcount')


def int_valued(t):
  if t.op == 'c': return isinstance(t.val, (int, bool))
  if t.op == 'v':
    d = t.val[1]
    return d in _INT_DOMS or (isinstance(d, tuple) and d[0] in ('ints', 'intset'))
  if t.op in ('floor', 'ceil', 'round', 'trunc', 'wrap32', 'b2n'): return True
  if t.op in ('add', 'sub', 'mul', 'neg', 'max', 'min', 'mod', 'abs', 'rem'):
    return all(int_valued(a) for a in t.args)
  if t.op == 'ite': return int_valued(t.args[1]) and int_valued(t.args[2])
  return False


def maximum(a, b):
  if a is b: return a
  if _num(a) and _num(b):
    x, y = _cv(a), _cv(b)
    if x != x or y != y: return const(float('nan'))
    return a if x >= y else b
  return _mk('max', (a, b))


def minimum(a, b):
  if a is b: return a
  if _num(a) and _num(b):
    x, y = _cv(a), _cv(b)
    if x != x or y != y: return const(float('nan'))
    return a if x <= y else b
  return _mk('min', (a, b))


def lt(a, b):
  if _num(a) and _num(b): return const(_cv(a) < _cv(b))
  if a is b: return FALSE
  r = _range_cmp(a, b)
  if r == '<': return TRUE
  if r in ('>', '>='): return FALSE
  return _mk('lt', (a, b))


def le(a, b):
  if _num(a) and _num(b): return const(_cv(a) <= _cv(b))
  r = _range_cmp(a, b)
  if r in ('<', '<='): return TRUE
  if r == '>': return FALSE
  return _mk('le', (a, b))


def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)


_REAL = {'unit': (0.0, 1.0, True), 'pos': (0.0, math.inf, True)}


def rng_of(t):
  """Interval [lo, hi] of a term from the declared domains (None: unknown).

  Only used to discharge comparisons; NaN-free by domain.
  """
  if t.op == 'c':
    v = _cv(t)
    if v != v: return None
    return (v, v)
  if t.op == 'v':
    d = t.val[1]
    if isinstance(d, tuple) and d[0] == 'ints': return (d[1], d[2])
    if isinstance(d, tuple) and d[0] == 'range': return (d[1], d[2])
    if isinstance(d, tuple) and d[0] in ('intset', 'set'):
      return (min(d[1]), max(d[1]))
    if d == 'posint': return (1, INT32_MAX)
    return None
  return None


def _range_cmp(a, b):
  ra, rb = rng_of(a), rng_of(b)
  if ra is None or rb is None: return None
  if ra[1] < rb[0]: return '<'
  if ra[0] > rb[1]: return '>'
  if ra[1] <= rb[0]: return '<='
  if ra[0] >= rb[1]: return '>='
  return None


def eq(a, b):
  if _num(a) and _num(b): return const(_cv(a) == _cv(b))
  if a is b and int_valued(a): return TRUE
  r = _range_cmp(a, b)
  if r in ('<', '>'): return FALSE
  if b.id < a.id: a, b = b, a
  return _mk('eq', (a, b))


def ne(a, b): return lnot(eq(a, b))


def lnot(a):
  if a.op == 'c': return const(not a.val)
  if a.op == 'not': return a.args[0]
  return _mk('not', (a,))


def land(a, b):
  if a.op == 'c': return b if a.val else FALSE
  if b.op == 'c': return a if b.val else FALSE
  if a is b: return a
  return _mk('and', (a, b))


def lor(a, b):
  if a.op == 'c': return TRUE if a.val else b
  if b.op == 'c': return TRUE if b.val else a
  if a is b: return a
  return _mk('or', (a, b))


def ite(c, a, b):
  if c.op == 'c': return a if c.val else b
  if a is b: return a
  if c.op == 'not': return ite(c.args[0], b, a)
  # ite(c, ite(c, x, _), y) -> ite(c, x, y)
  if a.op == 'ite' and a.args[0] is c: a = a.args[1]
  if b.op == 'ite' and b.args[0] is c: b = b.args[2]
  if a is b: return a
  if a.op == 'c' and b.op == 'c' and isinstance(a.val, bool) and isinstance(b.val, bool):
    return c if a.val else lnot(c)
  return _mk('ite', (c, a, b))


def isnan(a):
  if a.op == 'c': return const(_cv(a) != _cv(a))
  return _mk('isnan', (a,))


def isfinite(a):
  if a.op == 'c': return const(bool(np.isfinite(_cv(a))))
  return _mk('isfinite', (a,))


def isinf(a):
  if a.op == 'c': return const(bool(np.isinf(_cv(a))))
  return _mk('isinf', (a,))


def b2n(a):
  """bool -> number."""
  if a.op == 'c': return const(int(bool(a.val)))
  return _mk('b2n', (a,))


def n2b(a):
  if a.op == 'c': return const(bool(a.val))
  if a.op == 'b2n': return a.args[0]
  return lnot(eq(a, ZERO))


def mod(a, b):
  if _num(a) and _num(b) and _cv(b) != 0:
    x, y = _cv(a), _cv(b)
    return const(x % y if isinstance(x, int) and isinstance(y, int) else float(np.mod(x, y)))
  return _mk('mod', (a, b))


def rem(a, b):
  if _num(a) and _num(b) and _cv(b) != 0:
    x, y = _cv(a), _cv(b)
    return const(int(math.fmod(x, y)) if isinstance(x, int) and isinstance(y, int) else math.fmod(x, y))
  return _mk('rem', (a, b))


def wrap32(a):
  if a.op == 'c':
    v = int(a.val)
    return const((v + 2**31) % 2**32 - 2**31)
  if a.op == 'wrap32' or (a.op == 'v' and int_valued(a)): return a
  if a.op == 'b2n': return a
  if a.op in ('max', 'min', 'ite', 'mod') and all(
      x.op in ('wrap32', 'b2n', 'c') or (x.op == 'v' and int_valued(x)) for x in a.args[-2:]):
    return a
  return _mk('wrap32', (a,))


def wrap(a, bits, unsigned):
  """Integer a reduced to the given narrow width."""
  lo, n = (0, 2 ** bits) if unsigned else (-2 ** (bits - 1), 2 ** bits)
  if a.op == 'c' and lo <= a.val < lo + n: return a
  if a.op == 'b2n': return a
  return add(mod(sub(a, const(lo)), const(n)), const(lo))


def stopgrad(a):
  if a.op in ('c', 'stopgrad'): return a
  return _mk('stopgrad', (a,))


def app(name, args, alpha=(), boolean=False):
  """Uninterpreted function of scalar arguments; alpha = derivative multi-index."""
  return _mk('appb' if boolean else 'app', tuple(as_term(a) for a in args), (name, tuple(alpha)))


# ---------------------------------------------------------------------------
# printing


def show(t, depth=7):
  if t.op == 'c': return repr(t.val)
  if t.op == 'v': return t.val[0]
  if depth == 0: return '…'
  s = [show(a, depth - 1) for a in t.args]
  infix = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'pow': '**', 'lt': '<',
           'le': '<=', 'eq': '==', 'and': '&', 'or': '|', 'mod': '%'}
  if t.op in infix: return '(%s %s %s)' % (s[0], infix[t.op], s[1])
  if t.op in ('app', 'appb'):
    a = ','.join(s[:8]) + (',…' if len(s) > 8 else '')
    return '%s%s(%s)' % (t.val[0], ("'" + str(list(t.val[1]))) if t.val[1] else '', a)
  if t.op == 'ite': return '(%s ? %s : %s)' % tuple(s)
  return '%s(%s)' % (t.op, ', '.join(s))


def size(ts):
  seen = set()
  stack = list(ts)
  while stack:
    t = stack.pop()
    if t.id in seen: continue
    seen.add(t.id)
    stack.extend(t.args)
  return len(seen)


def walk(ts):
  seen = set()
  stack = list(ts)
  while stack:
    t = stack.pop()
    if t.id in seen: continue
    seen.add(t.id)
    yield t
    stack.extend(t.args)


def topo(ts):
  """Terms in dependency order."""
  out, seen = [], set()
  for root in ts:
    stack = [(root, False)]
    while stack:
      t, done = stack.pop()
      if done:
        out.append(t)
        continue
      if t.id in seen: continue
      seen.add(t.id)
      stack.append((t, True))
      for a in t.args:
        if a.id not in seen: stack.append((a, False))
  return out


# ---------------------------------------------------------------------------
# valuations (random interpretation)


def _h(*parts):
  return zlib.crc32(repr(parts).encode())


def sample(name, dom, n, seed):
  rs = np.random.RandomState((_h(name) ^ (seed * 2654435761)) & 0xffffffff)
  if dom == 'real': return rs.randn(n) * 1.5
  if dom == 'real0':
    x = rs.randn(n) * 1.5
    x[rs.rand(n) < 0.25] = 0.0
    return x
  if dom == 'pos': return np.exp(rs.randn(n))
  if dom == 'nonneg0':
    x = np.exp(rs.randn(n))
    x[rs.rand(n) < 0.25] = 0.0
    return x
  if dom == 'small': return 10.0 ** rs.uniform(-8, -1, n)
  if dom == 'unit': return rs.uniform(0.05, 0.95, n)
  if dom == 'count':
    x = rs.randint(0, 12, n).astype(float)
    big = rs.rand(n)
    x[big < 0.15] = rs.randint(12, 2000, (big < 0.15).sum())
    return x
  if dom == 'bigcount':
    x = rs.randint(0, 12, n).astype(float)
    big = rs.rand(n)
    x[big < 0.3] = INT32_MAX
    m = (big >= 0.3) & (big < 0.5)
    x[m] = INT32_MAX - rs.randint(0, 4, m.sum())
    return x
  if dom == 'int': return rs.randint(-6, 7, n).astype(float)
  if dom == 'posint': return rs.randint(1, 9, n).astype(float)
  if dom == 'bool': return rs.rand(n) < 0.5
  if dom == 'key': return rs.rand(n) * 4
  if dom == 'full':
    x = rs.randn(n) * 1.5
    r = rs.rand(n)
    x[r < 0.08] = np.nan
    x[(r >= 0.08) & (r < 0.14)] = np.inf
    x[(r >= 0.14) & (r < 0.20)] = -np.inf
    x[(r >= 0.20) & (r < 0.28)] = 0.0
    return x
  if isinstance(dom, tuple):
    if dom[0] == 'ints':
      return rs.randint(dom[1], dom[2] + 1, n).astype(float)
    if dom[0] == 'range': return rs.uniform(dom[1], dom[2], n)
    if dom[0] in ('intset', 'set'):
      return np.asarray([float(dom[1][i]) for i in rs.randint(0, len(dom[1]), n)])
  raise ValueError(dom)


SHIFTS = 9


def magnify(dom, x, k):
  """The k-th change of magnitude of values x, inside their domain."""
  if dom in ('real', 'real0', 'full', 'pos', 'nonneg0'):
    with np.errstate(all='ignore'): return x * (1e-5, 1e-3, 0.03, 40., 1e3, 1e5, 1., 1e-12, 1e12)[k]
  if dom == 'unit': return (x * 1e-3, x * 0.1, x * 0.3, 1 - x * 0.3, 1 - x * 0.1, 1 - x * 1e-3, 1 - x * 1e-4, x, 1 - x * 1e-2)[k]
  if dom in ('count', 'bigcount'): return np.floor((x % 16) * (3, 17, 150, 5e3, 3e5, 6e7, 700, 1, 2)[k] + 7)
  if dom == 'posint': return np.floor(x * (1, 2, 5, 12, 40, 300, 1, 1, 1)[k]) + (k > 0)
  if dom == 'int': return np.floor(x * (1, 2, 5, 12, 40, 300, 1, 1, 1)[k])
  return x


_COUNTS = {'count': 0, 'bigcount': 0, 'posint': 1, 'int': -2**31}


def around(dom, x, c):
  """Values of domain dom on, next to and at multiples of the constant c; x where the domain has none."""
  if dom in _COUNTS:
    c = abs(c)
    ys = [y for y in (c, c + 1, c - 1, 2 * c, 2 * c + 1, 3 * c, 4 * c) if _COUNTS[dom] <= y <= INT32_MAX - (0 if dom == 'bigcount' else 64) and y == int(y)]
  else:
    lo, hi = {'real': (-INF, INF), 'real0': (-INF, INF), 'full': (-INF, INF), 'pos': (0., INF), 'nonneg0': (0., INF), 'unit': (0., 1.), 'small': (0., .1)}.get(dom, (1, 0))
    if isinstance(dom, tuple) and dom[0] == 'range': lo, hi = dom[1], dom[2]
    if isinstance(dom, tuple) and dom[0] == 'ints':
      ys = [y for y in (c, c + 1, c - 1, 2 * c) if dom[1] <= y <= dom[2] and y == int(y)]
    else: ys = [y for y in (c * 1.0001, c * .9999, c * 1.3, c * .7, -c * 1.0001, -c * .9999) if lo < y < hi]
  return np.resize(np.asarray(ys, float), len(x)) if ys else x


class Valuation:
  """n valuations of every symbol, drawn from its domain; overridable."""

  def __init__(self, n=64, seed=1, override=None):
    self.n, self.seed = n, seed
    self.override = dict(override or {})
    self.memo = {}
    self.drawn = {}
    self.shift = None       # (variables or None for all, index) of a directed valuation
    self.shifted = {}

  def directed(self, names, k):
    """A few valuations with other magnitudes of the named variables (of all when None)."""
    key = (names, k)
    if key not in self.shifted:
      v = Valuation(min(self.n, 12), self.seed, self.override)
      v.shift = key
      self.shifted[key] = v
    return self.shifted[key]

  def __getitem__(self, key):
    name, dom = key
    if key in self.drawn: return self.drawn[key]
    o = self.override.get(name)
    if o is None:
      x = sample(name, dom, self.n, self.seed)
      if self.shift is not None and (self.shift[0] is None or name in self.shift[0]):
        x = magnify(dom, x, self.shift[1]) if isinstance(self.shift[1], int) else around(dom, x, self.shift[1][1])
    elif callable(o):
      x = np.asarray(o(self))
    elif isinstance(o, (str, tuple)):
      x = sample(name, o, self.n, self.seed)
    else:
      x = np.broadcast_to(np.asarray(o, dtype=bool if dom == 'bool' else float), (self.n,))
    self.drawn[key] = x
    return x


def _app_params(name, k, boolean=False):
  """Weights of the smooth stand-in for uninterpreted function `name`/k."""
  rs = np.random.RandomState(_h('app', name, k))
  m = 3
  w = rs.uniform(0.3, 1.3, (m, k)) * rs.choice([-1, 1], (m, k))
  return rs.uniform(0.5, 1.5, m), w / max(1.0, math.sqrt(k) / 1.5), rs.uniform(-2, 2, m)


_APP = {}


def _app_eval(name, alpha, args, n):
  k = len(args)
  p = _APP.get((name, k))
  if p is None: p = _APP[(name, k)] = _app_params(name, k)
  c, w, b = p
  if k == 0:
    return np.full(n, float((c * np.sin(b)).sum()))
  x = np.stack([np.broadcast_to(np.asarray(a, float), (n,)) for a in args])
  x = np.nan_to_num(x, nan=0.7390851, posinf=2.71, neginf=-3.3)  # uninterpreted also on special values
  with np.errstate(all='ignore'):
    z = w @ x + b[:, None]
  out = 0.0
  for j in range(len(c)):
    coef = c[j]
    for i in alpha: coef = coef * w[j, i]
    out = out + coef * np.sin(z[j] + len(alpha) * (math.pi / 2))
  return out


def evaluate(ts, V):
  """Evaluates terms over all valuations of V (IEEE float64, vectorised)."""
  memo = V.memo
  n = V.n
  with np.errstate(all='ignore'):
    for t in topo([t for t in ts if t.id not in memo]):
      if t.id in memo: continue
      op = t.op
      if op == 'c':
        r = np.full(n, t.val, dtype=bool if isinstance(t.val, bool) else float)
      elif op == 'v':
        r = V[t.val]
      else:
        a = [memo[x.id] for x in t.args]
        r = _eval_op(t, op, a, n)
      memo[t.id] = r
  return [memo[t.id] for t in ts]


def _f(x):
  return x.astype(float) if x.dtype == bool else x


def _eval_op(t, op, a, n):
  if op == 'add': return _f(a[0]) + _f(a[1])
  if op == 'sub': return _f(a[0]) - _f(a[1])
  if op == 'mul': return _f(a[0]) * _f(a[1])
  if op == 'div': return _f(a[0]) / _f(a[1])
  if op == 'pow': return np.power(_f(a[0]), _f(a[1]))
  if op == 'neg': return -_f(a[0])
  if op == 'ite': return np.where(a[0].astype(bool), a[1], a[2]) if a[1].dtype == a[2].dtype else np.where(a[0].astype(bool), _f(a[1]), _f(a[2]))
  if op == 'max': return np.maximum(_f(a[0]), _f(a[1]))
  if op == 'min': return np.minimum(_f(a[0]), _f(a[1]))
  if op == 'lt': return a[0] < a[1]
  if op == 'le': return a[0] <= a[1]
  if op == 'eq': return a[0] == a[1]
  if op == 'not': return ~a[0].astype(bool)
  if op == 'and': return a[0].astype(bool) & a[1].astype(bool)
  if op == 'or': return a[0].astype(bool) | a[1].astype(bool)
  if op == 'isnan': return np.isnan(_f(a[0]))
  if op == 'isinf': return np.isinf(_f(a[0]))
  if op == 'isfinite': return np.isfinite(_f(a[0]))
  if op == 'b2n': return _f(a[0])
  if op == 'mod': return np.mod(_f(a[0]), _f(a[1]))
  if op == 'rem': return np.fmod(_f(a[0]), _f(a[1]))
  if op == 'wrap32': return np.mod(_f(a[0]) + 2.0**31, 2.0**32) - 2.0**31
  if op == 'stopgrad': return a[0]
  if op == 'arctan2': return np.arctan2(_f(a[0]), _f(a[1]))
  if op == 'sigmoid':
    x = _f(a[0])
    e = np.exp(-np.abs(x))
    return np.where(x >= 0, 1 / (1 + e), e / (1 + e)) + np.where(np.isnan(x), np.nan, 0)
  if op == 'app': return _app_eval(t.val[0], t.val[1], a, n)
  if op == 'appb': return _app_eval(t.val[0], t.val[1], a, n) > 0
  if op in _UNARY: return _UNARY[op](_f(a[0]))
  raise ValueError(op)


def mp_evaluate(t, V, i, digits=60):
  """High-precision evaluation of one valuation (filters rounding artefacts)."""
  import mpmath as mp  # pylint: disable=g-import-not-at-top
  mp.mp.dps = digits
  memo = {}
  nan = mp.mpf('nan')

  def num(x):
    return mp.mpf(int(x)) if isinstance(x, bool) else x

  for u in topo([t]):
    op = u.op
    a = [memo[x.id] for x in u.args]
    if op == 'c':
      r = u.val if isinstance(u.val, bool) else mp.mpf(u.val)
    elif op == 'v':
      r = V[u.val][i]
      r = bool(r) if isinstance(r, (bool, np.bool_)) else mp.mpf(float(r))
    else:
      try:
        r = _mp_op(mp, u, op, a, num, nan)
      except (ZeroDivisionError, ValueError, OverflowError):
        r = _eval_op(u, op, [np.asarray([x if isinstance(x, bool) else float(x)]) for x in a], 1)[0]
        r = bool(r) if isinstance(r, (bool, np.bool_)) else mp.mpf(float(r))
    if isinstance(r, mp.mpc):
      r = r.real if r.imag == 0 else nan
    memo[u.id] = r
  return memo[t.id]


def _mp_op(mp, t, op, a, num, nan):
  if op in ('add', 'sub', 'mul', 'div', 'pow', 'max', 'min', 'neg', 'mod', 'rem', 'wrap32'):
    a = [num(x) for x in a]
  if op == 'add': return a[0] + a[1]
  if op == 'sub': return a[0] - a[1]
  if op == 'mul': return a[0] * a[1]
  if op == 'div':
    if a[1] == 0:
      raise ZeroDivisionError
    return a[0] / a[1]
  if op == 'pow':
    if a[0] == 0 or not mp.isfinite(a[0]) or not mp.isfinite(a[1]) or abs(a[1]) > 10**7: raise ValueError
    return mp.power(a[0], a[1])
  if op == 'neg': return -a[0]
  if op == 'ite': return a[1] if a[0] else a[2]
  if op in ('max', 'min'):
    if mp.isnan(a[0]) or mp.isnan(a[1]): return nan
    return (max if op == 'max' else min)(a[0], a[1])
  if op == 'lt': return bool(num(a[0]) < num(a[1]))
  if op == 'le': return bool(num(a[0]) <= num(a[1]))
  if op == 'eq': return bool(num(a[0]) == num(a[1]))
  if op == 'not': return not a[0]
  if op == 'and': return bool(a[0] and a[1])
  if op == 'or': return bool(a[0] or a[1])
  if op == 'isnan': return bool(mp.isnan(num(a[0])))
  if op == 'isinf': return bool(mp.isinf(num(a[0])))
  if op == 'isfinite': return bool(mp.isfinite(num(a[0])))
  if op == 'b2n': return num(a[0])
  if op == 'stopgrad': return a[0]
  if op == 'mod':
    if a[1] == 0: raise ValueError
    return a[0] - a[1] * mp.floor(a[0] / a[1])
  if op == 'wrap32': return mp.fmod(a[0] + 2**31, 2**32) - 2**31 if a[0] >= INT32_MIN else a[0] + 2**32
  if op in ('sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'tanh', 'expm1', 'floor', 'ceil', 'sign', 'erf', 'sinh', 'cosh'):
    x = num(a[0])
    if not mp.isfinite(x) or (op == 'log' and x <= 0) or (op == 'exp' and abs(x) > 10**5): raise ValueError
    return getattr(mp, op)(x)
  if op == 'abs': return abs(num(a[0]))
  if op == 'log1p':
    if a[0] <= -1: raise ValueError
    return mp.log(1 + a[0])
  if op == 'sigmoid':
    if not mp.isfinite(a[0]): raise ValueError
    return 1 / (1 + mp.exp(-a[0]))
  if op == 'logsigmoid':
    if not mp.isfinite(a[0]) or abs(a[0]) > 10**5: raise ValueError
    return -mp.log(1 + mp.exp(-a[0]))
  if op in ('app', 'appb'):
    name, alpha = t.val
    k = len(a)
    p = _APP.get((name, k)) or _app_params(name, k)
    c, w, b = p
    out = mp.mpf(0)
    for j in range(len(c)):
      coef = mp.mpf(float(c[j]))
      for i in alpha: coef *= mp.mpf(float(w[j, i]))
      z = mp.mpf(float(b[j]))
      for i in range(k):
        x = num(a[i])
        if mp.isnan(x): x = mp.mpf(0.7390851)
        elif mp.isinf(x): x = mp.mpf(2.71 if x > 0 else -3.3)
        z += mp.mpf(float(w[j, i])) * x
      out += coef * mp.sin(z + len(alpha) * mp.pi / 2)
    return out if op == 'app' else bool(out > 0)
  raise ValueError(op)


def _close(x, y, tol):
  bx, by = x.dtype == bool, y.dtype == bool
  if bx and by: return x == y
  x, y = _f(x), _f(y)
  with np.errstate(all='ignore'):
    same = (x == y) | (np.isnan(x) & np.isnan(y))
    fin = np.isfinite(x) & np.isfinite(y)
    d = np.abs(np.where(fin, x - y, np.inf))
    # Relative comparison: eps-sized terms (1e-8) must stay visible.
    return same | (fin & (d <= tol * np.maximum(np.abs(x), np.abs(y)) + 1e-300))


def separates(a, b, V, tol=1e-9, exact=False):
  """Index of a valuation on which terms a and b differ, or None.

  A float64 difference is re-evaluated with 60 digits before it counts.
  """
  if a is b: return None
  x, y = evaluate([a, b], V)
  ok = _close(x, y, tol)
  bad = np.nonzero(~ok)[0]
  for i in bad[:6]:
    xi, yi = x[i], y[i]
    if ((x.dtype == bool) or (y.dtype == bool)) and not exact:
      return int(i)
    try:
      u, v = mp_evaluate(a, V, int(i)), mp_evaluate(b, V, int(i))
    except Exception:  # pragma: no cover
      if exact: continue
      return int(i)
    import mpmath as mp
    u = mp.mpf(int(u)) if isinstance(u, bool) else u
    v = mp.mpf(int(v)) if isinstance(v, bool) else v
    if mp.isnan(u) and mp.isnan(v): continue
    if u == v: continue
    if mp.isfinite(u) and mp.isfinite(v):
      if abs(u - v) <= mp.mpf('1e-12') * max(abs(u), abs(v)): continue
    del xi, yi
    return int(i)
  return None


def uncovered(a, b, V):
  """Decisions of one graph only (comparisons, maxima) that go one way on all of V; the variables they use."""
  ta, tb = topo([a]), topo([b])
  ia, ib = {t.id for t in ta}, {t.id for t in tb}
  evaluate([a, b], V)
  out = []
  for t in ta + tb:
    if t.op not in _DECIDE or (t.id in ia and t.id in ib): continue
    if t.op in _BOOLEAN: x = V.memo[t.id]
    elif t.op in ('max', 'min'): x = V.memo[t.args[0].id] <= V.memo[t.args[1].id]
    else: x = V.memo[t.id] == V.memo[t.id][0]
    x = np.asarray(x)
    if x.all() or not x.any(): out.append(t)
  return out


_BOOLEAN = ('lt', 'le', 'eq')
_DECIDE = _BOOLEAN + ('max', 'min', 'floor', 'ceil', 'sign')


def at_constants(a, b, V, tol=1e-9):
  """A valuation separating a and b in which a counter meets a large integer only one of the graphs mentions."""
  ta, tb = topo([a]), topo([b])
  ca, cb = ({int(abs(t.val)) for t in ts if t.op == 'c' and not isinstance(t.val, bool) and math.isfinite(t.val) and t.val == int(t.val) and 13 <= abs(t.val) < INT32_MAX - 4} for ts in (ta, tb))
  new = sorted(ca ^ cb)[:4]
  if not new: return None
  names = sorted({t.val[0] for t in ta + tb if t.op == 'v' and t.val[1] in _COUNTS})[:6]
  for n in names:
    for c in new:
      W = V.directed(frozenset([n]), ('at', float(c)))
      i = separates(a, b, W, tol, exact=True)
      if i is not None: return W, i
  return None


def directed(a, b, V, tol=1e-9):
  """A directed valuation separating a and b: used when a decision of one graph was taken one way only."""
  W = at_constants(a, b, V, tol)
  if W is not None: return W
  gs = uncovered(a, b, V)
  if not gs: return None
  names = []
  for g in gs[:12]:
    vs = sorted({t.val[0] for t in topo([g]) if t.op == 'v'})
    if len(vs) <= 8: names += [frozenset([x]) for x in vs if frozenset([x]) not in names]
  for ns in [None] + names[:12]:
    for k in range(SHIFTS):
      W = V.directed(ns, k)
      i = separates(a, b, W, tol, exact=True)
      if i is not None: return W, i
  for g in gs[:6]:
    cone = topo([g])
    cs = [float(t.val) for t in cone if t.op == 'c' and not isinstance(t.val, bool) and math.isfinite(t.val) and 0 < abs(t.val) < INT32_MAX - 4][:4]
    for n in sorted({t.val[0] for t in cone if t.op == 'v'})[:4]:
      for c in cs:
        W = V.directed(frozenset([n]), ('at', c))
        i = separates(a, b, W, tol, exact=True)
        if i is not None: return W, i
  return None


# ---------------------------------------------------------------------------
# differentiation


def _dunary(op, x):
  """d op(x)/dx as a raw term."""
  if op == 'sqrt': return div(const(0.5), unary('sqrt', x))
  if op == 'exp': return unary('exp', x)
  if op == 'log': return div(ONE, x)
  if op == 'log1p': return div(ONE, add(ONE, x))
  if op == 'expm1': return unary('exp', x)
  if op == 'sin': return unary('cos', x)
  if op == 'cos': return neg(unary('sin', x))
  if op == 'tan': return add(ONE, mul(unary('tan', x), unary('tan', x)))
  if op == 'tanh': return sub(ONE, mul(unary('tanh', x), unary('tanh', x)))
  if op == 'sinh': return unary('cosh', x)
  if op == 'cosh': return unary('sinh', x)
  if op == 'arctan': return div(ONE, add(ONE, mul(x, x)))
  if op == 'abs': return unary('sign', x)
  if op == 'sigmoid':
    s = unary('sigmoid', x)
    return mul(s, sub(ONE, s))
  if op == 'logsigmoid': return unary('sigmoid', neg(x))
  if op == 'erf': return mul(const(2 / math.sqrt(math.pi)), unary('exp', neg(mul(x, x))))
  if op == 'lgamma': return unary('digamma', x)
  if op in ('sign', 'floor', 'ceil', 'round', 'trunc'): return ZERO
  raise ValueError('derivative of ' + op)


def partials(t):
  """[(arg, local derivative)] of a node; selects handled by the callers."""
  op, a = t.op, t.args
  if op == 'add': return [(a[0], ONE), (a[1], ONE)]
  if op == 'sub': return [(a[0], ONE), (a[1], const(-1))]
  if op == 'mul': return [(a[0], a[1]), (a[1], a[0])]
  if op == 'neg': return [(a[0], const(-1))]
  if op == 'div': return [(a[0], div(ONE, a[1])), (a[1], neg(div(a[0], mul(a[1], a[1]))))]
  if op == 'pow':
    out = []
    if a[1].op == 'c':
      out.append((a[0], mul(a[1], power(a[0], sub(a[1], ONE)))))
    else:
      # jax guards x=0 / y=0 here
      out.append((a[0], mul(a[1], power(a[0], ite(eq(a[1], ZERO), ONE, sub(a[1], ONE))))))
      out.append((a[1], mul(unary('log', ite(eq(a[0], ZERO), ONE, a[0])), t)))
    return out
  if op in ('max', 'min'):
    x, y = a
    c = lt(y, x) if op == 'max' else lt(x, y)
    e = ite(eq(x, y), const(0.5), ZERO)
    cx = ite(c, ONE, e)
    cy = ite(c, ZERO, ite(eq(x, y), const(0.5), ONE))
    return [(x, cx), (y, cy)]
  if op == 'app':
    name, alpha = t.val
    return [(a[i], app(name, a, tuple(sorted(alpha + (i,))))) for i in range(len(a))]
  if op == 'mod': return [(a[0], ONE), (a[1], neg(unary('floor', div(a[0], a[1]))))]
  if op in _UNARY: return [(a[0], _dunary(op, a[0]))]
  return []  # consts, comparisons, stopgrad, integers ...


def _depends(ts, vs):
  ids = {v.id for v in vs}
  dep = {}
  for t in topo(ts):
    dep[t.id] = t.id in ids or (t.op != 'stopgrad' and any(dep[a.id] for a in t.args))
  return dep


def diff(t, v):
  """Forward-mode derivative dt/dv (selects select)."""
  dep = _depends([t], [v])
  d = {}
  for u in topo([t]):
    if not dep[u.id]:
      d[u.id] = ZERO
    elif u is v:
      d[u.id] = ONE
    elif u.op == 'ite':
      d[u.id] = ite(u.args[0], d[u.args[1].id], d[u.args[2].id])
    else:
      acc = ZERO
      for a, p in partials(u):
        if dep[a.id] and not is_c(d[a.id], 0):
          acc = add(acc, mul(p, d[a.id]))
      d[u.id] = acc
  return d[t.id]


def backward(t, vs, seed=ONE):
  """Reverse-mode derivative, IEEE-faithful (0 * inf stays): list of terms."""
  dep = _depends([t], vs)
  adj = {t.id: seed}
  for u in reversed(topo([t])):
    g = adj.get(u.id)
    if g is None or not dep.get(u.id): continue
    if u.op == 'ite':
      c, a, b = u.args
      items = [(a, ite(c, g, ZERO)), (b, ite(c, ZERO, g))]
    else:
      items = [(a, mul(g, p)) for a, p in partials(u)]
    for a, c in items:
      if not dep[a.id]: continue
      prev = adj.get(a.id)
      adj[a.id] = c if prev is None else add(prev, c)
  return [adj.get(v.id, ZERO) if dep.get(v.id) else ZERO for v in vs]


def subst(ts, mapping):
  """Simultaneous substitution {var Term: Term}."""
  m = {k.id: v for k, v in mapping.items()}
  memo = {}
  for u in topo(ts):
    if u.id in m:
      memo[u.id] = m[u.id]
    elif not u.args:
      memo[u.id] = u
    else:
      memo[u.id] = rebuild(u, [memo[a.id] for a in u.args])
  return [memo[t.id] for t in ts]


_CTORS = {}


def rebuild(u, a):
  if all(x is y for x, y in zip(a, u.args)): return u
  op = u.op
  if not _CTORS:
    _CTORS.update({
        'add': add, 'sub': sub, 'mul': mul, 'div': div, 'pow': power, 'neg': neg,
        'ite': ite, 'max': maximum, 'min': minimum, 'lt': lt, 'le': le, 'eq': eq,
        'not': lnot, 'and': land, 'or': lor, 'isnan': isnan, 'isinf': isinf,
        'isfinite': isfinite, 'b2n': b2n, 'mod': mod, 'rem': rem, 'wrap32': wrap32,
        'stopgrad': stopgrad})
  if op in _CTORS: return _CTORS[op](*a)
  if op in _UNARY: return unary(op, a[0])
  if op == 'app': return app(u.val[0], a, u.val[1])
  if op == 'appb': return app(u.val[0], a, u.val[1], boolean=True)
  return _mk(op, tuple(a), u.val)


# ---------------------------------------------------------------------------
# normal form: polynomials with rational exponents over atoms


class _TooBig(Exception):
  pass


_NF = {}
_LIMIT = 400


def _poly_key(p):
  return tuple(sorted((m, c) for m, c in p.items()))


def _padd(p, q, s=1):
  r = dict(p)
  for m, c in q.items():
    n = r.get(m, 0) + s * c
    if n == 0: r.pop(m, None)
    else: r[m] = n
  return r


def _mmul(a, b):
  d = dict(a)
  for k, e in b:
    n = d.get(k, 0) + e
    if n == 0: d.pop(k, None)
    else: d[k] = n
  return tuple(sorted(d.items()))


def _pmul(p, q):
  if len(p) * len(q) > _LIMIT: raise _TooBig
  r = {}
  for m1, c1 in p.items():
    for m2, c2 in q.items():
      m = _mmul(m1, m2)
      n = r.get(m, 0) + c1 * c2
      if n == 0: r.pop(m, None)
      else: r[m] = n
  return r


_ATOMS = {}


def _atom(key):
  """Interned id of an atom key."""
  i = _ATOMS.get(key)
  if i is None:
    i = _ATOMS[key] = len(_ATOMS)
  return {((i, Fraction(1)),): Fraction(1)}


def _ppow(p, e):
  e = Fraction(e)
  if not p:
    return {} if e > 0 else _atom(('pow', (), e))
  if e.denominator == 1 and 0 <= e <= 4:
    r = {(): Fraction(1)}
    for _ in range(int(e)): r = _pmul(r, p)
    return r
  if len(p) == 1:
    (m, c), = p.items()
    # (x^2)^(1/2) is |x|: only distribute when no even power is halved.
    if e.denominator == 1 or not any((k * e).denominator < k.denominator or
                                     (k.denominator == 1 and k.numerator % e.denominator == 0)
                                     for _, k in m) or len(m) == 0:
      if c == 1 or e.denominator == 1:
        return {tuple((a, k * e) for a, k in m): c ** int(e) if e.denominator == 1 else Fraction(1)}
      if c > 0:
        f = float(c) ** float(e)
        return {tuple((a, k * e) for a, k in m): Fraction(f)}
  # primitive part
  lead = min(p)
  c = p[lead]
  if e.denominator == 1:
    q = {m: v / c for m, v in p.items()}
    base = _atom(('poly', _poly_key(q)))
    (bm, _), = base.items()
    return {tuple((a, k * e) for a, k in bm): c ** int(e)}
  base = _atom(('poly', _poly_key(p)))
  (bm, _), = base.items()
  return {tuple((a, k * e) for a, k in bm): Fraction(1)}


def normal_form(t):
  """Key of the algebraic normal form of t (None if it grows too large)."""
  try:
    for u in topo([t]):
      if u.id not in _NF: _NF[u.id] = _nf(u)
    return _poly_key(_NF[t.id])
  except (_TooBig, OverflowError, ZeroDivisionError):
    return None


def _key(u):
  return _poly_key(_NF[u.id])


def _nf(u):
  op, a = u.op, u.args
  if op == 'c':
    if isinstance(u.val, bool): return _atom(('bool', u.val))
    if isinstance(u.val, float) and not math.isfinite(u.val): return _atom(('c', repr(u.val)))
    return {(): Fraction(u.val)} if u.val != 0 else {}
  if op == 'v': return _atom(('v', u.val[0]))
  P = [_NF[x.id] for x in a]
  if op == 'add': return _padd(P[0], P[1])
  if op == 'sub': return _padd(P[0], P[1], -1)
  if op == 'neg': return _padd({}, P[0], -1)
  if op == 'mul': return _pmul(P[0], P[1])
  if op == 'div': return _pmul(P[0], _ppow(P[1], -1))
  if op == 'sqrt': return _ppow(P[0], Fraction(1, 2))
  if op == 'pow' and a[1].op == 'c' and not isinstance(a[1].val, bool) and math.isfinite(a[1].val):
    f = Fraction(a[1].val)
    if f.denominator <= 64 and abs(f.numerator) <= 64: return _ppow(P[0], f)
  if op in ('max', 'min', 'and', 'or', 'eq'):
    return _atom((op,) + tuple(sorted([_key(x) for x in a], key=repr)))
  return _atom((op, u.val) + tuple(_key(x) for x in a))


def separates_ieee(a, b, V, tol=1e-9):
  """Like `separates`, for specs about NaN/Inf: no high-precision appeal."""
  if a is b: return None
  x, y = evaluate([a, b], V)
  bad = np.nonzero(~_close(x, y, tol))[0]
  for i in bad[:8]:
    if np.isfinite(_f(x)[i]) and np.isfinite(_f(y)[i]) and x.dtype != bool and y.dtype != bool:
      if abs(_f(x)[i] - _f(y)[i]) <= 1e-6 * (1 + abs(_f(x)[i])): continue
    return int(i)
  return None


def decide_equal(a, b, V, tol=1e-9, ieee=False):
  """('value-number'|'normal-form'|'fingerprint', None) or ('differs', index)."""
  if a is b: return 'value-number', None
  if ieee:
    i = separates_ieee(a, b, V, tol)
    return ('fingerprint', None) if i is None else ('differs', i)
  na = normal_form(a)
  if na is not None and na == normal_form(b): return 'normal-form', None
  i = separates(a, b, V, tol)
  if i is not None: return 'differs', i
  d = directed(a, b, V, tol)
  if d is not None: return 'differs', d
  return 'fingerprint', None


def reset():
  """Forgets all terms (between independent obligations)."""
  Term._table.clear()
  _NF.clear()
  _ATOMS.clear()
  for c in (TRUE, FALSE, ZERO, ONE):
    Term._table[(c.op, (), (type(c.val).__name__, repr(c.val)))] = c
