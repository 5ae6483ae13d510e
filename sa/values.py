"""Abstract values: scalarised arrays over the value graph, dtypes, pytrees."""
import math

import numpy as np

from . import terms as T


class Unsupported(Exception):
  """The analyser cannot model a construct: analysis-broken, never a verdict."""


class AbsRaise(Exception):
  """An exception raised by the analysed program."""

  def __init__(self, exc, where=None):
    super().__init__(repr(exc))
    self.exc = exc      # ExcVal
    self.where = where


class ExcVal:
  def __init__(self, cls, args=()):
    self.cls, self.args = cls, tuple(args)

  def __repr__(self):
    return '%s%r' % (self.cls.__name__, tuple(str(a)[:80] for a in self.args))


# ---------------------------------------------------------------------------
# dtypes

FLOATS = ('bfloat16', 'float16', 'float32', 'float64')
INTS = ('int8', 'int16', 'int32', 'int64')
UINTS = ('uint8', 'uint16', 'uint32', 'uint64')
COMPLEX = ('complex64', 'complex128')
ALL_DTYPES = ('bool',) + UINTS + INTS + FLOATS + COMPLEX
BITS = {'bool': 8, 'bfloat16': 16, 'float16': 16, 'float32': 32, 'float64': 64,
        'complex64': 64, 'complex128': 128}
for _d in INTS + UINTS: BITS[_d] = int(_d.lstrip('uint'))

# JAX type-promotion lattice (jax.numpy.promote_types, jax 0.4).
_LATTICE = {
    'b1': ['i*'],
    'u1': ['i2', 'u2'], 'u2': ['i4', 'u4'], 'u4': ['i8', 'u8'], 'u8': ['f*'],
    'i*': ['u1', 'i1'], 'i1': ['i2'], 'i2': ['i4'], 'i4': ['i8'], 'i8': ['f*'],
    'f*': ['c*', 'f2', 'bf'], 'bf': ['f4'], 'f2': ['f4'], 'f4': ['f8', 'c4'],
    'f8': ['c8'], 'c*': ['c4'], 'c4': ['c8'], 'c8': [],
}
_NAME = {'bool': 'b1', 'uint8': 'u1', 'uint16': 'u2', 'uint32': 'u4', 'uint64': 'u8',
         'int8': 'i1', 'int16': 'i2', 'int32': 'i4', 'int64': 'i8', 'bfloat16': 'bf',
         'float16': 'f2', 'float32': 'f4', 'float64': 'f8', 'complex64': 'c4', 'complex128': 'c8'}
_UN = {v: k for k, v in _NAME.items()}


def _ups(n):
  out, st = {n}, [n]
  while st:
    for k in _LATTICE[st.pop()]:
      if k not in out:
        out.add(k)
        st.append(k)
  return out


_UPS = {n: _ups(n) for n in _LATTICE}


def is_float(d): return d in FLOATS
def is_int(d): return d in INTS or d in UINTS
def is_complex(d): return d in COMPLEX


class Config:
  x64 = False


def canon(d):
  if Config.x64: return d
  return {'int64': 'int32', 'uint64': 'uint32', 'float64': 'float32', 'complex128': 'complex64'}.get(d, d)


def _node(d, weak):
  if weak:
    if d == 'bool': return 'b1'
    return 'i*' if is_int(d) else ('c*' if is_complex(d) else 'f*')
  return _NAME[d]


def _lub(nodes):
  common = set.intersection(*[_UPS[n] for n in nodes])
  return [c for c in common if common <= _UPS[c]][0]


def promote(*dw):
  """[(dtype, weak)] -> (dtype, weak), following jax's lattice result type."""
  dw = [(canon(d), w) for d, w in dw]
  if len(dw) == 1: return dw[0]
  ds = {d for d, _ in dw}
  allweak = all(w for _, w in dw)
  if len(ds) == 1 and not allweak: return dw[0][0], False
  if allweak:
    return canon(_UN[_lub({_NAME[d] for d in ds})]), True
  n = _lub({_node(d, w) for d, w in dw})
  if n.endswith('*'):
    return canon({'i*': 'int64', 'f*': 'float64', 'c*': 'complex128'}[n]), True
  return canon(_UN[n]), False


def promote_types(a, b):
  return promote((a, False), (b, False))[0]


class DType:
  """A numpy dtype object / scalar type (jnp.float32, np.dtype('float32'))."""
  __slots__ = ('name',)
  _cache = {}

  def __new__(cls, name):
    if name not in cls._cache:
      o = object.__new__(cls)
      o.name = name
      cls._cache[name] = o
    return cls._cache[name]

  def __repr__(self): return 'dtype(%s)' % self.name
  def __eq__(self, o):
    try:
      return self.name == dtype_name(o)
    except Exception:
      return False
  def __ne__(self, o): return not self == o
  def __hash__(self): return hash(self.name)


def dtype_name(d):
  """Normalises anything naming a dtype; None -> None."""
  if d is None: return None
  if isinstance(d, DType): return d.name
  if isinstance(d, str):
    d = {'float': 'float64', 'int': 'int64', 'f4': 'float32', 'i4': 'int32', 'half': 'float16', 'single': 'float32', 'double': 'float64'}.get(d, d)
    if d in ALL_DTYPES: return d
  if d is float: return 'float64'
  if d is int: return 'int64'
  if d is bool: return 'bool'
  if d is complex: return 'complex128'
  n = getattr(d, 'dtype_name', None)
  if n: return n
  raise Unsupported('dtype %r' % (d,))


# ---------------------------------------------------------------------------
# arrays


class Arr:
  """A scalarised abstract array.

  a: numpy object array of Terms; py: 'float'/'int'/'bool' when it stands for
  a symbolic *Python* scalar; np: True for host numpy arrays; traced: value
  unknown to Python (a jax tracer).
  """
  __slots__ = ('a', 'dtype', 'weak', 'traced', 'py', 'np')

  def __init__(self, a, dtype, weak=False, traced=False, py=None, np_=False):
    if not isinstance(a, np.ndarray):
      b = np.empty((), dtype=object)
      b[()] = a
      a = b
    assert a.dtype == object, a.dtype
    self.a, self.dtype, self.weak, self.traced, self.py, self.np = a, dtype, weak, traced, py, np_

  @property
  def shape(self): return self.a.shape
  @property
  def ndim(self): return self.a.ndim
  @property
  def size(self): return int(self.a.size)

  def terms(self):
    return list(self.a.ravel())

  def item(self):
    assert self.a.size == 1
    return self.a.reshape(-1)[0]

  def with_(self, a=None, **kw):
    r = Arr(self.a if a is None else a, kw.get('dtype', self.dtype), kw.get('weak', self.weak),
            kw.get('traced', self.traced), kw.get('py', None), kw.get('np_', False))
    return r

  def concrete(self):
    """Python scalar / None if not constant."""
    if self.a.size == 1:
      t = self.a.reshape(-1)[0]
      if t.op == 'c': return t.val
    return None

  def is_concrete(self):
    return all(t.op == 'c' for t in self.a.ravel())

  def __repr__(self):
    k = self.py or ('%s%s%s' % (self.dtype, '*' if self.weak else '', list(self.shape)))
    ts = [T.show(t, 4) for t in self.a.ravel()[:3]]
    return 'Arr<%s%s>(%s%s)' % (k, ' traced' if self.traced else '', ', '.join(ts), '…' if self.a.size > 3 else '')

  def __bool__(self):
    raise Unsupported('native truth test of an abstract array')
  __hash__ = object.__hash__


def oarr(x, shape=None):
  """Object array from nested list / iterable of Terms."""
  if isinstance(x, np.ndarray) and x.dtype == object: return x
  if isinstance(x, T.Term):
    b = np.empty((), dtype=object)
    b[()] = x
    return b
  a = np.empty(shape if shape is not None else (len(x),), dtype=object)
  if shape is not None:
    flat = list(x)
    a.reshape(-1)[:] = flat if flat else []
    if a.size:
      a = np.array(flat + [None], dtype=object)[:-1].reshape(shape)
  else:
    for i, v in enumerate(x): a[i] = v
  return a


def vec(f, *arrs, nout=1):
  """Applies a scalar-term function elementwise with broadcasting."""
  arrs = [a.a if isinstance(a, Arr) else np.asarray(a, dtype=object) for a in arrs]
  b = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
  shape = b[0].shape
  out = np.empty(shape, dtype=object)
  o = out.reshape(-1)
  flats = [x.reshape(-1) for x in b]
  if out.ndim == 0:
    out[()] = f(*[x[0] for x in flats])
    return out
  for i in range(out.size):
    o[i] = f(*[x[i] for x in flats])
  return out


def const_arr(v, dtype=None, weak=None, np_=False):
  """Abstract array of a concrete Python/numpy value."""
  if isinstance(v, bool): d, w, p = 'bool', False, None
  elif isinstance(v, int): d, w, p = 'int64', True, None
  elif isinstance(v, float): d, w, p = 'float64', True, None
  else:
    v = np.asarray(v)
    d, w, p = str(v.dtype), False, None
  del p
  a = np.asarray(v)
  out = np.empty(a.shape, dtype=object)
  flat = out.reshape(-1)
  src = a.reshape(-1)
  if out.ndim == 0:
    out[()] = T.const(src[0])
  else:
    for i in range(out.size): flat[i] = T.const(src[i])
  dd = dtype or d
  if not np_: dd = canon(dd)
  return Arr(out, dd, w if weak is None else weak, False, None, np_)


def as_arr(v, what='array'):
  """Python scalar / nested list / Arr -> Arr (weak for Python scalars)."""
  if isinstance(v, Arr): return v
  if isinstance(v, (bool, int, float, np.bool_, np.integer, np.floating)):
    if isinstance(v, np.generic):
      return const_arr(v.item(), str(v.dtype), False, np_=True)
    return const_arr(v)
  if isinstance(v, np.ndarray): return const_arr(v, np_=True)
  if isinstance(v, T.Term): return Arr(v, 'float32')
  if isinstance(v, (list, tuple)):
    parts = [as_arr(x) for x in v]
    if not parts:
      return Arr(np.empty((0,), dtype=object), 'float32', False)
    d, w = promote(*[(p.dtype, p.weak) for p in parts])
    shapes = {p.shape for p in parts}
    if len(shapes) != 1: raise AbsRaise(ExcVal(ValueError, ('inhomogeneous shape',)))
    st = np.empty((len(parts),) + parts[0].shape, dtype=object)
    for i, p in enumerate(parts): st[i, ...] = cast(p, d).a
    return Arr(st, d, w, any(p.traced for p in parts))
  if v is None: raise AbsRaise(ExcVal(TypeError, ('None is not a valid value for %s' % what,)))
  from . import interp
  if isinstance(v, interp.Opaque): raise Unsupported('opaque value %r used as array' % v)
  raise AbsRaise(ExcVal(TypeError, ('%s is not a valid array type for %s' % (type(v).__name__, what),)))


def step_term(n):
  """The step a user function receives: an integer scalar, so that it can index a table with it."""
  a = as_arr(n)
  if not is_int(a.dtype): raise AbsRaise(ExcVal(TypeError, ('the step passed to a user function is not an integer but %s' % a.dtype,)))
  if a.shape != (): raise AbsRaise(ExcVal(TypeError, ('the step passed to a user function is not a scalar but of shape %s' % (a.shape,),)))
  return a.item()


def _to_num(t, src):
  return T.b2n(t) if src == 'bool' else t


ROUNDING = [False]     # when set, a float cast to a narrower type is an uninterpreted rounding of the value
MANTISSA = {'float64': 52, 'float32': 23, 'float16': 10, 'bfloat16': 7}


def rounded(t, d): return T.app('round_' + d, [t])


def cast(x, d, weak=False):
  """astype with canonicalised target."""
  src = x.dtype
  if src == d:
    return x if (x.weak == weak and x.py is None) else Arr(x.a, d, weak, x.traced, None, x.np)
  if d == 'bool':
    a = vec(T.n2b, x)
  elif is_int(d):
    if src == 'bool': a = vec(T.b2n, x)
    elif is_int(src): a = x.a if BITS[d] >= 32 or BITS[d] >= BITS[src] else vec(lambda t: T.wrap(t, BITS[d], d.startswith('u')), x)
    else: a = vec(lambda t: T.unary('trunc', t), x)
  elif ROUNDING[0] and x.shape != () and MANTISSA.get(d, 99) < MANTISSA.get(src, 0):
    a = vec(lambda t: t if t.op == 'c' else rounded(t, d), x)
  elif is_int(src) and not x.py and d in ('float16', 'bfloat16'):
    # a count or an index kept in half precision is another number beyond a few hundred
    a = vec(lambda t: t if t.op == 'c' else rounded(t, d), x)
  else:
    a = vec(T.b2n, x) if src == 'bool' else x.a
  return Arr(a, d, weak, x.traced, None, x.np)


# ---------------------------------------------------------------------------
# symbolic inputs


def sym(name, shape=(), dom='real', dtype='float32', weak=False, traced=True):
  a = np.empty(shape, dtype=object)
  if shape == ():
    a[()] = T.var(name, dom)
  else:
    for idx in np.ndindex(*shape):
      a[idx] = T.var('%s[%s]' % (name, ','.join(map(str, idx))), dom)
  return Arr(a, dtype, weak, traced)


def pysym(name, dom='real', kind='float'):
  """A symbolic Python scalar (hyperparameter)."""
  a = np.empty((), dtype=object)
  a[()] = T.var(name, dom)
  d = {'float': canon('float64'), 'int': canon('int64'), 'bool': 'bool'}[kind]
  return Arr(a, d, kind != 'bool', False, kind)


# ---------------------------------------------------------------------------
# pytrees

class ANT(tuple):
  """Instance of an (interpreted or modelled) NamedTuple class."""
  cls = None

  def __new__(cls, klass, vals):
    o = tuple.__new__(cls, vals)
    o.cls = klass
    return o

  @property
  def fields(self): return self.cls.nt_fields

  def get(self, name):
    return self[self.cls.nt_fields.index(name)]

  def __repr__(self):
    return '%s(%s)' % (self.cls.name, ', '.join('%s=%r' % p for p in zip(self.fields, self)))

  def __eq__(self, o): return tuple.__eq__(self, o)
  def __hash__(self): return tuple.__hash__(self)


def rget(state, name):
  """Field access on ANT states from specs."""
  return state.get(name)


class TreeDef:
  __slots__ = ('kind', 'meta', 'children')

  def __init__(self, kind, meta=None, children=()):
    self.kind, self.meta, self.children = kind, meta, tuple(children)

  def __eq__(self, o):
    return isinstance(o, TreeDef) and self.kind == o.kind and self.meta == o.meta and self.children == o.children

  def __ne__(self, o): return not self == o
  def __hash__(self): return hash((self.kind, str(self.meta), self.children))

  @property
  def num_leaves(self):
    if self.kind == 'leaf': return 1
    return sum(c.num_leaves for c in self.children)

  def __repr__(self):
    if self.kind == 'leaf': return '*'
    if self.kind == 'none': return 'None'
    m = self.meta if not hasattr(self.meta, 'name') else self.meta.name
    return '%s%s(%s)' % (self.kind, '' if m is None else ':%s' % (m,), ', '.join(map(repr, self.children)))


class OrderedD(dict):
  """collections.OrderedDict."""


class DefaultD(dict):
  factory = None


def _sort_keys(ks):
  try:
    return sorted(ks)
  except TypeError:
    raise AbsRaise(ExcVal(ValueError, ('Comparator raised exception while sorting pytree dictionary keys.',)))


def node_children(x):
  """(TreeDef kind, meta, children) or None for a leaf."""
  if x is None: return 'none', None, []
  if isinstance(x, ANT): return 'nt', x.cls, list(x)
  if isinstance(x, tuple): return 'tuple', None, list(x)
  if isinstance(x, list) and not hasattr(x, 'at'): return 'list', None, list(x)
  if isinstance(x, OrderedD): return 'odict', tuple(x.keys()), list(x.values())
  if isinstance(x, DefaultD):
    ks = _sort_keys(x.keys())
    return 'ddict', tuple(ks), [x[k] for k in ks]
  if isinstance(x, dict):
    ks = _sort_keys(x.keys())
    return 'dict', tuple(ks), [x[k] for k in ks]
  reg = getattr(x, 'pytree_flatten', None)
  if reg is not None:
    r = reg()
    if r is not None: return r
  return None


def build_node(kind, meta, ch, like=None):
  if kind == 'none': return None
  if kind == 'nt': return ANT(meta, ch)
  if kind == 'tuple': return tuple(ch)
  if kind == 'list': return list(ch)
  if kind == 'dict': return dict(zip(meta, ch))
  if kind == 'odict': return OrderedD(zip(meta, ch))
  if kind == 'ddict':
    return DefaultD(zip(meta, ch))
  if kind == 'obj': return meta[0](meta[1], ch)
  raise Unsupported('pytree node ' + kind)


def tree_flatten(x, is_leaf=None):
  leaves = []

  def go(v):
    if is_leaf is not None and is_leaf(v):
      leaves.append(v)
      return TreeDef('leaf')
    n = node_children(v)
    if n is None:
      leaves.append(v)
      return TreeDef('leaf')
    k, m, ch = n
    return TreeDef(k, m, [go(c) for c in ch])

  td = go(x)
  return leaves, td


def tree_leaves(x, is_leaf=None): return tree_flatten(x, is_leaf)[0]
def tree_structure(x, is_leaf=None): return tree_flatten(x, is_leaf)[1]


def tree_unflatten(td, leaves):
  it = iter(leaves)

  def go(d):
    if d.kind == 'leaf':
      try:
        return next(it)
      except StopIteration:
        raise AbsRaise(ExcVal(ValueError, ('Too few leaves for PyTreeDef',)))
    return build_node(d.kind, d.meta, [go(c) for c in d.children])

  r = go(td)
  for _ in it: raise AbsRaise(ExcVal(ValueError, ('Too many leaves for PyTreeDef',)))
  return r


def flatten_up_to(td, x):
  """Leaves (subtrees) of x at the leaf positions of td (prefix matching)."""
  out = []

  def go(d, v):
    if d.kind == 'leaf':
      out.append(v)
      return
    n = node_children(v)
    if n is None or n[0] != d.kind or len(n[2]) != len(d.children) or n[1] != d.meta:
      raise AbsRaise(ExcVal(ValueError, ('Expected %r, got %s' % (d, type(v).__name__),)))
    for c, w in zip(d.children, n[2]): go(c, w)

  go(td, x)
  return out


def tree_map(f, tree, *rest, is_leaf=None):
  leaves, td = tree_flatten(tree, is_leaf)
  others = [flatten_up_to(td, r) for r in rest]
  return tree_unflatten(td, [f(*xs) for xs in zip(leaves, *others)])


def describe(x):
  """Compact skeleton with dtypes, for reports."""
  if isinstance(x, Arr): return '%s%s' % (x.dtype if not x.py else 'py' + x.py, list(x.shape) if x.shape else '')
  n = node_children(x)
  if n is None: return type(x).__name__
  k, m, ch = n
  if k == 'none': return 'None'
  if k in ('dict', 'odict', 'ddict'): return '{%s}' % ', '.join('%s: %s' % (a, describe(b)) for a, b in zip(m, ch))
  if k == 'nt': return '%s(%s)' % (m.name, ', '.join('%s=%s' % (a, describe(b)) for a, b in zip(m.nt_fields, ch)))
  return '%s(%s)' % (k, ', '.join(map(describe, ch)))


def all_terms(x):
  out = []
  for l in tree_leaves(x):
    if isinstance(l, Arr): out.extend(l.terms())
  return out


_ = math
