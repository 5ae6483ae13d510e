"""Array operations (the part the interpreter calls directly) and builtins."""
import functools
import math

import numpy as np

from . import interp as IT
from . import terms as T
from . import values as V
from .values import Arr, Unsupported


def tname(v):
  if isinstance(v, Arr): return v.py or ('ndarray' if v.np else 'Array')
  if isinstance(v, (IT.Obj, V.ANT)): return v.cls.name
  return type(v).__name__


def _pyfloat_dtype(k):
  return {'float': V.canon('float64'), 'int': V.canon('int64'), 'bool': 'bool'}[k]


def A(v):
  return V.as_arr(v)


def _kind(v):
  """'py' kind of a scalar operand, or None for arrays."""
  if isinstance(v, Arr): return v.py
  if isinstance(v, bool): return 'bool'
  if isinstance(v, int): return 'int'
  if isinstance(v, float): return 'float'
  return None


def _isnp(v):
  return isinstance(v, Arr) and v.np


def flags(I, *xs):
  """(traced, np) of a result computed from xs."""
  arrs = [x for x in xs if isinstance(x, Arr)]
  alln = all((x.np or x.py) for x in arrs) and any(x.np for x in arrs)
  tr = any(x.traced for x in arrs)
  if I.jit and not alln and not (arrs and all(x.py for x in arrs)): tr = True
  return tr, alln


def wrapint(dtype, t):
  return T.wrap32(t) if dtype == 'int32' else t


_OPS = {'Add': T.add, 'Sub': T.sub, 'Mult': T.mul, 'Div': T.div}


def np_promote(*xs):
  """numpy result dtype for np arrays / python scalars."""
  ds = [x.dtype for x in xs if isinstance(x, Arr) and not x.py]
  ks = [_kind(x) for x in xs]
  isf = any(V.is_float(d) for d in ds) or 'float' in ks
  if isf:
    fl = [d for d in ds if V.is_float(d)]
    if fl and all(d == fl[0] for d in ds): return fl[0]
    return 'float64'
  if all(d == 'bool' for d in ds) and all(k in (None, 'bool') for k in ks): return 'bool'
  il = [d for d in ds if V.is_int(d)]
  if il: return il[0]
  return 'int64'


def bcast_check(I, a, b):
  try:
    np.broadcast_shapes(a.shape, b.shape)
  except ValueError:
    I.raise_(TypeError, 'incompatible shapes for broadcasting: %s and %s' % (a.shape, b.shape))


def arr_binop(I, op, a, b):
  ka, kb = _kind(a), _kind(b)
  if op == 'MatMult':
    from . import models
    return models.matmul(I, a, b)
  if ka and kb:  # symbolic Python scalars
    return py_binop(I, op, ka, kb, A(a), A(b))
  x, y = A(a), A(b)
  bcast_check(I, x, y)
  tr, npf = flags(I, a, b)
  if npf:
    d, w = np_promote(a, b), False
  else:
    d, w = V.promote((x.dtype, x.weak), (y.dtype, y.weak))
  if op in ('BitAnd', 'BitOr', 'BitXor'):
    if d != 'bool':
      return Arr(V.vec(lambda p, q: _bitint(I, op, p, q), x, y), d, w, tr, None, npf)
    f = {'BitAnd': T.land, 'BitOr': T.lor, 'BitXor': lambda p, q: T.ite(p, T.lnot(q), q)}[op]
    return Arr(V.vec(f, x, y), 'bool', False, tr, None, npf)
  if op in ('LShift', 'RShift'):
    f = T.mul if op == 'LShift' else (lambda p, q: T.unary('floor', T.div(p, q)))
    return Arr(V.vec(lambda p, q: f(p, T.power(T.const(2), q)), x, y), d, w, tr, None, npf)
  if d == 'bool':
    if op == 'Add': return Arr(V.vec(T.lor, V.cast(x, 'bool'), V.cast(y, 'bool')), 'bool', False, tr, None, npf)
    if op == 'Mult': return Arr(V.vec(T.land, V.cast(x, 'bool'), V.cast(y, 'bool')), 'bool', False, tr, None, npf)
    if op == 'Sub': I.raise_(TypeError, 'subtract does not accept boolean arguments')
    if op == 'Div': d = 'float64' if npf else 'float32'
    else: d = 'int32'
  if op == 'Div' and V.is_int(d):
    d = 'float64' if npf else 'float32'
  if op == 'Pow' and not npf and V.is_float(x.dtype) and V.is_int(y.dtype):
    # jnp.power keeps the base's dtype for integer exponents; a traced exponent makes the result strong
    d, w = V.canon(x.dtype), x.weak and (y.weak or (not y.traced and not I.jit and y.ndim == 0))
    if not y.traced and not I.jit and y.ndim == 0: w = x.weak
  x, y = V.cast(x, d, x.weak), V.cast(y, d, y.weak)
  fn = scalar_op(op, d)
  if fn is None: I.unsupported('array operator ' + op)
  return Arr(V.vec(fn, x, y), d, w, tr, None, npf)


def _bitint(I, op, p, q):
  if p.op == 'c' and q.op == 'c':
    a, b = int(p.val), int(q.val)
    return T.const({'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[op])
  if op == 'BitAnd' and q.op == 'c' and (int(q.val) & (int(q.val) + 1)) == 0:
    return T.mod(p, T.const(int(q.val) + 1))
  I.unsupported('bitwise operation on unknown integers')


def scalar_op(op, d):
  isint = V.is_int(d)
  if op in ('Add', 'Sub', 'Mult'):
    f = _OPS[op]
    if d == 'int32': return lambda p, q: T.wrap32(f(p, q))
    return f
  if op == 'Div': return T.div
  if op == 'FloorDiv': return lambda p, q: T.unary('floor', T.div(p, q))
  if op == 'Mod': return T.mod
  if op == 'Pow': return (lambda p, q: T.wrap32(T.power(p, q))) if d == 'int32' else T.power
  del isint
  return None


def py_binop(I, op, ka, kb, x, y):
  tr = x.traced or y.traced
  p, q = x.item(), y.item()
  if ka == 'bool' and not (kb == 'bool' and op in ('BitAnd', 'BitOr', 'BitXor')): p = T.b2n(p)
  if kb == 'bool' and not (ka == 'bool' and op in ('BitAnd', 'BitOr', 'BitXor')): q = T.b2n(q)
  if op in ('BitAnd', 'BitOr') and ka == kb == 'bool':
    return Arr((T.land if op == 'BitAnd' else T.lor)(p, q), 'bool', False, tr, 'bool')
  k = 'float' if 'float' in (ka, kb) or op == 'Div' else 'int'
  if op == 'Pow' and k == 'int' and not (q.op == 'c' and q.val >= 0) and not _nonneg(q): k = 'float'
  f = {'Add': T.add, 'Sub': T.sub, 'Mult': T.mul, 'Div': T.div, 'Pow': T.power, 'Mod': T.mod,
       'FloorDiv': lambda a, b: T.unary('floor', T.div(a, b))}.get(op)
  if f is None: I.unsupported('operator %s on symbolic Python scalars' % op)
  if op in ('Div', 'FloorDiv', 'Mod') and q.op == 'c' and q.val == 0:
    I.raise_(ZeroDivisionError, 'division by zero')
  if op in ('Div', 'FloorDiv', 'Mod'):
    c = T.eq(q, T.ZERO)
    if c.op != 'c': I.scratch.setdefault('divzero', []).append((I.pc_term(), c, I.loc()))
  r = f(p, q)
  if r.op == 'c':
    return {'float': float, 'int': int, 'bool': bool}[k](r.val)
  return Arr(r, _pyfloat_dtype(k), k != 'bool', tr, k)


def _nonneg(t):
  r = T.rng_of(t)
  return r is not None and r[0] >= 0 or (t.op == 'v' and t.val[1] in ('count', 'bigcount', 'posint'))


def arr_compare(I, op, a, b):
  ka, kb = _kind(a), _kind(b)
  x, y = A(a), A(b)
  bcast_check(I, x, y)
  tr, npf = flags(I, a, b)
  f = {'Lt': T.lt, 'LtE': T.le, 'Gt': T.gt, 'GtE': T.ge, 'Eq': T.eq, 'NotEq': T.ne}[op]
  if x.dtype == 'bool' and y.dtype == 'bool':
    if op == 'Eq': f = lambda p, q: T.ite(p, q, T.lnot(q))
    elif op == 'NotEq': f = lambda p, q: T.ite(p, T.lnot(q), q)
    else: x, y = V.cast(x, 'int32'), V.cast(y, 'int32')
  else:
    if x.dtype == 'bool': x = V.cast(x, y.dtype)
    if y.dtype == 'bool': y = V.cast(y, x.dtype)
  r = V.vec(f, x, y)
  if ka and kb:
    t = r[()]
    if t.op == 'c': return bool(t.val)
    return Arr(t, 'bool', False, x.traced or y.traced, 'bool')
  return Arr(r, 'bool', False, tr, None, npf)


def arr_unop(I, op, v):
  if op == 'UAdd': return v
  tr, npf = flags(I, v)
  if op == 'Invert':
    if v.dtype == 'bool': return Arr(V.vec(T.lnot, v), 'bool', False, tr, None, npf)
    return Arr(V.vec(lambda t: T.sub(T.const(-1), t), v), v.dtype, v.weak, tr, None, npf)
  if v.py:
    t = v.item()
    return Arr(T.neg(T.b2n(t) if v.py == 'bool' else t), _pyfloat_dtype('int' if v.py == 'bool' else v.py), True, v.traced,
               'int' if v.py == 'bool' else v.py)
  if v.dtype == 'bool': I.raise_(TypeError, 'neg of boolean')
  return Arr(V.vec(T.neg, v), v.dtype, v.weak, tr, None, npf)


def reduce_any(I, x):
  x = V.cast(A(x), 'bool')
  return Arr(functools.reduce(T.lor, x.terms(), T.FALSE), 'bool', False, x.traced, None, x.np)


# ---------------------------------------------------------------------------
# indexing


def _norm_index(I, idx):
  """Index with Arr parts made concrete where possible; (index, dynamic?)."""
  if isinstance(idx, tuple) and not isinstance(idx, V.ANT):
    parts = [_norm_index(I, i) for i in idx]
    return tuple(p[0] for p in parts), any(p[1] for p in parts)
  if isinstance(idx, Arr):
    if idx.is_concrete():
      vals = np.empty(idx.shape, dtype=bool if idx.dtype == 'bool' else np.int64)
      flat = vals.reshape(-1)
      for i, t in enumerate(idx.terms()):
        if vals.ndim == 0: vals[()] = t.val
        else: flat[i] = t.val
      return (vals if vals.ndim else (bool(vals) if idx.dtype == 'bool' else int(vals))), False
    if idx.dtype == 'bool':
      I.event('concretise', 'boolean mask indexing with an unknown mask')
      I.unsupported('boolean mask indexing')
    return idx, True
  if isinstance(idx, list): return _norm_index(I, V.as_arr(idx)) if idx else ([], False)
  if isinstance(idx, (int, slice, type(None), type(Ellipsis), bool, np.ndarray)): return idx, False
  if isinstance(idx, range): return np.asarray(list(idx), int), False
  I.unsupported('index %r' % (idx,))


def arr_getitem(I, x, idx):
  tr, npf = flags(I, x)
  i, dyn = _norm_index(I, idx)
  if not dyn:
    if isinstance(i, tuple) and any(isinstance(p, np.ndarray) and p.dtype == bool and p.ndim for p in i) or (
        isinstance(i, np.ndarray) and i.dtype == bool and i.ndim) :
      pass
    try:
      r = x.a[i]
    except IndexError as e:
      # jax clamps static out-of-bound ints only inside arrays; Python ints raise
      if isinstance(i, np.ndarray):
        r = x.a[np.clip(i, -x.shape[0], x.shape[0] - 1)]
      elif x.np or x.ndim == 0 or isinstance(i, tuple):
        I.raise_(IndexError, str(e))
      else:
        I.raise_(IndexError, str(e)) if not isinstance(i, int) else None
        r = x.a[max(-x.shape[0], min(i, x.shape[0] - 1))]
    if not isinstance(r, np.ndarray):
      o = np.empty((), dtype=object)
      o[()] = r
      r = o
    return Arr(r.copy() if isinstance(r, np.ndarray) else r, x.dtype, x.weak, tr or _idx_traced(idx), None, npf)
  # dynamic scalar index on one axis
  t = i if isinstance(i, tuple) else (i,)
  dpos = [k for k, p in enumerate(t) if isinstance(p, Arr)]
  if len(dpos) != 1: I.unsupported('several dynamic indices')
  k = dpos[0]
  if any(p is Ellipsis or p is None for p in t[:k]): I.unsupported('dynamic index after ellipsis')
  d = t[k]
  axis = k
  n = x.shape[axis]

  def pick(term):
    # jax semantics: negative wraps, then clamp
    out = x.a[t[:k] + (n - 1,) + t[k + 1:]]
    eff = T.ite(T.lt(term, T.ZERO), T.add(term, T.const(n)), term)
    for j in range(n - 2, -1, -1):
      cj = T.le(eff, T.const(j))
      cand = x.a[t[:k] + (j,) + t[k + 1:]]
      if isinstance(out, np.ndarray):
        out = V.vec(lambda p, q, c=cj: T.ite(c, p, q), cand, out)
      else:
        out = T.ite(cj, cand, out)
    return out
  if d.ndim == 0:
    r = pick(d.item())
    if not isinstance(r, np.ndarray): r = V.oarr(r)
  else:
    rows = [pick(q) for q in d.terms()]
    if isinstance(rows[0], np.ndarray):
      st = np.empty((len(rows),) + rows[0].shape, dtype=object)
      for j, q in enumerate(rows): st[j] = q
      r = st.reshape(d.shape + rows[0].shape)
    else:
      r = V.oarr(rows, d.shape)
  return Arr(r, x.dtype, x.weak, True if d.traced or x.traced else tr, None, npf)


def _idx_traced(idx):
  if isinstance(idx, Arr): return idx.traced
  if isinstance(idx, tuple): return any(_idx_traced(i) for i in idx)
  return False


def at_update(I, x, idx, v, how):
  tr, npf = flags(I, x, v)
  i, dyn = _norm_index(I, idx)
  out = x.a.copy()
  y = V.cast(A(v), x.dtype)
  f = {'set': lambda o, n: n, 'add': T.add, 'multiply': T.mul, 'mul': T.mul, 'min': T.minimum,
       'max': T.maximum, 'divide': T.div, 'subtract': T.sub, 'power': T.power}[how]
  if dyn:
    if not isinstance(i, Arr) or i.ndim != 0: I.unsupported('dynamic .at index')
    n = x.shape[0]
    t = i.item()
    eff = T.ite(T.lt(t, T.ZERO), T.add(t, T.const(n)), t)
    for j in range(n):
      c = T.eq(eff, T.const(j))
      new = V.vec(f, out[j], np.broadcast_to(y.a, np.shape(out[j])))
      r = V.vec(lambda p, q, c=c: T.ite(c, p, q), new, out[j])
      out[j] = r if np.ndim(r) else r[()]
    return Arr(out, x.dtype, x.weak, tr or i.traced, None, npf)
  pos = np.arange(out.size).reshape(out.shape)
  try:
    sel = pos[i]
  except IndexError as e:
    I.raise_(IndexError, str(e))
  sel = np.asarray(sel)
  try:
    vals = np.broadcast_to(y.a, sel.shape)
  except ValueError as e:
    I.raise_(ValueError, str(e))
  flat = out.reshape(-1) if out.ndim else out
  if out.ndim == 0:
    out[()] = f(out[()], vals.reshape(-1)[0])
    return Arr(out, x.dtype, x.weak, tr, None, npf)
  for p, q in zip(sel.reshape(-1), vals.reshape(-1)): flat[p] = f(flat[p], q)
  return Arr(flat.reshape(out.shape), x.dtype, x.weak, tr, None, npf)


class AtHelper(IT.HostObj):
  def __init__(self, I, x): self._I, self._x = I, x
  def getitem(self, I, idx): return AtRef(I, self._x, idx)


class AtRef(IT.HostObj):
  def __init__(self, I, x, idx): self._I, self._x, self._idx = I, x, idx
  def set(self, v, **kw): return at_update(self._I, self._x, self._idx, v, 'set')
  def add(self, v, **kw): return at_update(self._I, self._x, self._idx, v, 'add')
  def subtract(self, v, **kw): return at_update(self._I, self._x, self._idx, v, 'subtract')
  def multiply(self, v, **kw): return at_update(self._I, self._x, self._idx, v, 'multiply')
  mul = multiply
  def divide(self, v, **kw): return at_update(self._I, self._x, self._idx, v, 'divide')
  def power(self, v, **kw): return at_update(self._I, self._x, self._idx, v, 'power')
  def min(self, v, **kw): return at_update(self._I, self._x, self._idx, v, 'min')
  def max(self, v, **kw): return at_update(self._I, self._x, self._idx, v, 'max')
  def get(self, **kw): return arr_getitem(self._I, self._x, self._idx)

  def apply(self, f):
    return at_update(self._I, self._x, self._idx, self._I.call(f, [self.get()]), 'set')


# ---------------------------------------------------------------------------
# attributes

_METHODS = ('sum', 'mean', 'prod', 'max', 'min', 'any', 'all', 'std', 'var', 'cumsum', 'cumprod', 'argmax', 'argmin',
            'reshape', 'ravel', 'transpose', 'squeeze', 'dot', 'clip', 'round', 'swapaxes', 'repeat',
            'diagonal', 'trace', 'conj', 'conjugate', 'take', 'sort')


def arr_getattr(I, x, name):
  if x.py:
    if name == 'real': return x
    if name == 'imag': return 0
    if name == 'is_integer': return IT.Prim(lambda: arr_compare(I, 'Eq', x, x.with_(V.vec(lambda t: T.unary('floor', t), x), py=x.py)), name)
    if name == 'bit_length': I.unsupported('bit_length of a symbolic int')
    if name == '__class__': return {'float': float, 'int': int, 'bool': bool}[x.py]
    I.raise_(AttributeError, '%r object has no attribute %r' % (x.py, name))
  from . import models
  if name == 'shape': return tuple(int(s) for s in x.shape)
  if name == 'ndim': return x.ndim
  if name == 'size': return x.size
  if name == 'dtype': return V.DType(x.dtype)
  if name == 'weak_type': return x.weak
  if name == 'T': return x.with_(x.a.T, np_=x.np)
  if name == 'mT': return x.with_(np.swapaxes(x.a, -1, -2), np_=x.np)
  if name == 'real': return x
  if name == 'imag': return models.full_like(I, x, 0)
  if name == 'nbytes': return x.size * V.BITS[x.dtype] // 8
  if name == 'itemsize': return V.BITS[x.dtype] // 8
  if name == 'at':
    return AtHelper(I, x)
  if name == 'astype':
    def astype(dtype, **kw):
      d = V.dtype_name(dtype)
      return V.cast(x, d if x.np else V.canon(d))
    return IT.Prim(astype)
  if name in ('item', 'tolist'):
    def item():
      if x.traced: I.event('concretise', '.%s() of an array value' % name)
      if name == 'item' or x.ndim == 0:
        c = x.concrete()
        k = 'bool' if x.dtype == 'bool' else ('int' if V.is_int(x.dtype) else 'float')
        if c is not None: return {'bool': bool, 'int': int, 'float': float}[k](c)
        return Arr(x.item(), _pyfloat_dtype(k), k != 'bool', x.traced, k)
      if x.is_concrete(): return _tolist(x.a)
      I.unsupported('tolist of unknown values')
    return IT.Prim(item, name)
  if name in ('copy', 'block_until_ready', '__array__'):
    return IT.Prim(lambda *a, **k: x.with_(np_=x.np), name)
  if name == 'flatten': return IT.Prim(lambda order='C': x.with_(x.a.reshape(-1, order='F' if order == 'F' else 'C'), np_=x.np), name)
  if name == 'aval':
    return x
  if name == '__class__': return models.ARRAY
  if name == 'view': I.unsupported('view')
  if name in _METHODS:
    fn = models.numpy_fn(I, name, x.np)

    def method(*a, **k):
      if name == 'reshape' and len(a) > 1: a = (tuple(a),)
      if name == 'transpose' and len(a) > 1: a = (tuple(a),)
      return fn.fn(x, *a, **k)
    return IT.Prim(method, name)
  if name == '__len__': return IT.Prim(lambda: x.shape[0], name)
  if name.startswith('__') and name.endswith('__') and name.strip('_') in (
      'add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'pow', 'neg', 'matmul'):
    base = name.strip('_')
    op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div', 'pow': 'Pow', 'matmul': 'MatMult'}.get(base.lstrip('r') if base.startswith('r') else base)
    if base == 'neg': return IT.Prim(lambda: arr_unop(I, 'USub', x), name)
    if base.startswith('r'): return IT.Prim(lambda o: I.binop(op, o, x), name)
    return IT.Prim(lambda o: I.binop(op, x, o), name)
  if name in ('device', 'devices', 'sharding', 'device_buffer', 'is_fully_addressable'): return IT.Opaque('device')
  I.raise_(AttributeError, '%s object has no attribute %r' % (tname(x), name))


def _tolist(a):
  if a.ndim == 0: return a[()].val
  return [_tolist(np.asarray(x, dtype=object)) if isinstance(x, np.ndarray) else x.val for x in a]


def dtype_getattr(I, d, name):
  if name in ('name', '__name__'): return d.name
  if name == 'itemsize': return V.BITS[d.name] // 8
  if name in ('type', 'dtype'): return d
  if name == 'kind':
    n = d.name
    return 'b' if n == 'bool' else 'V' if n == 'bfloat16' else 'f' if V.is_float(n) else 'c' if V.is_complex(n) else 'u' if n in V.UINTS else 'i'
  I.raise_(AttributeError, 'dtype has no attribute %r' % name)


def dtype_call(I, d, x=0, **kw):
  """jnp.float32(x)."""
  a = A(x)
  if a.traced and I.jit is None: pass
  tr, _ = flags(I, a)
  r = V.cast(a, V.canon(d.name))
  return Arr(r.a, V.canon(d.name), False, tr, None, False)


def treedef_getattr(I, td, name):
  if name == 'num_leaves': return td.num_leaves
  if name == 'unflatten': return IT.Prim(lambda leaves: V.tree_unflatten(td, I.iterate(leaves)), name)
  if name == 'flatten_up_to': return IT.Prim(lambda x: V.flatten_up_to(td, x), name)
  if name == 'children': return IT.Prim(lambda: list(td.children), name)
  if name == 'num_nodes':
    def cnt(t): return 1 + sum(cnt(c) for c in t.children)
    return cnt(td)
  if name == 'compose':
    I.unsupported('treedef.compose')
  I.raise_(AttributeError, 'PyTreeDef has no attribute %r' % name)


# ---------------------------------------------------------------------------
# builtins


def to_py(I, kind, x, what):
  """float(x) / int(x) / bool(x)."""
  if isinstance(x, Arr):
    if x.traced and not x.py: I.event('concretise', '%s() of an array value' % what)
    if x.size != 1: I.raise_(TypeError, 'only size-1 arrays can be converted to Python scalars')
    t = x.item()
    if x.dtype == 'bool' and kind != 'bool': t = T.b2n(t)
    if kind == 'int': t = T.unary('trunc', t)
    if kind == 'bool' and x.dtype != 'bool': t = T.n2b(t)
    if t.op == 'c': return {'float': float, 'int': int, 'bool': bool}[kind](t.val)
    return Arr(t, _pyfloat_dtype(kind), kind != 'bool', False, kind)
  if x is None: I.raise_(TypeError, "%s() argument must be a number, not 'NoneType'" % what)
  try:
    return {'float': float, 'int': int, 'bool': bool}[kind](x)
  except (TypeError, ValueError, OverflowError) as e:
    if isinstance(x, (str, int, float)): I.raise_(type(e), *e.args)
    I.raise_(TypeError, 'cannot convert %s' % tname(x))


def type_call(I, t, args, kw):
  if t is float: return to_py(I, 'float', args[0], 'float') if args else 0.0
  if t is int:
    if len(args) > 1: return int(*args)
    return to_py(I, 'int', args[0], 'int') if args else 0
  if t is bool:
    if not args: return False
    c = I.truth(args[0], 'bool()')
    return c if isinstance(c, bool) else Arr(c, 'bool', False, False, 'bool')
  if t is str:
    if not args: return ''
    x = args[0]
    if isinstance(x, (str, int, float, bool, type(None))): return str(x)
    if isinstance(x, V.DType): return x.name
    return '<%s>' % tname(x)
  if t is list: return list(I.iterate(args[0])) if args else []
  if t is tuple: return tuple(I.iterate(args[0])) if args else ()
  if t is set: return set(I.iterate(args[0])) if args else set()
  if t is frozenset: return frozenset(I.iterate(args[0])) if args else frozenset()
  if t is dict or t is V.OrderedD:
    d = t()
    if args:
      a = args[0]
      if isinstance(a, dict): d.update(a)
      elif isinstance(a, IT.HostObj) and hasattr(a, 'as_dict'): d.update(a.as_dict())
      else: d.update([tuple(I.iterate(p)) for p in I.iterate(a)])
    d.update(kw)
    return d
  if t is V.DefaultD:
    d = V.DefaultD()
    d.factory = args[0] if args else None
    return d
  if t is type:
    if len(args) == 1: return type_of(I, args[0])
    I.unsupported('type() with three arguments')
  if t is range: return range(*[I.as_index(a, 'range()') for a in args])
  if t is object: return IT.Obj(IT.AClass('object', [], {}))
  if t is slice: return slice(*[I.as_index(a) for a in args])
  if t is complex: I.unsupported('complex')
  if t is bytes: return bytes(*args)
  if t is property: return IT.PropertyV(args[0] if args else kw.get('fget'))
  if t is staticmethod: return IT.StaticV(args[0])
  if t is classmethod: return IT.ClassMethodV(args[0])
  if t is enumerate or t is zip or t is map or t is filter or t is reversed:
    return BUILTIN_ITER[t](I, *args, **kw)
  if issubclass(t, IT.HostObj): return t(*args, **kw)
  I.unsupported('call of type %s' % t.__name__)


def type_of(I, x):
  if isinstance(x, (IT.Obj, V.ANT)): return x.cls
  if isinstance(x, Arr):
    if x.py: return {'float': float, 'int': int, 'bool': bool}[x.py]
    from . import models
    return models.NPARRAY if x.np else models.ARRAY
  if isinstance(x, (IT.Closure, IT.Prim, IT.BoundMethod)): return FUNCTION_TYPE
  if isinstance(x, IT.AClass): return type
  if isinstance(x, IT.ExcVal if hasattr(IT, 'ExcVal') else V.ExcVal): return x.cls
  if isinstance(x, IT.GenV): return IT.Opaque('generator')
  return type(x)


class FunctionType(IT.Opaque):
  pass


FUNCTION_TYPE = FunctionType('types.FunctionType')


def isinstance_(I, x, t):
  if isinstance(t, tuple):
    return any(isinstance_(I, x, u) for u in t)
  if isinstance(x, IT.Choice):
    a, b = isinstance_(I, x.a, t), isinstance_(I, x.b, t)
    if a == b: return a
    I.unsupported('isinstance of a phi')
  from . import models
  if isinstance(t, models.ArrayType): return t.check(I, x)
  if isinstance(t, IT.AClass):
    if isinstance(x, (IT.Obj, V.ANT)): return t in x.cls.mro()
    if isinstance(x, V.ExcVal): return isinstance(x.cls, IT.AClass) and t in x.cls.mro()
    return False
  if isinstance(t, V.DType):
    return isinstance(x, Arr) and x.np and not x.py and x.ndim == 0 and x.dtype == t.name
  if t is FUNCTION_TYPE: return isinstance(x, (IT.Closure,))
  if isinstance(t, IT.Opaque):
    n = t.name
    if n.endswith('Callable') or n == 'callable': return callable_(x)
    if n in ('numbers.Number', 'numbers.Real', 'numbers.Complex'):
      return (isinstance(x, (int, float)) or (isinstance(x, Arr) and bool(x.py)))
    if n == 'numbers.Integral':
      return isinstance(x, int) or (isinstance(x, Arr) and x.py in ('int', 'bool'))
    if n.split('.')[-1] in ('Sequence', 'MutableSequence'): return isinstance(x, (list, tuple, str, range)) and not isinstance(x, IT.GenV)
    if n.split('.')[-1] in ('Mapping', 'MutableMapping'): return isinstance(x, dict)
    if n.split('.')[-1] in ('Iterable', 'Collection', 'Sized', 'Container'):
      return isinstance(x, (list, tuple, dict, set, str, range)) or (isinstance(x, Arr) and not x.py and x.ndim > 0)
    if n.split('.')[-1] == 'Hashable': return not isinstance(x, (list, dict, set))
    if n in ('types.ModuleType',): return isinstance(x, (IT.Module, IT.ModModel))
    if n.split('.')[-1] in ('MethodType',): return isinstance(x, IT.BoundMethod)
    if n.split('.')[-1] in ('BuiltinFunctionType',): return isinstance(x, IT.Prim)
    if n in ('chex.Array', 'chex.ArrayNumpy', 'chex.ArrayDevice', 'chex.Numeric', 'chex.Scalar'):
      if n == 'chex.Array': return isinstance(x, Arr) and not x.py
      if n == 'chex.ArrayNumpy': return isinstance(x, Arr) and not x.py and bool(x.np)
      if n == 'chex.ArrayDevice': return isinstance(x, Arr) and not x.py and not x.np
      if n == 'chex.Scalar': return isinstance(x, (int, float)) or (isinstance(x, Arr) and bool(x.py))
      return isinstance(x, (Arr, int, float))
    I.unsupported('isinstance(..., %s)' % n)
  if isinstance(t, type):
    if t is object: return True
    if isinstance(x, Arr):
      if x.py: return {'float': float, 'int': int, 'bool': bool}[x.py] is t or (x.py == 'bool' and t is int)
      return t is float and x.np and x.ndim == 0 and x.dtype == 'float64'
    if t is type: return isinstance(x, (type, IT.AClass))
    if isinstance(x, V.ExcVal):
      return isinstance(x.cls, type) and issubclass(x.cls, t)
    if isinstance(x, IT.GenV): return False
    if t is dict: return isinstance(x, dict)
    return isinstance(x, t)
  if t is IT.NAMEDTUPLE: return False
  I.unsupported('isinstance(..., %r)' % (t,))


def callable_(x):
  return isinstance(x, (IT.Closure, IT.Prim, IT.BoundMethod, IT.PartialV, IT.AClass, type, V.DType)) or (
      isinstance(x, IT.Obj) and x.cls.lookup('__call__') is not IT._MISSING) or (
          isinstance(x, IT.HostObj) and callable(x)) or (isinstance(x, IT.Choice) and callable_(x.a))


def sorted_(I, xs, key=None, reverse=False):
  items = I.iterate(xs)
  plain = lambda x: isinstance(x, (bool, int, float)) or isinstance(x, Arr) and x.py
  if key is None and len({type(x) for x in items if not isinstance(x, Arr)} | {float if x.py == 'float' else int for x in items if isinstance(x, Arr)}) == 1 and all(map(plain, items)) and any(isinstance(x, Arr) for x in items):
    # Numbers of one type: sorting is a network of minima and maxima.
    a = list(items)
    for n in range(len(a) - 1, 0, -1):
      for i in range(n):
        lo, hi = _minmax(I, 'min', [a[i], a[i + 1]]), _minmax(I, 'max', [a[i], a[i + 1]])
        a[i], a[i + 1] = (hi, lo) if reverse else (lo, hi)
    return a
  ks = [I.call(key, [x]) if key is not None else x for x in items]

  def cmp(i, j):
    r = I.compare('Lt', ks[i], ks[j])
    t = I.truth(r, 'sort comparison')
    if not isinstance(t, bool): I.unsupported('sorting unknown values')
    if t: return -1
    t = I.truth(I.compare('Lt', ks[j], ks[i]))
    return 1 if t else 0
  order = sorted(range(len(items)), key=functools.cmp_to_key(cmp), reverse=bool(reverse))
  return [items[i] for i in order]


def _minmax(I, which, args, key=None, default=IT._MISSING):
  xs = I.iterate(args[0]) if len(args) == 1 else list(args)
  if not xs:
    if default is not IT._MISSING: return default
    I.raise_(ValueError, '%s() arg is an empty sequence' % which)
  best = xs[0]
  for x in xs[1:]:
    kx, kb = (I.call(key, [x]), I.call(key, [best])) if key is not None else (x, best)
    c = I.truth(I.compare('Lt', kx, kb) if which == 'min' else I.compare('Gt', kx, kb), which)
    if isinstance(c, bool):
      if c: best = x
    else:
      best = I.merge(c, x, best)
  return best


def zipped(I, its):
  """Tuples of elements; iterators among its lose what zip takes from them."""
  its = [i if isinstance(i, IT.GenV) else I.iterate(i) for i in its]
  lens = [i.left(I) if isinstance(i, IT.GenV) else len(i) for i in its]
  if not its: return []
  n = min(lens)
  last = lens.index(n)
  cols = [(i.take(I, n + (k < last)) if isinstance(i, IT.GenV) else i)[:n] for k, i in enumerate(its)]
  return [tuple(p) for p in zip(*cols)]


def _zip(I, *its, strict=False):
  if strict and len({len(i) - (i.at['pos'] if isinstance(i, IT.GenV) else 0) for i in its if isinstance(i, (list, tuple))}) > 1:
    I.raise_(ValueError, 'zip() arguments have different lengths')
  return IT.GenV(zipped(I, its))


def _enumerate(I, it, start=0):
  return IT.GenV([(i + start, x) for i, x in enumerate(I.iterate(it))])


def _map(I, f, *its):
  return IT.GenV([I.call(f, list(p)) for p in zipped(I, its)])


def _filter(I, f, it):
  out = IT.GenV()
  for x in I.iterate(it):
    c = I.truth(I.call(f, [x]) if f is not None else x, 'filter')
    if not isinstance(c, bool): I.unsupported('filter on unknown values')
    if c: out.append(x)
  return out


def _reversed(I, it): return IT.GenV(reversed(I.iterate(it)))


BUILTIN_ITER = {zip: _zip, enumerate: _enumerate, map: _map, filter: _filter, reversed: _reversed}


def _all_any(I, it, is_all):
  acc = T.TRUE if is_all else T.FALSE
  for x in I.iterate(it):
    c = I.truth(x, 'all()' if is_all else 'any()')
    if isinstance(c, bool):
      if c != is_all: return c
    else:
      acc = T.land(acc, c) if is_all else T.lor(acc, c)
  return bool(acc.val) if acc.op == 'c' else Arr(acc, 'bool', False, False, 'bool')


def make_builtins(I):
  P = IT.Prim

  def getattr_(o, n, *d):
    try:
      return I.getattr(o, n)
    except V.AbsRaise as e:
      if d and e.exc.cls is AttributeError: return d[0]
      raise

  def hasattr_(o, n):
    try:
      I.getattr(o, n)
      return True
    except V.AbsRaise as e:
      if e.exc.cls is AttributeError: return False
      raise

  def len_(x):
    if isinstance(x, IT.GenV): I.raise_(TypeError, 'generator has no len()')
    if isinstance(x, Arr):
      if x.ndim == 0: I.raise_(TypeError, 'len() of unsized object')
      return x.shape[0]
    if isinstance(x, IT.Obj):
      m = x.cls.lookup('__len__')
      if m is not IT._MISSING: return I.call(IT.BoundMethod(m, x), [])
    if isinstance(x, IT.HostObj) and hasattr(x, 'as_dict'): return len(x.as_dict())
    try:
      return len(x)
    except TypeError as e:
      I.raise_(TypeError, *e.args)

  def sum_(it, start=0):
    acc = start
    for x in I.iterate(it): acc = I.binop('Add', acc, x)
    return acc

  def abs_(x):
    if isinstance(x, Arr):
      tr, npf = flags(I, x)
      return Arr(V.vec(lambda t: T.unary('abs', t), x), x.dtype, x.weak, tr, x.py, npf)
    return abs(x)

  def round_(x, n=None):
    if isinstance(x, Arr):
      if x.py and n is None:
        return Arr(T.unary('round', x.item()), _pyfloat_dtype('int'), True, x.traced, 'int')
      from . import models
      return models.numpy_fn(I, 'round', x.np).fn(x, n or 0)
    return round(x, n) if n is not None else round(x)

  def next_(it, *d):
    if not isinstance(it, IT.GenV): I.raise_(TypeError, 'not an iterator')
    if not it.left(I):
      if d: return d[0]
      I.raise_(StopIteration)
    return it.take(I, 1)[0]

  def iter_(x):
    return x if isinstance(x, IT.GenV) else IT.GenV(I.iterate(x))

  def setattr_(o, n, v): I.setattr(o, n, v)

  def issubclass_(c, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(c, IT.AClass): return any(u in c.mro() for u in ts)
    return isinstance(c, type) and any(isinstance(u, type) and issubclass(c, u) for u in ts)

  def open_(*a, **k):
    I.event('io', 'open()')
    I.unsupported('open()')

  def pow_(a, b, *m): return I.binop('Pow', a, b)

  b = {}
  b.update(IT.EXC)
  for t in (int, float, bool, str, list, tuple, dict, set, frozenset, type, range, object, slice, complex, bytes,
            property, staticmethod, classmethod, zip, enumerate, map, filter, reversed):
    b[t.__name__] = t
  b.update({
      'len': P(len_), 'isinstance': P(lambda x, t: isinstance_(I, x, t), 'isinstance'),
      'callable': P(callable_, 'callable'), 'getattr': P(getattr_), 'hasattr': P(hasattr_), 'setattr': P(setattr_),
      'sum': P(sum_), 'abs': P(abs_), 'round': P(round_), 'next': P(next_), 'iter': P(iter_),
      'min': P(lambda *a, **k: _minmax(I, 'min', a, **k), 'min'), 'max': P(lambda *a, **k: _minmax(I, 'max', a, **k), 'max'),
      'sorted': P(lambda xs, key=None, reverse=False: sorted_(I, xs, key, reverse), 'sorted'),
      'all': P(lambda it: _all_any(I, it, True), 'all'), 'any': P(lambda it: _all_any(I, it, False), 'any'),
      'print': P(lambda *a, **k: None, 'print'), 'issubclass': P(issubclass_), 'id': P(id, 'id'),
      'repr': P(lambda x: repr(x) if isinstance(x, (str, int, float, bool)) else '<%s>' % tname(x), 'repr'),
      'open': P(open_), 'input': P(open_, 'input'), 'pow': P(pow_),
      'divmod': P(lambda a, b: (I.binop('FloorDiv', a, b), I.binop('Mod', a, b)), 'divmod'),
      'hash': P(lambda x: 0, 'hash'), 'vars': P(lambda o: I.getattr(o, '__dict__'), 'vars'),
      'dir': P(lambda o: _dir(I, o), 'dir'), 'delattr': P(lambda o, n: None, 'delattr'),
      'NotImplemented': IT.Opaque('NotImplemented'), 'Ellipsis': Ellipsis,
      '__debug__': True, '__name__': '__main__',
  })
  return b


def _dir(I, o):
  if isinstance(o, IT.Module): return sorted(o.scope.vars)
  I.unsupported('dir()')


_ = (math, Unsupported)
