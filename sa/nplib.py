"""Model of jax.numpy / numpy on abstract arrays."""
import functools
import math

import numpy as np

from . import interp as IT
from . import jaxmodel as J
from . import terms as T
from . import values as V
from .values import Arr


def build(I, isnp):
  """Function table of numpy (isnp) or jax.numpy."""
  tab = {}

  def P(fn, *names):
    for n in names or (fn.__name__.rstrip('_'),):
      tab[n] = IT.Prim(fn, ('np.' if isnp else 'jnp.') + n)
    return fn

  def reg(*names):
    return lambda fn: P(fn, *names)

  def A(x):
    """Argument conversion; a traced value in a host numpy call is an event."""
    if isinstance(x, IT.Choice): I.unsupported('phi value in array function')
    if isinstance(x, (list, tuple)) and not isnp and not _arrays_only(x):
      pass
    a = V.as_arr(x)
    if isnp and a.traced and not a.py:
      I.event('concretise', 'host numpy call on an array value')
    return a

  def R(a, d, *ins, weak=False):
    tr = any(isinstance(x, Arr) and x.traced for x in ins)
    if I.jit and not isnp: tr = True
    if not isinstance(a, np.ndarray):
      a = V.oarr(a) if isinstance(a, T.Term) else np.asarray(a, dtype=object)
    return Arr(a, d if isnp else V.canon(d), weak, tr, None, isnp)

  def dt(x, default):
    d = V.dtype_name(x)
    if d is None: return default
    return d if isnp else V.canon(d)

  def promo(*xs):
    if isnp:
      if all(x.py or not x.np for x in xs) and False: pass
      return J.np_promote(*xs), False
    return V.promote(*[(x.dtype, x.weak) for x in xs])

  def inexact(d, w=False):
    if V.is_float(d) or V.is_complex(d): return d
    return 'float64' if isnp else V.canon('float64')

  def shape_of(s):
    if isinstance(s, Arr) and s.ndim == 0 or isinstance(s, int): s = (s,)
    if isinstance(s, Arr): s = [J.arr_getitem(I, s, i) for i in range(s.shape[0])]
    return tuple(int(I.as_index(x, 'shape')) for x in I.iterate(s))

  def axis_of(ax):
    if ax is None: return None
    if isinstance(ax, Arr): return I.as_index(ax, 'axis')
    if isinstance(ax, (list, tuple)): return tuple(int(I.as_index(a, 'axis')) for a in ax)
    return ax

  def checkaxis(x, axis):
    for a in (axis if isinstance(axis, tuple) else (axis,)):
      if a is not None and not -x.ndim <= a < max(x.ndim, 1 if False else x.ndim):
        I.raise_(ValueError, 'axis %s is out of bounds for array of dimension %d' % (a, x.ndim))

  # -- unary ---------------------------------------------------------------
  def un(op, keepint=False):
    def f(x, **kw):
      x = A(x)
      d = x.dtype
      if keepint and (V.is_int(d)): return R(V.vec(lambda t: T.unary(op, t), x), d, x, weak=x.weak)
      d2 = inexact(d)
      return R(V.vec(lambda t: T.unary(op, t), V.cast(x, d2, x.weak)), d2, x, weak=x.weak and not isnp)
    f.__name__ = op
    return f
  for op in ('sqrt', 'exp', 'log', 'log1p', 'expm1', 'sin', 'cos', 'tan', 'tanh', 'sinh', 'cosh', 'floor', 'ceil', 'trunc'):
    P(un(op), op)
  P(un('arctan'), 'arctan')
  P(un('arcsin'), 'arcsin')
  P(un('arccos'), 'arccos')
  P(un('abs', True), 'abs', 'absolute', 'fabs')
  P(un('sign', True), 'sign')
  P(un('trunc'), 'fix')

  @reg('rint')
  def rint(x): return round_(x)

  @reg('round', 'around', 'round_')
  def round_(x, decimals=0, **kw):
    x = A(x)
    decimals = I.as_index(decimals)
    if V.is_int(x.dtype): return R(x.a, x.dtype, x)
    if decimals == 0: return R(V.vec(lambda t: T.unary('round', t), x), x.dtype, x, weak=x.weak)
    s = T.const(10 ** decimals) if decimals > 0 else T.const(10.0 ** decimals)
    return R(V.vec(lambda t: T.div(T.unary('round', T.mul(t, s)), s), x), x.dtype, x, weak=x.weak)

  @reg('log2')
  def log2(x):
    x = A(x)
    d = inexact(x.dtype)
    def f(t):
      if t.op == 'c' and t.val > 0: return T.const(math.log2(t.val))
      return T.div(T.unary('log', t), T.const(math.log(2)))
    return R(V.vec(f, V.cast(x, d)), d, x, weak=x.weak)

  @reg('log10')
  def log10(x):
    x = A(x)
    d = inexact(x.dtype)
    return R(V.vec(lambda t: T.div(T.unary('log', t), T.const(math.log(10))), V.cast(x, d)), d, x, weak=x.weak)

  @reg('exp2')
  def exp2(x):
    x = A(x)
    d = inexact(x.dtype)
    return R(V.vec(lambda t: T.power(T.const(2), t), V.cast(x, d)), d, x, weak=x.weak)

  @reg('square')
  def square(x):
    x = A(x)
    return R(V.vec(lambda t: T.mul(t, t), x), x.dtype, x, weak=x.weak)

  @reg('cbrt')
  def cbrt(x):
    x = A(x)
    d = inexact(x.dtype)
    return R(V.vec(lambda t: T.mul(T.unary('sign', t), T.power(T.unary('abs', t), T.const(1 / 3))), x), d, x)

  @reg('reciprocal')
  def reciprocal(x):
    x = A(x)
    d = inexact(x.dtype)
    return R(V.vec(lambda t: T.div(T.ONE, t), V.cast(x, d)), d, x, weak=x.weak)

  @reg('negative')
  def negative(x): return J.arr_unop(I, 'USub', mark(A(x)))

  @reg('positive')
  def positive(x): return A(x)

  def mark(x):
    return Arr(x.a, x.dtype, x.weak, x.traced or (I.jit and not isnp), None, isnp)

  for nm, f in (('isnan', T.isnan), ('isfinite', T.isfinite), ('isinf', T.isinf)):
    def isx(x, f=f, nm=nm):
      x = A(x)
      if not V.is_float(x.dtype):
        return R(V.vec(lambda t: T.const(nm == 'isfinite'), x), 'bool', x)
      return R(V.vec(f, x), 'bool', x)
    P(isx, nm)
  P(lambda x: R(V.vec(lambda t: T.land(T.isinf(t), T.lt(T.ZERO, t)), A(x)), 'bool', A(x)), 'isposinf')
  P(lambda x: R(V.vec(lambda t: T.land(T.isinf(t), T.lt(t, T.ZERO)), A(x)), 'bool', A(x)), 'isneginf')
  P(lambda x: R(V.vec(lambda t: T.lt(t, T.ZERO), A(x)), 'bool', A(x)), 'signbit')

  @reg('nan_to_num')
  def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x = A(x)
    if not V.is_float(x.dtype): return x
    mx = {'float32': 3.4028234663852886e38, 'float16': 65504.0, 'bfloat16': 3.3895313892515355e38, 'float64': 1.7976931348623157e308}[x.dtype]
    nv = A(nan).item()
    pi = A(mx if posinf is None else posinf).item()
    ni = A(-mx if neginf is None else neginf).item()
    f = lambda t: T.ite(T.isnan(t), nv, T.ite(T.land(T.isinf(t), T.lt(T.ZERO, t)), pi, T.ite(T.land(T.isinf(t), T.lt(t, T.ZERO)), ni, t)))
    return R(V.vec(f, x), x.dtype, x)

  # -- binary --------------------------------------------------------------
  def bop(op):
    def f(a, b, **kw):
      r = J.arr_binop(I, op, mark(A(a)) if not isinstance(a, Arr) else mk(a), mark2(b))
      return r
    return f

  def mk(a):
    a2 = A(a)
    return a2 if not a2.py else Arr(a2.a, a2.dtype, a2.weak, a2.traced, None, isnp)

  def mark2(b):
    b = A(b)
    return Arr(b.a, b.dtype, b.weak, b.traced, None, isnp or b.np)

  for nm, op in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('true_divide', 'Div'),
                 ('floor_divide', 'FloorDiv'), ('mod', 'Mod'), ('remainder', 'Mod'), ('power', 'Pow'), ('float_power', 'Pow'),
                 ('bitwise_and', 'BitAnd'), ('bitwise_or', 'BitOr'), ('bitwise_xor', 'BitXor')):
    P(bop(op), nm)

  def cmpf(op):
    return lambda a, b: J.arr_compare(I, op, mk(a), mark2(b))
  for nm, op in (('less', 'Lt'), ('less_equal', 'LtE'), ('greater', 'Gt'), ('greater_equal', 'GtE'), ('equal', 'Eq'), ('not_equal', 'NotEq')):
    P(cmpf(op), nm)

  def bin2(f, floaty=False):
    def g(a, b):
      x, y = A(a), A(b)
      J.bcast_check(I, x, y)
      d, w = promo(x, y)
      if floaty: d = inexact(d)
      if d == 'bool' and f in (T.maximum, T.minimum):
        h = T.lor if f is T.maximum else T.land
        return R(V.vec(h, x, y), 'bool', x, y)
      x, y = V.cast(x, d, x.weak), V.cast(y, d, y.weak)
      return R(V.vec(f, x, y), d, x, y, weak=w)
    return g
  P(bin2(T.maximum), 'maximum')
  P(bin2(T.minimum), 'minimum')
  P(bin2(lambda a, b: T.ite(T.isnan(a), b, T.ite(T.isnan(b), a, T.maximum(a, b)))), 'fmax')
  P(bin2(lambda a, b: T.ite(T.isnan(a), b, T.ite(T.isnan(b), a, T.minimum(a, b)))), 'fmin')
  P(bin2(T.rem), 'fmod')
  P(bin2(lambda a, b: T._mk('arctan2', (a, b)), True), 'arctan2')
  P(bin2(lambda a, b: T.unary('sqrt', T.add(T.mul(a, a), T.mul(b, b))), True), 'hypot')
  P(bin2(lambda a, b: T.ite(T.lt(a, T.ZERO), T.ZERO, T.ite(T.lt(T.ZERO, a), T.ONE, b)), True), 'heaviside')
  P(bin2(lambda a, b: T.mul(T.unary('abs', a), T.ite(T.lt(b, T.ZERO), T.const(-1), T.ONE)), True), 'copysign')

  def lae(a, b):
    m = T.maximum(a, b)
    d = T.sub(a, b)
    return T.ite(T.isnan(d), T.add(a, b), T.add(m, T.unary('log1p', T.unary('exp', T.neg(T.unary('abs', d))))))
  P(bin2(lae, True), 'logaddexp')

  def logic(f):
    return lambda a, b: R(V.vec(f, V.cast(A(a), 'bool'), V.cast(A(b), 'bool')), 'bool', A(a), A(b))
  P(logic(T.land), 'logical_and')
  P(logic(T.lor), 'logical_or')
  P(logic(lambda p, q: T.ite(p, T.lnot(q), q)), 'logical_xor')
  P(lambda a: R(V.vec(T.lnot, V.cast(A(a), 'bool')), 'bool', A(a)), 'logical_not', 'invert', 'bitwise_not')

  @reg('where')
  def where(c, x=None, y=None, **kw):
    if x is None and y is None:
      I.event('concretise', 'one-argument where')
      I.unsupported('one-argument where')
    c, x, y = V.cast(A(c), 'bool'), A(x), A(y)
    d, w = promo(x, y)
    x, y = V.cast(x, d, x.weak), V.cast(y, d, y.weak)
    return R(V.vec(T.ite, c, x, y), d, c, x, y, weak=w)

  @reg('select')
  def select(conds, choices, default=0):
    r = A(default)
    for c, v in reversed(list(zip(I.iterate(conds), I.iterate(choices)))): r = where(c, v, r)
    return r

  @reg('clip')
  def clip(a, a_min=None, a_max=None, out=None, **kw):
    a_min = kw.get('min', a_min)
    a_max = kw.get('max', a_max)
    x = A(a)
    if a_min is None and a_max is None: I.raise_(ValueError, 'At most one of a_min and a_max may be None')
    if a_min is not None: x = bin2(T.maximum)(a_min, x)
    if a_max is not None: x = bin2(T.minimum)(a_max, x)
    return x

  # -- reductions ----------------------------------------------------------
  def red(x, axis, keepdims, f, init=None):
    """Folds f along axis."""
    axis = axis_of(axis)
    if axis is None: axes = tuple(range(x.ndim))
    else:
      checkaxis(x, axis)
      axes = tuple(a % x.ndim for a in (axis if isinstance(axis, tuple) else (axis,)))
    rest = [i for i in range(x.ndim) if i not in axes]
    m = np.transpose(x.a, rest + list(axes)).reshape([x.shape[i] for i in rest] + [-1]) if x.a.size else np.empty(
        [x.shape[i] for i in rest] + [int(np.prod([x.shape[a] for a in axes]))], dtype=object)
    out = np.empty(m.shape[:-1], dtype=object)
    for idx in np.ndindex(*out.shape):
      out[idx] = f(list(m[idx]))
    if keepdims:
      out = out.reshape([1 if i in axes else x.shape[i] for i in range(x.ndim)])
    n = int(np.prod([x.shape[a] for a in axes])) if axes else 1
    return out, n

  def tsum(ts):
    return functools.reduce(T.add, ts) if ts else T.ZERO

  def masked(x, where_):
    if where_ is None: return x
    c = V.cast(A(where_), 'bool')
    return Arr(V.vec(lambda k, t: T.ite(k, t, T.ZERO), c, x), x.dtype, x.weak, x.traced, None, x.np)

  @reg('sum', 'nansum')
  def sum_(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, **kw):
    x = A(a)
    d = dt(dtype, x.dtype)
    if dtype is None:
      if d == 'bool': d = 'int64' if isnp else V.canon('int64')
      elif V.is_int(d) and isnp: d = 'int64'
    x = masked(V.cast(x, d), where)
    o, _ = red(x, axis, keepdims, tsum)
    if initial is not None: o = V.vec(T.add, o, A(initial).a)
    return R(o, d, x)

  @reg('mean')
  def mean(a, axis=None, dtype=None, out=None, keepdims=False, where=None):
    x = A(a)
    d = dt(dtype, inexact(x.dtype))
    if where is not None: I.unsupported('mean(where=)')
    o, n = red(V.cast(x, d), axis, keepdims, tsum)
    return R(V.vec(lambda t: T.div(t, T.const(n)) if n else T.const(float('nan')), o), d, x)

  @reg('average')
  def average(a, axis=None, weights=None, returned=False, keepdims=False):
    if weights is None: return mean(a, axis=axis, keepdims=keepdims)
    w = A(weights)
    x = A(a)
    if w.ndim != x.ndim and axis is not None:
      sh = [1] * x.ndim
      sh[axis] = -1
      w = w.with_(w.a.reshape(sh))
    n = sum_(J.arr_binop(I, 'Mult', x, w), axis=axis)
    bw = Arr(np.broadcast_to(w.a, x.shape), w.dtype, w.weak, w.traced, None, w.np)
    return J.arr_binop(I, 'Div', n, sum_(bw, axis=axis))

  @reg('var', 'nanvar')
  def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    x = A(a)
    d = dt(dtype, inexact(x.dtype))
    x = V.cast(x, d)
    mu, n = red(x, axis, True, tsum)
    mu = V.vec(lambda t: T.div(t, T.const(n)), mu)
    c = V.vec(T.sub, x.a, np.broadcast_to(mu, x.shape))
    sq = Arr(V.vec(lambda t: T.mul(t, t), c), d, False, x.traced)
    o, n = red(sq, axis, keepdims, tsum)
    return R(V.vec(lambda t: T.div(t, T.const(n - I.as_index(ddof))), o), d, x)

  @reg('std')
  def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    v = var(a, axis, dtype, out, ddof, keepdims)
    return R(V.vec(lambda t: T.unary('sqrt', t), v), v.dtype, v)

  @reg('prod')
  def prod(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    x = A(a)
    d = dt(dtype, x.dtype)
    if d == 'bool': d = 'int64'
    o, _ = red(V.cast(x, d), axis, keepdims, lambda ts: functools.reduce(T.mul, ts) if ts else T.ONE)
    return R(o, d, x)

  def mm(f, name):
    def g(a, axis=None, out=None, keepdims=False, initial=None, where=None):
      x = A(a)
      if x.size == 0 and initial is None: I.raise_(ValueError, 'zero-size array to reduction operation')
      if where is not None: I.unsupported('max(where=)')
      def fold(ts):
        if initial is not None: ts = ts + [A(initial).item()]
        return functools.reduce(f, ts)
      o, _ = red(x, axis, keepdims, fold)
      return R(o, x.dtype, x, weak=x.weak)
    return P(g, *name)
  mm(T.maximum, ('max', 'amax'))
  mm(T.minimum, ('min', 'amin'))
  P(lambda a, axis=None, **k: J.arr_binop(I, 'Sub', tab['max'].fn(a, axis), tab['min'].fn(a, axis)), 'ptp')

  @reg('all', 'alltrue')
  def all_(a, axis=None, out=None, keepdims=False):
    x = V.cast(A(a), 'bool')
    o, _ = red(x, axis, keepdims, lambda ts: functools.reduce(T.land, ts, T.TRUE))
    return R(o, 'bool', x)

  @reg('any', 'sometrue')
  def any_(a, axis=None, out=None, keepdims=False):
    x = V.cast(A(a), 'bool')
    o, _ = red(x, axis, keepdims, lambda ts: functools.reduce(T.lor, ts, T.FALSE))
    return R(o, 'bool', x)

  @reg('count_nonzero')
  def count_nonzero(a, axis=None, keepdims=False):
    x = V.cast(A(a), 'bool')
    o, _ = red(x, axis, keepdims, lambda ts: tsum([T.b2n(t) for t in ts]))
    return R(o, 'int64', x)

  def argx(lt):
    def f(a, axis=None, **kw):
      x = A(a)
      def g(ts):
        best, idx = ts[0], T.ZERO
        for i, t in enumerate(ts[1:], 1):
          c = lt(t, best)
          idx = T.ite(c, T.const(i), idx)
          best = T.ite(c, t, best)
        return idx
      o, _ = red(x, axis, False, g)
      return R(o, 'int64', x)
    return f
  P(argx(lambda t, b: T.lt(b, t)), 'argmax')
  P(argx(T.lt), 'argmin')

  def cum(f, name):
    def g(a, axis=None, dtype=None, out=None):
      x = A(a)
      d = dt(dtype, x.dtype)
      wk = x.weak and dtype is None and x.dtype != 'bool' and not isnp
      if d == 'bool': d = 'int64'
      x = V.cast(x, d)
      m = x.a.reshape(-1) if axis is None else np.moveaxis(x.a, axis, 0)
      o = np.empty(m.shape, dtype=object)
      for i in range(m.shape[0]):
        o[i] = m[i] if i == 0 else (V.vec(f, o[i - 1], m[i]) if m.ndim > 1 else f(o[i - 1], m[i]))
      if axis is not None: o = np.moveaxis(o, 0, axis)
      return R(o, d, x, weak=wk)
    return P(g, name)
  cum(T.add, 'cumsum')
  cum(T.mul, 'cumprod')
  cum(T.maximum, '_cummax')

  @reg('norm_')
  def norm(x, ord=None, axis=None, keepdims=False):
    x = A(x)
    d = inexact(x.dtype)
    x = V.cast(x, d)
    ord = I.as_index(ord) if isinstance(ord, Arr) and ord.concrete() is not None else ord
    axis = axis_of(axis)
    if isinstance(axis, tuple) and len(axis) == 1: axis = axis[0]
    nax = x.ndim if axis is None else (len(axis) if isinstance(axis, tuple) else 1)
    sq = lambda ts: T.unary('sqrt', tsum([T.mul(t, t) for t in ts]))
    ab = lambda t: T.unary('abs', t)
    if axis is None and ord is not None and x.ndim not in (1, 2):
      I.raise_(ValueError, 'Improper number of dimensions to norm.')
    if ord is None or ord == 'fro' and nax == 2 or ord == 2 and nax == 1: f = sq
    elif nax == 1 and isinstance(ord, (int, float)):
      if ord == math.inf: f = lambda ts: functools.reduce(T.maximum, map(ab, ts))
      elif ord == -math.inf: f = lambda ts: functools.reduce(T.minimum, map(ab, ts))
      elif ord == 1: f = lambda ts: tsum([ab(t) for t in ts])
      elif ord == 0: f = lambda ts: tsum([T.b2n(T.lnot(T.eq(t, T.ZERO))) for t in ts])
      else: f = lambda ts: T.power(tsum([T.power(ab(t), T.const(ord)) for t in ts]), T.const(1.0 / ord))
    elif nax == 2 and ord in (1, math.inf):
      ax = (0, 1) if axis is None else axis
      o, _ = red(x, ax[0] if ord == 1 else ax[1], True, lambda ts: tsum([ab(t) for t in ts]))
      y = Arr(o, d, False, x.traced)
      o, _ = red(y, ax, keepdims, lambda ts: functools.reduce(T.maximum, ts))
      return R(o, d, x)
    elif nax == 2 and x.ndim == 2 and ord in (2, -2, -1, 'nuc'):
      return R(T.app('linalg.norm.%s:%d:%d' % ((ord,) + x.shape), x.terms()), d, x)   # a spectral quantity of the matrix
    else:
      I.unsupported('norm with ord=%r' % (ord,))
    o, _ = red(x, axis, keepdims, f)
    return R(o, d, x)

  # -- construction --------------------------------------------------------
  def filled(shape, v, d, weak=False):
    s = shape_of(shape)
    o = np.empty(s, dtype=object)
    o.fill(v) if o.ndim else o.__setitem__((), v)
    return R(o, d, weak=weak)

  @reg('zeros', 'empty')
  def zeros(shape, dtype=None): 
    d = dt(dtype, 'float64')
    return filled(shape, T.FALSE if d == 'bool' else T.ZERO, d)

  @reg('ones')
  def ones(shape, dtype=None):
    d = dt(dtype, 'float64')
    return filled(shape, T.TRUE if d == 'bool' else T.ONE, d)

  @reg('full')
  def full(shape, fill_value, dtype=None):
    v = A(fill_value)
    d = dt(dtype, v.dtype if not isnp or not v.py else v.dtype)
    v = V.cast(v, d, v.weak)
    s = shape_of(shape)
    return R(np.broadcast_to(v.a, s).copy(), d, v, weak=v.weak if dtype is None else False)

  def like(val):
    def f(x, dtype=None, shape=None):
      x = A(x)
      d = dt(dtype, x.dtype)
      s = x.shape if shape is None else shape_of(shape)
      v = T.const(bool(val)) if d == 'bool' else T.const(val)
      o = np.empty(s, dtype=object)
      o.fill(v) if o.ndim else o.__setitem__((), v)
      return R(o, d, x, weak=x.weak and dtype is None and not isnp)
    return f
  P(like(0), 'zeros_like', 'empty_like')
  P(like(1), 'ones_like')

  @reg('full_like')
  def full_like(x, fill_value, dtype=None, shape=None):
    x, v = A(x), A(fill_value)
    d = dt(dtype, x.dtype)
    s = x.shape if shape is None else shape_of(shape)
    v2 = V.cast(v, d)
    return R(np.broadcast_to(v2.a, s).copy(), d, x, v, weak=x.weak and dtype is None)

  def array(x, dtype=None, copy=True, order=None, ndmin=0, **kw):
    if isinstance(x, IT.GenV) or isinstance(x, range): x = list(x)
    if isinstance(x, (list, tuple)) and _has_none(x): I.raise_(TypeError, 'None in array')
    seq = isinstance(x, (list, tuple))
    if seq and not isnp:
      x = _stack_list(x)
    v = A(x)
    d = dt(dtype, None)
    if d is None:
      d = v.dtype
      if isnp and (v.py or not v.np): d = {'float32': 'float64', 'int32': 'int64'}.get(d, d) if (v.weak or v.py) else d
      w = v.weak and not isnp and (not seq) 
      if isinstance(x, Arr) and not x.py: w = x.weak and not isnp
      r = R(v.a.copy(), d if isnp else V.canon(d), v, weak=w and not v.dtype == 'bool')
      if seq: r.weak = False
      return r
    c = V.cast(v, d)
    return R(c.a.copy(), d, v)

  def _stack_list(x):
    return x
  P(array, 'array', 'asarray', 'ascontiguousarray', 'atleast_0d')

  @reg('atleast_1d')
  def atleast_1d(x):
    x = A(x)
    return R(x.a.reshape(-1) if x.ndim == 0 else x.a, x.dtype, x, weak=x.weak)

  @reg('atleast_2d')
  def atleast_2d(x):
    x = A(x)
    return R(np.atleast_2d(x.a), x.dtype, x, weak=x.weak)

  @reg('copy')
  def copy(x, **kw): 
    x = A(x)
    return R(x.a.copy(), x.dtype, x, weak=x.weak)

  @reg('arange')
  def arange(*a, dtype=None):
    vals = [x if not isinstance(x, Arr) else _conc(x) for x in a]
    r = np.arange(*vals)
    d = dt(dtype, 'int64' if r.dtype.kind == 'i' else 'float64')
    return R(V.const_arr(r).a, d)

  def _conc(x):
    if x.traced and not x.py: I.event('concretise', 'arange of an array value')
    c = x.concrete()
    if c is None: I.unsupported('arange of an unknown value')
    return c

  @reg('linspace')
  def linspace(start, stop, num=50, endpoint=True, dtype=None, **kw):
    s, e = A(start), A(stop)
    n = I.as_index(num)
    div = (n - 1) if endpoint else n
    d = dt(dtype, 'float64')
    o = [T.add(s.item(), T.mul(T.const(i / div if div else 0.0), T.sub(e.item(), s.item()))) for i in range(n)]
    return R(V.oarr(o), d, s, e)

  @reg('eye', 'identity')
  def eye(n, m=None, k=0, dtype=None):
    n = I.as_index(n)
    m = n if m is None else I.as_index(m)
    d = dt(dtype, 'float64')
    return R(V.const_arr(np.eye(n, m, k, dtype=int)).a, d)

  @reg('tri')
  def tri(n, m=None, k=0, dtype=None):
    return R(V.const_arr(np.tri(n, m, k, dtype=int)).a, dt(dtype, 'float64'))

  def trix(low):
    def f(x, k=0):
      x = A(x)
      msk = np.tri(*x.shape[-2:], k=k if low else k - 1, dtype=bool)
      if not low: msk = ~msk
      o = x.a.copy()
      o[..., ~msk] = T.ZERO
      return R(o, x.dtype, x)
    return f
  P(trix(True), 'tril')
  P(trix(False), 'triu')

  @reg('diag')
  def diag(x, k=0):
    x = A(x)
    if x.ndim == 1:
      n = x.shape[0] + abs(k)
      o = np.empty((n, n), dtype=object)
      o.fill(T.ZERO if x.dtype != 'bool' else T.FALSE)
      for i in range(x.shape[0]): o[i + max(0, -k), i + max(0, k)] = x.a[i]
      return R(o, x.dtype, x)
    return R(np.diagonal(x.a, k).copy(), x.dtype, x)

  P(lambda x, k=0: diag(tab['ravel'].fn(x), k), 'diagflat')
  P(lambda a, b: (tab['floor_divide'].fn(a, b), tab['mod'].fn(a, b)), 'divmod')

  def tri_idx(f):
    def g(n, k=0, m=None):
      i, j = f(n, k, m)
      return tuple(R(V.const_arr(q).a, 'int64') for q in (i, j))
    return g
  P(tri_idx(np.tril_indices), 'tril_indices')
  P(tri_idx(np.triu_indices), 'triu_indices')

  @reg('isin')
  def isin(x, test, **k):
    x, test = A(x), A(test)
    def f(t):
      r = T.FALSE
      for q in test.terms(): r = T.lor(r, T.eq(t, q))
      return r
    return R(V.vec(f, x), 'bool', x, test)

  @reg('nonzero')
  def nonzero(x, **k):
    x = A(x)
    if not x.is_concrete() or x.traced and I.jit: I.unsupported('nonzero of unknown values')
    return tuple(R(V.const_arr(i).a, 'int64', x) for i in np.nonzero(np.vectorize(lambda t: t.val, otypes=[float])(x.a)))

  @reg('median')
  def median(x, axis=None, keepdims=False):
    x = A(x)
    if axis is None:
      if keepdims: I.unsupported('median keepdims')
      x, axis = tab['ravel'].fn(x), 0
    m, n = tab['sort'].fn(x, axis), x.shape[axis]
    pick = lambda i: tab['take'].fn(m, V.const_arr(i), axis)
    r = tab['multiply'].fn(tab['add'].fn(pick((n - 1) // 2), pick(n // 2)), 0.5)
    return tab['expand_dims'].fn(r, axis) if keepdims else r

  @reg('diagonal')
  def diagonal(x, offset=0, axis1=0, axis2=1):
    x = A(x)
    return R(np.diagonal(x.a, offset, axis1, axis2).copy(), x.dtype, x)

  @reg('trace')
  def trace(x, offset=0, axis1=0, axis2=1):
    return sum_(diagonal(x, offset, axis1, axis2), axis=-1)

  @reg('diag_indices')
  def diag_indices(n, ndim=2):
    return tuple(arange(n) for _ in range(ndim))

  @reg('indices')
  def indices(dims, dtype=None):
    return R(V.const_arr(np.indices(shape_of(dims))).a, dt(dtype, 'int64'))

  @reg('meshgrid')
  def meshgrid(*xs, indexing='xy', **kw):
    xs = [A(x) for x in xs]
    return [R(o.copy(), x.dtype, x) for o, x in zip(np.meshgrid(*[x.a for x in xs], indexing=indexing), xs)]

  # -- shape ---------------------------------------------------------------
  def safe(f, *a, **k):
    try:
      return f(*a, **k)
    except (ValueError, IndexError, TypeError) as e:
      I.raise_(ValueError if not isnp and not isinstance(e, TypeError) else type(e), str(e))

  @reg('reshape')
  def reshape(x, newshape=None, order='C', shape=None, **kw):
    x = A(x)
    s = shape_of(newshape if newshape is not None else shape)
    if order not in ('C', 'F', 'A'): I.unsupported('reshape order %r' % (order,))
    try:
      return R(x.a.reshape(s, order='F' if order == 'F' else 'C').copy(), x.dtype, x, weak=x.weak)
    except ValueError as e:
      I.raise_(TypeError, str(e))
  P(lambda x, order='C': R(A(x).a.reshape(-1, order='F' if order == 'F' else 'C').copy(), A(x).dtype, A(x), weak=A(x).weak), 'ravel')

  @reg('expand_dims')
  def expand_dims(x, axis):
    x = A(x)
    return R(safe(np.expand_dims, x.a, axis_of(axis)), x.dtype, x, weak=x.weak)

  @reg('squeeze')
  def squeeze(x, axis=None):
    x = A(x)
    return R(safe(np.squeeze, x.a, axis_of(axis)), x.dtype, x, weak=x.weak)

  def shp(npf, nm):
    def f(x, *a, **k):
      x = A(x)
      a = [axis_of(v) if not isinstance(v, (tuple, list)) else tuple(v) for v in a]
      r = safe(npf, x.a, *a, **k)
      return R(np.array(r, dtype=object, copy=True) if not isinstance(r, np.ndarray) else r.copy(), x.dtype, x, weak=x.weak)
    P(f, nm)
  for nm in ('transpose', 'swapaxes', 'moveaxis', 'rollaxis', 'tile', 'repeat', 'flip', 'roll', 'fliplr', 'flipud', 'rot90'):
    shp(getattr(np, nm), nm)
  tab['permute_dims'] = tab['transpose']
  tab['matrix_transpose'] = IT.Prim(lambda x: R(np.swapaxes(A(x).a, -1, -2), A(x).dtype, A(x)), 'matrix_transpose')

  _rep = tab['repeat'].fn
  def repeat(x, repeats, axis=None, total_repeat_length=None):
    if isinstance(repeats, Arr) and repeats.ndim:
      repeats = [I.as_index(J.arr_getitem(I, repeats, i)) for i in range(repeats.shape[0])]
      x = A(x)
      return R(np.repeat(x.a, repeats, axis), x.dtype, x)
    return _rep(x, I.as_index(repeats), axis=axis_of(axis))
  P(repeat, 'repeat')

  def tile(x, reps):
    reps = reps if isinstance(reps, (list, tuple)) else (reps,)
    x = A(x)
    return R(np.tile(x.a, tuple(I.as_index(r) for r in reps)), x.dtype, x)
  P(tile, 'tile')

  @reg('broadcast_to')
  def broadcast_to(x, shape):
    x = A(x)
    return R(safe(np.broadcast_to, x.a, shape_of(shape)).copy(), x.dtype, x, weak=x.weak)

  @reg('broadcast_arrays')
  def broadcast_arrays(*xs):
    xs = [A(x) for x in xs]
    bs = safe(np.broadcast_arrays, *[x.a for x in xs])
    return [R(b.copy(), x.dtype, x, weak=x.weak) for b, x in zip(bs, xs)]

  @reg('broadcast_shapes')
  def broadcast_shapes(*ss): return tuple(safe(np.broadcast_shapes, *[shape_of(s) for s in ss]))

  def joinf(npf, *names):
    def f(xs, axis=0, dtype=None, **kw):
      xs = [A(x) for x in I.iterate(xs)]
      if not xs: I.raise_(ValueError, 'Need at least one array to concatenate.')
      d, w = promo(*xs)
      if isnp:
        d = {'float32': 'float64', 'int32': 'int64'}.get(d, d) if all(not x.np for x in xs) else d
      d = dt(dtype, d)
      a = [V.cast(x, d).a for x in xs]
      if axis is None and npf is np.concatenate:
        a, axis = [x.reshape(-1) for x in a], 0
      args = () if npf in (np.hstack, np.vstack, np.dstack, np.column_stack) else (axis_of(axis),)
      return R(safe(npf, a, *args), d, *xs, weak=w and not isnp)
    P(f, *names)
  joinf(np.concatenate, 'concatenate')
  joinf(np.stack, 'stack')
  joinf(np.hstack, 'hstack')
  joinf(np.vstack, 'vstack')
  joinf(np.column_stack, 'column_stack')

  @reg('append')
  def append(a, b, axis=None):
    if axis is None: return tab['concatenate'].fn([tab['ravel'].fn(a), tab['ravel'].fn(b)])
    return tab['concatenate'].fn([a, b], axis)

  def splitf(npf, nm):
    def f(x, ind, axis=0):
      x = A(x)
      if isinstance(ind, Arr) and ind.ndim == 0: ind = I.as_index(ind, 'split')
      elif not isinstance(ind, int): ind = [int(I.as_index(i, 'split')) for i in I.iterate(ind)]
      return [R(p.copy(), x.dtype, x, weak=x.weak) for p in safe(npf, x.a, ind, axis_of(axis))]
    P(f, nm)
  splitf(np.split, 'split')
  splitf(np.array_split, 'array_split')

  @reg('pad')
  def pad(x, pad_width, mode='constant', constant_values=0, **kw):
    x = A(x)
    if mode != 'constant': I.unsupported('pad mode')
    pw = pad_width
    if isinstance(pw, int): pw = [(pw, pw)] * x.ndim
    pw = [tuple(p) if isinstance(p, (list, tuple)) else (p, p) for p in pw]
    if len(pw) == 1 and x.ndim > 1: pw = pw * x.ndim
    if len(pw) == 2 and x.ndim == 1: pw = [(pw[0][0], pw[1][0])]
    o = np.empty([s + a + b for s, (a, b) in zip(x.shape, pw)], dtype=object)
    o.fill(A(constant_values).item())
    o[tuple(slice(a, a + s) for s, (a, b) in zip(x.shape, pw))] = x.a
    return R(o, x.dtype, x)

  @reg('take')
  def take(x, idx, axis=None, **kw):
    x = A(x)
    if axis is None: return J.arr_getitem(I, x.with_(x.a.reshape(-1), np_=x.np), idx if isinstance(idx, (int, Arr)) else A(idx))
    axis = axis % x.ndim
    return J.arr_getitem(I, x, (slice(None),) * axis + (idx if isinstance(idx, (int, Arr)) else A(idx),))

  @reg('take_along_axis')
  def take_along_axis(x, idx, axis):
    x, idx = A(x), A(idx)
    axis = axis % x.ndim
    o = np.empty(idx.shape, dtype=object)
    for p in np.ndindex(*idx.shape):
      q = [min(a, s - 1) if s == 1 else a for a, s in zip(p, x.shape)]
      r = None
      n = x.shape[axis]
      for j in reversed(range(n)):
        q[axis] = j
        v = x.a[tuple(q)]
        t = idx.a[p]
        r = v if r is None else T.ite(T.lor(T.eq(t, T.const(j)), T.eq(t, T.const(j - n))), v, r)
      o[p] = r
    return R(o, x.dtype, x, idx)

  @reg('searchsorted')
  def searchsorted(a, v, side='left', **kw):
    a, v = A(a), A(v)
    f = (lambda t: tsum([T.b2n(T.lt(b, t)) for b in a.terms()])) if side == 'left' else (
        lambda t: tsum([T.b2n(T.le(b, t)) for b in a.terms()]))
    return R(V.vec(f, v), 'int64', a, v)

  @reg('digitize')
  def digitize(x, bins, right=False):
    return searchsorted(bins, x, side='left' if right else 'right')

  @reg('interp')
  def interp(x, xp, fp, left=None, right=None, **kw):
    x, xp, fp = A(x), A(xp), A(fp)
    X, F = xp.terms(), fp.terms()
    def f(t):
      r = F[-1] if right is None else A(right).item()
      for i in reversed(range(len(X) - 1)):
        seg = T.add(F[i], T.mul(T.div(T.sub(t, X[i]), T.sub(X[i + 1], X[i])), T.sub(F[i + 1], F[i])))
        r = T.ite(T.lt(t, X[i + 1]), seg, r)
      return T.ite(T.lt(t, X[0]), F[0] if left is None else A(left).item(), r)
    return R(V.vec(f, x), 'float64', x, xp, fp)

  @reg('sort')
  def sort(x, axis=-1, **kw):
    x = A(x)
    m = np.moveaxis(x.a, axis, -1).copy()
    for idx in np.ndindex(*m.shape[:-1]):
      row = list(m[idx])
      for i in range(len(row)):
        for j in range(len(row) - 1 - i):
          row[j], row[j + 1] = T.minimum(row[j], row[j + 1]), T.maximum(row[j], row[j + 1])
      for i, t in enumerate(row): m[idx + (i,)] = t
    return R(np.moveaxis(m, -1, axis), x.dtype, x)

  @reg('argsort')
  def argsort(x, axis=-1, **kw):
    x = A(x)
    if not x.is_concrete(): I.unsupported('argsort of unknown values')
    return R(V.const_arr(np.argsort(np.vectorize(lambda t: t.val, otypes=[float])(x.a), axis=axis, kind='stable')).a, 'int64', x)

  @reg('diff')
  def diff(x, n=1, axis=-1):
    x = A(x)
    if n != 1: I.unsupported('diff n')
    return R(np.diff(x.a, axis=axis), x.dtype, x)

  # -- contractions --------------------------------------------------------
  def tw(npf, a, b):
    x, y = A(a), A(b)
    d, w = promo(x, y)
    x, y = V.cast(x, d), V.cast(y, d)
    try:
      r = npf(x.a, y.a)
    except ValueError as e:
      I.raise_(TypeError, str(e))
    if not isinstance(r, np.ndarray):
      r = V.oarr(T.as_term(r))
    if r.size and not isinstance(r.reshape(-1)[0], T.Term): r = V.vec(T.as_term, r)
    return R(r, d, x, y, weak=w and not isnp)
  P(lambda a, b, precision=None, **k: _dot(a, b), 'dot')

  def _dot(a, b):
    x, y = A(a), A(b)
    if x.ndim == 0 or y.ndim == 0: return J.arr_binop(I, 'Mult', mk(x), mark2(y))
    return tw(np.dot, a, b)

  def matmul(a, b, precision=None, **k):
    x, y = A(a), A(b)
    if x.ndim == 0 or y.ndim == 0: I.raise_(ValueError, 'matmul input operand must have ndim at least 1')
    return tw(np.matmul, a, b)
  P(matmul, 'matmul')
  P(lambda a, b, precision=None, **k: tw(lambda p, q: np.dot(p.reshape(-1), q.reshape(-1)), a, b), 'vdot')
  P(lambda a, b, **k: tw(np.inner, a, b), 'inner')
  P(lambda a, b, **k: tw(lambda p, q: np.multiply.outer(p.reshape(-1), q.reshape(-1)), a, b), 'outer')
  P(lambda a, b, axes=2, precision=None, **k: tw(lambda p, q: np.tensordot(p, q, axes), a, b), 'tensordot')
  P(lambda a, b, **k: tw(np.kron, a, b), 'kron')
  P(lambda a, b, **k: tw(np.cross, a, b), 'cross')

  @reg('einsum')
  def einsum(spec, *ops, **kw):
    ops = [A(o) for o in ops]
    d, _ = promo(*ops)
    ops = [V.cast(o, d) for o in ops]
    spec = spec.replace(' ', '')
    if '->' not in spec:
      ins = spec.replace(',', '')
      spec += '->' + ''.join(sorted(c for c in set(ins) if ins.count(c) == 1 and c != '.'))
    ins, out = spec.split('->')
    ins = ins.split(',')
    if '.' in spec:
      nb = max(o.ndim - len(i.replace('...', '')) for i, o in zip(ins, ops) if '...' in i)
      letters = [c for c in 'ABCDEFGH'][:nb]
      def ex(i, o):
        if '...' not in i: return i
        k = o.ndim - len(i.replace('...', ''))
        return i.replace('...', ''.join(letters[nb - k:]))
      ins = [ex(i, o) for i, o in zip(ins, ops)]
      out = out.replace('...', ''.join(letters))
    dims = {}
    for i, o in zip(ins, ops):
      if len(i) != o.ndim: I.raise_(ValueError, 'einsum operand rank')
      for c, n in zip(i, o.shape):
        if dims.get(c, n) != n and 1 not in (dims[c], n): I.raise_(ValueError, 'einsum dims')
        dims[c] = max(n, dims.get(c, 1))
    con = [c for c in dims if c not in out]
    o = np.empty([dims[c] for c in out], dtype=object)
    for idx in np.ndindex(*o.shape):
      env = dict(zip(out, idx))
      terms = []
      for ci in np.ndindex(*[dims[c] for c in con]):
        env.update(zip(con, ci))
        t = None
        for i, x in zip(ins, ops):
          v = x.a[tuple(env[c] if n > 1 else 0 for c, n in zip(i, x.shape))]
          t = v if t is None else T.mul(t, v)
        terms.append(t)
      o[idx] = tsum(terms)
    return R(o, d, *ops)

  # -- predicates / types --------------------------------------------------
  @reg('shape')
  def shape(x): return tuple(A(x).shape)
  P(lambda x: A(x).ndim, 'ndim', 'rank')
  P(lambda x, axis=None: A(x).size if axis is None else A(x).shape[axis], 'size')
  P(lambda x: not isinstance(x, Arr) and not isinstance(x, (list, tuple)) or (isinstance(x, Arr) and x.ndim == 0), 'isscalar')

  @reg('result_type')
  def result_type(*xs):
    dw = []
    for x in xs:
      if isinstance(x, (Arr, bool, int, float, list, tuple)):
        a = V.as_arr(x)
        dw.append((a.dtype, a.weak))
      else: dw.append((dt(x, None), False))
    if isnp: return V.DType(J.np_promote(*[Arr(T.ZERO, d, w, np_=True) for d, w in dw]))
    return V.DType(V.canon(V.promote(*dw)[0]))

  P(lambda a, b: V.DType(V.canon(V.promote_types(V.dtype_name(a), V.dtype_name(b)))), 'promote_types')
  P(lambda d: V.DType(V.dtype_name(d)) if not isinstance(d, Arr) else V.DType(d.dtype), 'dtype')

  def issub(d, kind):
    n = V.dtype_name(d) if not isinstance(d, IT.Opaque) else None
    k = getattr(kind, 'name', None) or V.dtype_name(kind)
    k = k.split('.')[-1]
    if n is None: return d.name.split('.')[-1] == k
    if k == 'floating': return V.is_float(n)
    if k == 'inexact': return V.is_float(n) or V.is_complex(n)
    if k == 'complexfloating': return V.is_complex(n)
    if k == 'integer': return V.is_int(n)
    if k == 'signedinteger': return n in V.INTS
    if k == 'unsignedinteger': return n in V.UINTS
    if k == 'number': return n != 'bool'
    if k == 'generic': return True
    if kind is float: return V.is_float(n)
    if kind is int: return V.is_int(n)
    return n == k or (k == 'bool_' and n == 'bool')
  P(issub, 'issubdtype')
  P(lambda x: V.is_float(A(x).dtype) or V.is_int(A(x).dtype) or True, 'isrealobj', 'isreal')
  P(lambda x: V.is_complex(A(x).dtype), 'iscomplexobj')
  P(lambda x: mark(A(x)), 'real', 'conj', 'conjugate', 'conj')
  P(lambda x: full_like(x, 0), 'imag')

  class Info(IT.HostObj):
    def __init__(self, **kw): self.__dict__.update(kw)

  @reg('iinfo')
  def iinfo(d):
    n = V.dtype_name(d)
    b = V.BITS[n]
    if n in V.UINTS: return Info(min=0, max=2**b - 1, bits=b, dtype=V.DType(n))
    return Info(min=-2**(b - 1), max=2**(b - 1) - 1, bits=b, dtype=V.DType(n))

  @reg('finfo')
  def finfo(d):
    n = V.dtype_name(d) if not isinstance(d, Arr) else d.dtype
    e, mx, tiny = {'float32': (2.0**-23, 3.4028234663852886e38, 1.1754943508222875e-38),
                   'float64': (2.0**-52, 1.7976931348623157e308, 2.2250738585072014e-308),
                   'float16': (2.0**-10, 65504.0, 6.103515625e-05),
                   'bfloat16': (2.0**-7, 3.3895313892515355e38, 1.1754943508222875e-38)}[n]
    return Info(eps=e, max=mx, min=-mx, tiny=tiny, smallest_normal=tiny, bits=V.BITS[n], dtype=V.DType(n))

  def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    x, y = A(a), A(b)
    r, t = A(rtol).item(), A(atol).item()
    f = lambda p, q: T.lor(T.eq(p, q), T.land(T.isfinite(q), T.le(T.unary('abs', T.sub(p, q)), T.add(t, T.mul(r, T.unary('abs', q))))))
    return R(V.vec(f, x, y), 'bool', x, y)
  P(isclose, 'isclose')
  P(lambda a, b, **k: all_(isclose(a, b, **k)), 'allclose')

  @reg('array_equal')
  def array_equal(a, b, **kw):
    x, y = A(a), A(b)
    if x.shape != y.shape: return R(T.FALSE, 'bool', x, y)
    return all_(J.arr_compare(I, 'Eq', mk(x), mark2(y)))

  @reg('vectorize')
  def vectorize(f, excluded=(), signature=None, **kw):
    return IT.Prim(lambda *a: _vectorize(f, a, excluded, signature), 'vectorized')

  def _vectorize(f, args, excluded, sig):
    ex = set(I.iterate(excluded)) if excluded else set()
    args = list(args)
    if sig is None: cores = [0] * len(args)
    else:
      ins = sig.split('->')[0]
      cores = []
      depth, cur = 0, ''
      for ch in ins:
        if ch == '(':
          depth, cur = 1, ''
        elif ch == ')':
          cores.append(len([c for c in cur.split(',') if c.strip()]))
          depth = 0
        elif depth: cur += ch
    pos = [i for i in range(len(args)) if i not in ex]
    arrs = {i: A(args[i]) for i in pos}
    cd = {i: cores[j] if j < len(cores) else 0 for j, i in enumerate(pos)}
    lead = np.broadcast_shapes(*[arrs[i].shape[:arrs[i].ndim - cd[i]] for i in pos])
    if lead == ():
      return I.call(f, [arrs[i] if i in arrs else args[i] for i in range(len(args))])
    outs = []
    for idx in np.ndindex(*lead):
      call = []
      for i in range(len(args)):
        if i not in arrs:
          call.append(args[i])
          continue
        x = arrs[i]
        ld = x.ndim - cd[i]
        sub_ = idx[len(lead) - ld:]
        sub_ = tuple(0 if s == 1 else k for k, s in zip(sub_, x.shape[:ld]))
        v = x.a[sub_]
        if not isinstance(v, np.ndarray): v = V.oarr(v)
        call.append(Arr(v, x.dtype, x.weak, x.traced, None, x.np))
      outs.append(I.call(f, call))
    def comb(*xs):
      xs = [A(x) for x in xs]
      st = np.empty((len(xs),) + xs[0].shape, dtype=object)
      for k, x in enumerate(xs): st[k, ...] = x.a
      return R(st.reshape(lead + xs[0].shape), xs[0].dtype, *xs)
    return V.tree_map(comb, outs[0], *outs[1:])

  @reg('apply_along_axis')
  def apply_along_axis(f, axis, x, *a):
    x = A(x)
    m = np.moveaxis(x.a, axis, -1)
    outs = [I.call(f, [R(m[i].copy(), x.dtype, x)] + list(a)) for i in np.ndindex(*m.shape[:-1])]
    outs = [A(o) for o in outs]
    st = np.empty((len(outs),) + outs[0].shape, dtype=object)
    for k, o in enumerate(outs): st[k, ...] = o.a
    st = st.reshape(m.shape[:-1] + outs[0].shape)
    return R(st, outs[0].dtype, x)

  @reg('piecewise')
  def piecewise(x, conds, funcs, *a, **k):
    x = A(x)
    conds, funcs = I.iterate(conds), I.iterate(funcs)
    get = lambda f: I.call(f, [x] + list(a), k) if J.callable_(f) else A(f)
    r = get(funcs[len(conds)]) if len(funcs) > len(conds) else full_like(x, 0)
    for c, f in reversed(list(zip(conds, funcs))): r = where(c, get(f), r)
    return V.cast(A(r), x.dtype)

  for d in V.ALL_DTYPES:
    tab[{'bool': 'bool_'}.get(d, d)] = V.DType(d)
  tab['float_'], tab['int_'] = V.DType('float64' if isnp else V.canon('float64')), V.DType('int64' if isnp else V.canon('int64'))
  tab['single'], tab['double'], tab['half'] = V.DType('float32'), V.DType('float64'), V.DType('float16')
  for n in ('floating', 'integer', 'inexact', 'number', 'complexfloating', 'signedinteger', 'unsignedinteger', 'generic'):
    tab[n] = IT.Opaque('numpy.' + n)
  tab.update(inf=math.inf, nan=math.nan, pi=math.pi, e=math.e, newaxis=None, euler_gamma=0.5772156649015329)
  tab['ndim'] = tab['ndim']
  linalg = {'norm': tab.pop('norm_')}

  def inv2(x):
    x = A(x)
    n = x.shape[-1]
    return R(V.oarr([T.app('linalg.inv:%d:%d:%d' % (n, i, j), x.terms()) for i in range(n) for j in range(n)], (n, n)), x.dtype, x)
  linalg['inv'] = IT.Prim(inv2, 'linalg.inv')

  def matrix_power(x, n):
    x = A(x)
    n = I.as_index(n)
    if n < 0: I.unsupported('matrix_power of negative order')
    r = eye(x.shape[-1], dtype=V.DType(x.dtype))
    for _ in range(n): r = matmul(r, x)
    return r
  linalg['matrix_power'] = IT.Prim(matrix_power)

  def det(x):
    x = A(x)
    def d(m):
      if m.shape[0] == 1: return m[0, 0]
      return tsum([T.mul(T.const((-1)**j), T.mul(m[0, j], d(np.delete(m[1:], j, 1)))) for j in range(m.shape[0])])
    return R(d(x.a), x.dtype, x)
  linalg['det'] = IT.Prim(det)

  def lin_app(nm):
    def f(x, *a, **k):
      x = A(x)
      n = x.shape[-1]
      w = R(V.oarr([T.app('linalg.%s.w:%d:%d' % (nm, n, i), x.terms()) for i in range(n)]), x.dtype, x)
      v = R(V.oarr([T.app('linalg.%s.v:%d:%d:%d' % (nm, n, i, j), x.terms()) for i in range(n) for j in range(n)], (n, n)), x.dtype, x)
      return w, v
    return f
  linalg['eigh'] = IT.Prim(lin_app('eigh'), 'linalg.eigh')
  linalg['solve'] = IT.Prim(lambda a, b: matmul(inv2(a), b), 'linalg.solve')
  for k in list(linalg):
    if not isinstance(linalg[k], IT.Prim): linalg[k] = IT.Prim(linalg[k], 'linalg.' + k)
  tab['linalg'] = IT.ModModel(('numpy' if isnp else 'jax.numpy') + '.linalg', linalg)
  for k, v in list(tab.items()):
    if isinstance(v, IT.Prim): tab[k] = IT.strict_keywords(I, v)
  return tab


def _arrays_only(x):
  return all(isinstance(v, Arr) for v in x)


def _has_none(x):
  return any(v is None or (isinstance(v, (list, tuple)) and _has_none(v)) for v in x)
