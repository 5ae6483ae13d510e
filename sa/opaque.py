"""Opaque (uninterpreted) gradient transformations used as arbitrary members of
combinators and wrappers: every output entry is an uninterpreted application to
everything the member was given, so an equation proved for them holds for every
deterministic member."""
import numpy as np

from . import terms as T
from . import values as V
from .values import Arr


def _terms(x): return V.all_terms(x)


class Opaque:
  """fields: state = {'m': like params, 'k': float scalar}; log records calls."""

  def __init__(self, ctx, name, elementwise=False, dtype=None):
    self.ctx, self.name, self.elementwise, self.dtype = ctx, name, elementwise, dtype
    self.inits, self.updates = [], []
    self.tx = ctx.tx(self.init, self.update)

  def _like(self, tag, tree, args):
    n = [0]

    def leaf(l):
      l = V.as_arr(l)
      out = np.empty(l.shape, dtype=object)
      for i in np.ndindex(*l.shape):
        n[0] += 1
        out[i] = T.app('%s.%s' % (self.name, tag), [T.const(n[0])] + args)
      return Arr(out, l.dtype, traced=True)
    return V.tree_map(leaf, tree)

  def init(self, params):
    self.inits.append(params)
    a = _terms(params)
    return {'m': self._like('im', params, a), 'k': Arr(V.oarr(T.app(self.name + '.ik', a)), 'float32', traced=True)}

  def update(self, u, s, params=None, *rest, **kw):
    if rest or kw: raise V.AbsRaise(V.ExcVal(TypeError, ('update() got unexpected arguments',)))
    self.updates.append((u, s, params))
    return self.pure(u, s, params)

  def pure(self, u, s, params=None):
    """The same function without recording the call (for references)."""
    sfx = '' if params is not None else '/noparams'
    a = _terms(u) + _terms(s) + (_terms(params) if params is not None else [])
    if params is not None: a = a + [T.const(len(V.tree_leaves(params)))]
    return (self._like('u' + sfx, u, a),
            {'m': self._like('m' + sfx, s['m'], a), 'k': Arr(V.oarr(T.app(self.name + '.k' + sfx, a)), 'float32', traced=True)})

  def pure_init(self, params):
    a = _terms(params)
    return {'m': self._like('im', params, a), 'k': Arr(V.oarr(T.app(self.name + '.ik', a)), 'float32', traced=True)}

  def havoc(self, tag, params):
    return {'m': V.tree_map(lambda l: V.sym('%s.%s.m%d' % (self.name, tag, self._n()), l.shape, 'real', l.dtype), params),
            'k': V.sym('%s.%s.k' % (self.name, tag), (), 'real', 'float32')}

  _c = 0

  def _n(self):
    self._c += 1
    return self._c


class Elementwise:
  """Opaque member acting entry by entry (name(u, m, k, p)), any tree structure."""

  def __init__(self, ctx, name):
    self.ctx, self.name = ctx, name
    self.tx = ctx.tx(self.init, self.update)
    self.updates = []

  def init(self, params):
    return {'m': V.tree_map(lambda l: Arr(V.vec(lambda t: T.app(self.name + '.im', [t]), l), l.dtype, traced=True), params),
            'k': V.const_arr(0, 'int32')}

  def update(self, u, s, params=None):
    self.updates.append((u, s, params))
    k = s['k'].item()
    if params is None:
      f = lambda tag: (lambda g, m: Arr(V.vec(lambda x, y: T.app('%s.%s/n' % (self.name, tag), [x, y, k]), g, m), g.dtype, traced=True))
      return V.tree_map(f('u'), u, s['m']), {'m': V.tree_map(f('m'), u, s['m']), 'k': Arr(V.oarr(T.add(k, T.ONE)), 'int32', traced=True)}
    f = lambda tag: (lambda g, m, p: Arr(V.vec(lambda x, y, z: T.app('%s.%s' % (self.name, tag), [x, y, k, z]), g, m, p), g.dtype, traced=True))
    return V.tree_map(f('u'), u, s['m'], params), {'m': V.tree_map(f('m'), u, s['m'], params), 'k': Arr(V.oarr(T.add(k, T.ONE)), 'int32', traced=True)}
