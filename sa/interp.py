"""Abstract interpreter over the Python syntax tree of /repo/optax.

Branches on unknown conditions are joined into select (phi) nodes of the value
graph; nothing of optax or jax is imported or executed.
"""
import ast
import inspect
import builtins
import os

import numpy as np

from . import terms as T
from . import values as V
from .values import Arr, ANT, AbsRaise, ExcVal, Unsupported

_MISSING = object()
DELETED = object()


class Opaque:
  """Unknown external object (typing constructs and the like)."""

  def __init__(self, name, attrs=None):
    self.name = name
    self.attrs = attrs or {}

  def __repr__(self): return '<opaque %s>' % self.name


class Scope:
  __slots__ = ('vars', 'parent', 'module', 'kind', 'globals', 'nonlocals')

  def __init__(self, parent, module, kind):
    self.vars, self.parent, self.module, self.kind = {}, parent, module, kind
    self.globals, self.nonlocals = set(), set()


class Module:
  def __init__(self, name, path):
    self.name, self.path = name, path
    self.scope = Scope(None, self, 'module')
    self.done = False

  def __repr__(self): return '<module %s>' % self.name


class ModModel:
  """A modelled external module: name -> value (callables are prims)."""

  def __init__(self, name, table):
    self.name, self.table = name, table

  def __repr__(self): return '<model %s>' % self.name


class Closure:
  def __init__(self, node, scope, module, name, qualname, defaults, kwdefaults, cls=None):
    self.node, self.scope, self.module = node, scope, module
    self.name, self.qualname = name, qualname
    self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls
    self.attrs = {}
    self.is_gen = False

  def __repr__(self): return '<function %s>' % self.qualname


class Prim:
  """A modelled function; fn(*args, **kwargs) in Python."""

  def __init__(self, fn, name=None, attrs=None):
    self.fn, self.name, self.attrs = fn, name or fn.__name__, attrs or {}

  def __repr__(self): return '<prim %s>' % self.name


# Keyword arguments of modelled functions that do not change what is computed on valid input.
_INERT_KW = frozenset('precision preferred_element_type indices_are_sorted unique_indices mode copy kind stable device promote_integers casting subok likelihood cache is_stable num_keys'.split())


def strict_keywords(I, prim):
  """A modelled function whose **kwargs would swallow an option it does not model refuses that option instead."""
  try: ps = inspect.signature(prim.fn).parameters.values()
  except (TypeError, ValueError): return prim
  if not any(p.kind is p.VAR_KEYWORD for p in ps): return prim
  known = {p.name for p in ps} | {'min', 'max'}
  fn = prim.fn

  def f(*args, **kw):
    for k, v in kw.items():
      if k not in known and k not in _INERT_KW and v is not None and v is not False: I.unsupported('%s of %s' % (k, prim.name))
    return fn(*args, **kw)
  return Prim(f, prim.name, prim.attrs)


class BoundMethod:
  def __init__(self, func, self_):
    self.func, self.self_ = func, self_

  def __repr__(self): return '<bound %r>' % (self.func,)


class PartialV:
  def __init__(self, func, args, kwargs):
    self.func, self.args, self.kwargs = func, tuple(args), dict(kwargs)


class Choice:
  """phi of two values that cannot be merged structurally."""

  def __init__(self, cond, a, b):
    self.cond, self.a, self.b = cond, a, b

  def __repr__(self): return 'Choice(%s ? %r : %r)' % (T.show(self.cond, 3), self.a, self.b)


class PropertyV:
  def __init__(self, fget): self.fget = fget


class StaticV:
  def __init__(self, f): self.f = f


class ClassMethodV:
  def __init__(self, f): self.f = f


class AClass:
  def __init__(self, name, bases, ns, module=None, nt_fields=None, nt_defaults=None):
    self.name, self.bases, self.ns, self.module = name, bases, ns, module
    self.nt_fields, self.nt_defaults = nt_fields, nt_defaults or {}
    self.dataclass_fields = None
    self.pytree = None

  def __repr__(self): return '<class %s>' % self.name

  def mro(self):
    out = [self]
    for b in self.bases:
      if isinstance(b, AClass):
        for c in b.mro():
          if c not in out: out.append(c)
      else:
        out.append(b)
    return out

  def lookup(self, name):
    for c in self.mro():
      if isinstance(c, AClass) and name in c.ns: return c.ns[name]
    return _MISSING


class Obj:
  def __init__(self, cls):
    self.cls, self.attrs = cls, {}

  def __repr__(self): return '<%s object>' % self.cls.name

  def pytree_flatten(self):
    if self.cls.pytree is None: return None
    fields = self.cls.pytree

    def build(cls, ch):
      o = Obj(cls)
      o.attrs.update(zip(fields, ch))
      return o
    return 'obj', (build, self.cls), [self.attrs[f] for f in fields]


class HostObj:
  """Base of modelled host objects: public Python attributes are visible."""


class GenV(list):
  """An (eagerly evaluated) iterator: its elements, and how many were taken from it."""

  def __init__(self, xs=()):
    super().__init__(xs)
    self.at = {'pos': 0}

  def left(self, I):
    if not isinstance(self.at['pos'], int): I.unsupported('iterator advanced on one branch only')
    return len(self) - self.at['pos']

  def take(self, I, n):
    """The next n elements (fewer at the end), consumed."""
    n = min(n, self.left(I))
    if n and id(self) in I.protected: I.note_mutation(self, 'iteration')
    p = self.at['pos']
    if n:
      I.journal(self.at, 'pos')
      self.at['pos'] = p + n
    return self[p:p + n]


class Frame:
  __slots__ = ('fn', 'pending', 'pc_base', 'scope', 'yields', 'brk')

  def __init__(self, fn, pc_base, scope):
    self.fn, self.pending, self.pc_base, self.scope = fn, [], pc_base, scope
    self.yields = None
    self.brk = None


EXC = {n: getattr(builtins, n) for n in dir(builtins)
       if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}

MUTATORS = {
    list: {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse'},
    dict: {'update', 'pop', 'popitem', 'clear', 'setdefault'},
    set: {'add', 'discard', 'remove', 'update', 'pop', 'clear', 'difference_update', 'intersection_update'},
}


class Interp:
  """One analysis of one source tree."""

  MAX_DEPTH = 120

  def __init__(self, repo, models):
    self.repo = repo
    self.modules = {}
    self.model_factory = models
    self.ext = {}
    self.pc = []
    self.journals = []
    self.frames = []
    self.events = []
    self.raises = []
    self.jit = False
    self.where = []           # stack of (qualname, path) ; line in self.line
    self.line = 0
    self.visited = set()
    self.functions = set()
    self.protected = {}
    self.protected_scopes = {}
    self.n_joins = 0
    self.n_calls = 0
    self.used_prims = set()
    self.scratch = {}
    self.builtins = None

  # -- diagnostics ----------------------------------------------------------

  def loc(self):
    q, p = self.where[-1] if self.where else ('?', '?')
    return '%s:%d (%s)' % (os.path.relpath(p, self.repo) if p.startswith('/') else p, self.line, q)

  def stack(self):
    return [q for q, _ in self.where]

  def event(self, kind, detail):
    self.events.append(dict(kind=kind, where=self.loc(), fn=self.where[-1][0] if self.where else '?',
                            detail=detail, stack=self.stack()[-6:]))

  def unsupported(self, msg):
    raise Unsupported('%s at %s' % (msg, self.loc()))

  def raise_(self, cls, *args):
    raise AbsRaise(ExcVal(cls, args), self.loc())

  # -- modules --------------------------------------------------------------

  def find_module(self, name):
    rel = name.replace('.', '/')
    for p in (os.path.join(self.repo, rel + '.py'), os.path.join(self.repo, rel, '__init__.py')):
      if os.path.exists(p): return p
    return None

  def load(self, name):
    """Module object (interpreted or modelled) for a dotted name."""
    if name in self.modules: return self.modules[name]
    if name.split('.')[0] == 'optax':
      path = self.find_module(name)
      if path is None:
        if os.path.isdir(os.path.join(self.repo, name.replace('.', '/'))):
          m = Module(name, os.path.join(self.repo, name.replace('.', '/')))
          m.done = True
          self.modules[name] = m
          par = name.rpartition('.')[0]
          if par: self.load(par).scope.vars.setdefault(name.rpartition('.')[2], m)
          return m
        self.raise_(ModuleNotFoundError, 'No module named %r' % name)
      m = Module(name, path)
      self.modules[name] = m
      parent = name.rpartition('.')[0]
      with open(path) as f: src = f.read()
      tree = ast.parse(src, path)
      m.scope.vars.update({'__name__': name, '__file__': path, '__doc__': ast.get_docstring(tree)})
      if parent:
        pm = self.load(parent)
        saved = self.line
        pm.scope.vars.setdefault(name.rpartition('.')[2], m)
        self.line = saved
      self.where.append((name, path))
      saved_line, saved_frames, saved_jit = self.line, self.frames, self.jit
      self.frames, self.jit = [Frame(None, len(self.pc), m.scope)], False
      try:
        self.exec_block(tree.body, m.scope)
      finally:
        self.where.pop()
        self.frames, self.line, self.jit = saved_frames, saved_line, saved_jit
      m.done = True
      return m
    m = self.model_factory(self, name)
    if m is None: self.unsupported('import of unmodelled module %s' % name)
    self.modules[name] = m
    return m

  def optax(self, dotted):
    """Value of a public name, e.g. 'scale_by_adam' or '_src.base.identity'."""
    v = self.load('optax')
    for part in dotted.split('.'): v = self.getattr(v, part)
    return v

  # -- mutation journal -----------------------------------------------------

  def journal(self, container, key):
    if self.journals:
      j = self.journals[-1]
      k = (id(container), key)
      if k not in j:
        j[k] = (container, key, container.get(key, _MISSING))

  def journal_whole(self, container):
    if self.journals:
      j = self.journals[-1]
      k = (id(container), '__whole__')
      if k not in j:
        j[k] = (container, '__whole__', container.copy())

  def note_mutation(self, obj, how):
    p = self.protected.get(id(obj))
    if p is not None and p[0] is obj:
      self.event('mutation', '%s mutates %s' % (how, p[1]))

  def set_var(self, scope, name, val):
    if name in scope.globals:
      g = scope.module.scope
      if self.frames and self.frames[-1].fn is not None:
        self.event('global-write', 'assignment to global %s' % name)
      self.journal(g.vars, name)
      g.vars[name] = val
      return
    if name in scope.nonlocals:
      s = scope.parent
      while s is not None and not (s.kind != 'class' and name in s.vars): s = s.parent
      if s is None: self.unsupported('nonlocal %s' % name)
      if id(s) in self.protected_scopes:
        self.event('closure-write', 'assignment to closure variable %s that outlives the call' % name)
      self.journal(s.vars, name)
      s.vars[name] = val
      return
    self.journal(scope.vars, name)
    scope.vars[name] = val

  def lookup(self, scope, name):
    s, first = scope, True
    if name in scope.globals:
      s = scope.module.scope
    while s is not None:
      if (s.kind != 'class' or first) and name in s.vars:
        v = s.vars[name]
        if v is DELETED:
          self.raise_(UnboundLocalError if s is scope else NameError, "name %r is not defined" % name)
        if isinstance(v, Undef):
          # Unbound on some path: reading it raises there, unless that path is excluded here.
          if self.known(v.cond) is not True:
            self.record_raise(T.lnot(v.cond), AbsRaise(ExcVal(UnboundLocalError if s is scope else NameError, ("name %r is not defined" % name,)), self.loc()))
          v = v.v
        while isinstance(v, Choice):
          k = self.known(v.cond)
          if k is None: break
          v = v.a if k else v.b
        return v
      first = False
      s = s.parent
    if self.builtins is None:
      from . import jaxmodel
      self.builtins = jaxmodel.make_builtins(self)
    if name in self.builtins: return self.builtins[name]
    self.raise_(NameError, 'name %r is not defined' % name)

  # -- truth, branching -----------------------------------------------------

  def truth(self, v, what='bool'):
    """Python bool, or a Term when unknown."""
    if isinstance(v, Arr):
      if v.a.size != 1:
        if v.a.size == 0: return False
        self.raise_(ValueError, 'The truth value of an array with more than one element is ambiguous.')
      t = T.n2b(v.item()) if v.dtype != 'bool' else v.item()
      if v.traced and not v.py:
        self.event('concretise', '%s of an array value (%s)' % (what, T.show(t, 4)))
      if t.op == 'c': return bool(t.val)
      for c, pol in reversed(self.pc):
        if c is t: return pol
        if c.op == 'not' and c.args[0] is t: return not pol
        if t.op == 'not' and t.args[0] is c: return not pol
      return t
    if isinstance(v, Choice):
      c = v.cond
      a, b = self.truth(v.a), self.truth(v.b)
      r = T.ite(c, T.as_term(a), T.as_term(b))
      return bool(r.val) if r.op == 'c' else r
    if v is None or isinstance(v, (bool, int, float, str, bytes, tuple, list, dict, set, frozenset, range)):
      return bool(v)
    if isinstance(v, Obj):
      m = v.cls.lookup('__bool__')
      if m is not _MISSING: return self.truth(self.call(BoundMethod(m, v), []))
      m = v.cls.lookup('__len__')
      if m is not _MISSING: return self.truth(self.call(BoundMethod(m, v), []))
      return True
    if isinstance(v, Undef): self.unsupported('truth of undefined')
    return True

  def pc_term(self, base=0):
    t = T.TRUE
    for c, pol in self.pc[base:]: t = T.land(t, c if pol else T.lnot(c))
    return t

  def _run(self, cond, pol, thunk):
    self.pc.append((cond, pol))
    self.journals.append({})
    try:
      try:
        out = thunk()
      except AbsRaise as e:
        out = ('raise', e)
    finally:
      self.pc.pop()
      j = self.journals.pop()
    touched = {}
    for k, (c, key, old) in j.items():
      if key == '__whole__':
        touched[k] = (c, key, old, c.copy())
        self._restore(c, old)
      else:
        touched[k] = (c, key, old, c.get(key, _MISSING))
    for k, (c, key, old) in reversed(list(j.items())):
      if key != '__whole__':
        if old is _MISSING: c.pop(key, None)
        else: c[key] = old
    return out, touched

  @staticmethod
  def _restore(c, val):
    if isinstance(c, list):
      c[:] = val
    else:
      c.clear()
      c.update(val)

  def _apply(self, cond, t1, t2, local=None):
    """Re-applies the writes of both branches, merged."""
    keys = list(t1) + [k for k in t2 if k not in t1]
    for k in keys:
      if k in t1:
        c, key, old, new1 = t1[k]
        new2 = t2[k][3] if k in t2 else old
      else:
        c, key, old, new2 = t2[k]
        new1 = old
      if key == '__whole__':
        self.journal_whole(c)
        if isinstance(c, (list, dict)):
          m = self.merge(cond, new1, new2)
          if isinstance(m, Choice): self.unsupported('container shape differs between branches')
          self._restore(c, m)
        elif new1 == new2:
          self._restore(c, new1)
        else:
          self.unsupported('set mutated on one branch')
      else:
        self.journal(c, key)
        if new1 is new2: v = new1
        elif any(n is _MISSING or isinstance(n, Undef) for n in (new1, new2)) and DELETED not in (new1, new2):
          d1, d2 = (T.FALSE if n is _MISSING else (n.cond if isinstance(n, Undef) else T.TRUE) for n in (new1, new2))
          x1, x2 = (n.v if isinstance(n, Undef) else n for n in (new1, new2))
          v = Undef(T.lor(T.land(cond, d1), T.land(T.lnot(cond), d2)),
                    x2 if x1 is _MISSING else x1 if x2 is _MISSING else self.merge(cond, x1, x2))
          if v.cond is T.TRUE: v = v.v
        elif new1 is DELETED or new2 is DELETED: v = DELETED
        else: v = self.merge(cond, new1, new2)
        if v is _MISSING: c.pop(key, None)
        else: c[key] = v

  def _commit(self, t, drop_scope=None):
    for c, key, old, new in t.values():
      if drop_scope is not None and c is drop_scope: continue
      if key == '__whole__':
        self.journal_whole(c)
        self._restore(c, new)
      else:
        self.journal(c, key)
        if new is _MISSING: c.pop(key, None)
        else: c[key] = new

  def known(self, t):
    """The truth of a condition on the current path, when the path decides it syntactically."""
    if isinstance(t, bool): return t
    if t.op == 'c': return bool(t.val)
    for c, pol in self.pc:
      if c is t: return pol
      if c is T.lnot(t): return not pol
    return None

  def record_raise(self, cond, e):
    g = T.land(self.pc_term(), cond)
    for fr in self.frames:
      for c, _ in fr.pending: g = T.land(g, T.lnot(c))
    self.raises.append((g, e.exc, e.where))

  def branch(self, cond, th, el, as_value):
    """Joins two continuations; returns an outcome."""
    self.n_joins += 1
    o1, t1 = self._run(cond, True, th)
    o2, t2 = self._run(cond, False, el)
    k1 = o1[0] if o1 is not None else 'normal'
    k2 = o2[0] if o2 is not None else 'normal'
    if k1 == 'raise' and k2 == 'raise':
      self.record_raise(cond, o1[1])
      raise o2[1]
    if k1 == 'raise':
      self.record_raise(cond, o1[1])
      self._commit(t2)
      return o2
    if k2 == 'raise':
      self.record_raise(T.lnot(cond), o2[1])
      self._commit(t1)
      return o1
    if k1 == k2:
      self._apply(cond, t1, t2)
      if k1 in ('value', 'return'):
        return (k1, self.merge(cond, o1[1], o2[1]))
      return o1
    fr = self.frames[-1]
    if k1 == 'return' and k2 == 'normal':
      self._merge_heap(cond, t1, t2, fr.scope.vars, first=False)
      fr.pending.append((T.land(self.pc_term(fr.pc_base), cond), o1[1]))
      return o2
    if k2 == 'return' and k1 == 'normal':
      self._merge_heap(cond, t1, t2, fr.scope.vars, first=True)
      fr.pending.append((T.land(self.pc_term(fr.pc_base), T.lnot(cond)), o2[1]))
      return o1
    if fr.brk is not None and {k1, k2} <= {'normal', 'break', 'continue'}:
      # data-dependent break/continue: handled by the loop via guarded skip
      self.unsupported('data-dependent %s' % (k1 if k1 != 'normal' else k2))
    self.unsupported('branches leave by %s and %s' % (k1, k2))

  def _merge_heap(self, cond, t1, t2, local_vars, first):
    keep, other = (t1, t2) if first else (t2, t1)
    heap = {k: v for k, v in other.items() if v[0] is not local_vars}
    if not heap:
      self._commit(keep)
      return
    loc = {k: v for k, v in keep.items() if v[0] is local_vars}
    rest = {k: v for k, v in keep.items() if v[0] is not local_vars}
    self._commit(loc)
    if first: self._apply(cond, rest, heap)
    else: self._apply(cond, heap, rest)

  def merge(self, cond, a, b):
    if a is b: return a
    if isinstance(cond, bool): return a if cond else b
    if cond.op == 'c': return a if cond.val else b
    num = (bool, int, float)
    if isinstance(a, num) and isinstance(b, num) and type(a) is type(b) and (a == b):
      return a
    if isinstance(a, (Arr,) + num) and isinstance(b, (Arr,) + num):
      A, B = V.as_arr(a), V.as_arr(b)
      if A.shape == B.shape:
        return self._merge_arr(cond, a, b, A, B)
      return Choice(cond, a, b)
    if isinstance(a, str) and a == b: return a
    na, nb = V.node_children(a), V.node_children(b)
    if na is not None and nb is not None and na[0] == nb[0] and na[1] == nb[1] and len(na[2]) == len(nb[2]):
      if na[0] == 'none': return None
      return V.build_node(na[0], na[1], [self.merge(cond, x, y) for x, y in zip(na[2], nb[2])])
    if isinstance(a, V.DType) and a == b: return a
    if isinstance(a, Closure) and isinstance(b, Closure) and a.node is b.node and a.scope is b.scope: return a
    return Choice(cond, a, b)

  def _merge_arr(self, cond, a, b, A, B):
    def kind(x, X):
      if isinstance(x, Arr): return X.py
      return 'bool' if isinstance(x, bool) else ('int' if isinstance(x, int) else 'float')
    ka, kb = kind(a, A), kind(b, B)
    if ka and kb:
      k = ka if ka == kb else ('float' if 'float' in (ka, kb) else 'int')
      d = {'float': V.canon('float64'), 'int': V.canon('int64'), 'bool': 'bool'}[k]
      x = V.cast(A, d) if A.dtype == 'bool' and d != 'bool' else A
      y = V.cast(B, d) if B.dtype == 'bool' and d != 'bool' else B
      return Arr(T.ite(cond, x.item(), y.item()), d, k != 'bool', A.traced or B.traced, k)
    d, w = V.promote((A.dtype, A.weak), (B.dtype, B.weak))
    x, y = V.cast(A, d), V.cast(B, d)
    return Arr(V.vec(lambda p, q: T.ite(cond, p, q), x, y), d, w, A.traced or B.traced, None, A.np and B.np)

  # -- statements -----------------------------------------------------------

  def exec_block(self, stmts, scope):
    for s in stmts:
      o = self.exec(s, scope)
      if o is not None: return o
    return None

  def exec(self, s, scope):
    self.line = s.lineno
    if self.where: self.visited.add((self.where[-1][1], s.lineno))
    m = getattr(self, 's_' + type(s).__name__, None)
    if m is None: self.unsupported('statement %s' % type(s).__name__)
    return m(s, scope)

  def s_Expr(self, s, scope):
    if isinstance(s.value, ast.Constant): return None
    if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
      self.eval(s.value, scope)
      return None
    self.eval(s.value, scope)

  def s_Pass(self, s, scope): return None

  def s_Return(self, s, scope):
    return ('return', self.eval(s.value, scope) if s.value is not None else None)

  def s_Break(self, s, scope): return ('break',)
  def s_Continue(self, s, scope): return ('continue',)

  def s_Assign(self, s, scope):
    v = self.eval(s.value, scope)
    for t in s.targets: self.assign(t, v, scope)

  def s_AnnAssign(self, s, scope):
    if scope.kind == 'class' and isinstance(s.target, ast.Name):
      scope.vars.setdefault('__annotations__', {})[s.target.id] = s.annotation
    if s.value is not None: self.assign(s.target, self.eval(s.value, scope), scope)

  def s_AugAssign(self, s, scope):
    t = s.target
    if isinstance(t, ast.Name): cur = self.lookup(scope, t.id)
    elif isinstance(t, ast.Attribute):
      obj = self.eval(t.value, scope)
      cur = self.getattr(obj, t.attr)
    else:
      obj = self.eval(t.value, scope)
      idx = self.eval_index(t.slice, scope)
      cur = self.getitem(obj, idx)
    rhs = self.eval(s.value, scope)
    if isinstance(cur, list) and isinstance(s.op, ast.Add) and not isinstance(cur, ANT):
      self.note_mutation(cur, '+=')
      self.journal_whole(cur)
      cur.extend(self.iterate(rhs))
      new = cur
    elif isinstance(cur, (set, dict)) and isinstance(s.op, ast.BitOr):
      self.note_mutation(cur, '|=')
      self.journal_whole(cur)
      cur.update(rhs)
      new = cur
    elif isinstance(cur, Arr) and cur.np and not cur.py and cur.ndim:
      self.note_mutation(cur, 'in-place numpy operation')
      new = self.binop(type(s.op).__name__, cur, rhs)
    else:
      new = self.binop(type(s.op).__name__, cur, rhs)
    if isinstance(t, ast.Name): self.set_var(scope, t.id, new)
    elif isinstance(t, ast.Attribute): self.setattr(obj, t.attr, new)
    else: self.setitem(obj, idx, new)

  def s_If(self, s, scope):
    c = self.truth(self.eval(s.test, scope), 'if')
    if isinstance(c, bool):
      return self.exec_block(s.body if c else s.orelse, scope)
    return self.branch(c, lambda: self.exec_block(s.body, scope),
                       lambda: self.exec_block(s.orelse, scope), False)

  def s_For(self, s, scope):
    it = self.eval(s.iter, scope)
    if not isinstance(it, GenV): it = self.iterate(it)
    fr = self.frames[-1]
    saved, fr.brk = fr.brk, s
    try:
      broke = False
      if isinstance(it, GenV):
        def gen(g=it):
          while g.left(self): yield g.take(self, 1)[0]
        seq = gen()
      else:
        seq = it
      for v in seq:
        self.assign(s.target, v, scope)
        o = self.exec_block(s.body, scope)
        if o is None or o[0] == 'continue': continue
        if o[0] == 'break':
          broke = True
          break
        return o
    finally:
      fr.brk = saved
    if not broke: return self.exec_block(s.orelse, scope)

  def s_While(self, s, scope):
    fr = self.frames[-1]
    saved, fr.brk = fr.brk, s
    try:
      n = 0
      while True:
        c = self.truth(self.eval(s.test, scope), 'while')
        if not isinstance(c, bool):
          self.unsupported('while loop on unknown condition')
        if not c: break
        n += 1
        if n > 5000: self.unsupported('while loop does not terminate in the abstract')
        o = self.exec_block(s.body, scope)
        if o is None or o[0] == 'continue': continue
        if o[0] == 'break': return None
        return o
    finally:
      fr.brk = saved
    return self.exec_block(s.orelse, scope)

  def s_FunctionDef(self, s, scope):
    f = self.make_closure(s, scope)
    v = f
    for d in reversed(s.decorator_list):
      v = self.call(self.eval(d, scope), [v])
    self.set_var(scope, s.name, v)

  def make_closure(self, s, scope):
    a = s.args
    defaults = [self.eval(d, scope) for d in a.defaults]
    kwd = {k.arg: self.eval(d, scope) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
    name = getattr(s, 'name', '<lambda>')
    qual = name
    if scope.kind == 'func' and self.where: qual = self.where[-1][0] + '.' + name
    elif scope.kind == 'class': qual = scope.vars.get('__qualname__', '') + '.' + name
    f = Closure(s, scope, scope.module, name, qual, defaults, kwd)
    f.is_gen = not isinstance(s, ast.Lambda) and any(
        isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own_nodes(s))
    return f

  def s_ClassDef(self, s, scope):
    bases = [self.eval(b, scope) for b in s.bases]
    for k in s.keywords:
      self.eval(k.value, scope)
    cs = Scope(scope, scope.module, 'class')
    cs.vars['__qualname__'] = s.name
    self.exec_block(s.body, cs)
    ann = cs.vars.get('__annotations__', {})
    is_nt = any(b is NAMEDTUPLE for b in bases)
    inherited = next((b for b in bases if isinstance(b, AClass) and b.nt_fields is not None), None)
    cls = AClass(s.name, [b for b in bases if isinstance(b, (AClass, type))], cs.vars, scope.module)
    if is_nt:
      cls.nt_fields = list(ann)
      cls.nt_defaults = {k: cs.vars[k] for k in ann if k in cs.vars}
    elif inherited is not None:
      cls.nt_fields = inherited.nt_fields
      cls.nt_defaults = inherited.nt_defaults
    cls.ann = ann
    if 'property' in ():
      pass
    v = cls
    for d in reversed(s.decorator_list): v = self.call(self.eval(d, scope), [v])
    self.set_var(scope, s.name, v)

  def s_Import(self, s, scope):
    for a in s.names:
      m = self.load(a.name)
      if a.asname: self.set_var(scope, a.asname, m)
      else:
        top = a.name.split('.')[0]
        self.set_var(scope, top, self.load(top))

  def s_ImportFrom(self, s, scope):
    if s.level:
      pkg = scope.module.name.split('.')
      is_pkg = scope.module.path.endswith('__init__.py')
      up = s.level - (1 if is_pkg else 0)
      base = pkg[:len(pkg) - up] if up else pkg
      modname = '.'.join(base + ([s.module] if s.module else []))
    else:
      modname = s.module
    if modname == '__future__': return
    m = self.load(modname)
    for a in s.names:
      if a.name == '*':
        if not isinstance(m, Module): self.unsupported('import * from ' + modname)
        names = m.scope.vars.get('__all__') or [k for k in m.scope.vars if not k.startswith('_')]
        for n in self.iterate(names): self.set_var(scope, n, m.scope.vars[n])
        continue
      v = self.import_name(m, modname, a.name)
      self.set_var(scope, a.asname or a.name, v)

  def import_name(self, m, modname, name):
    if isinstance(m, Module):
      if name in m.scope.vars: return m.scope.vars[name]
      if self.find_module(modname + '.' + name): return self.load(modname + '.' + name)
      self.raise_(ImportError, 'cannot import name %r from %r' % (name, modname))
    try:
      return self.getattr(m, name)
    except Unsupported:
      return self.load(modname + '.' + name)

  def s_Raise(self, s, scope):
    if s.exc is None:
      cur = self.scratch.get('handling')
      if cur is None: self.raise_(RuntimeError, 'No active exception to reraise')
      raise AbsRaise(cur, self.loc())
    v = self.eval(s.exc, scope)
    if isinstance(v, type) or isinstance(v, AClass): v = self.call(v, [])
    if not isinstance(v, ExcVal):
      self.unsupported('raise of %r' % (v,))
    raise AbsRaise(v, self.loc())

  def s_Assert(self, s, scope):
    c = self.truth(self.eval(s.test, scope), 'assert')
    if isinstance(c, bool):
      if not c: self.raise_(AssertionError, self.eval(s.msg, scope) if s.msg else '')
      return
    self.record_raise(T.lnot(c), AbsRaise(ExcVal(AssertionError), self.loc()))

  def s_Delete(self, s, scope):
    for t in s.targets:
      if isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts: self._del(e, scope)
      else:
        self._del(t, scope)

  def _del(self, t, scope):
    if isinstance(t, ast.Name):
      self.lookup(scope, t.id)
      self.journal(scope.vars, t.id)
      if scope.kind == 'module': scope.vars.pop(t.id, None)
      else: scope.vars[t.id] = DELETED
    elif isinstance(t, ast.Subscript):
      obj = self.eval(t.value, scope)
      idx = self.eval_index(t.slice, scope)
      if isinstance(obj, (list, dict)) and not isinstance(obj, ANT):
        self.note_mutation(obj, 'del')
        self.journal_whole(obj)
        try:
          del obj[idx]
        except (KeyError, IndexError) as e:
          self.raise_(type(e), *e.args)
      else:
        self.unsupported('del item of %r' % (obj,))
    elif isinstance(t, ast.Attribute):
      obj = self.eval(t.value, scope)
      if isinstance(obj, Obj):
        self.note_mutation(obj, 'del')
        self.journal(obj.attrs, t.attr)
        obj.attrs.pop(t.attr, None)
      else:
        self.unsupported('del attribute')
    else:
      self.unsupported('del')

  def s_Global(self, s, scope): scope.globals.update(s.names)
  def s_Nonlocal(self, s, scope): scope.nonlocals.update(s.names)

  def s_With(self, s, scope):
    for it in s.items:
      c = self.eval(it.context_expr, scope)
      if isinstance(c, HostObj) and getattr(c, 'is_context', False):
        v = c
      elif isinstance(c, Opaque) and c.name.startswith('ctx:'):
        v = c
      elif isinstance(c, Obj):
        v = self.call(self.getattr(c, '__enter__'), [])
      else:
        self.unsupported('with %r' % (c,))
      if it.optional_vars is not None: self.assign(it.optional_vars, v, scope)
    return self.exec_block(s.body, scope)

  def s_Try(self, s, scope):
    out = None
    try:
      out = self.exec_block(s.body, scope)
      if out is None: out = self.exec_block(s.orelse, scope)
    except AbsRaise as e:
      for h in s.handlers:
        if h.type is None or self.exc_matches(e.exc, self.eval(h.type, scope)):
          if h.name: self.set_var(scope, h.name, e.exc)
          saved = self.scratch.get('handling')
          self.scratch['handling'] = e.exc
          try:
            out = self.exec_block(h.body, scope)
          finally:
            self.scratch['handling'] = saved
          break
      else:
        o = self.exec_block(s.finalbody, scope)
        if o is not None: return o
        raise
    o = self.exec_block(s.finalbody, scope)
    return o if o is not None else out

  def exc_matches(self, exc, t):
    if isinstance(t, tuple): return any(self.exc_matches(exc, x) for x in t)
    c = exc.cls
    if isinstance(t, type):
      if isinstance(c, AClass):
        return any(isinstance(b, type) and issubclass(b, t) for b in c.mro())
      return isinstance(c, type) and issubclass(c, t)
    if isinstance(t, AClass):
      return isinstance(c, AClass) and t in c.mro()
    if isinstance(t, Opaque): return False
    self.unsupported('except %r' % (t,))

  def s_Match(self, s, scope): self.unsupported('match statement')

  # -- assignment -----------------------------------------------------------

  def assign(self, t, v, scope):
    if isinstance(t, ast.Name): self.set_var(scope, t.id, v)
    elif isinstance(t, (ast.Tuple, ast.List)): self.unpack(t.elts, v, scope)
    elif isinstance(t, ast.Attribute): self.setattr(self.eval(t.value, scope), t.attr, v)
    elif isinstance(t, ast.Subscript):
      self.setitem(self.eval(t.value, scope), self.eval_index(t.slice, scope), v)
    elif isinstance(t, ast.Starred): self.assign(t.value, list(self.iterate(v)), scope)
    else: self.unsupported('assignment target')

  def unpack(self, elts, v, scope):
    if isinstance(v, Choice):
      a = self._listify(v.a)
      b = self._listify(v.b)
      if len(a) == len(b): v = [self.merge(v.cond, x, y) for x, y in zip(a, b)]
    xs = list(self.iterate(v))
    star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
    if star:
      i = star[0]
      n = len(elts) - 1
      if len(xs) < n: self.raise_(ValueError, 'not enough values to unpack')
      after = n - i
      for e, x in zip(elts[:i], xs[:i]): self.assign(e, x, scope)
      self.assign(elts[i].value, xs[i:len(xs) - after], scope)
      for e, x in zip(elts[i + 1:], xs[len(xs) - after:]): self.assign(e, x, scope)
      return
    if len(xs) != len(elts):
      self.raise_(ValueError, 'not enough values to unpack (expected %d, got %d)' % (len(elts), len(xs)))
    for e, x in zip(elts, xs): self.assign(e, x, scope)

  def _listify(self, v): return list(self.iterate(v))

  def setattr(self, obj, name, v):
    if isinstance(obj, Obj):
      p = obj.cls.lookup(name)
      if isinstance(p, PropertyV): self.raise_(AttributeError, "can't set attribute")
      if getattr(obj.cls, 'frozen', False) and '__init__' not in self.stack()[-1:]:
        if not self.scratch.get('dc_init'): self.raise_(AttributeError, 'cannot assign to field %r' % name)
      self.note_mutation(obj, 'attribute assignment')
      self.journal(obj.attrs, name)
      obj.attrs[name] = v
    elif isinstance(obj, Closure):
      if id(obj) in self.protected: self.note_mutation(obj, 'function attribute assignment')
      self.journal(obj.attrs, name)
      obj.attrs[name] = v
    elif isinstance(obj, Prim):
      obj.attrs[name] = v
    elif isinstance(obj, AClass):
      self.note_mutation(obj, 'class attribute assignment')
      self.journal(obj.ns, name)
      obj.ns[name] = v
    elif isinstance(obj, Module):
      if self.frames and self.frames[-1].fn is not None: self.event('global-write', 'assignment to %s.%s' % (obj.name, name))
      self.journal(obj.scope.vars, name)
      obj.scope.vars[name] = v
    elif isinstance(obj, ANT):
      self.raise_(AttributeError, "can't set attribute")
    elif isinstance(obj, HostObj):
      self.note_mutation(obj, 'attribute assignment')
      object.__setattr__(obj, name, v)
    elif isinstance(obj, Arr):
      self.raise_(AttributeError, 'array attribute')
    elif isinstance(obj, ModModel):
      self.event('global-write', 'assignment to %s.%s' % (obj.name, name))
      obj.table[name] = v
    elif isinstance(obj, PartialV):
      pass
    else:
      self.raise_(AttributeError, '%s object has no attribute %r' % (type(obj).__name__, name))

  def setitem(self, obj, idx, v):
    if isinstance(obj, ANT) or isinstance(obj, tuple):
      self.raise_(TypeError, "'tuple' object does not support item assignment")
    if isinstance(obj, (list, dict)):
      if isinstance(idx, Arr):
        idx = self.as_index(idx)
      self.note_mutation(obj, 'item assignment')
      self.journal_whole(obj)
      try:
        obj[idx] = v
      except (IndexError, TypeError) as e:
        self.raise_(type(e), *e.args)
      return
    if isinstance(obj, Arr):
      if not obj.np: self.raise_(TypeError, 'JAX arrays are immutable')
      self.note_mutation(obj, 'item assignment')
      if self.journals: self.unsupported('numpy item assignment under a symbolic branch')
      from . import jaxmodel
      obj.a = jaxmodel.at_update(self, obj, idx, v, 'set').a
      return
    if isinstance(obj, Obj):
      m = obj.cls.lookup('__setitem__')
      if m is not _MISSING:
        self.call(BoundMethod(m, obj), [idx, v])
        return
    self.unsupported('item assignment on %r' % (obj,))

  # -- expressions ----------------------------------------------------------

  def eval(self, e, scope):
    m = getattr(self, 'e_' + type(e).__name__, None)
    if m is None: self.unsupported('expression %s' % type(e).__name__)
    if hasattr(e, 'lineno'): self.line = e.lineno
    return m(e, scope)

  def e_Constant(self, e, scope): return e.value
  def e_Name(self, e, scope): return self.lookup(scope, e.id)

  def e_Attribute(self, e, scope):
    v = self.eval(e.value, scope)
    self.line = e.lineno
    return self.getattr(v, e.attr)

  def e_Tuple(self, e, scope): return tuple(self.elts(e.elts, scope))
  def e_List(self, e, scope): return list(self.elts(e.elts, scope))
  def e_Set(self, e, scope): return set(self.elts(e.elts, scope))

  def elts(self, es, scope):
    out = []
    for x in es:
      if isinstance(x, ast.Starred): out.extend(self.iterate(self.eval(x.value, scope)))
      else: out.append(self.eval(x, scope))
    return out

  def e_Dict(self, e, scope):
    d = {}
    for k, v in zip(e.keys, e.values):
      if k is None: d.update(self.as_dict(self.eval(v, scope)))
      else: d[self.eval(k, scope)] = self.eval(v, scope)
    return d

  def as_dict(self, v):
    if isinstance(v, dict): return v
    if isinstance(v, HostObj) and hasattr(v, 'as_dict'): return v.as_dict()
    self.unsupported('** of %r' % (v,))

  def e_JoinedStr(self, e, scope):
    return ''.join(str(x.value) if isinstance(x, ast.Constant) else '{…}' if not self._fval(x, scope) else self._fval(x, scope)
                   for x in e.values)

  def _fval(self, x, scope):
    v = self.eval(x.value, scope)
    if isinstance(v, Arr):
      return '<arr>'
    if isinstance(v, (str, int, float, bool, type(None))): 
      s = x.format_spec
      if s is None: return str(v)
      spec = self.eval(s, scope)
      try:
        return format(v, spec)
      except (ValueError, TypeError):
        return str(v)
    if isinstance(v, (Closure, AClass)): return v.name
    return str(type(v).__name__)

  def e_FormattedValue(self, e, scope): return self._fval(e, scope)

  def e_Lambda(self, e, scope): return self.make_closure(e, scope)

  def e_IfExp(self, e, scope):
    c = self.truth(self.eval(e.test, scope), 'conditional expression')
    if isinstance(c, bool): return self.eval(e.body if c else e.orelse, scope)
    o = self.branch(c, lambda: ('value', self.eval(e.body, scope)),
                    lambda: ('value', self.eval(e.orelse, scope)), True)
    return o[1]

  def e_BoolOp(self, e, scope):
    is_and = isinstance(e.op, ast.And)
    return self._boolop(e.values, is_and, scope)

  def _boolop(self, vals, is_and, scope):
    v = self.eval(vals[0], scope)
    if len(vals) == 1: return v
    c = self.truth(v, 'and/or')
    if isinstance(c, bool):
      if c == is_and: return self._boolop(vals[1:], is_and, scope)
      return v
    th = lambda: ('value', self._boolop(vals[1:], is_and, scope))
    el = lambda: ('value', v)
    o = self.branch(c, th, el, True) if is_and else self.branch(c, el, th, True)
    return o[1]

  def e_UnaryOp(self, e, scope):
    v = self.eval(e.operand, scope)
    if isinstance(e.op, ast.Not):
      c = self.truth(v, 'not')
      if isinstance(c, bool): return not c
      return Arr(T.lnot(c), 'bool', False, isinstance(v, Arr) and v.traced, 'bool')
    return self.unop(type(e.op).__name__, v)

  def unop(self, op, v):
    from . import jaxmodel
    if isinstance(v, Arr): return jaxmodel.arr_unop(self, op, v)
    if isinstance(v, (int, float, complex)):
      return {'USub': lambda: -v, 'UAdd': lambda: +v, 'Invert': lambda: ~v}[op]()
    if isinstance(v, Obj):
      m = v.cls.lookup({'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op])
      if m is not _MISSING: return self.call(BoundMethod(m, v), [])
    self.raise_(TypeError, 'bad operand type for unary %s: %s' % (op, type(v).__name__))

  def e_BinOp(self, e, scope):
    a = self.eval(e.left, scope)
    b = self.eval(e.right, scope)
    self.line = e.lineno
    return self.binop(type(e.op).__name__, a, b)

  def binop(self, op, a, b):
    from . import jaxmodel
    if isinstance(a, Choice):
      return self.merge(a.cond, self.binop(op, a.a, b), self.binop(op, a.b, b))
    if isinstance(b, Choice):
      return self.merge(b.cond, self.binop(op, a, b.a), self.binop(op, a, b.b))
    if isinstance(a, Obj) or isinstance(b, Obj): return self.obj_binop(op, a, b)
    if isinstance(a, Arr) or isinstance(b, Arr):
      if isinstance(a, (Arr, int, float, bool)) and isinstance(b, (Arr, int, float, bool)):
        return jaxmodel.arr_binop(self, op, a, b)
      if isinstance(a, str) and op == 'Mod': return a
      if isinstance(a, (list, tuple)) and op == 'Mult' and isinstance(b, Arr):
        return self._native_bin(op, a, self.as_index(b))
      if isinstance(b, (list, tuple)) and isinstance(a, Arr) and (a.np or not a.traced) and not a.py:
        return jaxmodel.arr_binop(self, op, a, V.as_arr(b))
      self.raise_(TypeError, 'unsupported operand type(s) for %s: %s and %s' % (op, jaxmodel.tname(a), jaxmodel.tname(b)))
    if op == 'BitOr' and (isinstance(a, (Opaque, type, AClass)) or isinstance(b, (Opaque, type, AClass))):
      return Opaque('union')
    return self._native_bin(op, a, b)

  def _native_bin(self, op, a, b):
    if op == 'Mod' and isinstance(a, str):
      try:
        return a % (tuple(map(_plain, b)) if isinstance(b, tuple) and not isinstance(b, ANT) else _plain(b))
      except (TypeError, ValueError):
        return a
    try:
      if isinstance(a, ANT): a = tuple(a)
      if isinstance(b, ANT): b = tuple(b)
      if op == 'Add': return a + b
      if op == 'Sub': return a - b
      if op == 'Mult': return a * b
      if op == 'Div': return a / b
      if op == 'FloorDiv': return a // b
      if op == 'Mod': return a % b
      if op == 'Pow': return a ** b
      if op == 'BitOr': return a | b
      if op == 'BitAnd': return a & b
      if op == 'BitXor': return a ^ b
      if op == 'LShift': return a << b
      if op == 'RShift': return a >> b
    except Unsupported:
      raise
    except (TypeError, ZeroDivisionError, ValueError, OverflowError) as x:
      self.raise_(type(x), *x.args)
    self.unsupported('operator ' + op)

  _DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'FloorDiv': 'floordiv',
             'Mod': 'mod', 'Pow': 'pow', 'MatMult': 'matmul', 'BitOr': 'or', 'BitAnd': 'and'}

  def obj_binop(self, op, a, b):
    n = self._DUNDER.get(op)
    if isinstance(a, Obj):
      m = a.cls.lookup('__%s__' % n)
      if m is not _MISSING: return self.call(BoundMethod(m, a), [b])
    if isinstance(b, Obj):
      m = b.cls.lookup('__r%s__' % n)
      if m is not _MISSING: return self.call(BoundMethod(m, b), [a])
    self.raise_(TypeError, 'unsupported operand type(s) for %s' % op)

  def e_Compare(self, e, scope):
    left = self.eval(e.left, scope)
    res = None
    for op, r in zip(e.ops, e.comparators):
      right = self.eval(r, scope)
      v = self.compare(type(op).__name__, left, right)
      if res is None: res = v
      else:
        c = self.truth(res, 'chained comparison')
        if c is False: return res
        if c is True: res = v
        else:
          res = Arr(T.land(c, T.as_term(self.truth(v))), 'bool', False, False, 'bool')
      left = right
    return res

  def compare(self, op, a, b):
    from . import jaxmodel
    if op == 'Is' or op == 'IsNot':
      r = self.is_(a, b)
      if isinstance(r, T.Term): return Arr(r if op == 'Is' else T.lnot(r), 'bool', False, False, 'bool')
      return r if op == 'Is' else not r
    if op in ('In', 'NotIn'):
      r = self.contains(b, a)
      if isinstance(r, bool): return r if op == 'In' else not r
      return Arr(r if op == 'In' else T.lnot(r), 'bool', False, False, 'bool')
    if isinstance(a, Choice) or isinstance(b, Choice):
      if isinstance(a, Choice):
        return self.merge(a.cond, self.compare(op, a.a, b), self.compare(op, a.b, b))
      return self.merge(b.cond, self.compare(op, a, b.a), self.compare(op, a, b.b))
    if isinstance(a, Arr) or isinstance(b, Arr):
      num = (Arr, int, float, bool)
      if isinstance(a, num) and isinstance(b, num): return jaxmodel.arr_compare(self, op, a, b)
      if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not isinstance(a, ANT) and not isinstance(b, ANT):
          return jaxmodel.arr_compare(self, op, V.as_arr(a), V.as_arr(b))
      if op == 'Eq': return False
      if op == 'NotEq': return True
      self.raise_(TypeError, '%s not supported between %s and %s' % (op, jaxmodel.tname(a), jaxmodel.tname(b)))
    if op in ('Eq', 'NotEq'):
      r = self.equal(a, b)
      if isinstance(r, bool): return r if op == 'Eq' else not r
      return Arr(r if op == 'Eq' else T.lnot(r), 'bool', False, False, 'bool')
    if isinstance(a, Obj):
      m = a.cls.lookup({'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[op])
      if m is not _MISSING: return self.call(BoundMethod(m, a), [b])
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and _has_arr(a, b):
      return self._lex(op, list(a), list(b))
    try:
      if op == 'Lt': return a < b
      if op == 'LtE': return a <= b
      if op == 'Gt': return a > b
      if op == 'GtE': return a >= b
    except TypeError as x:
      self.raise_(TypeError, *x.args)
    self.unsupported('comparison ' + op)

  def _lex(self, op, a, b):
    for x, y in zip(a, b):
      e = self.equal(x, y)
      if e is True: continue
      if e is False: return self.compare(op, x, y)
      self.unsupported('lexicographic comparison of unknown values')
    return self.compare(op, len(a), len(b))

  def is_(self, a, b):
    if isinstance(a, Choice) or isinstance(b, Choice):
      if isinstance(b, Choice): a, b = b, a
      x, y = self.is_(a.a, b), self.is_(a.b, b)
      r = T.ite(a.cond, T.as_term(x), T.as_term(y))
      return bool(r.val) if r.op == 'c' else r
    if a is b: return True
    if isinstance(a, bool) or isinstance(b, bool):
      # `x is True`: a symbolic Python bool may be that object.
      for x, y in ((a, b), (b, a)):
        if isinstance(y, bool) and isinstance(x, Arr) and x.py == 'bool':
          return x.item() if y else T.lnot(x.item())
      return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, V.DType) and isinstance(b, V.DType): return a == b
    if isinstance(a, (int, float, str)) and isinstance(b, (int, float, str)): return a is b
    return False

  def equal(self, a, b):
    """Native equality, or a Term."""
    from . import jaxmodel
    if isinstance(a, Arr) or isinstance(b, Arr):
      if isinstance(a, (Arr, int, float, bool)) and isinstance(b, (Arr, int, float, bool)):
        return self.truth(jaxmodel.arr_compare(self, 'Eq', a, b))
      return False
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and not (
        isinstance(a, tuple) != isinstance(b, tuple)):
      if len(a) != len(b): return False
      acc = T.TRUE
      for x, y in zip(a, b):
        r = self.equal(x, y)
        if r is False: return False
        acc = T.land(acc, T.as_term(r))
      return bool(acc.val) if acc.op == 'c' else acc
    if isinstance(a, Obj):
      m = a.cls.lookup('__eq__')
      if m is not _MISSING: return self.truth(self.call(BoundMethod(m, a), [b]))
      return a is b
    if isinstance(a, dict) and isinstance(b, dict):
      if set(a) != set(b): return False
      acc = T.TRUE
      for k in a:
        r = self.equal(a[k], b[k])
        if r is False: return False
        acc = T.land(acc, T.as_term(r))
      return bool(acc.val) if acc.op == 'c' else acc
    try:
      return bool(a == b)
    except Unsupported:
      raise
    except Exception:  # pylint: disable=broad-except
      return a is b

  def contains(self, c, x):
    if isinstance(c, HostObj) and hasattr(c, 'as_dict'): c = c.as_dict()
    if isinstance(c, (dict, set, frozenset)):
      if isinstance(x, Arr): x = self.as_index(x)
      try:
        return x in c
      except TypeError as e:
        self.raise_(TypeError, *e.args)
    if isinstance(c, str): return x in c
    if isinstance(c, Obj):
      m = c.cls.lookup('__contains__')
      if m is not _MISSING: return self.truth(self.call(BoundMethod(m, c), [x]))
    if isinstance(c, Arr):
      from . import jaxmodel
      return self.truth(jaxmodel.reduce_any(self, jaxmodel.arr_compare(self, 'Eq', c, x)))
    acc = T.FALSE
    for y in self.iterate(c):
      r = True if (y is x) else self.equal(y, x)
      if r is True: return True
      acc = T.lor(acc, T.as_term(r))
    return bool(acc.val) if acc.op == 'c' else acc

  def e_Subscript(self, e, scope):
    obj = self.eval(e.value, scope)
    if isinstance(obj, (Opaque,)) or obj is NAMEDTUPLE or isinstance(obj, type) and obj in (list, dict, tuple, set, type):
      return Opaque('%s[]' % getattr(obj, 'name', obj))
    idx = self.eval_index(e.slice, scope)
    self.line = e.lineno
    return self.getitem(obj, idx)

  def eval_index(self, s, scope):
    if isinstance(s, ast.Slice):
      f = lambda x: None if x is None else self.as_index(self.eval(x, scope))
      return slice(f(s.lower), f(s.upper), f(s.step))
    if isinstance(s, ast.Tuple):
      return tuple(self.eval_index(x, scope) if not isinstance(x, ast.Starred) else self.eval(x, scope) for x in s.elts)
    return self.eval(s, scope)

  def as_index(self, v, what='index'):
    if isinstance(v, Arr):
      if v.traced and not v.py: self.event('concretise', '%s from an array value' % what)
      c = v.concrete()
      if c is None: self.unsupported('%s is an unknown value %r' % (what, v))
      return int(c)
    return v

  def getitem(self, obj, idx):
    from . import jaxmodel
    if isinstance(obj, Arr): return jaxmodel.arr_getitem(self, obj, idx)
    if isinstance(obj, Choice):
      return self.merge(obj.cond, self.getitem(obj.a, idx), self.getitem(obj.b, idx))
    if isinstance(obj, HostObj) and hasattr(obj, 'getitem'): return obj.getitem(self, idx)
    if isinstance(obj, Obj):
      m = obj.cls.lookup('__getitem__')
      if m is not _MISSING: return self.call(BoundMethod(m, obj), [idx])
      self.raise_(TypeError, 'object is not subscriptable')
    if isinstance(idx, Arr) and isinstance(obj, (list, tuple)) and idx.concrete() is None:
      # selection by an unknown index: phi over all elements
      if idx.traced and not idx.py: self.event('concretise', 'list index from an array value')
      t = idx.item()
      n = len(obj)
      if n == 0: self.raise_(IndexError, 'index out of range')
      r = obj[n - 1]
      for i in range(n - 2, -1, -1):
        r = self.merge(T.lor(T.eq(t, T.const(i)), T.eq(t, T.const(i - n))), obj[i], r)
      return r
    if isinstance(idx, Arr): idx = self.as_index(idx)
    if isinstance(obj, (list, tuple, dict, str, range)):
      try:
        if isinstance(obj, V.DefaultD) and idx not in obj and obj.factory is not None:
          self.journal_whole(obj)
          obj[idx] = self.call(obj.factory, [])
        r = obj[idx]
        return r
      except (KeyError, IndexError, TypeError) as x:
        self.raise_(type(x), *x.args)
    if isinstance(obj, (type, AClass)): return Opaque('generic')
    if obj is None: self.raise_(TypeError, "'NoneType' object is not subscriptable")
    self.raise_(TypeError, '%s object is not subscriptable' % jaxmodel.tname(obj))

  def e_Starred(self, e, scope): self.unsupported('starred expression')

  def e_Slice(self, e, scope): return self.eval_index(e, scope)

  def e_NamedExpr(self, e, scope):
    v = self.eval(e.value, scope)
    s = scope
    while s.kind == 'comp' and s.parent is not None: s = s.parent
    self.assign(e.target, v, s)
    return v

  def comp(self, gens, scope, body):
    """Runs comprehension generators eagerly."""
    def go(i, sc):
      if i == len(gens):
        body(sc)
        return
      g = gens[i]
      for v in list(self.iterate(self.eval(g.iter, sc))):
        self.assign(g.target, v, sc)
        ok = True
        for c in g.ifs:
          t = self.truth(self.eval(c, sc), 'comprehension filter')
          if not isinstance(t, bool): self.unsupported('comprehension filter on unknown value')
          if not t:
            ok = False
            break
        if ok: go(i + 1, sc)
    sc = Scope(scope, scope.module, 'comp')
    go(0, sc)

  def e_ListComp(self, e, scope):
    out = []
    self.comp(e.generators, scope, lambda sc: out.append(self.eval(e.elt, sc)))
    return out

  def e_GeneratorExp(self, e, scope):
    out = GenV()
    self.comp(e.generators, scope, lambda sc: out.append(self.eval(e.elt, sc)))
    return out

  def e_SetComp(self, e, scope):
    out = set()
    self.comp(e.generators, scope, lambda sc: out.add(self.eval(e.elt, sc)))
    return out

  def e_DictComp(self, e, scope):
    out = {}
    def body(sc):
      k = self.eval(e.key, sc)
      out[k] = self.eval(e.value, sc)
    self.comp(e.generators, scope, body)
    return out

  def e_Yield(self, e, scope):
    v = self.eval(e.value, scope) if e.value is not None else None
    self.frames[-1].yields.append(v)
    return None

  def e_YieldFrom(self, e, scope):
    self.frames[-1].yields.extend(self.iterate(self.eval(e.value, scope)))
    return None

  def e_Call(self, e, scope):
    if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
      s = scope
      while s is not None and s.vars.get('__class_self__') is None: s = s.parent
      if s is None: self.unsupported('super()')
      return SuperV(*s.vars['__class_self__'])
    if isinstance(e.func, ast.Name) and e.func.id in ('locals', 'globals', 'vars') and not e.args:
      if e.func.id == 'globals': return scope.module.scope.vars
      return {k: v for k, v in scope.vars.items() if not k.startswith('__class_self__') and v is not DELETED}
    f = self.eval(e.func, scope)
    args = []
    for a in e.args:
      if isinstance(a, ast.Starred): args.extend(self.iterate(self.eval(a.value, scope)))
      else: args.append(self.eval(a, scope))
    kw = {}
    for k in e.keywords:
      if k.arg is None: kw.update(self.as_dict(self.eval(k.value, scope)))
      else: kw[k.arg] = self.eval(k.value, scope)
    self.line = e.lineno
    line = e.lineno
    r = self.call(f, args, kw)
    self.line = line
    return r

  # -- iteration ------------------------------------------------------------

  def iterate(self, v):
    if isinstance(v, GenV): return v.take(self, len(v))
    if isinstance(v, (list, tuple, dict, set, frozenset, range, str)): return list(v)
    if isinstance(v, Arr):
      if v.ndim == 0: self.raise_(TypeError, 'iteration over a 0-d array')
      from . import jaxmodel
      return [jaxmodel.arr_getitem(self, v, i) for i in range(v.shape[0])]
    if isinstance(v, HostObj) and hasattr(v, 'iterate'): return v.iterate(self)
    if isinstance(v, Obj):
      m = v.cls.lookup('__iter__')
      if m is not _MISSING: return self.iterate(self.call(BoundMethod(m, v), []))
    if hasattr(v, '__iter__') and type(v).__module__ == 'builtins': return list(v)
    if isinstance(v, Choice):
      a, b = self.iterate(v.a), self.iterate(v.b)
      if len(a) == len(b): return [self.merge(v.cond, x, y) for x, y in zip(a, b)]
    if isinstance(v, (Opaque, Choice)): self.unsupported('iteration over %r' % (v,))
    from . import jaxmodel
    self.raise_(TypeError, '%s object is not iterable' % jaxmodel.tname(v))

  # -- attributes -----------------------------------------------------------

  def getattr(self, obj, name):
    from . import jaxmodel
    if isinstance(obj, Module):
      if name in obj.scope.vars: return obj.scope.vars[name]
      if self.find_module(obj.name + '.' + name) and (obj.name + '.' + name) in self.modules:
        return self.modules[obj.name + '.' + name]
      if name == '__name__': return obj.name
      if name == '__dict__': return obj.scope.vars
      self.raise_(AttributeError, 'module %r has no attribute %r' % (obj.name, name))
    if isinstance(obj, ModModel):
      if name in obj.table: return obj.table[name]
      full = obj.name + '.' + name
      m = self.model_factory(self, full)
      if m is not None:
        self.modules[full] = m
        return m
      if obj.name in ('typing', 'collections.abc', 'types', 'typing_extensions', 'chex'):
        return Opaque(full)
      self.unsupported('unmodelled %s' % full)
    if isinstance(obj, Arr): return jaxmodel.arr_getattr(self, obj, name)
    if isinstance(obj, ANT):
      cls = obj.cls
      if name in cls.nt_fields: return obj.get(name)
      if name == '_fields': return tuple(cls.nt_fields)
      if name == '_asdict': return Prim(lambda: dict(zip(cls.nt_fields, obj)), '_asdict')
      if name == '_replace':
        def _replace(**kw):
          d = dict(zip(cls.nt_fields, obj))
          for k in kw:
            if k not in d: self.raise_(ValueError, 'Got unexpected field names: %r' % [k])
          d.update(kw)
          return ANT(cls, [d[f] for f in cls.nt_fields])
        return Prim(_replace)
      if name == '__class__': return cls
      return self.bind_attr(obj, cls, name)
    if isinstance(obj, Obj):
      if name in obj.attrs: return obj.attrs[name]
      if name == '__class__': return obj.cls
      if name == '__dict__': return obj.attrs
      return self.bind_attr(obj, obj.cls, name)
    if isinstance(obj, SuperV):
      mro = obj.obj.cls.mro() if not isinstance(obj.obj, AClass) else obj.obj.mro()
      i = mro.index(obj.cls)
      for c in mro[i + 1:]:
        if isinstance(c, AClass) and name in c.ns:
          return self.descr(obj.obj, c.ns[name])
      if name == '__init__': return Prim(lambda *a, **k: None, '__init__')
      if name == '__new__':
        def new(cls, *a, **k): return self.instantiate_nt(cls, list(a), k)
        return Prim(new)
      if isinstance(obj.obj, ANT): return self.getattr(tuple(obj.obj), name)
      self.raise_(AttributeError, 'super has no %r' % name)
    if isinstance(obj, AClass):
      v = obj.lookup(name)
      if v is not _MISSING:
        if isinstance(v, ClassMethodV): return BoundMethod(v.f, obj)
        if isinstance(v, StaticV): return v.f
        return v
      if name in ('__name__', '__qualname__'): return obj.name
      if name == '_fields' and obj.nt_fields is not None: return tuple(obj.nt_fields)
      if name == '_field_defaults' and obj.nt_fields is not None: return dict(obj.nt_defaults)
      if name == '_make' and obj.nt_fields is not None:
        return Prim(lambda it: ANT(obj, self.iterate(it)), '_make')
      if name == '__doc__': return None
      if name == '__module__': return obj.module.name if obj.module else ''
      if name == '__mro__': return tuple(obj.mro())
      if name == '__new__' and obj.nt_fields is not None:
        return Prim(lambda cls, *a, **k: self.instantiate_nt(cls, list(a), k), '__new__')
      self.raise_(AttributeError, 'type object %r has no attribute %r' % (obj.name, name))
    if isinstance(obj, Closure):
      if name in obj.attrs: return obj.attrs[name]
      if name == '__name__': return obj.name
      if name == '__qualname__': return obj.qualname
      if name == '__doc__':
        return ast.get_docstring(obj.node) if not isinstance(obj.node, ast.Lambda) else None
      if name == '__module__': return obj.module.name
      if name == '__dict__': return obj.attrs
      if name == '__defaults__': return tuple(obj.defaults) or None
      if name == '__call__': return obj
      self.raise_(AttributeError, 'function has no attribute %r' % name)
    if isinstance(obj, Prim):
      if name in obj.attrs: return obj.attrs[name]
      if name in ('__name__', '__qualname__'): return obj.name.split('.')[-1]
      if name == '__doc__': return ''
      if name == '__module__': return 'jax'
      self.raise_(AttributeError, '%s has no attribute %r' % (obj.name, name))
    if isinstance(obj, BoundMethod):
      if name == '__self__': return obj.self_
      if name == '__func__': return obj.func
      return self.getattr(obj.func, name)
    if isinstance(obj, PartialV):
      if name in ('func', 'args'): return getattr(obj, name)
      if name == 'keywords': return obj.kwargs
      self.raise_(AttributeError, 'functools.partial has no attribute %r' % name)
    if isinstance(obj, V.DType): return jaxmodel.dtype_getattr(self, obj, name)
    if isinstance(obj, V.TreeDef): return jaxmodel.treedef_getattr(self, obj, name)
    if isinstance(obj, HostObj):
      try:
        v = getattr(obj, name)
      except AttributeError:
        self.raise_(AttributeError, '%s has no attribute %r' % (type(obj).__name__, name))
      return Prim(v, name) if callable(v) and not isinstance(v, (type,)) else v
    if isinstance(obj, Choice):
      return self.merge(obj.cond, self.getattr(obj.a, name), self.getattr(obj.b, name))
    if isinstance(obj, Opaque):
      if name in obj.attrs: return obj.attrs[name]
      return Opaque(obj.name + '.' + name)
    if isinstance(obj, PropertyV):
      if name == 'setter': return Prim(lambda f: obj, 'setter')
    if isinstance(obj, ExcVal):
      if name == 'args': return obj.args
    if obj is NAMEDTUPLE: return Opaque('NamedTuple.' + name)
    return self.native_attr(obj, name)

  def descr(self, obj, v):
    if isinstance(v, PropertyV): return self.call(v.fget, [obj])
    if isinstance(v, StaticV): return v.f
    if isinstance(v, ClassMethodV): return BoundMethod(v.f, obj.cls)
    if isinstance(v, Closure): return BoundMethod(v, obj)
    if isinstance(v, Prim): return v
    return v

  def bind_attr(self, obj, cls, name):
    v = cls.lookup(name)
    if v is _MISSING:
      m = cls.lookup('__getattr__')
      if m is not _MISSING: return self.call(BoundMethod(m, obj), [name])
      if isinstance(obj, ANT) and name in ('count', 'index'): return self.native_attr(tuple(obj), name)
      self.raise_(AttributeError, '%r object has no attribute %r' % (cls.name, name))
    return self.descr(obj, v)

  def native_attr(self, obj, name):
    from . import jaxmodel
    if obj is None: self.raise_(AttributeError, "'NoneType' object has no attribute %r" % name)
    if isinstance(obj, (float, int)) and not isinstance(obj, bool):
      if name in ('real',): return obj
      if name == 'imag': return 0
    if isinstance(obj, type):
      if name in ('__name__', '__qualname__'): return obj.__name__
      if obj is dict and name == 'fromkeys':
        return Prim(lambda ks, v=None: {k: v for k in self.iterate(ks)}, 'fromkeys')
      if hasattr(obj, name) and not name.startswith('_'):
        m = getattr(obj, name)
        if callable(m):
          def call(first, *a, **k): return self.call(self.getattr(first, name), list(a), k)
          return Prim(call, name)
        return m
      if name == '__new__':
        return Prim(lambda c, *a: self.call(c, list(a)), '__new__')
      self.raise_(AttributeError, 'type %s has no attribute %r' % (obj.__name__, name))
    if name == '__class__': return type(obj)
    if isinstance(obj, (list, dict, set, tuple, str, frozenset, range, int, float)):
      m = getattr(obj, name, _MISSING)
      if m is _MISSING:
        self.raise_(AttributeError, '%r object has no attribute %r' % (type(obj).__name__, name))
      if not callable(m): return m
      base = dict if isinstance(obj, dict) else list if isinstance(obj, list) else set if isinstance(obj, set) else None
      muts = MUTATORS.get(base, ())

      def method(*args, **kw):
        if name in muts:
          self.note_mutation(obj, '.%s()' % name)
          self.journal_whole(obj)
        if name == 'sort':
          obj[:] = jaxmodel.sorted_(self, obj, **kw)
          return None
        if name == 'get' and isinstance(obj, dict) and args and isinstance(args[0], Arr):
          args = (self.as_index(args[0]),) + args[1:]
        if name in ('extend', 'update') and args and not isinstance(args[0], dict):
          args = ([x for x in self.iterate(args[0])],)
        if name == 'join':
          args = ([str(x) for x in self.iterate(args[0])],)
        if name == 'format':
          args, kw = tuple(map(_plain, args)), {k: _plain(v) for k, v in kw.items()}
        if name in ('index', 'count', 'remove') and isinstance(obj, (list, tuple)) and _has_arr(obj, args):
          for i, x in enumerate(obj):
            r = True if x is args[0] else self.equal(x, args[0])
            if r is True and name == 'index': return i
            if not isinstance(r, bool): self.unsupported('list.%s on unknown values' % name)
          self.raise_(ValueError, 'not in list')
        try:
          r = m(*args, **kw)
        except (KeyError, ValueError, IndexError, TypeError, AttributeError) as x:
          self.raise_(type(x), *x.args)
        if name in ('items', 'keys', 'values'): return list(r)
        if name == 'copy' and type(r) is dict and type(obj) is not dict: r = type(obj)(r)
        return r
      return Prim(method, name)
    self.raise_(AttributeError, '%s object has no attribute %r' % (jaxmodel.tname(obj), name))

  # -- calls ----------------------------------------------------------------

  def call(self, f, args, kw=None):
    kw = kw or {}
    self.n_calls += 1
    if isinstance(f, Closure): return self.call_closure(f, args, kw)
    if isinstance(f, Prim):
      self.used_prims.add(f.name)
      return self.call_prim(f, args, kw)
    if isinstance(f, BoundMethod): return self.call(f.func, [f.self_] + list(args), kw)
    if isinstance(f, PartialV):
      k = dict(f.kwargs)
      k.update(kw)
      return self.call(f.func, list(f.args) + list(args), k)
    if isinstance(f, AClass): return self.instantiate(f, args, kw)
    if isinstance(f, Choice):
      line = self.line
      o = self.branch(f.cond, lambda: ('value', self.call(f.a, args, kw)),
                      lambda: ('value', self.call(f.b, args, kw)), True)
      self.line = line
      return o[1]
    from . import jaxmodel
    if isinstance(f, V.DType): return jaxmodel.dtype_call(self, f, *args, **kw)
    if isinstance(f, type):
      if issubclass(f, BaseException): return ExcVal(f, args)
      return jaxmodel.type_call(self, f, args, kw)
    if f is NAMEDTUPLE:
      name, fields = args[0], self.iterate(args[1]) if len(args) > 1 else list(kw.items())
      return AClass(name, [], {}, None, [p[0] for p in fields])
    if isinstance(f, Obj):
      m = f.cls.lookup('__call__')
      if m is not _MISSING: return self.call(BoundMethod(m, f), args, kw)
    if isinstance(f, HostObj) and callable(f): return f(*args, **kw)
    if isinstance(f, StaticV): return self.call(f.f, args, kw)
    if isinstance(f, Opaque):
      if f.name.startswith('typing.') or f.name.endswith('[]'):
        return args[-1] if f.name == 'typing.cast' else Opaque(f.name + '()')
      self.unsupported('call of %r' % f)
    self.raise_(TypeError, '%s object is not callable' % jaxmodel.tname(f))

  def call_prim(self, f, args, kw):
    try:
      return f.fn(*args, **kw)
    except TypeError as e:
      msg = str(e)
      if 'argument' in msg and f.fn.__name__ in msg:
        tb = e.__traceback__.tb_next
        if tb is None:
          raise Unsupported('call of %s with unmodelled arguments: %s at %s' % (f.name, msg, self.loc()))
      raise

  def bind(self, f, args, kw):
    """Binds call arguments of a closure to its parameters."""
    a = f.node.args
    pos = [p.arg for p in a.posonlyargs + a.args]
    env = {}
    args = list(args)
    kw = dict(kw)
    nm = f.name
    if len(args) > len(pos) and a.vararg is None:
      self.raise_(TypeError, '%s() takes %d positional arguments but %d were given' % (nm, len(pos), len(args)))
    for n, v in zip(pos, args): env[n] = v
    if a.vararg is not None: env[a.vararg.arg] = tuple(args[len(pos):])
    ponly = {p.arg for p in a.posonlyargs}
    kwonly = [p.arg for p in a.kwonlyargs]
    extra = {}
    for k, v in kw.items():
      if (k in pos and k not in ponly) or k in kwonly:
        if k in env: self.raise_(TypeError, '%s() got multiple values for argument %r' % (nm, k))
        env[k] = v
      elif a.kwarg is not None: extra[k] = v
      else: self.raise_(TypeError, '%s() got an unexpected keyword argument %r' % (nm, k))
    if a.kwarg is not None: env[a.kwarg.arg] = extra
    nd = len(f.defaults)
    for i, n in enumerate(pos):
      if n not in env:
        j = i - (len(pos) - nd)
        if j < 0: self.raise_(TypeError, '%s() missing required positional argument: %r' % (nm, n))
        env[n] = f.defaults[j]
    for n in kwonly:
      if n not in env:
        if n not in f.kwdefaults: self.raise_(TypeError, '%s() missing keyword argument %r' % (nm, n))
        env[n] = f.kwdefaults[n]
    return env

  def call_closure(self, f, args, kw):
    env = self.bind(f, args, kw)
    if len(self.where) > self.MAX_DEPTH: self.unsupported('call depth')
    sc = Scope(f.scope, f.module, 'func')
    sc.vars.update(env)
    if f.scope.kind == 'class' and not isinstance(f.node, ast.Lambda):
      first = (f.node.args.posonlyargs + f.node.args.args)[:1]
      cls = f.cls
      if first and cls is not None: sc.vars['__class_self__'] = (cls, env[first[0].arg])
    fr = Frame(f, len(self.pc), sc)
    if f.is_gen: fr.yields = GenV()
    self.frames.append(fr)
    self.where.append((f.qualname, f.module.path))
    self.functions.add((os.path.basename(f.module.path), f.qualname))
    line = self.line
    try:
      if isinstance(f.node, ast.Lambda):
        self.visited.add((f.module.path, f.node.lineno))
        res = self.eval(f.node.body, sc)
      else:
        try:
          o = self.exec_block(f.node.body, sc)
          res = o[1] if o is not None and o[0] == 'return' else None
        except AbsRaise as e:
          if not fr.pending: raise
          g = T.TRUE
          for c, _ in fr.pending: g = T.land(g, T.lnot(c))
          self.record_raise(g, e)
          res = fr.pending.pop()[1]
        for g, v in reversed(fr.pending): res = self.merge(g, v, res)
      if f.is_gen: return fr.yields
      return res
    finally:
      self.frames.pop()
      self.where.pop()
      self.line = line

  def instantiate_nt(self, cls, args, kw):
    fields = cls.nt_fields
    vals = dict(zip(fields, args))
    if len(args) > len(fields):
      self.raise_(TypeError, '%s() takes %d arguments but %d were given' % (cls.name, len(fields), len(args)))
    for k, v in kw.items():
      if k not in fields: self.raise_(TypeError, '%s() got an unexpected keyword argument %r' % (cls.name, k))
      if k in vals: self.raise_(TypeError, '%s() got multiple values for %r' % (cls.name, k))
      vals[k] = v
    for n in fields:
      if n not in vals:
        if n not in cls.nt_defaults: self.raise_(TypeError, '%s() missing required argument %r' % (cls.name, n))
        vals[n] = cls.nt_defaults[n]
    return ANT(cls, [vals[n] for n in fields])

  def instantiate(self, cls, args, kw):
    if any(isinstance(b, type) and issubclass(b, BaseException) for b in cls.mro()):
      return ExcVal(cls, args)
    if cls.nt_fields is not None:
      new = cls.lookup('__new__')
      if new is not _MISSING: return self.call(new.f if isinstance(new, StaticV) else new, [cls] + list(args), kw)
      return self.instantiate_nt(cls, args, kw)
    o = Obj(cls)
    for c in cls.mro():
      if isinstance(c, AClass):
        for v in c.ns.values():
          if isinstance(v, Closure) and v.cls is None: v.cls = c
          elif isinstance(v, PropertyV) and isinstance(v.fget, Closure) and v.fget.cls is None: v.fget.cls = c
    if cls.dataclass_fields is not None and cls.lookup('__init__') is _MISSING:
      self.dataclass_init(o, cls, args, kw)
      return o
    m = cls.lookup('__init__')
    if m is not _MISSING: self.call(BoundMethod(m, o), args, kw)
    elif args or kw: self.raise_(TypeError, '%s() takes no arguments' % cls.name)
    return o

  def dataclass_init(self, o, cls, args, kw):
    fields = cls.dataclass_fields
    vals = dict(zip(fields, args))
    for k, v in kw.items():
      if k not in fields: self.raise_(TypeError, 'unexpected keyword argument %r' % k)
      vals[k] = v
    for n in fields:
      if n not in vals:
        d = cls.lookup(n)
        if d is _MISSING: self.raise_(TypeError, 'missing argument %r' % n)
        if isinstance(d, FieldV):
          d = self.call(d.factory, []) if d.factory is not None else d.default
        vals[n] = d
      o.attrs[n] = vals[n]
    post = cls.lookup('__post_init__')
    if post is not _MISSING: self.call(BoundMethod(post, o), [])

  # -- purity support -------------------------------------------------------

  def protect(self, *roots):
    """Marks every mutable container reachable from roots as not-to-be-mutated."""
    seen = set()
    stack = [(r, lab) for r, lab in roots]
    while stack:
      v, lab = stack.pop()
      if id(v) in seen: continue
      seen.add(id(v))
      if isinstance(v, (list, dict, set)) and not isinstance(v, ANT):
        self.protected[id(v)] = (v, lab)
      if isinstance(v, dict): stack.extend((x, lab) for x in v.values())
      elif isinstance(v, (list, tuple, set)): stack.extend((x, lab) for x in v)
      elif isinstance(v, Obj):
        self.protected[id(v)] = (v, lab)
        stack.extend((x, lab) for x in v.attrs.values())
        stack.append((v.cls, lab))
      elif isinstance(v, AClass):
        self.protected[id(v)] = (v, 'class %s' % v.name)
        stack.extend((x, 'class %s' % v.name) for x in v.ns.values())
      elif isinstance(v, Closure):
        self.protected[id(v)] = (v, 'function %s' % v.name)
        stack.extend((x, 'default argument of %s' % v.name) for x in v.defaults)
        stack.extend((x, 'default argument of %s' % v.name) for x in v.kwdefaults.values())
        stack.extend((x, lab) for x in v.attrs.values())
        s = v.scope
        while s is not None:
          if id(s) not in self.protected_scopes:
            self.protected_scopes[id(s)] = s
            for n, x in s.vars.items():
              stack.append((x, ('module variable %s' if s.kind == 'module' else 'closure variable %s') % n))
          s = s.parent
      elif isinstance(v, BoundMethod): stack.extend([(v.func, lab), (v.self_, lab)])
      elif isinstance(v, PartialV): stack.extend([(v.func, lab)] + [(x, lab) for x in v.args])
      elif isinstance(v, Arr) and v.np and not v.py:
        self.protected[id(v)] = (v, lab)
      elif isinstance(v, Module):
        if id(v.scope) not in self.protected_scopes:
          self.protected_scopes[id(v.scope)] = v.scope
          stack.extend((x, 'module variable %s' % n) for n, x in v.scope.vars.items())


class Undef:
  """A variable bound only where cond holds."""

  def __init__(self, cond, v): self.cond, self.v = cond, v


class SuperV:
  def __init__(self, cls, obj): self.cls, self.obj = cls, obj


class FieldV:
  def __init__(self, default=None, factory=None): self.default, self.factory = default, factory


class _NT:
  name = 'NamedTuple'
  def __repr__(self): return 'NamedTuple'


NAMEDTUPLE = _NT()


def _own_nodes(fn):
  st = list(fn.body)
  while st:
    n = st.pop()
    yield n
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)): continue
    st.extend(ast.iter_child_nodes(n))


def _plain(v):
  if isinstance(v, (str, int, float, bool, type(None))): return v
  if isinstance(v, (tuple, list)): return tuple(_plain(x) for x in v)
  return '<%s>' % type(v).__name__


def _has_arr(*vs):
  for v in vs:
    if isinstance(v, Arr): return True
    if isinstance(v, (list, tuple)) and any(_has_arr(x) for x in v): return True
  return False


_ = np
