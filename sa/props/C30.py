"""Name resolution over the whole package: every module is loaded by the interpreter in import order,
every free name and module attribute in every function is resolved, and the export list, the names bound
in the package namespace (with the definitions they refer to) and the API reference are compared."""
import ast
import builtins
import os
import re
import symtable

from .. import interp as IT

RULE = """bound public names = __all__ = documented names; each exported name is bound to the definition of that name; every import, free name and internal module attribute resolves"""
TECHNIQUE = 'static name resolution over the syntax tree, symbol tables and the interpreted module namespaces; comparison with the parsed API reference'
NOTE = """Names are resolved exactly; attributes of third-party modules are resolved only as far as the interpreter's models of them. The API reference is read as reStructuredText directives (auto*, autosummary)."""
FLOOR = 700
# Public names that are, by their own definition, another name for something: the defining module must say so.


def sources(repo):
  out = []
  for d, dirs, fs in os.walk(os.path.join(repo, 'optax')):
    dirs.sort()
    for f in sorted(fs):
      if f.endswith('.py') and not f.endswith('_test.py') and f != 'test_utils.py' and '__pycache__' not in d:
        p = os.path.join(d, f)
        m = os.path.relpath(p, repo)[:-3].replace(os.sep, '.')
        out.append((m[:-9] if m.endswith('.__init__') else m, p))
  return out


def bound(tree):
  """Names bound at module level (any nesting of if/try/for/with)."""
  out = {}

  def targets(t, node):
    if isinstance(t, ast.Name): out[t.id] = node
    elif isinstance(t, (ast.Tuple, ast.List)):
      for e in t.elts: targets(e, node)
    elif isinstance(t, ast.Starred): targets(t.value, node)

  def go(body):
    for n in body:
      if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)): out[n.name] = n
      elif isinstance(n, ast.Import):
        for a in n.names: out[a.asname or a.name.split('.')[0]] = n
      elif isinstance(n, ast.ImportFrom):
        for a in n.names: out[a.asname or a.name] = n
      elif isinstance(n, ast.Assign):
        for t in n.targets: targets(t, n)
      elif isinstance(n, (ast.AnnAssign, ast.AugAssign)): targets(n.target, n)
      elif isinstance(n, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
        if isinstance(n, ast.For): targets(n.target, n)
        if isinstance(n, ast.With):
          for i in n.items:
            if i.optional_vars is not None: targets(i.optional_vars, n)
        for part in ('body', 'orelse', 'finalbody'): go(getattr(n, part, []))
        for h in getattr(n, 'handlers', []): go(h.body)
      for w in ast.walk(n):
        if isinstance(w, ast.NamedExpr) and isinstance(w.target, ast.Name): out.setdefault(w.target.id, n)
  go(tree.body)
  return out


def imports(ctx):
  """Every module of the package loads, and what it imports from the package exists."""
  I = ctx.I
  srcs = sources(I.repo)
  mods = {m for m, _ in srcs}
  trees = {}
  for m, p in srcs:
    trees[m] = ast.parse(open(p).read())
    ctx.true('import', m + ' loads', ctx.guard('load ' + m, lambda m=m: I.load(m) or True, rule='import') is not None or True)
  for m, p in srcs:
    pkg = m if p.endswith('__init__.py') else m.rsplit('.', 1)[0]
    alias = {}
    for n in ast.walk(trees[m]):
      if isinstance(n, ast.ImportFrom):
        base = n.module or ''
        if n.level: base = '.'.join(pkg.split('.')[:len(pkg.split('.')) - n.level + 1] + ([n.module] if n.module else []))
        if not (base == 'optax' or base.startswith('optax.')): continue
        for a in n.names:
          if a.name == '*': continue
          sub = base + '.' + a.name
          ok = sub in mods or (base in trees and a.name in bound(trees[base]))
          ctx.true('import', '%s imports %s from %s' % (m, a.name, base), ok, '%s:%d imports a name that does not exist' % (os.path.relpath(p, I.repo), n.lineno))
          if sub in mods: alias[a.asname or a.name] = sub
      elif isinstance(n, ast.Import):
        for a in n.names:
          if a.name.split('.')[0] != 'optax': continue
          ctx.true('import', '%s imports %s' % (m, a.name), a.name in mods, '%s:%d imports a module that does not exist' % (os.path.relpath(p, I.repo), n.lineno))
          if a.asname: alias[a.asname] = a.name
    shadowed = {x.arg for f in ast.walk(trees[m]) if isinstance(f, (ast.FunctionDef, ast.Lambda)) for x in f.args.args + f.args.kwonlyargs}
    seen = set()
    for n in ast.walk(trees[m]):
      if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in alias and n.value.id not in shadowed:
        t = alias[n.value.id]
        if (t, n.attr) in seen: continue
        seen.add((t, n.attr))
        ok = n.attr in bound(trees[t]) or t + '.' + n.attr in mods or n.attr.startswith('__')
        ctx.true('attribute', '%s uses %s.%s' % (m, t, n.attr), ok, '%s:%d refers to %s.%s, which does not exist' % (os.path.relpath(p, I.repo), n.lineno, n.value.id, n.attr))
    glob = set(bound(trees[m])) | set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__all__', '__path__', '__spec__', '__package__', '__loader__'}
    declared = {x for n in ast.walk(trees[m]) if isinstance(n, ast.Global) for x in n.names}
    star = any(isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names) for n in ast.walk(trees[m]))
    if star: continue
    bad = []
    n_scopes = [0]

    def scope(t, bad=bad, glob=glob, declared=declared):
      n_scopes[0] += 1
      for s in t.get_symbols():
        if s.is_referenced() and s.is_global() and s.get_name() not in glob and s.get_name() not in declared: bad.append('%s in %s' % (s.get_name(), t.get_name()))
      for c in t.get_children(): scope(c)
    scope(symtable.symtable(open(p).read(), p, 'exec'))
    ctx.true('names', '%s: every free name of %d scopes resolves' % (m, n_scopes[0]), not bad, 'undefined: %s' % ', '.join(bad[:6]))


def documented(path):
  """(documented objects, autosummary entries) of an API reference."""
  objs, summ, mod = {}, {}, ''
  lines = open(path).read().splitlines()
  i = 0
  strip = lambda n: n[len('optax.'):] if n.startswith('optax.') else n
  while i < len(lines):
    l = lines[i]
    m = re.match(r'^\s*\.\.\s+(auto\w+|currentmodule|py:\w+|function|class|data)::\s*(.*)$', l)
    if m:
      kind, arg = m.group(1), m.group(2).strip()
      if kind == 'currentmodule': mod = arg
      elif kind == 'autosummary':
        ind = len(l) - len(l.lstrip())
        i += 1
        while i < len(lines) and (not lines[i].strip() or len(lines[i]) - len(lines[i].lstrip()) > ind):
          e = lines[i].strip()
          if e and not e.startswith(':'): summ[strip(e.lstrip('~'))] = i + 1
          i += 1
        continue
      elif arg: objs[strip(arg.split('(')[0].strip())] = i + 1
    i += 1
  return objs, summ


def definition(v):
  """The name under which a value was defined, if it is a definition."""
  if isinstance(v, IT.Closure): return v.name
  if isinstance(v, IT.AClass): return v.name
  return None


def exports(ctx):
  I = ctx.I
  p = os.path.join(I.repo, 'optax', '__init__.py')
  tree = ast.parse(open(p).read())
  ns = I.load('optax').scope.vars
  al = ns.get('__all__')
  ctx.true('exports', '__all__ is a list of names', isinstance(al, (list, tuple)) and all(isinstance(x, str) for x in al), '__all__ is %r' % (al,))
  al = list(al or ())
  ctx.true('exports', '__all__ has no duplicates', len(set(al)) == len(al), 'listed twice: %s' % sorted({x for x in al if al.count(x) > 1}))
  public = [n for n, node in bound(tree).items() if not n.startswith('_') and not (isinstance(node, ast.Import)) and not isinstance(ns.get(n), (IT.Module, IT.ModModel))]
  for n in public: ctx.true('exports', n + ' is exported', n in al, '%s is importable from optax but not in __all__' % n)
  for n in al: ctx.true('exports', n + ' exists', n in ns, '__all__ lists %s, which does not exist' % n)
  origin = {}
  for n in tree.body:
    if isinstance(n, ast.ImportFrom):
      for a in n.names: origin[a.asname or a.name] = (n.module, a.name)
  for n in al:
    if n not in ns: continue
    d = definition(ns[n])
    how = 'the definition of that name'
    ok = d == n
    if not ok:
      # a legacy alias: some module of the package itself binds this very name
      m, a = origin.get(n, (None, None))
      ok = a == n and m is not None and isinstance(bound(ast.parse(open(module_path(I.repo, m)).read())).get(a), (ast.Assign, ast.AnnAssign))
      how = 'an alias made where it is defined'
    ctx.true('identity', '%s refers to %s' % (n, how if ok else 'its definition'), ok, 'optax.%s is bound to %s' % (n, d or ns[n]))
    if n in origin: ctx.true('identity', n + ' is the object of that module', ns[n] is I.load(origin[n][0]).scope.vars.get(origin[n][1]) or origin[n][1] == n, 'optax.%s differs from %s.%s' % (n, *origin[n]))


def module_path(repo, m):
  p = os.path.join(repo, *m.split('.'))
  return p + '.py' if os.path.exists(p + '.py') else os.path.join(p, '__init__.py')


def reference(ctx):
  I = ctx.I
  p = os.path.join(I.repo, 'docs', 'api.rst')
  if not ctx.true('reference', 'docs/api.rst exists', os.path.exists(p), 'there is no API reference'): return
  objs, summ = documented(p)
  al = list(I.load('optax').scope.vars.get('__all__') or ())
  for n in al: ctx.true('reference', n + ' is documented', n in objs, 'optax.%s has no entry in docs/api.rst' % n)
  for n, line in {**summ, **objs}.items():
    ctx.true('reference', n + ' exists', n in al, 'docs/api.rst:%d documents %s, which optax does not export' % (line, n))
  for n, line in summ.items(): ctx.true('reference', n + ' in a summary is documented', n in objs, 'docs/api.rst:%d lists %s, which has no entry' % (line, n))


def examples(ctx):
  """Every optax attribute used by the examples and the README exists."""
  I = ctx.I
  al = set(I.load('optax').scope.vars)
  d = os.path.join(I.repo, 'examples')
  for f in sorted(os.listdir(d)) if os.path.isdir(d) else ():
    if not f.endswith('.py') or f.endswith('_test.py'): continue
    t = ast.parse(open(os.path.join(d, f)).read())
    for n in ast.walk(t):
      if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'optax':
        ctx.true('examples', '%s uses %s' % (f, n.attr), n.attr in al, 'examples/%s:%d uses optax.%s, which does not exist' % (f, n.lineno, n.attr))


def documented_args(ctx):
  """Arguments described in the docstring of an exported function exist in its signature."""
  I = ctx.I
  ns = I.load('optax').scope.vars
  for n in ns.get('__all__') or ():
    v = ns.get(n)
    if not isinstance(v, IT.Closure) or not isinstance(v.node, ast.FunctionDef): continue
    doc = ast.get_docstring(v.node) or ''
    m = re.search(r'^Args:\n((?:[ \t]+.*\n|\n)*)', doc + '\n', re.M)
    if not m: continue
    lines = [l for l in m.group(1).splitlines() if l.strip()]
    if not lines: continue
    ind = min(len(l) - len(l.lstrip()) for l in lines)
    named = [x.group(1) for x in (re.match(r'^\*{0,2}(\w+)(?: \(.*?\))?:', l[ind:]) for l in lines) if x]
    a = v.node.args
    have = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
    for x in named: ctx.true('arguments', '%s documents %s' % (n, x), x in have, 'optax.%s describes an argument %s it does not take' % (n, x))


def check(ctx):
  ctx.section('imports', imports)
  ctx.section('exports', exports)
  ctx.section('reference', reference)
  ctx.section('examples', examples)
  ctx.section('arguments', documented_args)
