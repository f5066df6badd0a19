"""Loading of the analysed sources."""
import ast
import hashlib
import os

from .values import AnalysisError

REPO = os.environ.get('SA_REPO', '/repo')
PACKAGES = ('cache_dependencies', 'django_cache_dependencies', 'cache_tagging')


class ModInfo(object):
    def __init__(self, name, path, tree, ispkg):
        self.name, self.path, self.tree, self.ispkg = name, path, tree, ispkg


class Sources(object):
    """Parsed sources of the repository: shared by all interpretations of a run."""
    def __init__(self):
        self.mods = {}
        self.scopes = {}
        digest = hashlib.sha256()
        for pkg in PACKAGES:
            root = os.path.join(REPO, pkg)
            for d, dirs, files in os.walk(root):
                dirs[:] = sorted(x for x in dirs if x not in ('tests', '__pycache__', 'testproject', 'management'))
                if '__init__.py' not in files:
                    continue
                for f in sorted(files):
                    if not f.endswith('.py'):
                        continue
                    path = os.path.join(d, f)
                    with open(path, 'rb') as fh:
                        src = fh.read()
                    digest.update(path.encode() + b'\0' + src)
                    rel = os.path.relpath(path, REPO)[:-3].split(os.sep)
                    ispkg = rel[-1] == '__init__'
                    if ispkg:
                        rel = rel[:-1]
                    try:
                        tree = ast.parse(src.decode('utf-8'), path)
                    except SyntaxError as e:
                        raise AnalysisError('%s: %s' % (path, e))
                    self.mods['.'.join(rel)] = ModInfo('.'.join(rel), os.path.relpath(path, REPO), tree, ispkg)
        if not self.mods:
            raise AnalysisError('no sources found under %s' % REPO)
        self.digest = digest.hexdigest()
        self.names = {}
        self.stmts = {}     # statements of functions
        self.files = dict((m.path[:-12] if m.ispkg else m.path[:-3], m) for m in self.mods.values())   # (/__init__).py
        self.paths = set(m.path for m in self.mods.values())
        for m in self.mods.values():
            self._name(m.tree, m.path, '')
        self.nfunctions = sum(isinstance(n, (ast.FunctionDef, ast.Lambda)) for m in self.mods.values() for n in ast.walk(m.tree))

    def _name(self, node, path, prefix, inside=None):
        for c in ast.iter_child_nodes(node):
            p = prefix
            if inside and isinstance(c, ast.stmt) and not (isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant)):
                self.stmts[c] = (inside, c.lineno)
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                p = prefix + ('.' if prefix else '') + c.name
            elif isinstance(c, ast.Lambda):
                p = prefix + ('.' if prefix else '') + '<lambda>'
            if p is not prefix and not isinstance(c, ast.ClassDef):
                self.names[c] = '%s:%s' % (path, p)
            self._name(c, path, p, self.names[c] if c in self.names and not isinstance(c, ast.Lambda) else None if isinstance(c, ast.ClassDef) else inside)

    def scope(self, node):
        """(locals, globals, nonlocals, is_generator) of a function, lambda or comprehension node."""
        r = self.scopes.get(node)
        if r is None:
            r = self.scopes[node] = _scope(node)
        return r


COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


def _scope(node):
    loc, glob, nonl, gen = set(), set(), set(), [False]

    def target(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                loc.add(n.id)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            loc.add(n.name)
            for d in n.decorator_list:
                visit(d)
            if isinstance(n, ast.ClassDef):
                for b in n.bases:
                    visit(b)
            else:
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                    visit(d)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                visit(d)
            return
        if isinstance(n, COMPS):
            visit(n.generators[0].iter)
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    target(x.target)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                loc.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        for c in ast.iter_child_nodes(n):
            visit(c)

    if isinstance(node, COMPS):
        for g in node.generators:
            target(g.target)
        return frozenset(loc), frozenset(), frozenset(), False
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y is not None]:
        loc.add(x.arg)
    for s in (node.body if isinstance(node.body, list) else [node.body]):
        visit(s)
    return frozenset(loc - glob - nonl), frozenset(glob), frozenset(nonl), gen[0]
