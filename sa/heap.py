"""Walks the heap of the abstract program: what is reachable from a set of roots, and by which path."""
import ast
import collections

from .values import *
from .engine import ModV, NBound, GenObj
from .lib import NFn, Curry, Obj, LocalModel, LocalInst, Weak, WeakDict
from .world import Backend, Callback, Settings, SignalModel, DjangoCaches, LibraryModel

_NAMES = {}


def names_in(node):
    """Names a function can take from the frames around it."""
    if node not in _NAMES:
        _NAMES[node] = frozenset(n.id for n in ast.walk(node) if isinstance(n, ast.Name))
    return _NAMES[node]


def children(x, locals_):
    """(step, value) for what an object refers to; None if nothing is known about its inside."""
    if isinstance(x, LocalModel):
        return [('.%s' % k, v) for k, v in object.__getattribute__(x, '_d').get((None, CUR[0].thread), {}).items()] if locals_ else []
    if isinstance(x, LocalInst):
        return [('.%s' % k, v) for k, v in x.attrs.items()] if locals_ else []
    if isinstance(x, (Weak, WeakDict)):
        return []
    if isinstance(x, Inst):
        return [('.%s' % k, v) for k, v in x.attrs.items()]
    if isinstance(x, dict):
        out = []
        for k, v in x.items():
            s = show(k)
            out.append(('[%s]' % s, v))
            if not isinstance(k, (str, int, type(None), T)):
                out.append((' key %s' % s[:40], k))
    elif isinstance(x, (list, tuple, collections.deque)):
        out = [('[%d]' % i, v) for i, v in enumerate(x)]
    elif isinstance(x, (ASet, frozenset, set)):
        out = [('{%s}' % show(v)[:60], v) for v in x]
    elif isinstance(x, Cls):
        return [('.%s' % k, v) for k, v in x.ns.items()]
    elif isinstance(x, ModV):
        return [('.%s' % k, v) for k, v in x.ns.items()]
    elif isinstance(x, Fn):
        out = [('.%s' % k, v) for k, v in x.attrs.items() if not k.startswith('__')]
        for d in (x.defaults or ()):
            out.append((' default', d))
        for d in (x.kwdefaults or {}).values() if isinstance(x.kwdefaults, dict) else ():
            out.append((' default', d))
        fr, used = x.frame, names_in(x.node)
        while fr is not None and fr.kind != 'module':
            if fr.kind != 'class':
                out += [(' closure %s' % k, v) for k, v in fr.vars.items() if k in used]
            fr = fr.parent
        return out
    elif isinstance(x, Frame):
        return [('.%s' % k, v) for k, v in x.vars.items()]
    elif isinstance(x, (Bound, NBound)):
        return [('.__func__', x.fn), ('.__self__', x.selfv)]
    elif isinstance(x, Prop):
        return [('.fget', x.fget), ('.fset', x.fset), ('.fdel', x.fdel)]
    elif isinstance(x, (Static, ClsM)):
        return [('.__func__', x.fn)]
    elif isinstance(x, SuperV):
        return [('.__self__', x.selfv)]
    elif isinstance(x, GenObj):
        return [(' frame', x.fr)]
    elif isinstance(x, Curry):
        return [('.func', x.func), ('.args', x.args), ('.keywords', x.keywords)]
    elif isinstance(x, SignalModel):
        return [(' receiver %d' % i, (r, s)) for i, (k, r, s, w) in enumerate(x.receivers)]
    elif isinstance(x, LibraryModel):
        return [('.tags', x.tags), ('.filters', x.filters)]
    elif isinstance(x, NFn):
        return [('.memo', x.memo)] if locals_ and getattr(x, 'memo', None) is not None else []
    elif isinstance(x, (Backend, Callback, Settings, DjangoCaches)):
        return []
    elif isinstance(x, (Model, Obj)):
        return [('.%s' % k, v) for k, v in x.__dict__.items() if not k.startswith('_I')]
    else:
        d = getattr(x, '__dict__', None) if isinstance(x, BaseException) else None
        return [('.%s' % k, v) for k, v in d.items()] if d else []
    d = getattr(x, '__dict__', None)
    if isinstance(d, dict):      # instances of analysed classes that inherit from a container
        out += [('.%s' % k, v) for k, v in d.items()]
    return out


def walk(roots, locals_=True, enter=None):
    """Yields (path, object) once for every reachable reference; enter(object) says whether to look inside."""
    seen = {}
    todo = collections.deque(roots)
    keep = []
    while todo:
        path, x = todo.popleft()
        yield path, x
        if x is None or isinstance(x, (bool, int, float, str, bytes, T, type)):
            continue
        if id(x) in seen:
            continue
        seen[id(x)] = x
        keep.append(x)
        if enter is not None and not enter(x):
            continue
        for s, v in children(x, locals_):
            todo.append((path + s, v))


def program(I):
    """The roots every part of the program can reach: modules and what is registered with the framework."""
    out = [(n, m) for n, m in sorted(I.mods.items()) if isinstance(m, ModV)]
    out += [('signal %s' % n, s) for n, s in sorted(I.signals.items())]
    return out


def size(roots):
    """Number of reachable references, and for every container its length and path."""
    n, lens = 0, {}
    for path, x in walk(roots):
        n += 1
        if isinstance(x, (dict, list, ASet, collections.deque)) and not isinstance(x, WeakDict):
            lens.setdefault(id(x), (path, len(x), x))
    return n, lens


def state(roots, locals_=False):
    """Path -> what lies there, for comparison of the same objects at two times."""
    out, ids = {}, {}
    for path, x in walk(roots, locals_):
        if x is None or isinstance(x, (bool, int, float, str, bytes, T, type)):
            out[path] = show(x)
        elif isinstance(x, (list, tuple, dict, ASet, frozenset, set, collections.deque)):
            out[path] = '%s of %d' % (type(x).__name__, len(x))
        elif isinstance(x, (Bound, NBound)):
            out[path] = 'bound'
        else:
            out[path] = ('object', id(x))
            ids[id(x)] = x
    return out, ids


def changed(before, after):
    """The first path at which two states differ, or None."""
    a, b = before[0], after[0]
    ks = sorted(set(a) | set(b), key=lambda p: (len(p), p))
    for p in ks:
        if a.get(p) != b.get(p):
            return p
    return None
