"""Helpers shared by the rules."""
from ..values import *
from ..world import *
from ..world import ABSENT
from ..lib import NFn

RULES = {}
V1, V2 = sym('cache_version', int), sym('other_cache_version', int)
KEY = sym('key', str)


def scenario(pid, tier='quick', name=None, **opts):
    def deco(f):
        RULES.setdefault(pid, []).append((name or f.__name__, f, tier, opts))
        return f
    return deco


def keys_(n, p='key'):
    return [sym('%s%d' % (p, i), str) for i in range(n)]


def tags_(n, p='tag'):
    return [sym('%s%d' % (p, i), str) for i in range(n)]


def values_(n):
    return [sym('value%d' % i, object) for i in range(n)]


def disturb(S, tag, version, how):
    """Changes the version of a tag in the underlying cache, as somebody else's invalidation does."""
    k = (version, tag_key(S.I, tag))
    if how == 'gone':
        S.backend.store[k] = ABSENT
    elif how == 'new':
        S.backend.store[k] = sym('other_tag_version_%d' % S.I.uid(), str)


def is_miss(v, default=None):
    return v is default if default is None else same(v, default)


def returned(v, x):
    return same(v, x)


def tag_ops(S, tag, ops=None):
    k = tag_key(S.I, tag)
    return [o for o in (S.backend.log if ops is None else ops) if o.op != 'native' and same(o.key, k)]


def entry_writes(S, key, since=0):
    return [o for o in S.backend.writes(since) if same(o.key, key)]


def fails(I, f, rule, message):
    """The operation must end with an error."""
    r, e = attempt(I, f)
    I.require(e is not None, rule, message)
    return e


def quiet(I, f, rule, message):
    """The operation must not end with an error."""
    r, e = attempt(I, f)
    if e is not None:
        from ..explore import exc_name
        I.require(False, rule, '%s: %s' % (message, exc_name(e)), getattr(I, 'last_raise', None))
    else:
        I.require(True, rule, message)
    return r


def snapshot(v, memo=None):
    """Structure of an abstract value, for comparison before and after."""
    memo = {} if memo is None else memo
    if id(v) in memo:
        return ('seen', memo[id(v)])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(snapshot(x, memo) for x in v)
    if isinstance(v, dict):
        memo[id(v)] = len(memo)
        return ('dict',) + tuple(sorted(((show(k), snapshot(x, memo)) for k, x in v.items()), key=lambda p: p[0]))
    if isinstance(v, ASet):
        return ('set',) + tuple(sorted(show(x) for x in v))
    if isinstance(v, Inst):
        memo[id(v)] = len(memo)
        return ('inst', v.cls.name, snapshot(v.attrs, memo))
    return show(v)


# numeric facts of a path

def atoms(I):
    """The arithmetic conditions of the path: list of (linear term, 'ltz'/'zero', outcome)."""
    out = []
    for f, v in I.facts.items():
        if f.op in ('ltz', 'zero'):
            out.append((f.args[0], f.op, v))
    return out


def evaluate(t, env):
    """Value of a linear term, or None if it has other unknowns."""
    if not isinstance(t, T):
        return t
    if t.op == 'lin':
        s = t.args[1]
        for x, c in t.args[0]:
            v = evaluate(x, env)
            if v is None:
                return None
            s += c * v
        return s
    if t in env:
        return env[t]
    if t.op in ('max', 'min'):
        vs = [evaluate(x, env) for x in t.args]
        return None if None in vs else (max if t.op == 'max' else min)(vs)
    return None


def consistent(I, env):
    for t, op, v in atoms(I):
        x = evaluate(t, env)
        if x is not None and ((x < 0) if op == 'ltz' else (x == 0)) != v:
            return False
    return True


def grid(I, domains):
    """All valuations of the numeric symbols which are possible on this path."""
    import itertools
    names = list(domains)
    for vals in itertools.product(*[domains[n] for n in names]):
        env = dict(zip(names, vals))
        if consistent(I, env):
            yield env
