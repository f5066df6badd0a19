"""C27, C28: values that are computed on a miss, and values that come back as they were stored."""
from .base import *
from .entries import APIS
from .locking import LEVELS, LOCKING

EMPTY = (0, '', False, (), [])


def _take(S, c, name, args, kw):
    return S.I.call_method(c, name, list(args), kw)


# ---------------------------------------------------------------- C27

BEFORE = ('absent', 'stored', 'stored empty', 'stored by somebody else', 'stale', 'without version of its tag', 'under another version', 'under another key')


@scenario('C27')
def computed_on_a_miss(I):
    """All states before, all forms of arguments: the function is called once or not at all, and its result kept."""
    S = Stack(I, api=I.pick('interface', APIS))
    version, other = I.pick('version', ((None, V1), (V1, V2), (V1, None)))
    t, old_t = tags_(2)
    k2, = keys_(1, 'other_key')
    V, old = values_(2)
    state = I.pick('before', BEFORE)
    if state == 'stored empty':
        old = I.pick('stored value', EMPTY)
    if state == 'stored by somebody else':
        S.backend.store[(version, KEY)] = old
    elif state != 'absent':
        S.set(k2 if state == 'under another key' else KEY, old, (old_t,), None, other if state == 'under another version' else version)
    if state == 'stale':
        disturb(S, old_t, version, 'new')
    elif state == 'without version of its tag':
        disturb(S, old_t, version, 'gone')
    hit = state in ('stored', 'stored empty', 'stored by somebody else')
    lifetime = I.pick('lifetime', (None, sym('lifetime', int)))
    a, b = sym('argument', object), sym('option', object)
    form = I.pick('arguments', ('none', 'positional', 'list', 'named', 'both', 'empty'))
    args, kw = {'none': (None, None), 'positional': ((a, b), None), 'list': ([a], None), 'named': (None, {'key': a, 'version': b}), 'both': ((a,), {'option': b}), 'empty': ((), {})}[form]
    f = Callback(I, 'compute', V)
    n = len(S.backend.log)
    r = S.get_or_set(KEY, f, (t,), lifetime, version, args, kw)
    _judge(I, S, hit, r, old, V, f, args or (), kw or {}, n, t, lifetime, version, state)


def _judge(I, S, hit, r, old, V, f, args, kw, n, t, lifetime, version, state):
    w = S.backend.writes(n)
    if hit:
        I.require(not f.calls, 'not-computed-on-a-hit', 'the function is called although the entry is stored and valid (%s)' % state)
        I.require(same(r, old), 'stored-value-returned', 'get_or_set_callback does not return the stored value (%s)' % state)
        I.require(not w and not S.backend.deletes(n), 'nothing-written-on-a-hit', 'a get-or-compute that finds its entry writes to the underlying cache (%s)' % state)
        return
    I.require(len(f.calls) == 1, 'computed-once', 'the function is called %d times for one get-or-compute that misses (%s)' % (len(f.calls), state))
    if f.calls:
        I.require(same(tuple(f.calls[0][0]), tuple(args)) and sorted(f.calls[0][1]) == sorted(kw) and all(same(f.calls[0][1][x], kw[x]) for x in kw), 'arguments-passed',
                  'the function does not get exactly the arguments given')
    I.require(same(r, V), 'computed-value-returned', 'get_or_set_callback does not return what the function has returned (%s)' % state)
    e = [o for o in w if same(o.key, KEY)]
    I.require(len(e) == 1 and same(e[0].version, version) and same(e[0].timeout, lifetime), 'result-kept',
              'the result is not stored exactly once under the key, version and lifetime given (%s)' % state)
    I.require(not [o for o in w if not same(o.key, KEY) and not same(o.key, tag_key(I, t))] and not S.backend.deletes(n), 'nothing-else-changed', 'a get-or-compute changes other keys')
    n = len(S.backend.log)
    g = Callback(I, 'compute again', sym('other value', object))
    I.require(same(S.get_or_set(KEY, g, (t,), lifetime, version), V) and not g.calls, 'result-kept', 'the result of the function is not found by the next get-or-compute')
    disturb(S, t, version, 'new')
    g = Callback(I, 'compute after invalidation', old)
    I.require(same(S.get_or_set(KEY, g, (t,), lifetime, version), old) and len(g.calls) == 1, 'result-depends-on-tags', 'the result of the function does not depend on the tags given')


@scenario('C27')
def empty_results(I):
    """Whatever the function returns is returned and kept."""
    S = Stack(I, api=I.pick('interface', APIS))
    t, = tags_(1)
    V = I.pick('result', (None,) + EMPTY + ({}, Callback(I, 'result that is a function', sym('result of the result', object))))
    f = Callback(I, 'compute', V)
    n = len(S.backend.log)
    r = S.get_or_set(KEY, f, (t,), 60, V1)
    I.require(same(r, V) and type(r) == type(V) and len(f.calls) == 1, 'computed-value-returned', 'get_or_set_callback does not return an empty result, or a function')
    e = entry_writes(S, KEY, n)
    I.require(len(e) == 1, 'result-kept', 'an empty result is not stored')
    if V is not None:
        g = Callback(I, 'compute again', sym('other value', object))
        I.require(same(S.get_or_set(KEY, g, (t,), 60, V1), V) and not g.calls, 'not-computed-on-a-hit', 'the function is called although an empty result is stored')
    d = S.do('get_many', [KEY], V1)
    I.require(KEY in d and same(d[KEY], V), 'result-kept', 'an empty result is not found in bulk')


@scenario('C27')
def somebody_else_at_the_same_time(I):
    """What others store or delete meanwhile does not change what is returned."""
    S = Stack(I, api=I.pick('interface', APIS))
    t, t2 = tags_(2)
    V, theirs = values_(2)
    version = I.pick('version', (None, V1))
    S.set(KEY, theirs, (t2,), None, version)
    entry = S.backend.store.pop((version, KEY))
    what = I.pick('done by somebody else', ('stored', 'deleted', 'stored without tags'))
    when = I.pick('at', ('the computation', 'the store'))
    done, written = [], []

    def act():
        done.append(1)
        if what == 'deleted':
            S.backend.store.pop((version, KEY), None)
        else:
            S.backend.store[(version, KEY)] = entry if what == 'stored' else theirs

    def hook(o):
        if same(o.key, KEY) and o.op == 'set':
            written.append(1)
        elif when == 'the store' and written and not done:
            act()
    f = Callback(I, 'compute', V, run=act if when == 'the computation' else None)
    S.backend.fail = hook
    r = S.get_or_set(KEY, f, (t,), 60, version)
    S.backend.fail = None
    I.require(same(r, V) and len(f.calls) == 1, 'computed-value-returned', 'get_or_set_callback does not return what the function has returned, when somebody else has %s the entry at %s' % (what, when))


@scenario('C27')
def computed_in_any_state(I):
    """Inside of transactions, inside of other computations, and for caches that opted out."""
    S = Stack(I, level=I.pick('level', ('READ COMMITTED', 'SERIALIZABLE')), api=I.pick('interface', ('CacheTagging', 'CacheWrapper')))
    t, t0 = tags_(2)
    k0, = keys_(1, 'outer_key')
    V, v0 = values_(2)
    where = I.pick('place', ('transaction', 'after invalidation in the transaction', 'computation', 'generation', 'opted out', 'function that uses the cache'))
    if where == 'opted out':
        I.setattr(S.wrapper, 'ignore_descendants', True)
    if 'transaction' in where:
        S.tx('begin')
    if where.startswith('after'):
        S.invalidate((t,), V1)
    if where == 'generation':
        S.do('get', k0, None, V1)
    f = Callback(I, 'compute', V)
    if where == 'function that uses the cache':
        f.run = lambda *a, **k: (S.set(k0, v0, (t0,), None, V1), None)[1]
    got = []

    def inner():
        got.append(S.get_or_set(KEY, f, (t,), 60, V1, (KEY,), {'x': 1}))
    n = len(S.backend.log)
    if where == 'computation':
        S.get_or_set(k0, Callback(I, 'outer', v0, run=inner), (t0,), None, V1)
    else:
        inner()
    I.require(len(f.calls) == 1 and same(tuple(f.calls[0][0]), (KEY,)) and f.calls[0][1] == {'x': 1}, 'computed-once', 'the function is not called exactly once with the arguments given (%s)' % where)
    I.require(same(got[0], V), 'computed-value-returned', 'get_or_set_callback does not return what the function has returned (%s)' % where)
    e = entry_writes(S, KEY, n)
    I.require(len(e) == 1 and same(e[0].timeout, 60) and same(e[0].version, V1), 'result-kept', 'the result is not stored exactly once under the key, version and lifetime given (%s)' % where)
    r = S.get_or_set(KEY, f, (t,), 60, V1)
    I.require(same(r, V) and len(f.calls) == 1, 'not-computed-on-a-hit', 'the function is called although the entry is stored and valid (%s)' % where)
    if where == 'function that uses the cache':
        I.require(same(S.do('get', k0, None, V1), v0), 'nothing-else-changed', 'what the function has stored gets lost')


@scenario('C27')
def computed_under_a_lock(I):
    """What must not be stored is computed and returned nevertheless."""
    level = I.pick('level', LEVELS)
    S = Stack(I, level=level, api=I.pick('interface', ('CacheTagging', 'CacheWrapper')))
    t, = tags_(1)
    V, V_2 = values_(2)
    if I.pick('transaction', (False, True)):
        S.tx('begin')
    with As(I, thread='T2'):
        R = Stack(I, level=level, backend=S.backend, api='CacheTagging')
        R.tx('begin')
        R.invalidate((t,), V1)
    for v in (V, V_2):
        f = Callback(I, 'compute', v)
        n = len(S.backend.log)
        r = S.get_or_set(KEY, f, (t,), 60, V1)
        stored = bool(entry_writes(S, KEY, n))
        hit = v is V_2 and level not in LOCKING
        I.require(len(f.calls) == (0 if hit else 1), 'computed-once', 'the function is called %d times for one get-or-compute while its tag is locked by another session' % len(f.calls))
        I.require(same(r, V if hit else v), 'computed-value-returned', 'get_or_set_callback does not return what the function has returned (while its tag is locked by another session)')
        I.require(stored == (not hit and level not in LOCKING), 'stored-unless-locked', 'a result is %s while its tag is locked by another session, under %s' % ('stored' if stored else 'not stored', level))
    I.require(S.current() is None, 'computed-once', 'an entry stays under generation after a get-or-compute')


@scenario('C27')
def failing_function(I):
    S = Stack(I, api=I.pick('interface', APIS))
    t, = tags_(1)
    V, old = values_(2)
    err = I.pick('error', (AnyError('failed'), KeyboardInterrupt(), StopIteration()))
    stale = I.pick('before', ('absent', 'stale'))
    if stale == 'stale':
        S.set(KEY, old, (t,), None, V1)
        disturb(S, t, V1, 'new')
    n = len(S.backend.log)
    f = Callback(I, 'compute', exc=err)
    r, e = attempt(I, lambda: S.get_or_set(KEY, f, (t,), None, V1))
    I.require(e is err, 'error-passed-on', 'the error of the function does not reach the caller')
    I.require(len(f.calls) == 1, 'computed-once', 'a function that fails is called again')
    I.require(not entry_writes(S, KEY, n), 'nothing-stored-on-failure', 'an entry is stored although the function failed')
    f = Callback(I, 'compute', V)
    I.require(same(S.get_or_set(KEY, f, (t,), None, V1), V) and len(f.calls) == 1, 'computed-once', 'the function is not called after it has failed before')


# ---------------------------------------------------------------- C28

def _shapes(I):
    x = sym('content', object)
    return (x, 0, 1, '', 'text', False, True, (), [], {}, [x, None], (x, (x,)), {'a': x}, {'__value': x}, {'__dependency': x, '__value': 0}, {x: [x]}, ASet([x]), b'bytes', 1.5)


class Reader(object):
    """All ways of reading one key."""
    WAYS = ('get', 'get by name', 'get, opted out', 'get_many', 'get_many with others', 'get_many, opted out', 'get_or_set_callback', 'in a transaction', 'under generation')

    def __init__(self, S, others=()):
        self.S, self.others = S, list(others)

    def __call__(self, way, key, version):
        S, I = self.S, self.S.I
        if way == 'get':
            return S.do('get', key, None, version)
        if way == 'get by name':
            return S.do('get', key=key, version=version)
        if way == 'get, opted out':
            return S.do('get', key, None, version, True)
        if way == 'get_many':
            return S.do('get_many', [key], version).get(key)
        if way == 'get_many with others':
            return S.do('get_many', self.others[:1] + [key] + self.others[1:], version).get(key)
        if way == 'get_many, opted out':
            return S.do('get_many', (key,), version, True).get(key)
        if way == 'get_or_set_callback':
            f = Callback(I, 'compute', None)
            return S.get_or_set(key, f, (), None, version)
        if way == 'in a transaction':
            S.tx('begin')
            r = S.do('get', key, None, version)
            S.tx('finish')
            return r
        if way == 'under generation':
            k = sym('key under generation', str)
            S.do('get', k, None, version)
            r = S.do('get', key, None, version)
            S.do('abort', k)
            return r
        raise AnalysisError(way)


@scenario('C28')
def read_as_stored(I):
    """Values of every shape, all ways of storing and of reading."""
    S = Stack(I, api=I.pick('interface', APIS))
    version = I.pick('version', (None, V1))
    t, = tags_(1)
    k2, k3 = keys_(2, 'other_key')
    shapes = _shapes(I)
    V = shapes[I.choose(len(shapes), 'value')]
    before = snapshot(V)
    how = I.pick('store', ('with tags', 'without tags', 'computed', 'by other means'))
    if how == 'by other means':
        if isinstance(V, dict) and '__dependency' in V:
            return   # That is a record of the library.
        S.backend.store[(version, KEY)] = V
    elif how == 'computed':
        S.get_or_set(KEY, Callback(I, 'compute', V), (t,), None, version)
    else:
        S.set(KEY, V, (t,) if how == 'with tags' else (), None, version)
    S.set(k2, sym('other value', object), (t,), None, version)
    way = I.pick('read', Reader.WAYS)
    R = Reader(S, (k2, k3))
    for i in range(2):
        r = R(way, KEY, version)
        I.require(same(r, V) and type(r) == type(V) and snapshot(r) == before, 'read-as-stored', 'a value (%s) is not read as it was stored (%s, %s)' % (show(V)[:60], how, way))


@scenario('C28')
def empty_value_and_default(I):
    """An empty value is a value: the default is not returned instead of it."""
    S = Stack(I, api=I.pick('interface', APIS))
    t, = tags_(1)
    V = I.pick('value', (None,) + EMPTY)
    S.set(KEY, V, (t,) if I.pick('tags', (True, False)) else (), None, V1)
    d = sym('default', object)
    I.require(same(S.do('get', KEY, d, V1), V), 'read-as-stored', 'the default is returned instead of the stored value')
    r = S.do('get_many', [KEY], V1)
    I.require(KEY in r and same(r[KEY], V), 'read-as-stored', 'an empty value is left out of a bulk read')
    I.require(same(S.do('get', KEY, default=d, version=V2), d), 'absent-is-absent', 'something is returned for a key that is not stored')


ACTS = {
    'store under another key': lambda S, R: S.set(R['k2'], R['v2'], (R['t'],), None, R['version']),
    'store of another key with another tag': lambda S, R: S.set(R['k2'], R['v2'], (R['t2'],), None, R['version']),
    'store under another version': lambda S, R: S.set(KEY, R['v2'], (R['t'],), None, R['other']),
    'invalidation of another tag': lambda S, R: S.invalidate((R['t2'],), R['version']),
    'invalidation under another version': lambda S, R: S.invalidate((R['t'],), R['other']),
    'invalidation of nothing': lambda S, R: S.invalidate((), R['version']) if S.api != 'CacheWrapper' else None,
    'transaction with another tag': lambda S, R: (S.tx('begin'), S.invalidate((R['t2'],), R['version']), S.tx('finish'), S.finish_threads()),
    'empty transaction': lambda S, R: (S.tx('begin'), S.tx('begin'), S.tx('finish'), S.tx('finish')),
    'deletion of another key': lambda S, R: S.do('delete', R['k2'], R['version']),
    'deletion under another version': lambda S, R: S.do('delete', KEY, R['other']),
    'reads of absent keys': lambda S, R: (S.do('get', R['k2'], None, R['version'], True), S.do('get_many', [R['k2'], KEY], R['version'], True)),
    'abort': lambda S, R: S.do('abort', KEY),
    'failed computation': lambda S, R: attempt(S.I, lambda: S.get_or_set(R['k2'], Callback(S.I, 'compute', exc=AnyError('failed')), (R['t'],), None, R['version'])),
    'close': lambda S, R: S.do('close'),
    'a read under the key': lambda S, R: S.do('get', KEY, None, R['version']),
}
ENDS = {
    'nothing': None,
    'replaced': lambda S, R: S.set(KEY, R['v2'], (R['t2'],), None, R['version']),
    'replaced without tags': lambda S, R: S.set(KEY, R['v2'], (), None, R['version']),
    'deleted': lambda S, R: S.do('delete', KEY, R['version']),
    'invalidated': lambda S, R: S.invalidate((R['t'],), R['version']),
}


def _unchanged(I, S, version, other, acts, ends):
    t, t2 = tags_(2)
    k2, = keys_(1, 'other_key')
    V, v2 = values_(2)
    R = dict(t=t, t2=t2, k2=k2, v2=v2, version=version, other=other)
    S.set(KEY, V, (t,), sym('lifetime', int), version)
    names = sorted(ACTS)
    done = []
    for i in range(acts):
        name = names[I.choose(len(names), 'operation %d' % (i + 1))]
        done.append(name)
        ACTS[name](S, R)
        I.require(same(S.do('get', KEY, None, version, True), V), 'read-as-stored', 'a value is not read as it was stored after: %s' % ', '.join(done))
    end = I.pick('at last', ends)
    if ENDS[end]:
        ENDS[end](S, R)
    want = {'nothing': V, 'replaced': v2, 'replaced without tags': v2, 'deleted': None, 'invalidated': None}[end]
    rule = 'read-as-stored' if want is not None else 'absent-is-absent'
    I.require(same(S.do('get', KEY, None, version), want), rule, '%s: not what is read afterwards (after: %s)' % (end, ', '.join(done)))
    d = S.do('get_many', [KEY], version)
    I.require(same(d.get(KEY), want) and (KEY in d) == (want is not None), rule, '%s: not what is read in bulk afterwards (after: %s)' % (end, ', '.join(done)))


@scenario('C28')
def nothing_else_changes_it(I):
    """Operations on other keys, tags and versions do not change what is read; a replacement replaces."""
    S = Stack(I, level=I.pick('level', ('READ COMMITTED', 'REPEATABLE READ')), api=I.pick('interface', APIS))
    version, other = I.pick('version', ((None, V1), (V1, V2)))
    _unchanged(I, S, version, other, 1, sorted(ENDS))


@scenario('C28')
def two_operations(I):
    _unchanged(I, Stack(I, level='READ COMMITTED'), V1, V2, 2, ('replaced', 'invalidated'))


@scenario('C28', 'thorough')
def three_operations(I):
    S = Stack(I, level=I.pick('level', ('READ UNCOMMITTED', 'SERIALIZABLE')), api=I.pick('interface', APIS))
    _unchanged(I, S, V1, V2, 3, ('replaced', 'deleted'))


@scenario('C28')
def many_values(I):
    """Every key of a bulk read gets its own value."""
    S = Stack(I, api=I.pick('interface', APIS))
    n = I.pick('entries', (1, 2, 3, 40))
    ks, vs = keys_(n), values_(n)
    t, t2 = tags_(2)
    tags = I.pick('tags', ('shared', 'some', 'own', 'none'))
    for i in range(n):
        ts = {'shared': (t, t2), 'some': (t,) if i % 2 else (), 'own': (sym('own_tag%d' % i, str),), 'none': ()}[tags]
        S.set(ks[i], vs[i], ts, None, V1)
    lost = {}
    if tags == 'own' and I.pick('some lost', (False, True)):
        for i in range(0, n, 3):
            disturb(S, sym('own_tag%d' % i, str), V1, 'new' if i % 2 else 'gone')
            lost[i] = True
    form = I.pick('keys', ('list', 'tuple', 'iterator', 'set', 'reversed', 'repeated'))
    given = {'list': list(ks), 'tuple': tuple(ks), 'iterator': iter(list(ks)), 'set': ASet(ks), 'reversed': list(reversed(ks)), 'repeated': list(ks) + list(ks)}[form]
    d = S.do('get_many', given, V1)
    I.require(len(d) == n - len(lost) and all(k in d and same(d[k], v) for i, (k, v) in enumerate(zip(ks, vs)) if i not in lost), 'read-as-stored', 'a bulk read does not give every key its own value (%d entries, %s)' % (n, form))
