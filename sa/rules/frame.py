"""C29-C32: which keys operations touch, how many queries they make, what a failing cache leaves behind, separate caches."""
from .base import *
from .locking import APIS, LOCKING, mark_keys


def _keys_of(I, tags):
    """version keys and mark keys of tags."""
    vs = [tag_key(I, t) for t in tags]
    ms = []
    for t in tags:
        a, r = mark_keys(I, t)
        ms += a + r
    return vs, ms


def among(k, ks):
    return any(same(k, x) for x in ks)


def touched(I, S, n, version, reads=(), writes=(), deletes=(), what=''):
    """Everything since n in the log is a read, write or deletion of one of these keys under this version."""
    for o in S.backend.log[n:]:
        if o.op == 'get':
            I.require(among(o.key, reads), 'only-own-keys-read', '%s looks up a key it is not responsible for' % what)
        elif o.op in ('set', 'add'):
            I.require(among(o.key, writes), 'only-own-keys-written', '%s writes a key it is not responsible for' % what)
        elif o.op == 'delete':
            I.require(among(o.key, deletes), 'only-own-keys-deleted', '%s deletes a key it is not responsible for' % what)
        elif o.op != 'close':
            I.require(False, 'no-other-operation', '%s makes another operation (%s) on the underlying cache' % (what, o.op))
        if o.op != 'close':
            I.require(same(o.version, version), 'only-own-version', '%s touches the contents under another cache version' % what)
    I.require(True, 'only-own-keys-written', what)


# ---------------------------------------------------------------- C29

@scenario('C29')
def reads(I):
    """Reads of any kind, of entries in any state, change nothing in the underlying cache."""
    S = Stack(I, level=I.pick('level', ('READ COMMITTED', 'REPEATABLE READ')), api=I.pick('interface', APIS))
    version = I.pick('version', (None, V1))
    k1, k2, k3, k4 = keys_(4)
    t1, t2 = tags_(2)
    v1, v2, v3 = values_(3)
    S.set(k1, v1, (t1, t2), None, version)
    S.set(k2, v2, (t2,), None, version)
    S.backend.store[(version, k3)] = v3
    how = I.pick('version of the tags', ('same', 'new', 'gone', 'one gone'))
    if how != 'same':
        for t in (t1, t2)[:1 if how == 'one gone' else 2]:
            disturb(S, t, version, 'gone' if how == 'one gone' else how)
    where = I.pick('place', ('outside', 'in a transaction', 'after invalidation in the transaction', 'under generation'))
    if 'transaction' in where:
        S.tx('begin')
    if where.startswith('after'):
        S.invalidate((t2,), version)
    if where == 'under generation':
        S.do('get', k4, None, version)
    vs, ms = _keys_of(I, (t1, t2))
    n = len(S.backend.log)
    op = I.pick('read', ('get', 'get with default', 'get, opted out', 'get_many', 'get_many, opted out'))
    key = I.pick('key', (k1, k2, k3, k4)) if not op.startswith('get_many') else None
    if op == 'get with default':
        S.do('get', key, v3, version)
    elif op.startswith('get_many'):
        S.do('get_many', [k1, k2, k3, k4], version, op.endswith('out'))
    else:
        S.do('get', key, None, version, op.endswith('out'))
    mine = [k1, k2, k3, k4] if key is None else [key]
    tags = (vs if key is k1 or key is None else vs[1:] if key is k2 else [])
    touched(I, S, n, version, mine + tags, what='a read (%s, %s)' % (op, where))


@scenario('C29')
def tracking(I):
    """Beginning and ending the generation of entries, and scopes without invalidations, leave the underlying cache alone."""
    S = Stack(I, level=I.pick('level', LEVELS), delay=I.pick('delay', (0, 3)), api=I.pick('interface', APIS))
    k0, k1 = keys_(2)
    t, = tags_(1)
    v0, v1 = values_(2)
    if I.pick('before', ('nothing', 'under generation')) != 'nothing':
        S.do('get', k0, None, V1)
        S.do('get', k1, None, V1)
        S.set(k1, v1, (t,), None, V1)
    n = len(S.backend.log)
    op = I.pick('operation', ('begin', 'abort', 'abort of another', 'close', 'transaction', 'nested transactions', 'flush', 'decorated', 'failed scope', 'close in a transaction', 'invalidation of nothing'))
    if op == 'begin':
        S.do('begin', sym('new_key', str))
    elif op.startswith('abort'):
        S.do('abort', k0 if op == 'abort' else sym('new_key', str))
    elif op == 'close':
        S.do('close')
    elif op.startswith(('transaction', 'nested')):
        depth = 1 if op == 'transaction' else 3
        for _ in range(depth):
            S.tx('begin')
        for _ in range(depth):
            S.tx('finish')
    elif op in ('flush', 'close in a transaction'):
        S.tx('begin')
        S.tx('begin')
        S.tx('flush') if op == 'flush' else S.do('close')
    elif op == 'decorated':
        I.call(I.call(S.transaction, [NFn('f', lambda: None)], {}), [], {})
    elif op == 'failed scope':
        f = I.call(S.transaction, [Callback(I, 'f', exc=AnyError('failed'))], {})
        attempt(I, lambda: I.call(f, [], {}))
    elif op == 'invalidation of nothing':
        S.tx('begin')
        S.invalidate(composite(I, dummy_dep(I)) if S.api == 'CacheWrapper' else (), V1)
        S.tx('finish')
    S.finish_threads()
    touched(I, S, n, V1, what=op)


@scenario('C29')
def stores(I):
    """A store writes its entry, and versions of its tags that have none."""
    level = I.pick('level', ('READ COMMITTED', 'REPEATABLE READ'))
    S = Stack(I, level=level, api=I.pick('interface', APIS))
    version = I.pick('version', (None, V1))
    k0, k1, k2 = keys_(3)
    t0, t1, t2, t3 = tags_(4)
    v0, v1, v2 = values_(3)
    S.set(k2, v2, (t3,), None, version)
    known = I.pick('tags with versions', ('none', 'some', 'all'))
    have = {'none': (), 'some': (t1,), 'all': (t0, t1, t2)}[known]
    for t in have:
        S.backend.store[(version, tag_key(I, t))] = sym('version of %s' % show(t), str)
    place = I.pick('place', ('alone', 'enclosing', 'in a transaction', 'after invalidation in the transaction'))
    inherited = ()
    if place == 'enclosing':
        S.do('get', k0, None, version)
        S.do('get', k1, None, version)
        S.set(k1, v1, (t1, t2), None, version)
        inherited = (t1, t2)
        have = have + inherited
    if 'transaction' in place:
        S.tx('begin')
    if place.startswith('after'):
        S.invalidate((t3,), version)
    own = (t0, t1) if I.pick('own tags', ('two', 'none')) == 'two' else ()
    tags = [t for t in (t0, t1, t2) if t in own or t in inherited]
    vs, ms = _keys_of(I, tags)
    missing = [tag_key(I, t) for t in tags if t not in have]
    n = len(S.backend.log)
    if I.pick('operation', ('set', 'compute')) == 'set':
        S.set(k0, v0, own, None, version)
        look = vs + ms
    else:
        S.get_or_set(k0, Callback(I, 'compute', v0), own, None, version)
        look = vs + ms + [k0]
    touched(I, S, n, version, look, [k0] + missing, what='a store (%s)' % place)
    w = S.backend.writes(n)
    for k in [k0] + missing:
        I.require(len([o for o in w if same(o.key, k)]) == 1, 'written-once', 'a store does not write its entry and each new version exactly once')


@scenario('C29')
def locked_store(I):
    """A store that is held off by a lock writes nothing."""
    Clock(I)
    S = Stack(I, level='REPEATABLE READ', api=I.pick('interface', ('CacheTagging', 'CacheWrapper')))
    t1, t2 = tags_(2)
    v1, = values_(1)
    with As(I, thread='T2'):
        O = Stack(I, level='REPEATABLE READ', backend=Backend(I, share=S.backend), api='CacheTagging')
        O.tx('begin')
        O.invalidate((t1,), V1)
    vs, ms = _keys_of(I, (t1, t2))
    n = len(S.backend.log)
    S.set(KEY, v1, (t1, t2), None, V1)
    touched(I, S, n, V1, vs + ms, what='a store held off by a lock')


@scenario('C29')
def invalidations(I):
    """Invalidations and ends of transactions delete versions of their tags and write marks of them."""
    level = I.pick('level', LEVELS)
    delay = I.pick('delay', (0, 3))
    S = Stack(I, level=level, delay=delay, api=I.pick('interface', APIS))
    version = I.pick('version', (None, V1))
    k1, k2 = keys_(2)
    t1, t2, t3 = tags_(3)
    v1, v2 = values_(2)
    S.set(k1, v1, (t1, t3), None, version)
    S.set(k2, v2, (t3,), None, V2)
    depth = I.pick('transactions', (0, 1, 2))
    for _ in range(depth):
        S.tx('begin')
    vs, ms = _keys_of(I, (t1, t2))
    n = len(S.backend.log)
    tags = (t1, t2)
    form = I.pick('form', ('tags', 'composite', 'one after the other'))
    if form == 'one after the other':
        S.invalidate((t1,), version)
        S.invalidate((t2,), version)
    else:
        S.invalidate(composite(I, tags_dep(I, t1), dummy_dep(I), tags_dep(I, t2)) if form == 'composite' else tags, version)
    locking = level in LOCKING and depth
    touched(I, S, n, version, (), ms if locking else (), vs, 'an invalidation')
    for _ in range(depth):
        n = len(S.backend.log)
        S.tx('finish')
        touched(I, S, n, version, (), ms if locking else (), vs, 'the end of a transaction')
    n = len(S.backend.log)
    S.finish_threads()
    touched(I, S, n, version, (), (), vs, 'the delayed invalidation')


# ---------------------------------------------------------------- C30

def queries(S, n):
    """Number of calls of the underlying cache that stand behind the log since n."""
    seen, k = set(), 0
    for o in S.backend.log[n:]:
        if o.bulk is None:
            k += 1
        elif (o.op == 'get', o.bulk) not in seen:
            seen.add((o.op == 'get', o.bulk))
            k += 1
    return k


def _count(I, what, api, level, size, version, state, part):
    S = Stack(I, level=level, api=api)
    ts, ks, vs = tags_(size, what + ' tag'), keys_(size, what + ' key'), values_(size)
    for t in (ts if state == 'known tags' else ts[:size // 2] if state == 'some known' else ()):
        S.backend.store[(version, tag_key(I, t))] = sym('version of %s' % show(t), str)
    if what == 'store':
        n = len(S.backend.log)
        S.set(KEY, vs[0], tuple(ts), None, version)
    elif what == 'store of an enclosing entry':
        S.do('get', KEY, None, version)
        for k, v, t in zip(ks, vs, ts):
            S.do('get', k, None, version)
            S.set(k, v, (t,), None, version)
        n = len(S.backend.log)
        S.set(KEY, vs[0], (), None, version)
    elif what == 'store inside of many entries':
        for k in ks:
            S.do('get', k, None, version)
        n = len(S.backend.log)
        S.set(ks[-1], vs[0], (ts[0],), None, version)
    elif what == 'read':
        S.set(KEY, vs[0], tuple(ts), None, version)
        n = len(S.backend.log)
        S.do('get', KEY, None, version)
    elif what == 'bulk read':
        for k, v, t in zip(ks, vs, ts):
            S.set(k, v, (t, ts[0]), None, version)
        n = len(S.backend.log)
        S.do('get_many', ks, version)
    elif what == 'bulk read of absent entries':
        n = len(S.backend.log)
        S.do('get_many', ks, version)
    elif what == 'bulk read of stale entries':
        for k, v, t in zip(ks, vs, ts):
            S.set(k, v, (t,), None, version)
        for t in ts:
            disturb(S, t, version, 'new')
        n = len(S.backend.log)
        S.do('get_many', ks, version)
    elif what in ('invalidation', 'invalidation in a transaction', 'end of a transaction', 'end after many invalidations'):
        if what != 'invalidation':
            S.tx('begin')
        n = len(S.backend.log)
        if what == 'end after many invalidations':
            for t in ts:
                S.invalidate((t,), version)
        else:
            S.invalidate(tuple(ts), version)
        if what.startswith('end'):
            n = len(S.backend.log)
            S.tx('finish')
    else:
        raise AnalysisError(what)
    return queries(S, n)


WORK = ('store', 'store of an enclosing entry', 'store inside of many entries', 'read', 'bulk read', 'bulk read of absent entries', 'bulk read of stale entries',
        'invalidation', 'invalidation in a transaction', 'end of a transaction', 'end after many invalidations')


@scenario('C30')
def independent_of_size(I):
    what = I.pick('operation', WORK)
    api = I.pick('interface', APIS[:2])
    level = I.pick('level', LEVELS)
    version = I.pick('version', (None, V1))
    state = I.pick('tags', ('new tags', 'known tags', 'some known') if what.startswith('store') else ('new tags',))
    small, large = [_count(I, what, api, level, size, version, state, i) for i, size in enumerate((2, I.pick('size', (3, 9, 40))))]
    I.require(large <= small, 'queries-independent-of-size', 'the number of queries of a %s grows with the number of its tags or entries (%d for 2, %d for more)' % (what, small, large))


@scenario('C30', max_steps=20000000)
def beyond_usual_batches(I):
    what = I.pick('operation', WORK)
    level = I.pick('level', ('READ COMMITTED', 'REPEATABLE READ'))
    small, large = [_count(I, what, 'CacheTagging', level, size, V1, 'new tags', i) for i, size in enumerate((2, 130))]
    I.require(large <= small, 'queries-independent-of-size', 'the number of queries of a %s grows with the number of its tags or entries (%d for 2, %d for 130)' % (what, small, large))


@scenario('C30')
def looked_up_together(I):
    """Versions and marks of all tags of a store are looked up together; a read looks up the entries, and all their tags together."""
    S = Stack(I, level=I.pick('level', LEVELS), api=I.pick('interface', APIS[:2]))
    ts, ks, vs = tags_(4), keys_(3), values_(3)
    if I.pick('transaction', (False, True)):
        S.tx('begin')
    kind = I.pick('dependency', ('tags', 'parts', 'none') if S.api == 'CacheWrapper' else ('tags', 'none'))
    dep = lambda *t: () if kind == 'none' else t if kind == 'tags' else composite(I, tags_dep(I, t[0]), dummy_dep(I), composite(I, *[tags_dep(I, x) for x in t[1:]]))
    S.do('get', KEY, None, V1)
    S.do('get', ks[0], None, V1)
    S.set(ks[0], vs[0], (ts[2], ts[3]), None, V1)
    for k, what in ((KEY, 'a store that inherits'), (ks[1], 'a store')):
        n = len(S.backend.log)
        S.set(k, vs[1], dep(ts[0], ts[1]), None, V1)
        q = len({o.bulk if o.bulk is not None else ('n', o.n) for o in S.backend.log[n:] if o.op == 'get'})
        I.require(q <= 1, 'looked-up-together', '%s makes %d queries to look up versions and marks' % (what, q))
    for what, f in (('read', lambda: S.do('get', KEY, None, V1, True)), ('bulk read', lambda: S.do('get_many', [KEY, ks[0], ks[1], ks[2]], V1, True))):
        n = len(S.backend.log)
        f()
        q = queries(S, n)
        I.require(q <= 2, 'looked-up-together', 'a %s makes %d queries' % (what, q))


@scenario('C30')
def django_interface(I):
    """The same through the objects of the Django package."""
    what = I.pick('operation', WORK)
    level = I.pick('level', ('READ COMMITTED', 'SERIALIZABLE'))
    counts = []
    for size in (2, 12):
        I.djcaches.stores.clear()
        I.djcaches.conns.clear()
        for m in list(I.mods):
            if m.split('.')[0] == 'django_cache_dependencies':
                del I.mods[m]
        counts.append(_count(I, what, 'django', level, size, None, 'new tags', size))
    I.require(counts[1] <= counts[0], 'queries-independent-of-size', 'the number of queries of a %s grows with the number of its tags or entries (%d for 2, %d for 12)' % (what, counts[0], counts[1]))


# ---------------------------------------------------------------- C31

def _operation(I, S, op, R):
    t, t2, k2 = R['t'], R['t2'], R['k2']
    if op == 'get':
        return S.do('get', KEY, None, V1)
    if op == 'get, opted out':
        return S.do('get', KEY, None, V1, True)
    if op == 'get_many':
        return S.do('get_many', [KEY, k2], V1)
    if op == 'compute':
        return S.get_or_set(KEY, Callback(I, 'compute', R['v2']), (t, t2), None, V1)
    if op == 'set':
        return S.set(KEY, R['v2'], (t, t2), None, V1)
    if op == 'invalidate':
        return S.invalidate((t, t2), V1)
    if op == 'finish':
        return S.tx('finish')
    if op == 'flush':
        return S.tx('flush')
    if op == 'close':
        return S.do('close')
    raise AnalysisError(op)


@scenario('C31')
def failing_cache(I):
    """The n-th operation of the underlying cache fails: the error reaches the caller, and everything works afterwards."""
    level = I.pick('level', ('READ COMMITTED', 'REPEATABLE READ'))
    S = Stack(I, level=level, api=I.pick('interface', APIS))
    t, t2, t3, t4 = tags_(4)
    k0, k2, k4 = keys_(3, 'other_key')
    v1, v2, v3, v0 = values_(4)
    R = dict(t=t, t2=t2, k2=k2, v2=v2)
    before = I.pick('entry', ('absent', 'stored', 'stale'))
    if before != 'absent':
        S.set(KEY, v1, (t,), None, V1)
        if before == 'stale':
            disturb(S, t, V1, 'new')
    depth = I.pick('transactions', (0, 1, 2))
    for _ in range(depth):
        S.tx('begin')
    op = I.pick('operation', ('get', 'get, opted out', 'get_many', 'compute', 'set', 'invalidate') + (('finish', 'flush', 'close') if depth else ()))
    if op in ('finish', 'flush', 'close'):
        S.invalidate((t3,), V1)
    outer = I.pick('under generation', (False, True))
    if outer:
        S.do('get', k0, None, V1)
    err = AnyError('of the cache')
    at = I.pick('fails at', (1, 2, 3, 4))
    count, failed = [0], [False]

    def boom(o):
        count[0] += 1
        if count[0] == at:
            failed[0] = True
            S.backend.fail = None
            I.throw(err)
    S.backend.fail = boom
    r, e = attempt(I, lambda: _operation(I, S, op, R))
    S.backend.fail = None
    if not failed[0]:
        I.require(e is None, 'no-error', '%s fails although the underlying cache does not' % op)
        return
    I.require(e is err, 'failure-reaches-caller', 'a failure of the underlying cache in "%s" does not reach the caller as it is' % op)
    want = {'finish': max(depth - 1, 0), 'flush': None, 'close': None}.get(op, depth)
    if want is not None:
        I.require(S.depth() == want, 'scopes-as-before', 'after a failure in "%s" %d scopes are open instead of %d' % (op, S.depth(), want))
    if op == 'close':
        outer = False
    if op not in ('flush', 'finish'):
        c = S.current()
        I.require(c is None if not outer else c is not None and same(c, k0), 'tracking-as-before', 'after a failure in "%s" another entry is under generation than before' % op)
    # everything works afterwards
    quiet(I, lambda: S.tx('flush'), 'usable-afterwards', 'the transaction cannot be ended after a failure in "%s"' % op)
    I.require(S.depth() == 0, 'usable-afterwards', 'scopes are left open after a failure in "%s"' % op)
    S.set(KEY, v3, (t, t2), None, V1)
    I.require(same(S.do('get', KEY, None, V1), v3), 'usable-afterwards', 'a value stored after a failure in "%s" is not found' % op)
    if outer:
        S.set(k0, v0, (), None, V1)
        I.require(same(S.do('get', k0, None, V1, True), v0), 'usable-afterwards', 'the enclosing entry stored after a failure in "%s" is not found' % op)
        I.require(S.current() is None, 'usable-afterwards', 'after a failure in "%s" an entry stays under generation' % op)
    S.invalidate((t2,), V1)
    I.require(S.do('get', KEY, None, V1, True) is None, 'usable-afterwards', 'an invalidation after a failure in "%s" has no effect' % op)
    if outer:
        I.require(S.do('get', k0, None, V1, True) is None, 'usable-afterwards', 'an entry nested in another one after a failure in "%s" is not inherited' % op)
    if op in ('get_many', 'get', 'compute'):
        for k in (KEY, k2):
            S.do('delete', k, V1)
        S.do('get', k4, None, V1)
        S.do('get_many', [KEY, k2], V1)
        S.do('get', k2, None, V1)
        S.set(k2, v2, (t4,), None, V1)
        S.set(k4, v0, (), None, V1)
        S.invalidate((t4,), V1)
        I.require(S.do('get', k4, None, V1, True) is None, 'usable-afterwards', 'an entry generated after a failure in "%s" does not inherit what is nested in it' % op)


@scenario('C31')
def repeated_at_the_end(I):
    """An invalidation whose deletion has failed is repeated at the end of the transaction."""
    level = I.pick('level', LEVELS)
    S = Stack(I, level=level, api=I.pick('interface', APIS))
    t, = tags_(1)
    v1, = values_(1)
    S.set(KEY, v1, (t,), None, V1)
    depth = I.pick('transactions', (1, 2))
    for _ in range(depth):
        S.tx('begin')
    err = AnyError('of the cache')

    def boom(o):
        if o.op == 'delete':
            S.backend.fail = None
            I.throw(err)
    S.backend.fail = boom
    r, e = attempt(I, lambda: S.invalidate((t,), V1))
    I.require(e is err, 'failure-reaches-caller', 'a failing deletion does not reach the caller of the invalidation')
    S.backend.fail = None
    for _ in range(depth):
        S.tx('finish')
    S.finish_threads()
    I.require(S.do('get', KEY, None, V1) is None, 'repeated-at-the-end', 'an invalidation whose deletion failed is not repeated at the end of the transaction')


# ---------------------------------------------------------------- C32

def _two(I, how, levels):
    if how == 'caches[alias]':
        pkg = I.import_module('django_cache_dependencies')
        out = []
        I.settings.CACHE_TAGGING = {a: {'ISOLATION_LEVEL': l} for a, l in zip(('first', 'second'), levels)}
        for a in ('first', 'second'):
            S = Stack.__new__(Stack)
            S.I, S.api, S.thread, S.accessed = I, 'django', I.thread, []
            S.cache = I.getitem(cls(I, pkg.name, 'caches'), a)
            S.wrapper, S.transaction, S.relations = I.getattr(S.cache, 'cache'), I.getattr(S.cache, 'transaction'), I.getattr(S.cache, 'relation_manager')
            S.backend = I.djcaches.storage(a)
            out.append(S)
        return out
    return [Stack(I, level=l, api=how, backend=Backend(I, name)) for name, l in zip(('first', 'second'), levels)]


OTHER = {
    'missed read': lambda S, R: S.do('get', R['k'], None, V1),
    'bulk read': lambda S, R: S.do('get_many', [R['k'], R['k2']], V1),
    'store': lambda S, R: S.set(R['k'], R['w'], (R['t'],), None, V1),
    'nested stores': lambda S, R: (S.do('get', R['k2'], None, V1), S.do('get', R['k'], None, V1), S.set(R['k'], R['w'], (R['t2'],), None, V1)),
    'invalidation': lambda S, R: S.invalidate((R['t'],), V1),
    'transaction': lambda S, R: (S.tx('begin'), S.invalidate((R['t'],), V1)),
    'transactions ended': lambda S, R: (S.tx('begin'), S.tx('begin'), S.invalidate((R['t'],), V1), S.tx('finish'), S.tx('finish'), S.finish_threads()),
    'flush': lambda S, R: S.tx('flush'),
    'finish': lambda S, R: S.tx('finish'),
    'close': lambda S, R: S.do('close'),
    'abort': lambda S, R: S.do('abort', R['k']),
    'opting out': lambda S, R: S.I.setattr(S.cache if S.api != 'CacheWrapper' else S.wrapper, 'ignore_descendants', True),
    'computation': lambda S, R: S.get_or_set(R['k'], Callback(S.I, 'compute', R['w']), (R['t'],), None, V1),
}


@scenario('C32')
def separate(I):
    """While an entry is generated inside of a transaction in one cache, anything may happen in another one."""
    how = I.pick('caches', ('CacheTagging', 'CacheWrapper', 'caches[alias]'))
    levels = I.pick('levels', (('READ COMMITTED', 'REPEATABLE READ'), ('REPEATABLE READ', 'READ COMMITTED'), ('SERIALIZABLE', 'SERIALIZABLE')))
    A, B = _two(I, how, levels)
    k, k2, k3, k4 = keys_(4)
    t, t2, t3, t4 = tags_(4)
    v, w, v2, v3 = values_(4)
    R = dict(k=k, k2=k2, t=t, t2=t2, w=w)
    # in the first cache: a valid entry, a transaction with an invalidation, an entry under generation with one nested in it
    A.set(k, v, (t,), None, V1)
    A.tx('begin')
    A.invalidate((t3,), V1)
    A.do('get', k3, None, V1)
    A.set(k4, v2, (t4,), None, V1)
    n = len(A.backend.log)
    name = sorted(OTHER)[I.choose(len(OTHER), 'in the other cache')]
    again = I.pick('then', ('nothing', 'store', 'close', 'transaction'))
    for x in (name, again):
        if x in OTHER:
            OTHER[x](B, R)
    I.require(len(A.backend.log) == n, 'contents-separate', 'operations on one cache touch the contents of another one (%s, %s)' % (name, again))
    c = A.current()
    I.require(c is not None and same(c, k3), 'tracking-separate', 'operations on one cache change what is under generation in another one (%s, %s)' % (name, again))
    I.require(A.depth() == 1, 'scopes-separate', 'operations on one cache change the open scopes of another one (%s, %s)' % (name, again))
    m = len(B.backend.log)
    cb, db = B.current(), B.depth()
    I.require(same(A.do('get', k, None, V1, True), v), 'contents-separate', 'an entry of one cache is lost by operations on another one (%s, %s)' % (name, again))
    A.set(k3, v3, (), None, V1)
    I.require(A.current() is None, 'tracking-separate', 'the tracking of one cache is disturbed by another one (%s, %s)' % (name, again))
    for tag, yes in ((t4, True), (t, False), (t2, False)):
        old = A.backend.store.get((V1, tag_key(I, tag)), ABSENT)
        disturb(A, tag, V1, 'new')
        r = A.do('get', k3, None, V1, True)
        A.backend.store[(V1, tag_key(I, tag))] = old
        I.require((r is None) == yes, 'tracking-separate', 'an entry inherits from another cache, or loses what is nested in it (%s, %s)' % (name, again))
    n = len(A.backend.log)
    A.tx('finish')
    I.require(A.depth() == 0, 'scopes-separate', 'operations on one cache change the open scopes of another one (%s, %s)' % (name, again))
    I.require({show(o.key) for o in A.backend.deletes(n)} == {show(tag_key(I, t3))}, 'transactions-separate', 'the end of a transaction releases something else than what was invalidated in this cache (%s, %s)' % (name, again))
    I.require(bool(A.backend.writes(n)) == (levels[0] in LOCKING), 'levels-separate', 'a cache does not use its own isolation level')
    I.require(len(B.backend.log) == m, 'contents-separate', 'operations on one cache touch the contents of another one')
    I.require(same(B.current(), cb) and B.depth() == db, 'scopes-separate', 'operations on one cache change scopes or tracking of another one')


@scenario('C32')
def aliases_of_one_cache(I):
    """Two aliases of different levels over the same cache of Django share its contents, and nothing else."""
    pkg = I.import_module('django_cache_dependencies')
    levels = I.pick('levels', (('READ COMMITTED', 'REPEATABLE READ'), ('SERIALIZABLE', 'READ UNCOMMITTED'), ('REPEATABLE READ', 'SERIALIZABLE')))
    I.settings.CACHE_TAGGING = {a: {'ISOLATION_LEVEL': l, 'BACKEND': 'default'} for a, l in zip(('first', 'second'), levels)}
    A, B = [], []
    for a, out in (('first', A), ('second', B)):
        S = Stack.__new__(Stack)
        S.I, S.api, S.thread, S.accessed = I, 'django', I.thread, []
        S.cache = I.getitem(cls(I, pkg.name, 'caches'), a)
        S.wrapper, S.transaction, S.relations = I.getattr(S.cache, 'cache'), I.getattr(S.cache, 'transaction'), I.getattr(S.cache, 'relation_manager')
        S.backend = I.djcaches.storage('default')
        out.append(S)
    (A,), (B,) = A, B
    k, k2, k3, k4 = keys_(4)
    t, t2, t3, t4 = tags_(4)
    w, v2, v3 = values_(3)
    A.tx('begin')
    n = len(A.backend.log)
    A.invalidate((t3,), V1)
    I.require(bool(A.backend.writes(n)) == (levels[0] in LOCKING), 'levels-separate', 'an alias does not use its own isolation level')
    A.do('get', k3, None, V1)
    A.set(k4, v2, (t4,), None, V1)
    name = sorted(OTHER)[I.choose(len(OTHER), 'in the other cache')]
    OTHER[name](B, dict(k=k, k2=k2, t=t, t2=t2, w=w))
    c = A.current()
    I.require(c is not None and same(c, k3), 'tracking-separate', 'operations on one alias change what is under generation in another one (%s)' % name)
    I.require(A.depth() == 1, 'scopes-separate', 'operations on one alias change the open scopes of another one (%s)' % name)
    while B.depth():
        B.tx('finish')
    n = len(B.backend.log)
    B.tx('begin')
    B.invalidate((t2,), V1)
    B.tx('finish')
    I.require(bool(B.backend.writes(n)) == (levels[1] in LOCKING), 'levels-separate', 'an alias does not use its own isolation level')
    B.finish_threads()
    A.set(k3, v3, (), None, V1)
    for tag, yes in ((t4, True), (t, False), (t2, False)):
        old = A.backend.store.get((V1, tag_key(I, tag)), ABSENT)
        disturb(A, tag, V1, 'new')
        r = A.do('get', k3, None, V1, True)
        A.backend.store[(V1, tag_key(I, tag))] = old
        I.require((r is None) == yes, 'tracking-separate', 'an entry inherits from another alias, or loses what is nested in it (%s)' % name)
    n = len(A.backend.log)
    A.tx('finish')
    I.require({show(o.key) for o in A.backend.deletes(n)} == {show(tag_key(I, t3))}, 'transactions-separate', 'the end of a transaction releases something else than what was invalidated in this alias (%s)' % name)
    I.require(bool(A.backend.writes(n)) == (levels[0] in LOCKING), 'levels-separate', 'an alias does not use its own isolation level')


@scenario('C32')
def made_later(I):
    """What has happened in one cache does not show in one that is made later."""
    how = I.pick('caches', ('CacheTagging', 'CacheWrapper', 'caches[alias]'))
    levels = I.pick('levels', (('READ COMMITTED', 'REPEATABLE READ'), ('SERIALIZABLE', 'READ COMMITTED')))
    delays = I.pick('delays', ((0, 5), (5, 0)))
    k, k2, k3, k4 = keys_(4)
    t, t2, t3, t4 = tags_(4)
    w, v2, v3 = values_(3)
    made = []
    for i, alias in enumerate(('first', 'second')):
        if how == 'caches[alias]':
            pkg = I.import_module('django_cache_dependencies')
            I.settings.CACHE_TAGGING = {a: {'ISOLATION_LEVEL': l, 'DELAY': d} for a, l, d in zip(('first', 'second'), levels, delays)}
            S = Stack.__new__(Stack)
            S.I, S.api, S.thread, S.accessed = I, 'django', I.thread, []
            S.cache = I.getitem(cls(I, pkg.name, 'caches'), alias)
            S.wrapper, S.transaction, S.relations = I.getattr(S.cache, 'cache'), I.getattr(S.cache, 'transaction'), I.getattr(S.cache, 'relation_manager')
            S.backend = I.djcaches.storage(alias)
        else:
            S = Stack(I, level=levels[i], delay=delays[i], api=how, backend=Backend(I, alias))
        made.append(S)
        if not i:
            for x in range(2):
                name = sorted(OTHER)[I.choose(len(OTHER), 'in the first cache')]
                OTHER[name](S, dict(k=k, k2=k2, t=t, t2=t2, w=w))
    B, A = made
    n, m = len(B.backend.log), len(I.timers)
    I.require(A.depth() == 0 and A.current() is None and I.getattr(A.cache, 'ignore_descendants') is False, 'scopes-separate', 'a cache made later begins with scopes, entries under generation or an opting out of another one')
    A.tx('begin')
    A.invalidate((t3,), V1)
    A.do('get', k, None, V1)
    A.do('get', k2, None, V1)
    A.set(k2, v2, (t4,), None, V1)
    A.set(k, v3, (), None, V1)
    I.require(A.current() is None, 'tracking-separate', 'the tracking of a cache made later is disturbed by another one')
    x = len(A.backend.log)
    A.tx('finish')
    I.require(A.depth() == 0, 'scopes-separate', 'a scope of a cache made later does not end')
    later = list(I.timers)[m:]
    lock = levels[1] in LOCKING
    I.require(bool(A.backend.writes(x)) == lock and len(later) == (1 if delays[1] and not lock else 0) and all(same(y.interval, delays[1]) for y in later), 'levels-separate', 'a cache made later does not use its own isolation level and delay')
    I.require({show(o.key) for o in A.backend.deletes(x)} == {show(tag_key(I, t3))}, 'transactions-separate', 'the end of a transaction releases something else than what was invalidated in this cache')
    I.require(same(A.do('get', k, None, V1, True), v3), 'contents-separate', 'an entry of a cache made later is not found')
    disturb(A, t4, V1, 'new')
    I.require(A.do('get', k, None, V1, True) is None, 'tracking-separate', 'an entry of a cache made later loses what is nested in it')
    I.require(len(B.backend.log) == n, 'contents-separate', 'operations on one cache touch the contents of another one')
