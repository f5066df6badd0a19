"""C06-C10: invalidation, transactions, isolation levels and locks."""
from .base import *

APIS = ('CacheTagging', 'CacheWrapper', 'django')
LOCKING = ('REPEATABLE READ', 'SERIALIZABLE')
CUSTOM = '''
from cache_dependencies import interfaces

class OwnDependency(interfaces.IDependency):
    def __init__(self, log):
        self.log = log
    def evaluate(self, cache, transaction, version):
        self.log.append(('evaluate', version))
    def invalidate(self, cache, version):
        self.log.append(('invalidate', version))
    def acquire(self, cache, transaction, version):
        self.log.append(('acquire', version))
    def release(self, cache, transaction, delay, version):
        self.log.append(('release', version))
    def extend(self, other):
        return False
    def __copy__(self):
        return OwnDependency(self.log)
'''


def invalidated(S, tag, version, since=0):
    """The deletions of the version of a tag."""
    return [o for o in tag_ops(S, tag, S.backend.deletes(since)) if o.version == version]


def position(S, op):
    return [i for i, o in enumerate(S.backend.log) if o is op][0]


def marks(S, since=0):
    """Writes which are neither entries nor versions of tags: lock marks."""
    return S.backend.writes(since)


def mark_keys(I, tag):
    """(acquire key, release key) of a tag, as the library itself uses them."""
    with As(I, thread='T7'):
        B = Backend(I)
        P = Stack(I, level='REPEATABLE READ', backend=B, api='CacheTagging')
        P.tx('begin')
        n = len(B.log)
        P.invalidate((tag,), None)
        a = [o for o in B.writes(n)]
        n = len(B.log)
        P.tx('finish')
        r = [o for o in B.writes(n)]
    return [o.key for o in a], [o.key for o in r]


def mark_ops(S, key, version, since=0):
    return [o for o in S.backend.writes(since) if same(o.key, key) and o.version == version]


def one(I, xs, what):
    I.require(len(xs) == 1, 'one-mark', '%s leaves %d marks' % (what, len(xs)))
    return xs[0] if xs else sym('missing_mark_key', str)


# ---------------------------------------------------------------- C06

@scenario('C06')
def every_tag(I):
    level = I.pick('level', LEVELS)
    S = Stack(I, level=level, api=I.pick('interface', APIS))
    version = I.pick('version', (None, V1))
    depth = I.pick('transactions', (0, 1, 2))
    for _ in range(depth):
        S.tx('begin')
    ts = tags_(3)
    n = len(S.backend.log)
    ts = ts[:I.pick('number of tags', (1, 3))]
    S.invalidate(tuple(ts), version)
    for t in ts:
        d = invalidated(S, t, version, n)
        I.require(d, 'version-deleted', 'invalidation does not delete the version of %s under the cache version of the caller at once' % show(t))
        w = [o for o in S.backend.writes(n)]
        if depth and level in LOCKING and d:
            I.require(w and max(o.n for o in w) < min(o.n for o in S.backend.deletes(n)), 'announced-before-deleted',
                      'something is deleted before the transaction has got the dependency (and marked its tags)')
    ks = [tag_key(I, t) for t in ts]
    I.require(all(any(same(o.key, k) for k in ks) and o.version == version for o in S.backend.deletes(n)), 'only-own-tags',
              'invalidation deletes something else than the versions of the tags')


@scenario('C06')
def dependency_kinds(I):
    level = I.pick('level', ('READ COMMITTED', 'REPEATABLE READ'))
    S = Stack(I, level=level, api=I.pick('interface', ('CacheTagging', 'CacheWrapper')))
    t1, t2, t3 = tags_(3)
    ns = client(I, CUSTOM)
    log = []
    own = I.call(ns['OwnDependency'], [log], {})
    kind = I.pick('dependency', ('tags', 'composite', 'nested', 'with own', 'own first', 'none', 'evaluated', 'evaluated and extended'))
    dep, ts = {
        'tags': lambda: (tags_dep(I, t1, t2), [t1, t2]),
        'composite': lambda: (composite(I, tags_dep(I, t1), dummy_dep(I), tags_dep(I, t2)), [t1, t2]),
        'nested': lambda: (composite(I, composite(I, tags_dep(I, t1), tags_dep(I, t2)), composite(I, tags_dep(I, t3))), [t1, t2, t3]),
        'with own': lambda: (composite(I, tags_dep(I, t1), own, tags_dep(I, t2)), [t1, t2]),
        'own first': lambda: (composite(I, own, tags_dep(I, t2)), [t2]),
        'none': lambda: (composite(I), []),
        'evaluated': lambda: (tags_dep(I, t1, t2), [t1, t2]),
        'evaluated and extended': lambda: (tags_dep(I, t1), [t1, t2]),
    }[kind]()
    if kind.startswith('evaluated'):
        I.call_method(S.tx('current'), 'evaluate', [dep, V1])
        if kind.endswith('extended'):
            I.call_method(dep, 'extend', [tags_dep(I, t2)])
    if I.pick('transaction', (False, True)):
        S.tx('begin')
    n = len(S.backend.log)
    S.invalidate(dep, V1)
    for t in ts:
        I.require(invalidated(S, t, V1, n), 'version-deleted', 'invalidation does not delete the version of %s' % show(t))
    if 'own' in kind:
        I.require(('invalidate', V1) in log, 'every-part', 'invalidation does not reach a part of a kind the library does not know')


@scenario('C06')
def announced_first(I):
    """If the deletion fails, the end of the transaction still makes up for it."""
    level = I.pick('level', LEVELS)
    S = Stack(I, level=level, api=I.pick('interface', ('CacheTagging', 'CacheWrapper')))
    ts = tags_(2)
    for _ in range(I.pick('transactions', (1, 2))):
        S.tx('begin')

    def boom(o):
        if o.op == 'delete':
            I.throw(AnyError('backend'))
    S.backend.fail = boom
    attempt(I, lambda: S.invalidate(tuple(ts), V1))
    S.backend.fail = None
    n = len(S.backend.log)
    while S.depth():
        S.tx('finish')
    S.finish_threads()
    for t in ts:
        I.require(invalidated(S, t, V1, n), 'announced-before-deleted', 'when the deletion fails, the transaction does not know the dependency: the end of the transaction does not invalidate %s' % show(t))


@scenario('C06')
def twice(I):
    """A second invalidation of the same tags takes effect as well."""
    S = Stack(I, level=I.pick('level', LEVELS), api=I.pick('interface', APIS))
    t1, t2 = tags_(2)
    if I.pick('transaction', (False, True)):
        S.tx('begin')
    S.invalidate((t1,), V1)
    n = len(S.backend.log)
    S.invalidate((t1, t2), V1)
    for t in (t1, t2):
        I.require(invalidated(S, t, V1, n), 'version-deleted', 'a repeated invalidation does not delete the version of %s' % show(t))
    n = len(S.backend.log)
    S.invalidate((t1,), V2)
    I.require(invalidated(S, t1, V2, n), 'version-deleted', 'an invalidation under another cache version does not delete the version of the tag')


# ---------------------------------------------------------------- C07

def _released(I, S, level, tag, version, since, rk):
    """How often a tag was released since: by marks when locking, else by deletions."""
    if level in LOCKING:
        return len(mark_ops(S, rk, version, since))
    return len(invalidated(S, tag, version, since))


@scenario('C07')
def nested(I):
    level = I.pick('level', LEVELS)
    api = I.pick('interface', ('CacheTagging', 'CacheWrapper', 'django'))
    t = tags_(4)
    keys = [mark_keys(I, x) for x in t]
    rk = [one(I, k[1], 'the end of a transaction') for k in keys]
    ak = [one(I, k[0], 'an invalidation') for k in keys]
    S = Stack(I, level=level, api=api)
    a, b = I.pick('versions', ((None, V1), (V1, V2), (V1, V1)))
    end = I.pick('end', ('finish', 'flush', 'close'))
    S.tx('begin')
    use = []

    def inv(i, v, extra=()):
        n = len(S.backend.log)
        S.invalidate((t[i],) + tuple(extra), v)
        use.append((i, v))
        if level in LOCKING:
            I.require(mark_ops(S, ak[i], v, n), 'locked-when-invalidated', 'a tag is not marked as acquired under the cache version of its invalidation')
    inv(0, a)
    S.tx('begin')
    inv(1, b)
    inv(0, a)
    S.tx('begin')
    inv(2, a)
    n = len(S.backend.log)
    if end == 'finish':
        S.tx('finish')
        S.tx('finish')
        for i, v in use:
            I.require(not _released(I, S, level, t[i], v, n, rk[i]), 'nested-end-releases-nothing', 'the end of a nested transaction releases tags')
        I.require(not S.backend.writes(n) and not S.backend.deletes(n), 'nested-end-releases-nothing', 'the end of a nested transaction changes the cache')
        inv(3, a)
        n = len(S.backend.log)
        S.tx('finish')
    elif end == 'flush':
        S.tx('flush')
    else:
        S.do('close')
    I.require(S.depth() == 0, 'transactions-ended', 'transactions stay open after the end of the outermost one')
    for i, v in sorted(set(use), key=show):
        I.require(_released(I, S, level, t[i], v, n, rk[i]) == 1, 'released-exactly-once',
                  'a tag invalidated in a transaction is released %d times under its cache version by the end of the outermost transaction' % _released(I, S, level, t[i], v, n, rk[i]))
        for w in set((a, b)) - set(x for j, x in use if j == i):
            I.require(not _released(I, S, level, t[i], w, n, rk[i]), 'released-under-own-version', 'a tag is released under another cache version than it was invalidated')
    n = len(S.backend.log)
    S.tx('begin')
    S.tx('finish')
    I.require(not S.backend.writes(n) and not S.backend.deletes(n), 'nothing-released-again', 'the next transaction releases the tags of the previous one')


@scenario('C07')
def all_parts_released(I):
    level = I.pick('level', LEVELS)
    ns = client(I, CUSTOM)
    t1, t2 = tags_(2)
    rk = {t: one(I, mark_keys(I, t)[1], 'the end of a transaction') for t in (t1, t2)}
    S = Stack(I, level=level, api='CacheWrapper')
    log = []
    own = I.call(ns['OwnDependency'], [log], {})
    S.tx('begin')
    if I.pick('nested', (False, True)):
        S.tx('begin')
    how = I.pick('invalidated', ('one by one', 'together', 'own between'))
    deps = {'one by one': [tags_dep(I, t1), own, tags_dep(I, t2)], 'together': [composite(I, tags_dep(I, t1), own, tags_dep(I, t2))],
            'own between': [own, composite(I, tags_dep(I, t1), tags_dep(I, t2))]}[how]
    for d in deps:
        S.do('invalidate_dependency', d, V1)
    n = len(S.backend.log)
    k = len(log)
    S.tx('flush')
    for t in (t1, t2):
        I.require(_released(I, S, level, t, V1, n, rk[t]) == 1, 'released-exactly-once', 'a tag of a dependency with several parts is not released exactly once')
    want = ('release', V1) if level in LOCKING else ('invalidate', V1)
    I.require(log[k:].count(want) == 1, 'every-part-released', 'a part of a kind the library does not know is not released exactly once')


@scenario('C07')
def caller_changes_object(I):
    """What the caller does to its objects afterwards does not change what is released."""
    level = I.pick('level', ('READ COMMITTED', 'REPEATABLE READ'))
    t1, t2 = tags_(2)
    rk = {t: one(I, mark_keys(I, t)[1], 'the end of a transaction') for t in (t1, t2)}
    S = Stack(I, level=level, api='CacheWrapper')
    S.tx('begin')
    d = tags_dep(I, t1)
    S.do('invalidate_dependency', d, V1)
    I.call_method(d, 'extend', [tags_dep(I, t2)])
    n = len(S.backend.log)
    S.tx('finish')
    I.require(_released(I, S, level, t1, V1, n, rk[t1]) == 1, 'released-exactly-once', 'a tag is not released after the caller has changed its dependency object')
    I.require(not _released(I, S, level, t2, V1, n, rk[t2]), 'only-invalidated-released', 'a tag that was not invalidated is released')


@scenario('C07')
def times(I):
    clock = Clock(I, 1000.0)
    S = Stack(I, level=I.pick('level', LEVELS), api='CacheTagging')
    ts = tags_(2)
    clock.now = 1001.0
    outer = S.tx('begin')
    clock.now = 1002.0
    inner = S.tx('begin')
    clock.now = 1003.0
    I.require(same(I.call_method(outer, 'get_start_time', []), 1001.0), 'start-time', 'the start time of a transaction is not the time of its begin')
    I.require(same(I.call_method(inner, 'get_start_time', []), 1001.0), 'nested-times', 'a nested transaction does not report the start time of the outermost one')
    for tx in (outer, inner):
        r, e = attempt(I, lambda: I.call_method(tx, 'get_end_time', []))
        I.require(e is not None, 'no-end-time-yet', 'an open transaction reports an end time')
    S.invalidate((ts[0],), V1)
    S.invalidate((ts[1],), V2)
    clock.now = 1005.0
    S.tx('finish')
    clock.now = 1006.0
    seen = []

    def tick(o):
        clock.now = 1010.0 + o.n
    S.backend.fail = tick
    S.tx('finish')
    for tx in (outer, inner):
        I.require(same(I.call_method(tx, 'get_end_time', []), 1006.0), 'end-time-before-release', 'the end time of a transaction is not the time before its first release')
    I.require(same(I.call_method(inner, 'get_start_time', []), 1001.0), 'nested-times', 'a nested transaction does not report the start time of the outermost one')


@scenario('C07')
def end_time_in_marks(I):
    clock = Clock(I, 1000.0)
    ts = tags_(3)
    S = Stack(I, level=I.pick('level', LOCKING), delay=0, api='CacheTagging')
    S.tx('begin')
    if I.pick('nested', (False, True)):
        clock.now = 1001.0
        S.tx('begin')
    clock.now = 1002.0
    S.invalidate((ts[0], ts[1]), V1)
    S.invalidate((ts[2],), V2)
    clock.now = 1006.0

    def tick(o):
        clock.now = 1010.0 + o.n
    S.backend.fail = tick
    n = len(S.backend.log)
    S.tx('flush')
    S.backend.fail = None
    # the marks lock transactions which started until the end, not later
    for t, v in ((ts[0], V1), (ts[1], V1), (ts[2], V2)):
        for start, locked in ((1006.0, True), (1006.5, False)):
            with As(I, thread='T2'):
                clock.now = start
                R = Stack(I, level='REPEATABLE READ', backend=S.backend, api='CacheTagging')
                R.tx('begin')
                clock.now = 2000.0
                k = len(S.backend.log)
                R.set(KEY, sym('value', object), (t,), None, v)
                I.require(bool(entry_writes(R, KEY, k)) != locked, 'end-time-before-release',
                          'the time up to which a released tag is locked is not the end of the transaction, taken before the first release')


# ---------------------------------------------------------------- C08

@scenario('C08')
def levels(I):
    level = I.pick('level', LEVELS)
    delay = I.pick('delay', (0, 5, 0.5))
    api = I.pick('interface', ('CacheTagging', 'django'))
    t1, t2 = tags_(2)
    keys = {t: mark_keys(I, t) for t in (t1, t2)}
    S = Stack(I, level=level, delay=delay, api=api)
    version = I.pick('version', (None, V1))
    S.tx('begin')
    n = len(S.backend.log)
    S.invalidate((t1, t2), version)
    if level in LOCKING:
        for t in (t1, t2):
            I.require(len(mark_ops(S, one(I, keys[t][0], 'invalidation'), version, n)) == 1, 'locked-when-invalidated', 'under %s a tag is not locked when it is invalidated' % level)
    else:
        I.require(not S.backend.writes(n), 'no-locks', 'under %s something is written when tags are invalidated' % level)
    n = len(S.backend.log)
    S.tx('finish')
    timers = list(I.timers)
    now = {t: len(invalidated(S, t, version, n)) for t in (t1, t2)}
    if level in LOCKING:
        for t in (t1, t2):
            rk = one(I, keys[t][1], 'the end of a transaction')
            I.require(len(mark_ops(S, rk, version, n)) == 1, 'marked-as-released', 'under %s a tag is not marked as released at the end of the transaction' % level)
            I.require(now[t] >= 1, 'invalidated-again', 'under %s a tag is not invalidated again at the end of the transaction' % level)
            if now[t] and mark_ops(S, rk, version, n):   # The mark of the beginning may have expired: what is stored before the other mark must not survive.
                I.require(position(S, mark_ops(S, rk, version, n)[0]) < position(S, invalidated(S, t, version, n)[-1]), 'marked-before-invalidated',
                          'under %s a tag is invalidated for the last time before it is marked as released' % level)
        I.require(not timers, 'nothing-later', 'under %s work is left to another thread' % level)
    else:
        I.require(not S.backend.writes(n), 'no-locks', 'under %s something is written at the end of the transaction' % level)
        once = level == 'READ COMMITTED' or not delay
        for t in (t1, t2):
            I.require(now[t] == (1 if once else 0), 'invalidated-at-end', 'under %s with delay %s a tag is invalidated %d times at the end of the transaction, expected %d' % (level, delay, now[t], 1 if once else 0))
        I.require(len(timers) == (1 if delay else 0), 'invalidated-after-delay', 'under %s with delay %s, %d delayed invalidations are started' % (level, delay, len(timers)))
        for x in timers:
            I.require(same(x.interval, delay), 'configured-delay', 'the delayed invalidation does not wait for the configured delay')
            I.require(not I.truth(x.daemon), 'invalidated-after-delay', 'the end of the program does not wait for the delayed invalidation')
        if delay:
            n = len(S.backend.log)
            S.finish_threads()
            for t in (t1, t2):
                I.require(len(invalidated(S, t, version, n)) == 1, 'invalidated-after-delay', 'under %s a tag is not invalidated once after the delay' % level)


@scenario('C08')
def locked_or_not(I):
    """What other sessions may store during the transaction and after it."""
    clock = Clock(I)
    level = I.pick('level', LEVELS)
    delay = I.pick('delay', (0, 5, 0.5))
    t, = tags_(1)
    S = Stack(I, level=level, delay=delay, api='CacheTagging')
    S.tx('begin')
    clock.now += 1
    S.invalidate((t,), V1)
    when = I.pick('store', ('in transaction', 'started before end', 'within delay', 'after delay'))
    with As(I, thread='T2'):
        R = Stack(I, level=level, delay=delay, backend=S.backend, api='CacheTagging')
        if when == 'started before end':
            clock.now += 1
            R.tx('begin')
    clock.now += 1
    if when != 'in transaction':
        S.tx('finish')
        clock.now += {'started before end': 100, 'within delay': 0.25 if delay == 0.5 else 4, 'after delay': 100}[when]
        if I.pick('mark of the beginning', ('kept', 'expired')) == 'expired':  # It lives shorter than that of the end.
            for k in mark_keys(I, t)[0]:
                S.backend.store.pop((V1, k), None)
    with As(I, thread='T2'):
        n = len(S.backend.log)
        R.set(KEY, sym('value', object), (t,), None, V1)
        stored = bool(entry_writes(R, KEY, n))
    locked = level in LOCKING and (when in ('in transaction', 'started before end') or when == 'within delay' and delay)
    I.require(stored != bool(locked), 'level-decides', 'under %s (delay %s) a concurrent store %s is %s' % (level, delay, when, 'accepted' if stored else 'refused'))


@scenario('C08')
def configured(I):
    """The options of the settings decide for each cache; the default is READ COMMITTED without delay."""
    pkg = I.import_module('django_cache_dependencies')
    opts = I.pick('options', ({}, {'DELAY': 5}, {'DELAY': 0.5}, {'ISOLATION_LEVEL': 'REPEATABLE READ'}, {'ISOLATION_LEVEL': 'READ UNCOMMITTED', 'DELAY': 7}, {'DELAY': None},
                              None))
    I.settings.CACHE_TAGGING = {'other': opts} if opts is not None else {'else': {'ISOLATION_LEVEL': 'SERIALIZABLE', 'DELAY': 9}}
    opts = opts or {}
    c = I.getitem(cls(I, pkg.name, 'caches'), 'other')
    t, = tags_(1)
    b = I.djcaches.storage('other')
    I.call_method(I.getattr(c, 'transaction'), 'begin', [])
    n = len(b.log)
    I.call_method(c, 'invalidate_tags', [t])
    locked = bool(b.writes(n))
    level = opts.get('ISOLATION_LEVEL', 'READ COMMITTED')
    I.require(locked == (level in LOCKING), 'configured-level', 'the configured isolation level %s is not used' % level)
    n = len(b.log)
    I.call_method(I.getattr(c, 'transaction'), 'finish', [])
    delay = opts.get('DELAY') or 0
    if level not in LOCKING:
        I.require([x.interval for x in I.timers] == ([delay] if delay else []), 'configured-delay', 'the configured delay is not used')
        I.require(bool(b.deletes(n)) == (level == 'READ COMMITTED' or not delay), 'invalidated-at-end', 'the end of the transaction does not do what the configured isolation level says')


@scenario('C08')
def unknown_level(I):
    level = I.pick('level', (sym('level', str), 'read committed', '', None, 'SNAPSHOT'))
    lock = cls(I, 'cache_dependencies.locks', 'DependencyLock')
    B = Backend(I)
    fails(I, lambda: I.call(I.getattr(lock, 'make'), [level, NFn('accessor', lambda: B), 0], {}), 'unknown-level-refused', 'an unknown isolation level is accepted')


# ---------------------------------------------------------------- C09

@scenario('C09')
def decision_table(I):
    """The lock decision as a function of the sessions and of the order of the times: all paths against the definition."""
    a, r, s = sym('acquired_at', float), sym('released_at', float), sym('started_at', float)
    d = sym('delay', int)
    clock = Clock(I, 0.0)
    tag, = tags_(1)
    ak, rk = mark_keys(I, tag)
    ak, rk = one(I, ak, 'an invalidation'), one(I, rk, 'the end of a transaction')
    who_a = I.pick('acquired by', (None, 'S', 'A'))
    who_r = I.pick('released by', (None, 'S', 'A', 'B'))
    B = Backend(I)
    found = {}
    for who in ('S', 'A', 'B'):
        if who not in (who_a, who_r):
            continue
        with As(I, thread=who):
            W = Stack(I, level='REPEATABLE READ', delay=d, backend=Backend(I), api='CacheTagging')
            clock.now = a
            W.tx('begin')
            W.invalidate((tag,), V1)
            clock.now = r
            W.tx('finish')
            found[who] = W.backend
    if who_a:
        B.store[(V1, ak)] = found[who_a].at(ak, V1)
    if who_r:
        B.store[(V1, rk)] = found[who_r].at(rk, V1)
    I.require((not who_a or B.at(ak, V1) is not ABSENT) and (not who_r or B.at(rk, V1) is not ABSENT), 'one-mark', 'a mark is missing')
    mode = I.pick('storing session', ('transaction', 'nested', 'none'))
    with As(I, thread='S'):
        S = Stack(I, level='REPEATABLE READ', delay=0, backend=B, api='CacheTagging')
        clock.now = s
        if mode != 'none':
            S.tx('begin')
            if mode == 'nested':
                clock.now = sym('nested_at', float)
                S.tx('begin')
            clock.now = sym('stored_at', float)
        n = len(B.log)
        S.set(KEY, sym('value', object), (tag,), None, V1)
        stored = bool(entry_writes(S, KEY, n))
    dom = {a: (0, 1, 2, 3, 4), r: (0, 1, 2, 3, 4), s: (0, 1, 2, 3, 4), d: (0, 1, 2)}
    cases = 0
    for env in grid(I, dom):
        cases += 1
        acq, rel = who_a is not None, who_r is not None
        if rel and acq:
            rel = who_r == who_a and env[r] > env[a]
            acq = not rel
        locked = who_a != 'S' if acq else rel and who_r != 'S' and env[s] <= env[r] + env[d]
        if not I.require(stored != locked, 'lock-decision', 'a tag acquired by %s and released by %s is %s for a transaction of session S (acquired at %s, released at %s with delay %s, started at %s)' % (
                who_a, who_r, 'not locked' if stored else 'locked', env[a], env[r], env[d], env[s])):
            break


@scenario('C09')
def several_tags(I):
    """Each tag is decided by its own marks; one locked tag is enough."""
    clock = Clock(I, 1000.0)
    ts = tags_(3)
    S = Stack(I, level='REPEATABLE READ', delay=0, api='CacheTagging')
    hosts = {'released after': 'H0' if I.pick('hosts', ('one', 'several')) == 'one' else 'H2'}     # since the start of 'H0' the time is shorter
    st = {}
    for t in ts:
        st[t] = I.pick('marks of %s' % show(t), ('none', 'acquired', 'released before', 'released after', 'own'))
        with As(I, thread='S' if st[t] == 'own' else 'A' + show(t), host=None if st[t] == 'own' else hosts.get(st[t], 'H1')):
            if st[t] == 'none':
                continue
            F = Stack(I, level='REPEATABLE READ', delay=0, backend=S.backend, api='CacheTagging')
            clock.now = 1000.0
            F.tx('begin')
            F.invalidate((t,), V1)
            if st[t].startswith('released'):
                clock.now = 1001.0 if st[t] == 'released before' else 1003.0
                F.tx('finish')
    with As(I, thread='S'):
        R = Stack(I, level='REPEATABLE READ', backend=S.backend, api='CacheTagging')
        clock.now = 1002.0
        R.tx('begin')
        clock.now = 1004.0
        n = len(S.backend.log)
        R.set(KEY, sym('value', object), tuple(ts), None, V1)
        stored = bool(entry_writes(R, KEY, n))
    locked = any(x in ('acquired', 'released after') for x in st.values())
    I.require(stored != locked, 'lock-decision', 'an entry whose tags are %s is %s' % (', '.join(sorted(st.values())), 'stored' if stored else 'refused'))


@scenario('C09')
def marks_of_other_version(I):
    clock = Clock(I, 1000.0)
    t, = tags_(1)
    S = Stack(I, level='REPEATABLE READ', delay=0, api='CacheTagging')
    a, b = I.pick('versions', ((None, V1), (V1, None), (V1, V2)))
    with As(I, thread='A'):
        F = Stack(I, level='REPEATABLE READ', delay=0, backend=S.backend, api='CacheTagging')
        F.tx('begin')
        F.invalidate((t,), a)
        if I.pick('state', ('acquired', 'released')) == 'released':
            F.tx('finish')
    S.set(KEY, sym('value', object), (t,), None, b)
    I.require(entry_writes(S, KEY), 'lock-decision', 'marks under one cache version lock a tag under another one')


# ---------------------------------------------------------------- C10

@scenario('C10')
def marks_written(I):
    d = sym('delay', int) if I.pick('delay', ('symbolic', 'fraction')) == 'symbolic' else sym('delay', float)
    t1, t2, t3 = tags_(3)
    keys = {t: mark_keys(I, t) for t in (t1, t2, t3)}
    S = Stack(I, level=I.pick('level', LOCKING), delay=d, api='CacheTagging')
    version = I.pick('version', (None, V1))
    kind = I.pick('dependency', ('tags', 'composite'))
    S.tx('begin')
    if I.pick('nested', (False, True)):
        S.tx('begin')
    n = len(S.backend.log)
    S.invalidate((t1, t2, t3) if kind == 'tags' else composite(I, tags_dep(I, t1), dummy_dep(I), tags_dep(I, t2, t3)), version)
    m = len(S.backend.log)
    S.tx('flush')
    for t in (t1, t2, t3):
        ak, rk = one(I, keys[t][0], 'an invalidation'), one(I, keys[t][1], 'the end of a transaction')
        I.require(not I.eq(ak, rk) if not same(ak, rk) else False, 'different-keys', 'acquire marks and release marks use the same key')
        acq = [o for o in mark_ops(S, ak, version, n) if o.n < m]
        rel = [o for o in mark_ops(S, rk, version, m)]
        I.require(acq, 'mark-for-every-tag', 'no acquire mark is written for a tag under the cache version of the caller')
        I.require(rel, 'mark-for-every-tag', 'no release mark is written for a tag under the cache version of the caller')
        if not acq or not rel:
            continue
        for env in grid(I, {d: (0, 1, 2, 5, 6, 60, 3600) + ((0.5, 0.25, 1.5) if d.ty is float else ())}):
            ta, tr = evaluate(acq[-1].timeout, env), evaluate(rel[-1].timeout, env)
            I.require(ta is not None and tr is not None and ta is not True, 'marks-expire', 'a mark is stored without expiry')
            if ta is None or tr is None:
                break
            I.require(ta > 0 and tr > 0, 'marks-expire', 'a mark is stored with a lifetime that is not positive')
            I.require(tr > ta, 'release-outlives-acquire', 'a release mark does not live longer than an acquire mark (delay %s)' % env[d])
            I.require(tr > env[d], 'release-outlives-delay', 'a release mark does not live longer than its delay (delay %s)' % env[d])


@scenario('C10')
def marked_again(I):
    """Marks expire, so every invalidation writes them anew, also of tags which the transaction has marked before."""
    t1, t2 = tags_(2)
    keys = {t: mark_keys(I, t) for t in (t1, t2)}
    S = Stack(I, level=I.pick('level', LOCKING), delay=I.pick('delay', (0, 5)), api=I.pick('interface', ('CacheTagging', 'CacheWrapper')))
    version = I.pick('version', (None, V1))
    second = I.pick('second invalidation', ('the same', 'one of them', 'more', 'other form'))
    where = I.pick('place', ('same transaction', 'nested', 'after nested', 'next transaction'))
    first = (t1,) if second == 'more' else (t1, t2)
    S.tx('begin')
    if where == 'after nested':
        S.tx('begin')
    S.invalidate(first, version)
    if where == 'nested':
        S.tx('begin')
    elif where == 'after nested':
        S.tx('finish')
    elif where == 'next transaction':
        S.tx('finish')
        S.tx('begin')
    for t in (t1, t2):
        for k in keys[t][0]:
            S.backend.store.pop((version, k), None)     # expired meanwhile
    n = len(S.backend.log)
    again = (t2,) if second == 'one of them' else (t1, t2)
    S.invalidate(composite(I, tags_dep(I, t1), tags_dep(I, t2)) if second == 'other form' else again, version)
    for t in again:
        I.require(mark_ops(S, one(I, keys[t][0], 'an invalidation'), version, n), 'mark-for-every-tag', 'no acquire mark is written for a tag that is invalidated again')
    n = len(S.backend.log)
    S.tx('flush')
    for t in set(again) | (set(first) if where != 'next transaction' else set()):
        I.require(mark_ops(S, one(I, keys[t][1], 'the end of a transaction'), version, n), 'mark-for-every-tag', 'no release mark is written for a tag that was invalidated again')


@scenario('C10')
def keys_are_checked(I):
    """The keys of the marks are the keys which the lock check reads."""
    t1, t2 = tags_(2)
    keys = {t: mark_keys(I, t) for t in (t1, t2)}
    S = Stack(I, level=I.pick('level', LEVELS), api=I.pick('interface', ('CacheTagging', 'CacheWrapper')))
    version = I.pick('version', (None, V1))
    n = len(S.backend.log)
    S.set(KEY, sym('value', object), (t1, t2), None, version)
    for t in (t1, t2):
        for k, what in ((one(I, keys[t][0], 'an invalidation'), 'acquire'), (one(I, keys[t][1], 'the end of a transaction'), 'release')):
            I.require(any(same(o.key, k) and o.version == version for o in S.backend.reads(n)), 'marks-are-read', 'the lock check does not read the %s mark of every tag' % what)


@scenario('C10')
def contents(I):
    """Session, start time, end time and delay as they act on other sessions."""
    clock = Clock(I, 1000.0)
    d = I.pick('delay', (0, 10))
    t, = tags_(1)
    S = Stack(I, level='REPEATABLE READ', delay=d, api='CacheTagging')
    clock.now = 1001.0
    S.tx('begin')
    nested = I.pick('nested', (False, True))
    clock.now = 1003.0
    if nested:
        S.tx('begin')
    S.invalidate((t,), V1)
    first = {k: v for k, v in S.backend.store.items()}
    clock.now = 1005.0
    S.tx('flush')
    ak, rk = mark_keys(I, t)
    ak, rk = one(I, ak, 'an invalidation'), one(I, rk, 'the end of a transaction')
    am, rm = first.get((V1, ak)), S.backend.store.get((V1, rk))
    I.require(am is not None and rm is not None, 'mark-for-every-tag', 'a mark is missing')
    # a release of the same session after a begin counts against an acquisition by that session before it
    n = 0
    for start, gone, locked in ((1005.0 + d, True, True), (1005.5 + d, True, False), (1005.0, False, True), (1006.0 + d, False, False)):
        with As(I, thread='T%d' % (20 + n)):
            n += 1
            B = Backend(I)
            if not gone:
                B.store[(V1, ak)] = am
            B.store[(V1, rk)] = rm
            clock.now = start
            R = Stack(I, level='REPEATABLE READ', backend=B, api='CacheTagging')
            R.tx('begin')
            clock.now = 2000.0
            R.set(KEY, sym('value', object), (t,), None, V1)
            I.require(bool(entry_writes(R, KEY)) != locked, 'mark-contents', 'the marks do not carry session, times and delay of their transaction')
    # an acquisition that was repeated later than the release counts
    with As(I, thread='T0'):
        clock.now = 1006.0
        S.tx('begin')
        S.invalidate((t,), V1)
    with As(I, thread='T40'):
        clock.now = 1100.0
        R = Stack(I, level='REPEATABLE READ', backend=S.backend, api='CacheTagging')
        n = len(S.backend.log)
        R.set(KEY, sym('value', object), (t,), None, V1)
        I.require(not entry_writes(R, KEY, n), 'mark-contents', 'an acquisition later than the release of the same session does not lock the tag')
