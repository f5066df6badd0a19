"""C01-C05, C15: entries, their tags, and what happens while they are generated."""
from .base import *

APIS = ('CacheTagging', 'CacheWrapper', 'django')
STATES = ('same', 'gone', 'new')


# ---------------------------------------------------------------- C01

def _read(S, op, k, default, version):
    """Reads one key through one of the reading operations; (found, value)."""
    I = S.I
    if op == 'get':
        v = S.do('get', k, default, version)
        return (False, None) if same(v, default) else (True, v)
    if op == 'get_many':
        d = S.do('get_many', [k], version)
        return (k in d, d.get(k))
    fresh = sym('computed', object)
    cb = Callback(I, 'callback', fresh)
    v = S.get_or_set(k, cb, (), None, version)
    I.require(same(v, fresh) == bool(cb.calls), 'computed-iff-absent', 'get_or_set_callback must return what it has computed exactly if it has computed')
    return (False, None) if cb.calls else (True, v)


@scenario('C01')
def single_entry(I):
    api = I.pick('interface', APIS)
    S = Stack(I, api=api)
    version = I.pick('version', (None, V1))
    t1, t2 = tags_(2)
    V = I.pick('value', (sym('value', object), 0, '', False))
    if I.pick('tags have versions already', (False, True)):
        S.backend.init = lambda k, v: sym('initial_%s' % show(k), str) if same(k, tag_key(I, t1)) else ABSENT
    S.set(KEY, V, (t1, t2), None, version)
    how = [I.pick('version of %s' % show(t), STATES) for t in (t1, t2)]
    for t, h in zip((t1, t2), how):
        disturb(S, t, version, h)
    op = I.pick('operation', ('get', 'get_many', 'get_or_set_callback'))
    found, v = _read(S, op, KEY, sym('default', object), version)
    ok = how == ['same', 'same']
    if ok:
        I.require(found and same(v, V), 'current-entry-returned', '%s does not return an entry whose tags all have their recorded versions' % op)
    else:
        I.require(not found, 'stale-entry-rejected', '%s returns an entry although a recorded tag version is %s' % (op, 'missing' if 'gone' in how else 'different'))


@scenario('C01')
def default_is_returned(I):
    S = Stack(I, api=I.pick('interface', APIS))
    d = I.pick('default', (None, sym('default', object), 0, ''))
    t, = tags_(1)
    if I.pick('entry', ('never stored', 'stale')) == 'stale':
        S.set(KEY, sym('value', object), (t,), None, V1)
        disturb(S, t, V1, I.pick('how', ('gone', 'new')))
    r = S.do('get', KEY, d, V1)
    I.require(same(r, d), 'default-when-absent', 'get returns something else than the default of the caller for an absent entry')


@scenario('C01')
def bulk_read(I):
    S = Stack(I, api=I.pick('interface', APIS))
    version = I.pick('version', (None, V1))
    k1, k2, k3, k4 = keys_(4)
    t1, t2, t3 = tags_(3)
    v1, v2, v3 = values_(3)
    shared = I.pick('tags', ('own', 'shared'))
    S.set(k1, v1, (t1, t3) if shared == 'shared' else (t1,), None, version)
    S.set(k2, v2, (t2, t3) if shared == 'shared' else (t2,), None, version)
    S.backend.store[(version, k3)] = v3     # stored by somebody else, without dependencies
    how = {t: I.pick('version of %s' % show(t), STATES) for t in (t1, t2)}
    how[t3] = I.pick('version of shared tag', ('same', 'new')) if shared == 'shared' else 'same'
    for t, h in how.items():
        disturb(S, t, version, h)
    ks = [k1, k2, k3, k4]
    form = I.pick('keys', ('list', 'iterator', 'reversed'))
    d = S.do('get_many', iter(ks) if form == 'iterator' else ks if form == 'list' else list(reversed(ks)), version)
    want = {k3: v3}
    if how[t1] == how[t3] == 'same':
        want[k1] = v1
    if how[t2] == how[t3] == 'same':
        want[k2] = v2
    for k, v in ((k1, v1), (k2, v2)):
        if k in want:
            I.require(k in d and same(d[k], v), 'bulk-valid-unaffected', 'get_many loses or replaces a valid entry, when others are out of date')
        else:
            I.require(k not in d, 'bulk-stale-left-out', 'get_many returns an entry with an outdated tag')
    I.require(k3 in d and same(d[k3], v3), 'plain-values-returned', 'get_many loses a value that was stored without dependency information')
    I.require(k4 not in d, 'bulk-absent-left-out', 'get_many returns something for a key that is not stored')
    I.require(set(d) <= {k1, k2, k3, k4}, 'bulk-only-requested', 'get_many returns a key that was not requested')


@scenario('C01')
def same_tag_recorded_differently(I):
    """Two entries recorded different versions of one tag: only the newer one may be returned."""
    S = Stack(I, api=I.pick('interface', APIS))
    k1, k2 = keys_(2)
    t, t2 = tags_(2)
    v1, v2 = values_(2)
    S.set(k1, v1, (t,), None, V1)
    S.invalidate((t,), V1)
    S.set(k2, v2, (t, t2), None, V1)
    d = S.do('get_many', I.pick('order', ([k1, k2], [k2, k1])), V1)
    I.require(k1 not in d, 'bulk-stale-left-out', 'get_many returns an entry which recorded an older version of a tag than another entry of the same read')
    I.require(k2 in d and same(d[k2], v2), 'bulk-valid-unaffected', 'get_many loses the entry which recorded the current version of a tag')
    I.require(same(S.do('get', k1, None, V1), None), 'stale-entry-rejected', 'get returns an entry stored before the invalidation of its tag')
    I.require(same(S.do('get', k2, None, V1), v2), 'current-entry-returned', 'get does not return an entry stored after the invalidation of its tag')


@scenario('C01')
def entries_with_the_same_tags(I):
    """Entries that have the same tags, and even the same values, are told apart."""
    S = Stack(I, api=I.pick('interface', APIS))
    ks = keys_(4)
    t, t2, t3 = tags_(3)
    tags = I.pick('tags', ((t,), (t, t2), ()))
    first, second, third = values_(3)
    if I.pick('values', ('own', 'equal')) == 'equal':
        second = third = first
    between = I.pick('between the stores', ('nothing', 'invalidation', 'lost'))
    S.set(ks[0], first, tags, None, V1)
    if between == 'invalidation':
        S.invalidate((t, t2), V1)
    elif between == 'lost':
        disturb(S, t, V1, 'gone')
    S.set(ks[1], second, tags, None, V1)
    S.set(ks[2], third, tags, None, V1)
    S.set(ks[3], first, (t3,), None, V1)
    after = I.pick('afterwards', ('nothing', 'invalidation', 'lost', 'replaced'))
    if after == 'invalidation':
        S.invalidate((t,), V1)
    elif after != 'nothing':
        disturb(S, t, V1, 'gone' if after == 'lost' else 'new')
    stale = set()
    if tags:
        stale = set(ks[:3]) if after != 'nothing' else set(ks[:1]) if between != 'nothing' else set()
    asked = list(I.pick('asked', (ks[:2], ks[:3][::-1], ks)))
    d = S.do('get_many', asked, V1)
    for k, v in zip(ks, (first, second, third, first)):
        if k not in asked:
            continue
        if k in stale:
            I.require(k not in d, 'bulk-stale-left-out', 'get_many returns an outdated entry, of which other entries have the same tags')
        else:
            I.require(k in d and same(d[k], v), 'bulk-valid-unaffected', 'get_many loses a valid entry, when others with the same tags are read')


@scenario('C01')
def plain_values(I):
    """Values stored without dependency information are returned as they are."""
    S = Stack(I, api=I.pick('interface', APIS))
    x = sym('content', object)
    v = I.pick('value', (x, {}, {'a': x}, [x], (x,), 'text', 0, {'__value': x}, {'__dependency': x}, ['__value', '__dependency']))
    S.backend.store[(V1, KEY)] = v
    op = I.pick('operation', ('get', 'get_many', 'get_or_set_callback'))
    found, r = _read(S, op, KEY, sym('default', object), V1)
    I.require(found and same(r, v), 'plain-values-returned', '%s does not return a value that was stored without dependency information as it is' % op)


@scenario('C01')
def stored_without_tags(I):
    S = Stack(I, api=I.pick('interface', APIS))
    x = sym('content', object)
    v = I.pick('value', (x, {'a': x}, 0))
    S.set(KEY, v, (), None, V1)
    found, r = _read(S, I.pick('operation', ('get', 'get_many', 'get_or_set_callback')), KEY, sym('default', object), V1)
    I.require(found and same(r, v), 'plain-values-returned', 'a value stored without tags is not returned')


@scenario('C01')
def composite_entry(I):
    """Dependencies given as objects with several parts, one of them unknown to the library."""
    S = Stack(I, api=I.pick('interface', ('CacheTagging', 'CacheWrapper')))
    t1, t2 = tags_(2)
    ns = client(I, CUSTOM)
    bad = I.pick('own part', ('valid', 'invalid'))
    own = I.call(ns['OwnDependency'], [bad == 'valid'], {})
    parts = (tags_dep(I, t1), tags_dep(I, t2), own)
    dep = composite(I, *[parts[i] for i in I.pick('order', ((0, 1, 2), (2, 0, 1), (0, 2, 1)))])
    S.do('set', KEY, sym('value', object), dep, None, V1)
    how = [I.pick('version of %s' % show(t), STATES) for t in (t1, t2)]
    for t, h in zip((t1, t2), how):
        disturb(S, t, V1, h)
    ok = how == ['same', 'same'] and bad == 'valid'
    found, r = _read(S, I.pick('operation', ('get', 'get_many')), KEY, sym('default', object), V1)
    I.require(found == ok, 'current-entry-returned' if ok else 'stale-entry-rejected',
              'a read does not follow the validity of all parts of a composite dependency')


CUSTOM = '''
from cache_dependencies import interfaces, defer, exceptions

class OwnDependency(interfaces.IDependency):
    def __init__(self, valid=True):
        self.valid = valid
        self.log = []
    def evaluate(self, cache, transaction, version):
        self.log.append(('evaluate', version))
    def validate(self, cache, version):
        deferred = defer.Deferred(None, defer.NoneDeferredIterator)
        def callback(node, caches):
            if not self.valid:
                raise exceptions.DependencyInvalid(self, ('own',))
        deferred.add_callback(callback)
        return deferred
    def invalidate(self, cache, version):
        cache.delete('own', version)
        self.log.append(('invalidate', version))
    def acquire(self, cache, transaction, version):
        self.log.append(('acquire', version))
    def release(self, cache, transaction, delay, version):
        self.log.append(('release', version))
    def extend(self, other):
        return False
    def __copy__(self):
        return self
'''


@scenario('C01')
def inside_transaction(I):
    """Invalidated within the reader's own transaction: absent at once, at every isolation level."""
    S = Stack(I, level=I.pick('level', LEVELS), api=I.pick('interface', APIS))
    t, = tags_(1)
    S.set(KEY, sym('value', object), (t,), None, V1)
    S.tx('begin')
    S.invalidate((t,), V1)
    r = S.do('get', KEY, None, V1)
    I.require(r is None, 'stale-entry-rejected', 'an entry is returned after its tag has been invalidated in the same transaction')
    S.do('abort', KEY)
    S.tx('finish')
    I.require(S.do('get', KEY, None, V1) is None, 'stale-entry-rejected', 'an entry is returned after the transaction that invalidated its tag')


# ---------------------------------------------------------------- C02

def _carries(I, S, key, tags, version, V, rule='entry-carries-tag', others=()):
    """Observes through reads which tags an entry carries."""
    I.require(same(S.do('get', key, None, version), V), 'stored-entry-readable', 'an entry that was just stored is not returned')
    for t in tags:
        k = (version, tag_key(I, t))
        old = S.backend.store.get(k, ABSENT)
        for how in ('gone', 'new'):
            disturb(S, t, version, how)
            I.require(S.do('get', key, None, version, True) is None, rule,
                      'the stored entry does not carry the version of %s' % show(t))
            S.backend.store[k] = old
    for t in others:
        k = (version, tag_key(I, t))
        old = S.backend.store.get(k, ABSENT)
        disturb(S, t, version, 'new')
        I.require(same(S.do('get', key, None, version, True), V), 'only-own-tags', 'the stored entry depends on %s' % show(t))
        S.backend.store[k] = old


def _created(I, S, tags, version, since, key):
    """Versions of tags are written before the entry, under the keys and version that reads use."""
    e = entry_writes(S, key, since)
    I.require(len(e) == 1, 'stored-once', 'the entry is written %d times' % len(e))
    if not e:
        return
    for t in tags:
        w = [o for o in tag_ops(S, t, S.backend.writes(since))]
        I.require(len(w) == 1 and w[0].version == version and w[0].n < e[0].n, 'version-created-first',
                  'the version of %s is not written exactly once, under the cache version of the caller, before the entry' % show(t))


@scenario('C02')
def tags_of_caller(I):
    S = Stack(I, level=I.pick('level', ('READ COMMITTED', 'REPEATABLE READ')), api=I.pick('interface', APIS))
    version = I.pick('version', (None, V1))
    t1, t2, t3 = tags_(3)
    present = {t for t in (t1, t2) if I.pick('%s has a version' % show(t), (False, True))}
    for t in present:
        S.backend.store[(version, tag_key(I, t))] = sym('current_%s' % show(t), str)
    n = len(S.backend.log)
    V = sym('value', object)
    S.set(KEY, V, (t1, t2), sym('timeout', int), version)
    _created(I, S, [t for t in (t1, t2) if t not in present], version, n, KEY)
    for t in present:
        I.require(not tag_ops(S, t, S.backend.writes(n)), 'existing-version-kept', 'set replaces the existing version of a tag')
    w = entry_writes(S, KEY, n)
    I.require(w and w[0].version == version and same(w[0].timeout, sym('timeout', int)), 'stored-as-given',
              'the entry is not stored under the cache version and with the lifetime given by the caller')
    _carries(I, S, KEY, (t1, t2), version, V, others=(t3,))


@scenario('C02')
def get_or_set(I):
    S = Stack(I, api=I.pick('interface', APIS))
    version = I.pick('version', (None, V1))
    t1, t2 = tags_(2)
    V = sym('value', object)
    a, b = sym('arg', object), sym('kwarg', object)
    cb = Callback(I, 'callback', V)
    n = len(S.backend.log)
    r = S.get_or_set(KEY, cb, (t1, t2), sym('timeout', int), version, (a,), {'kw': b})
    I.require(same(r, V) and len(cb.calls) == 1, 'computed-once', 'get_or_set_callback does not return the value computed by one call')
    I.require(cb.calls and same(cb.calls[0][0], (a,)) and same(cb.calls[0][1], {'kw': b}), 'arguments-passed',
              'get_or_set_callback does not pass the arguments of the caller to the callback')
    _created(I, S, (t1, t2), version, n, KEY)
    w = entry_writes(S, KEY, n)
    I.require(w and w[0].version == version and same(w[0].timeout, sym('timeout', int)), 'stored-as-given',
              'the entry is not stored under the cache version and with the lifetime given by the caller')
    _carries(I, S, KEY, (t1, t2), version, V)


@scenario('C02')
def inherited_tags(I):
    """Tags inherited from nested entries are recorded with their current version when the enclosing entry is stored."""
    S = Stack(I, api=I.pick('interface', APIS))
    version = I.pick('version', (None, V1))
    k0, k1 = keys_(2)
    t0, t1 = tags_(2)
    both = I.pick('the nested tag is also an own tag', (False, True))
    v0, v1 = values_(2)
    S.do('get', k0, None, version)
    how = I.pick('nested entry', ('stored', 'hit'))
    if how == 'hit':
        S.do('get', k0, None, version)   # still innermost
        S.relations_saved = None
        S.do('abort', k0)
        S.set(k1, v1, (t1,), None, version)
        S.do('get', k0, None, version)
    S.do('get', k1, None, version)
    if how == 'stored':
        S.set(k1, v1, (t1,), None, version)
    change = I.pick('tag of the nested entry meanwhile', ('same', 'gone', 'new'))
    disturb(S, t1, version, change)
    n = len(S.backend.log)
    S.set(k0, v0, (t0, t1) if both else (t0,), None, version)
    _created(I, S, [t0] + ([t1] if change == 'gone' else []), version, n, k0)
    _carries(I, S, k0, (t0, t1), version, v0)


@scenario('C02')
def object_used_twice(I):
    """One dependency object for many entries: every entry records the versions of its own time."""
    S = Stack(I, api='CacheWrapper')
    t, = tags_(1)
    kind = I.pick('dependency', ('tags', 'composite'))
    d = tags_dep(I, t) if kind == 'tags' else composite(I, tags_dep(I, t), dummy_dep(I))
    k1, k2 = keys_(2)
    v1, v2 = values_(2)
    S.do('set', k1, v1, d, None, V1)
    S.do('invalidate_dependency', d, V1)
    S.do('set', k2, v2, d, None, V1)
    I.require(S.do('get', k1, None, V1) is None, 'recorded-at-its-time', 'an entry stored before an invalidation became valid again by the use of its dependency object for another entry')
    _carries(I, S, k2, (t,), V1, v2)
    # and under another cache version
    S.do('set', k1, v1, d, None, V2)
    _carries(I, S, k1, (t,), V2, v1)
    I.require(same(S.do('get', k2, None, V1), v2), 'recorded-at-its-time', 'an entry is lost because its dependency object was used under another cache version')


@scenario('C02')
def created_meanwhile(I):
    """Somebody else gives a tag its first version while the entry is stored, before the library has written one."""
    S = Stack(I, level=I.pick('level', ('READ COMMITTED', 'REPEATABLE READ')), api=I.pick('interface', ('CacheTagging', 'CacheWrapper')))
    version = I.pick('version', (None, V1))
    t1, t2 = tags_(2)
    who = I.pick('tags', ('first', 'both'))
    at = I.pick('after read', (1, 2, 3, 4, 5, 6))
    V = sym('value', object)
    count = [0]
    n = len(S.backend.log)

    def read(key, ver, v):
        count[0] += 1
        if count[0] == at and not S.backend.writes(n):
            for t in (t1, t2) if who == 'both' else (t1,):
                disturb(S, t, version, 'new')
        return v
    S.backend.on_read = read
    S.set(KEY, V, (t1, t2), None, version)
    S.backend.on_read = None
    I.require(len(entry_writes(S, KEY, n)) == 1, 'stored-once', 'the entry is not written once')
    _carries(I, S, KEY, (t1, t2), version, V)


@scenario('C02')
def own_dependencies_evaluated(I):
    """Every part of a composite dependency is evaluated, also those unknown to the library."""
    S = Stack(I, api='CacheWrapper')
    t1, t2 = tags_(2)
    ns = client(I, CUSTOM)
    own = I.call(ns['OwnDependency'], [], {})
    parts = [tags_dep(I, t1), own, tags_dep(I, t2)]
    dep = composite(I, *I.pick('order', (tuple(parts), tuple(reversed(parts)), (composite(I, *parts[:2]), parts[2]))))
    V = sym('value', object)
    S.do('set', KEY, V, dep, None, V1)
    _carries(I, S, KEY, (t1, t2), V1, V)


# ---------------------------------------------------------------- C03

def _foreign(I, S, tags, version, level, delay, state, clock=None):
    """Another session (thread) leaves marks on tags."""
    with As(I, thread='T1'):
        F = Stack(I, level=level, delay=delay, backend=S.backend, api='CacheTagging')
        F.tx('begin')
        F.invalidate(tuple(tags), version)
        if clock is not None:
            clock.now += 1
        if state == 'released':
            F.tx('finish')
    return F


@scenario('C03')
def locked_tag(I):
    clock = Clock(I)
    level = I.pick('level', ('REPEATABLE READ', 'SERIALIZABLE'))
    api = I.pick('interface', ('CacheTagging', 'CacheWrapper'))
    version = I.pick('version', (None, V1))
    S = Stack(I, level=level, api=api, delay=0)
    t1, t2, t3 = tags_(3)
    state = I.pick('other session', ('none', 'acquired', 'released with delay', 'released long ago'))
    which = I.pick('locked tags', ((t1,), (t2,), (t1, t2)))
    where = I.pick('its place', ('own', 'inherited'))
    if state != 'none':
        _foreign(I, S, which, version, level, 10, state.split()[0], clock)
    clock.now += {'none': 0, 'acquired': 3, 'released with delay': 3, 'released long ago': 50}[state]
    tx = I.pick('in transaction', (False, True))
    if tx:
        S.tx('begin')
    clock.now += 1
    V = sym('value', object)
    locked = state in ('acquired', 'released with delay')
    k0, k1 = keys_(2)
    own = (t1, t2)
    if where == 'inherited':
        S.do('get', k0, None, version)
        S.do('get', k1, None, version)
        n = len(S.backend.log)
        quiet(I, lambda: S.set(k1, sym('nested', object), which, None, version), 'no-error', 'set of an entry with a locked tag fails')
        I.require(bool(entry_writes(S, k1, n)) == (not locked), 'skipped-iff-locked', 'a nested entry is %s' % ('stored although its tag is locked' if locked else 'not stored although none of its tags is locked'))
        own = tuple(t for t in own if t not in which)
    n = len(S.backend.log)
    quiet(I, lambda: S.set(k0, V, own, None, version), 'no-error', 'set of an entry with a locked tag fails')
    w = S.backend.writes(n)
    if locked:
        I.require(not entry_writes(S, k0, n), 'not-stored-while-locked', 'an entry is stored although its %s tag is locked by another session' % where)
        for t in (t1, t2):
            I.require(not tag_ops(S, t, w), 'no-version-while-locked', 'a version is created for a tag of the locked dependency')
        I.require(S.do('get', k0, None, version) is None, 'not-stored-while-locked', 'the entry is readable although its tag was locked at the time of set')
    else:
        I.require(len(entry_writes(S, k0, n)) == 1, 'stored-when-unlocked', 'an entry none of whose tags is locked is not written exactly once')
        _carries(I, S, k0, (t1, t2), version, V)


@scenario('C03')
def locked_part(I):
    """Part of a composite is locked, others are of a kind the library does not know."""
    Clock(I)
    S = Stack(I, level='REPEATABLE READ', api='CacheWrapper')
    t1, t2 = tags_(2)
    ns = client(I, LOCKED)
    which = I.pick('locked', ('none', 'tag', 'own', 'both'))
    own = I.call(ns['OwnDependency'], [which in ('own', 'both')], {})
    if which in ('tag', 'both'):
        _foreign(I, S, [t1], V1, 'REPEATABLE READ', 0, 'acquired')
    parts = (tags_dep(I, t1, t2), own)
    dep = composite(I, *(parts if I.pick('order', (0, 1)) else parts[::-1]))
    n = len(S.backend.log)
    quiet(I, lambda: S.do('set', KEY, sym('value', object), dep, None, V1), 'no-error', 'set of an entry with a locked part fails')
    I.require(len(entry_writes(S, KEY, n)) == (which == 'none'), 'skipped-iff-locked', 'an entry is %s' % ('not stored although nothing is locked' if which == 'none' else 'stored although a part of its dependency is locked'))


LOCKED = '''
from cache_dependencies import interfaces, exceptions

class OwnDependency(interfaces.IDependency):
    def __init__(self, locked):
        self.locked = locked
    def evaluate(self, cache, transaction, version):
        if self.locked:
            raise exceptions.DependencyLocked(self, ('own',))
    def extend(self, other):
        return False
    def __copy__(self):
        return self
'''


@scenario('C03')
def lock_of_other_version(I):
    """A lock holds for the cache version it was taken under only."""
    Clock(I)
    S = Stack(I, level='REPEATABLE READ', api='CacheTagging')
    t, = tags_(1)
    _foreign(I, S, [t], V2, 'REPEATABLE READ', 0, 'acquired')
    S.set(KEY, sym('value', object), (t,), None, V1)
    I.require(len(entry_writes(S, KEY)) == 1, 'stored-when-unlocked', 'a lock taken under another cache version prevents a store')


@scenario('C03')
def own_lock_does_not_block(I):
    Clock(I)
    S = Stack(I, level=I.pick('level', ('REPEATABLE READ', 'SERIALIZABLE')), delay=I.pick('delay', (0, 10)), api='CacheTagging')
    t, = tags_(1)
    S.tx('begin')
    S.invalidate((t,), V1)
    if I.pick('transaction', ('open', 'finished')) == 'finished':
        S.tx('finish')
    S.set(KEY, sym('value', object), (t,), None, V1)
    I.require(len(entry_writes(S, KEY)) == 1, 'stored-when-unlocked', 'the own marks of a session prevent its store')


@scenario('C03')
def failing_store(I):
    """The underlying cache fails during a store: this is not taken for a lock, and the entry is not under generation any more."""
    Clock(I)
    S = Stack(I, level=I.pick('level', ('READ COMMITTED', 'REPEATABLE READ')), api=I.pick('interface', ('CacheTagging', 'CacheWrapper')))
    k0, k1 = keys_(2)
    t0, t1, t2 = tags_(3)
    known = I.pick('tag', ('without version', 'with version'))
    if known == 'with version':
        S.set(sym('another', str), sym('value0', object), (t1,), None, V1)
    S.do('get', k0, None, V1)
    inherited = I.pick('inherited tags', (False, True))
    S.do('get', k1, None, V1)
    if inherited:
        S.set(sym('nested', str), sym('value1', object), (t2,), None, V1)
    err = I.pick('error', (AnyError('of the cache'), KeyboardInterrupt()))
    at = I.pick('fails at operation', (1, 2, 3, 4))
    count = [0]

    def boom(o):
        count[0] += 1
        if count[0] == at:
            S.backend.fail = None
            I.throw(err)
    S.backend.fail = boom
    n = len(S.backend.log)
    r, e = attempt(I, lambda: S.set(k1, sym('value', object), (t1,), None, V1))
    if S.backend.fail is not None:      # fewer operations than that
        S.backend.fail = None
        I.require(e is None and len(entry_writes(S, k1, n)) == 1, 'stored-when-unlocked', 'an entry of which nothing is locked is not stored exactly once')
    else:
        I.require(e is err, 'failure-is-no-lock', 'an error of the underlying cache in a store does not reach the caller')
    c = S.current()
    I.require(c is not None and same(c, k0), 'store-ends-tracking', 'an entry whose store failed is left under generation')


@scenario('C03')
def get_or_set_locked(I):
    Clock(I)
    S = Stack(I, level='REPEATABLE READ', api=I.pick('interface', ('CacheTagging', 'CacheWrapper')))
    t, = tags_(1)
    _foreign(I, S, [t], V1, 'REPEATABLE READ', 0, 'acquired')
    V = sym('value', object)
    r = quiet(I, lambda: S.get_or_set(KEY, Callback(I, 'callback', V), (t,), None, V1), 'no-error', 'get_or_set_callback of an entry with a locked tag fails')
    I.require(same(r, V), 'value-returned', 'get_or_set_callback does not return the computed value when the tag is locked')
    I.require(not entry_writes(S, KEY), 'not-stored-while-locked', 'get_or_set_callback stores an entry whose tag is locked')


# ---------------------------------------------------------------- C04

def _depends(I, S, key, tags, others, version, V, what):
    """The stored entry depends on exactly the given tags."""
    I.require(same(S.do('get', key, None, version, True), V), 'stored-entry-readable', '%s is not returned after it was stored' % what)
    for t, yes in [(t, True) for t in tags] + [(t, False) for t in others]:
        k = (version, tag_key(I, t))
        old = S.backend.store.get(k, ABSENT)
        disturb(S, t, version, 'new')
        r = S.do('get', key, None, version, True)
        S.backend.store[k] = old
        if yes:
            I.require(r is None, 'dependency-inherited', '%s does not depend on %s' % (what, show(t)))
        else:
            I.require(same(r, V), 'no-foreign-dependency', '%s depends on %s of an entry that is not nested in it' % (what, show(t)))


@scenario('C04')
def three_levels(I):
    api = I.pick('interface', APIS)
    S = Stack(I, api=api)
    version = I.pick('version', (None, V1))
    k0, k1, k2, k3 = keys_(4)
    t0, t1, t2, t3 = tags_(4)
    v0, v1, v2, v3 = values_(4)
    mode = I.pick('innermost entry', ('stored', 'hit', 'hit in bulk', 'missed in bulk and stored', 'locked', 'computed'))
    if mode.startswith('hit'):
        S.set(k2, v2, (t2,), None, version)
        if mode == 'hit in bulk':
            S.set(k3, v3, (t3,), None, version)
    S.do('get', k0, None, version)
    S.do('get', k1, None, version)
    inner = [t2]
    if mode == 'stored':
        S.do('get', k2, None, version)
        S.set(k2, v2, (t2,), None, version)
    elif mode == 'hit':
        I.require(same(S.do('get', k2, None, version), v2), 'stored-entry-readable', 'the nested entry is not returned')
    elif mode == 'hit in bulk':
        S.do('get_many', [k2, k3], version)
        inner = [t2, t3]
    elif mode == 'missed in bulk and stored':
        S.do('get_many', [k2, k3], version)
        for k, v, t in I.pick('order', (((k2, v2, t2), (k3, v3, t3)), ((k3, v3, t3), (k2, v2, t2)))):
            S.set(k, v, (t,), None, version)
        inner = [t2, t3]
    elif mode == 'computed':
        S.get_or_set(k2, Callback(I, 'callback', v2), (t2,), None, version)
    elif mode == 'locked':
        S.do('get', k2, None, version)
        S.backend.fail = None
        lock = S.transaction
        # the innermost store is skipped: its dependency refuses once
        ns = client(I, ONCE)
        dep = I.call(ns['OnceLocked'], [t2], {})
        S.do('set', k2, v2, dep, None, version)
        I.require(not entry_writes(S, k2), 'skipped-iff-locked', 'a locked entry is stored')
    S.set(k1, v1, (t1,), None, version)
    S.set(k0, v0, (t0,), None, version)
    if mode == 'locked':
        I.attempted = True
    _depends(I, S, k1, [t1] + inner, [t0], version, v1, 'the enclosing entry')
    _depends(I, S, k0, [t0, t1] + inner, [], version, v0, 'the outermost entry')
    if mode in ('stored', 'hit', 'computed'):
        _depends(I, S, k2, [t2], [t0, t1], version, v2, 'the nested entry')


ONCE = '''
from cache_dependencies import dependencies, exceptions

class OnceLocked(dependencies.TagsDependency):
    """Tags which are locked when they are evaluated for the first time."""
    counter = [0]
    def evaluate(self, cache, transaction, version):
        self.counter[0] += 1
        if self.counter[0] == 1:
            raise exceptions.TagsLocked(self, self.tags)
        return super(OnceLocked, self).evaluate(cache, transaction, version)
'''


@scenario('C04')
def nested_computations(I):
    """Nested get_or_set_callback calls."""
    S = Stack(I, api=I.pick('interface', APIS))
    version = I.pick('version', (None, V1))
    k0, k1, k2 = keys_(3)
    t0, t1, t2 = tags_(3)
    v0, v1, v2 = values_(3)
    pre = I.pick('innermost', ('absent', 'present', 'stale', 'None'))
    if pre in ('present', 'stale'):
        S.set(k2, v2, (t2,), None, version)
        if pre == 'stale':
            disturb(S, t2, version, 'gone')
    elif pre == 'None':
        S.set(k2, None, (), None, version)

    def c1():
        S.get_or_set(k2, Callback(I, 'inner', v2), (t2,), None, version)

    def c0():
        S.get_or_set(k1, Callback(I, 'middle', v1, run=c1), (t1,), None, version)
    S.get_or_set(k0, Callback(I, 'outer', v0, run=c0), (t0,), None, version)
    _depends(I, S, k0, [t0, t1, t2], [], version, v0, 'the outermost entry')
    _depends(I, S, k1, [t1, t2], [t0], version, v1, 'the enclosing entry')
    _depends(I, S, k2, [t2], [t0, t1], version, v2, 'the nested entry')


@scenario('C04')
def computed_nothing(I):
    """A computation with an empty result is nested like every other one."""
    S = Stack(I, api=I.pick('interface', APIS))
    version = I.pick('version', (None, V1))
    k0, k1, k2 = keys_(3)
    t0, t1, t2 = tags_(3)
    v0, v2 = values_(2)
    empty = I.pick('computed', (None, False, 0, '', ()))
    inside = I.pick('inside of it', ('nothing', 'stored entry'))
    kind = I.pick('enclosing entry', ('computed', 'stored'))
    if I.pick('stored before', ('nothing', 'None')) == 'None':
        S.set(k1, None, (), None, version)

    def run():
        if inside == 'stored entry':
            S.do('get', k2, None, version)
            S.set(k2, v2, (t2,), None, version)

    def nested():
        S.get_or_set(k1, Callback(I, 'callback', empty, run=run), (t1,), None, version)
    if kind == 'computed':
        S.get_or_set(k0, Callback(I, 'outer', v0, run=nested), (t0,), None, version)
    else:
        S.do('get', k0, None, version)
        nested()
        S.set(k0, v0, (t0,), None, version)
    tags, others = ([t0, t1, t2], []) if inside == 'stored entry' else ([t0, t1], [t2])
    _depends(I, S, k0, tags, others, version, v0, 'the enclosing entry')
    if inside == 'stored entry':
        _depends(I, S, k1, [t1, t2], [t0], version, empty, 'the computed entry')


@scenario('C04')
def siblings(I):
    S = Stack(I, api=I.pick('interface', APIS))
    k0, k1, k2, k3 = keys_(4)
    t0, t1, t2, t3 = tags_(4)
    v0, v1, v2, v3 = values_(4)
    order = I.pick('shape', ('sequence', 'first hit', 'deep then flat'))
    if order == 'first hit':
        S.set(k1, v1, (t1,), None, V1)
    S.do('get', k0, None, V1)
    S.do('get', k1, None, V1)
    if order == 'deep then flat':
        S.do('get', k3, None, V1)
        S.set(k3, v3, (t3,), None, V1)
    if order != 'first hit':
        S.set(k1, v1, (t1,), None, V1)
    S.do('get', k2, None, V1)
    S.set(k2, v2, (t2,), None, V1)
    S.set(k0, v0, (t0,), None, V1)
    deep = [t3] if order == 'deep then flat' else []
    _depends(I, S, k0, [t0, t1, t2] + deep, [], V1, v0, 'the enclosing entry')
    _depends(I, S, k2, [t2], [t0, t1] + deep, V1, v2, 'a sibling')
    _depends(I, S, k1, [t1] + deep, [t0, t2], V1, v1, 'a sibling')


@scenario('C04')
def per_cache_version(I):
    """Dependencies are inherited under the cache version they were used with."""
    S = Stack(I, api=I.pick('interface', APIS))
    k0, k1, k2 = keys_(3)
    t0, t1, t2 = tags_(3)
    v0, v1, v2 = values_(3)
    a, b = I.pick('versions', ((V1, V2), (None, V1), (V1, None)))
    how = I.pick('nested entry', ('stored', 'hit'))
    if how == 'hit':
        S.set(k1, v1, (t1,), None, b)
        S.set(k2, v2, (t2,), None, a)
    S.do('get', k0, None, a)
    S.do('get', k1, None, b)
    if how == 'stored':
        S.set(k1, v1, (t1,), None, b)
    S.do('get', k2, None, a)
    if how == 'stored':
        S.set(k2, v2, (t2,), None, a)
    S.set(k0, v0, (t0,), None, a)
    _depends(I, S, k0, [t0, t2], [t1], a, v0, 'the enclosing entry')
    I.require(same(S.do('get', k1, None, b, True), v1), 'stored-entry-readable', 'the nested entry of the other cache version is not returned')


@scenario('C04')
def stored_without_read(I):
    """An entry stored inside of the generation of another one without having been read before."""
    S = Stack(I, api=I.pick('interface', APIS))
    k0, k1 = keys_(2)
    t0, t1 = tags_(2)
    v0, v1 = values_(2)
    S.do('get', k0, None, V1)
    S.set(k1, v1, (t1,), None, V1)
    S.set(k0, v0, (t0,), None, V1)
    _depends(I, S, k0, [t0, t1], [], V1, v0, 'the enclosing entry')


@scenario('C04')
def not_inherited_later(I):
    """What is used after an entry was finished does not become its dependency, and a second generation starts afresh."""
    S = Stack(I, api=I.pick('interface', APIS))
    k0, k1, k2 = keys_(3)
    t0, t1, t2 = tags_(3)
    v0, v1, v2 = values_(3)
    S.do('get', k0, None, V1)
    S.do('get', k1, None, V1)
    S.set(k1, v1, (t1,), None, V1)
    S.set(k0, v0, (t0,), None, V1)
    S.do('get', k2, None, V1)
    S.set(k2, v2, (t2,), None, V1)
    disturb(S, t0, V1, 'gone')
    S.do('get', k0, None, V1)
    S.set(k0, v0, (t0,), None, V1)
    _depends(I, S, k0, [t0], [t1, t2], V1, v0, 'the entry generated again')


@scenario('C04')
def dependency_object_inherited(I):
    """All parts of a dependency object reach the enclosing entry."""
    S = Stack(I, api='CacheWrapper')
    k0, k1 = keys_(2)
    t0, t1, t2 = tags_(3)
    v0, v1 = values_(2)
    ns = client(I, CUSTOM)
    own = I.call(ns['OwnDependency'], [], {})
    dep = I.pick('dependency', (composite(I, tags_dep(I, t1), tags_dep(I, t2)), composite(I, own, tags_dep(I, t1), dummy_dep(I), tags_dep(I, t2)),
                                composite(I, composite(I, tags_dep(I, t1)), composite(I, dummy_dep(I), tags_dep(I, t2)))))
    S.do('get', k0, None, V1)
    S.do('get', k1, None, V1)
    S.do('set', k1, v1, dep, None, V1)
    S.do('set', k0, v0, tags_dep(I, t0), None, V1)
    _depends(I, S, k0, [t0, t1, t2], [], V1, v0, 'the enclosing entry')


# ---------------------------------------------------------------- C05

def _cur(I, S, key, what):
    c = S.current()
    I.require(c is None if key is None else c is not None and same(c, key), 'innermost-entry',
              '%s: %s is under generation as the innermost entry, expected %s' % (what, show(c), show(key)))


@scenario('C05')
def begin_and_end(I):
    S = Stack(I, api=I.pick('interface', APIS))
    k0, k1 = keys_(2)
    t0, t1 = tags_(2)
    v0, v1 = values_(2)
    outer = I.pick('enclosing entry', (False, True))
    base = None
    if outer:
        S.do('get', k0, None, V1)
        _cur(I, S, k0, 'after a miss')
        base = k0
    op = I.pick('operation', ('miss', 'hit', 'stale', 'bulk', 'opt out', 'ignore', 'ignore bulk', 'opt out bulk', 'compute', 'compute hit'))
    if op in ('hit', 'stale', 'compute hit'):
        S2 = S
        S.set(k1, v1, (t1,), None, V1)
        _cur(I, S, base, 'after a store of an entry that was not read')
        if op == 'stale':
            disturb(S, t1, V1, 'new')
    if op in ('miss', 'stale'):
        S.do('get', k1, None, V1)
        _cur(I, S, k1, 'after a missed read')
        end = I.pick('end', ('set', 'abort', 'close', 'hit', 'set outer first'))
        if end == 'set':
            S.set(k1, v1, (t1,), None, V1)
            _cur(I, S, base, 'after the store')
        elif end == 'abort':
            S.do('abort', k1)
            _cur(I, S, base, 'after abort')
        elif end == 'close':
            S.do('close')
            _cur(I, S, None, 'after close')
        elif end == 'hit':
            S.backend.store[(V1, k1)] = v1
            I.require(same(S.do('get', k1, None, V1), v1), 'stored-entry-readable', 'plain value not returned')
            _cur(I, S, base, 'after a hit of the entry under generation')
        elif outer:
            S.set(k0, v0, (t0,), None, V1)
            _cur(I, S, k1, 'after the store of an entry that is not innermost')
    elif op == 'hit':
        S.do('get', k1, None, V1)
        _cur(I, S, base, 'after a hit')
    elif op == 'bulk':
        S.do('get_many', [k1], V1)
        _cur(I, S, base, 'after a missed bulk read')
        S.set(k1, v1, (t1,), None, V1)
        _cur(I, S, base, 'after the store of an entry missed in bulk')
    elif op == 'opt out':
        S.do('get', k1, None, V1, True)
        _cur(I, S, base, 'after a missed read that opted out')
    elif op == 'opt out bulk':
        S.do('get_many', [k1], V1, True)
        _cur(I, S, base, 'after a missed bulk read that opted out')
    elif op.startswith('ignore'):
        I.setattr(S.cache, 'ignore_descendants', True)
        if op == 'ignore':
            S.do('get', k1, None, V1)
        else:
            S.do('get_many', [k1], V1)
        _cur(I, S, base, 'after a missed read of a cache that opted out')
        S.get_or_set(k1, Callback(I, 'callback', v1, run=lambda: _cur(I, S, base, 'during the computation for a cache that opted out')), (), None, V1)
        _cur(I, S, base, 'after get_or_set_callback of a cache that opted out')
    else:
        S.get_or_set(k1, Callback(I, 'callback', v1, run=lambda: _cur(I, S, k1, 'during the computation')), (t1,), None, V1)
        _cur(I, S, base, 'after get_or_set_callback')
    if outer and op not in ('miss', 'stale') and S.current() is not None:
        S.set(k0, v0, (t0,), None, V1)
        _cur(I, S, None, 'after the store of the outermost entry')


@scenario('C05')
def opted_out_leaves_nothing(I):
    """A read which opted out starts nothing: what follows is not taken for a descendant of it."""
    S = Stack(I, api=I.pick('interface', APIS))
    k0, k1, k2 = keys_(3)
    t0, t1, t2 = tags_(3)
    v0, v1, v2 = values_(3)
    how = I.pick('opted out', ('call', 'bulk call', 'cache', 'bulk cache'))
    S.do('get', k0, None, V1)
    if how == 'call':
        S.do('get', k1, None, V1, True)
    elif how == 'bulk call':
        S.do('get_many', [k1], V1, True)
    else:
        I.setattr(S.cache, 'ignore_descendants', True)
        S.do('get', k1, None, V1) if how == 'cache' else S.do('get_many', [k1], V1)
        I.setattr(S.cache, 'ignore_descendants', False)
    S.do('get', k2, None, V1)
    _cur(I, S, k2, 'after a miss')
    S.set(k2, v2, (t2,), None, V1)
    _cur(I, S, k0, 'after the store')
    S.do('abort', k0)
    S.set(k1, v1, (t1,), None, V1)
    _depends(I, S, k1, [t1], [t2], V1, v1, 'an entry whose read opted out')


@scenario('C05')
def abort_passes_nothing(I):
    S = Stack(I, api=I.pick('interface', APIS))
    k0, k1, k2 = keys_(3)
    t0, t1, t2 = tags_(3)
    v0, v1, v2 = values_(3)
    S.do('get', k0, None, V1)
    S.do('get', k1, None, V1)
    S.do('abort', k1)
    _cur(I, S, k0, 'after abort')
    again = I.pick('then', ('store outer', 'generate again'))
    if again == 'generate again':
        S.do('get', k1, None, V1)
        _cur(I, S, k1, 'after a miss of an aborted entry')
        S.set(k1, v1, (t1,), None, V1)
        _cur(I, S, k0, 'after the store')
    S.set(k0, v0, (t0,), None, V1)
    _cur(I, S, None, 'after the store of the outermost entry')
    _depends(I, S, k0, [t0] + ([t1] if again == 'generate again' else []), [t2], V1, v0, 'the enclosing entry')


@scenario('C05')
def unknown_key_ends_nothing(I):
    """Ending an entry which is not under generation leaves the others alone."""
    S = Stack(I, api=I.pick('interface', APIS))
    k0, k1 = keys_(2)
    S.do('get', k0, None, V1)
    quiet(I, lambda: S.do('abort', k1), 'no-error', 'abort of an entry that is not under generation fails')
    _cur(I, S, k0, 'after abort of another entry')
    S.set(k1, sym('value', object), (), None, V1)
    _cur(I, S, k0, 'after the store of an entry that was not read')


@scenario('C05')
def failing_computation(I):
    S = Stack(I, api=I.pick('interface', APIS))
    k0, k1, k2 = keys_(3)
    t0, t1, t2 = tags_(3)
    v0, v2 = sym('value0', object), sym('value2', object)
    err = I.pick('error', (AnyError('failed'), KeyboardInterrupt(), SystemExit()))
    outer = I.pick('enclosing entry', (False, True))
    base = None
    pre = I.pick('computed entry', ('absent', 'None', 'stale'))
    if pre == 'None':
        S.backend.store[(V1, k1)] = None
    elif pre == 'stale':
        S.set(k1, v2, (t1,), None, V1)
        disturb(S, t1, V1, 'gone')
    if outer:
        S.do('get', k0, None, V1)
        base = k0
    n = len(S.backend.log)
    nested = I.pick('before the failure', ('nothing', 'nested entry', 'nested miss'))

    def run():
        if nested != 'nothing':
            S.do('get', k2, None, V1)
        if nested == 'nested entry':
            S.set(k2, v2, (t2,), None, V1)
        if nested == 'nested miss':
            S.do('abort', k2)
    r, e = attempt(I, lambda: S.get_or_set(k1, Callback(I, 'callback', exc=err, run=run), (t1,), None, V1))
    I.require(e is err, 'error-passed-on', 'the error of the computation does not reach the caller unchanged')
    _cur(I, S, base, 'after a failed computation')
    I.require(not entry_writes(S, k1, n), 'nothing-stored-on-failure', 'an entry is stored although its computation failed')
    if outer:
        S.set(k0, v0, (t0,), None, V1)
        _cur(I, S, None, 'after the store of the outermost entry')
        I.require(same(S.do('get', k0, None, V1, True), v0), 'stored-entry-readable', 'the enclosing entry is not returned')
        disturb(S, t1, V1, 'new')
        I.require(same(S.do('get', k0, None, V1, True), v0), 'abort-passes-nothing', 'the enclosing entry depends on tags of an entry whose computation failed')
    S.do('get', k1, None, V1)
    _cur(I, S, k1, 'after a missed read')
    S.set(k1, v2, (t1,), None, V1)
    _cur(I, S, None, 'after the store of the entry which failed before')
    _depends(I, S, k1, [t1], [t2], V1, v2, 'the entry generated again after a failure')


@scenario('C05')
def failing_read(I):
    """The underlying cache fails during a read: the error reaches the caller, and nothing is left under generation."""
    S = Stack(I, api=I.pick('interface', APIS))
    k0, k1, k2, k3 = keys_(4)
    t0, t1, t2, t3 = tags_(4)
    v0, v1, v2, v3 = values_(4)
    op = I.pick('operation', ('get', 'get_many', 'compute', 'get, opted out', 'get_many, opted out'))
    known = I.pick('stored before', ((), (k1,)))
    if k1 in known:
        S.set(k1, v1, (t1,), None, V1)
    outer = I.pick('enclosing entries', (0, 1, 2))
    base = None
    for k in (k0, k3)[:outer]:
        S.do('get', k, None, V1)
        base = k
    err = I.pick('error', (AnyError('of the cache'), KeyboardInterrupt()))
    at = I.pick('fails at read', (1, 2))
    count = [0]

    def boom(o):
        if o.op == 'get':
            count[0] += 1
            if count[0] == at:
                S.backend.fail = None
                I.throw(err)
    S.backend.fail = boom
    n = len(S.backend.log)
    f = Callback(I, 'callback', v1)
    if op == 'compute':
        r, e = attempt(I, lambda: S.get_or_set(k1, f, (t1,), None, V1))
    elif op.startswith('get_many'):
        r, e = attempt(I, lambda: S.do('get_many', [k1, k2], V1, op.endswith('out')))
    else:
        r, e = attempt(I, lambda: S.do('get', k1, None, V1, op.endswith('out')))
    if S.backend.fail is not None or f.calls:   # fewer reads than that, or it failed in the store
        S.backend.fail = None
        return
    I.require(e is err, 'error-passed-on', 'an error of the underlying cache in a read does not reach the caller')
    _cur(I, S, base, 'after a read that failed')
    I.require(not entry_writes(S, k1, n), 'nothing-stored-on-failure', 'an entry is stored although its read failed')
    S.set(k1, v1, (t1,), None, V1)
    _cur(I, S, base, 'after the store of an entry whose read failed')
    for k, v, t, b in ((k3, v3, t3, k0), (k0, v0, t0, None))[2 - outer:]:
        S.set(k, v, (t,), None, V1)
        _cur(I, S, b, 'after the store of an enclosing entry')
    _depends(I, S, k1, [t1], [t0, t2, t3], V1, v1, 'an entry whose read failed')
    if outer:
        _depends(I, S, k0, [t0, t1], [t2], V1, v0, 'the entry enclosing a read that failed')


@scenario('C05')
def close_ends_all(I):
    S = Stack(I, level=I.pick('level', ('READ COMMITTED', 'REPEATABLE READ')), api=I.pick('interface', APIS))
    k0, k1 = keys_(2)
    t0, t1 = tags_(2)
    v0, v1 = values_(2)
    S.do('get', k0, None, V1)
    S.do('get', k1, None, V1)
    fail = I.pick('end of the transaction', ('none', 'works', 'fails'))
    if fail != 'none':
        S.tx('begin')
        S.invalidate((t1,), V1)
    if fail == 'fails':
        def boom(o):
            if o.op in ('set', 'delete'):
                S.backend.fail = None
                I.throw(AnyError('backend'))
        S.backend.fail = boom
    r, e = attempt(I, lambda: S.do('close'))
    if fail != 'fails':
        I.require(e is None, 'no-error', 'close fails')
    S.backend.fail = None
    _cur(I, S, None, 'after close')
    S.set(k1, v1, (t1,), None, V1)
    S.set(k0, v0, (t0,), None, V1)
    _depends(I, S, k0, [t0], [t1], V1, v0, 'an entry stored after close')


@scenario('C05')
def store_in_bulk_order(I):
    """Entries missed in bulk are stored in any order: each has the entry as parent in which the bulk read was made."""
    S = Stack(I, api=I.pick('interface', APIS))
    k0, k1, k2 = keys_(3)
    t0, t1, t2 = tags_(3)
    v0, v1, v2 = values_(3)
    S.do('get', k0, None, V1)
    S.do('get_many', [k1, k2], V1)
    _cur(I, S, k0, 'after a missed bulk read')
    for k, v, t in I.pick('order', (((k1, v1, t1), (k2, v2, t2)), ((k2, v2, t2), (k1, v1, t1)))):
        S.set(k, v, (t,), None, V1)
        _cur(I, S, k0, 'after the store of an entry missed in bulk')
    S.set(k0, v0, (t0,), None, V1)
    _cur(I, S, None, 'after the store of the outermost entry')
    _depends(I, S, k1, [t1], [t2, t0], V1, v1, 'an entry missed in bulk')
    _depends(I, S, k2, [t2], [t1, t0], V1, v2, 'an entry missed in bulk')
    _depends(I, S, k0, [t0, t1, t2], [], V1, v0, 'the enclosing entry')
