"""C14 and C15: keys of tags; the cache version of the caller."""
from .base import *
from ..engine import clash
from .threads import carried, LOSSLESS
from .locking import mark_keys, one, LOCKING

CONCRETE = ('', ' ', 'a', 'A', 'a ', ' a', 'a.b', 'ab', 'a:b', 'b:a', '{0}', '%s', '{}', '%', 'x' * 300, 'x' * 301, 'e', '\u00e9', '\u044f', '\u4e2d', 'tag_a', 'a\n', 'a_b', 'a-b', '1.0', '10', '0', 'a%20b', 'a+b')


def keys_of(I, tag, what='tag'):
    """The key of a tag as invalidation, locking or releasing uses it."""
    if what == 'tag':
        B = Backend(I)
        S = Stack(I, backend=B, api='CacheTagging')
        S.invalidate((tag,), V1)
        ks = [o.key for o in B.deletes()]
        I.require(len(ks) == 1, 'one-key', 'an invalidation of one tag deletes %d keys' % len(ks))
        return ks[0] if ks else sym('missing_key', str)
    a, r = mark_keys(I, tag)
    return one(I, a if what == 'acquired' else r, what)


KINDS = ('tag', 'acquired', 'released')


def parts(k):
    return k.args if isinstance(k, T) and k.op == 'fmt' else (k,)


@scenario('C14')
def form(I):
    """For any tag: only the name goes in, completely; the result has a fixed length and safe characters."""
    kind = I.pick('kind', KINDS)
    ty = I.pick('type of the tag', (str, int, object))
    tag = sym('tag', ty)
    k = keys_of(I, tag, kind)
    n = 0
    sizes = {'md5': 32, 'sha1': 40, 'sha224': 56, 'sha256': 64, 'sha384': 96, 'sha512': 128, 'blake2b': 128, 'blake2s': 64}
    for p in parts(k):
        if isinstance(p, str):
            n += len(p)
            I.require(all(33 <= ord(c) < 127 for c in p), 'safe-characters', 'the key of a tag contains characters which are not safe for all backends: %s' % show(k))
        else:
            I.require(isinstance(p, T) and p.op == 'hex', 'fixed-length', 'the length or the characters of the key of a tag depend on its name: %s' % show(k))
            n += sizes.get(p.args[0], 64) if isinstance(p, T) and p.op == 'hex' else 0
    I.require(n <= 250, 'fixed-length', 'the key of a tag is longer than backends accept')
    base = carried(k)
    I.require(any(tag in set(x for x in subterms(b) if isinstance(x, T)) and (same(b, tag) or b.op in ('str', 'repr')) for b in base), 'complete-name',
              'the key of a tag does not carry its complete name: %s' % show(k))
    I.require(all(same(x, tag) or x.op in ('str', 'repr') and all(same(y, tag) for y in x.args if isinstance(y, T)) for x in base), 'only-name',
              'the key of a tag depends on something else than its name: %s' % show(k))


@scenario('C14')
def stable(I):
    """The same key at any time, in any thread, process and host."""
    clock = Clock(I, 1000.0)
    kind = I.pick('kind', KINDS)
    tag = I.pick('tag', (sym('tag', str), sym('tag', object), 'name', 7))
    first = keys_of(I, tag, kind)
    for place in (dict(), dict(thread='T2'), dict(process='P2'), dict(host='H2', process='P3', thread='T3')):
        with As(I, **place):
            clock.now += 1000.0
            I.require(same(keys_of(I, tag, kind), first), 'same-everywhere', 'the key of a tag is another one in another thread, process or at another time')
    # also in a process that starts anew
    J = dict(I.mods)
    for m in list(I.mods):
        if m.split('.')[0] in ('cache_dependencies', 'django_cache_dependencies', 'cache_tagging'):
            del I.mods[m]
    with As(I, process='P9', thread='T9'):
        k = keys_of(I, tag, kind)
    I.mods.clear()
    I.mods.update(J)
    I.require(same(k, first), 'same-everywhere', 'the key of a tag is another one after a restart')


@scenario('C14')
def distinct_names(I):
    kind = I.pick('kind', KINDS)
    ks = []
    for c in CONCRETE:
        k = quiet(I, lambda: keys_of(I, c, kind), 'any-name', 'the name %r is refused as a tag' % c[:20])
        ks.append((c, k))
    for i in range(len(ks)):
        for j in range(i):
            I.require(not same(ks[i][1], ks[j][1]), 'distinct-names', 'two tags have the same key: %r and %r' % (ks[j][0][:20], ks[i][0][:20]))
    t1, t2 = tags_(2)
    I.require(not same(keys_of(I, t1, kind), keys_of(I, t2, kind)), 'distinct-names', 'all tags have the same key')


@scenario('C14')
def other_types(I):
    """Numbers and other objects as tags act like their text."""
    for c in (0, 1, -1, 10 ** 30, True, None, 1.5, b'bytes'):
        k = quiet(I, lambda: keys_of(I, c), 'any-name', 'the object %r is refused as a tag' % (c,))
        I.require(same(k, keys_of(I, c)), 'same-everywhere', 'the key of a tag is not stable')


@scenario('C14')
def kinds_apart(I):
    """Version keys, acquire keys and release keys never coincide, not even those of different tags."""
    t1, t2 = tags_(2)
    for a in range(3):
        for b in range(a):
            for x, y in ((t1, t1), (t1, t2), (t1, 'released_x'), ('acquired_x', t1)):
                k, l = keys_of(I, x, KINDS[a]), keys_of(I, y, KINDS[b])
                I.require(clash(k, l), 'kinds-apart', 'the %s key of one tag may be the %s key of another: %s, %s' % (KINDS[a], KINDS[b], show(k), show(l)))


@scenario('C14')
def library_version(I):
    """The key belongs to the version of the library."""
    tag = sym('tag', str)
    k1 = keys_of(I, tag)
    for m in list(I.mods):
        if m.split('.')[0] in ('cache_dependencies', 'django_cache_dependencies', 'cache_tagging'):
            del I.mods[m]
    p = I.import_module('cache_dependencies')
    if '__version__' not in p.ns:
        raise AnalysisError('anchor cache_dependencies.__version__ has vanished')
    old = p.ns['__version__']
    p.ns['__version__'] = tuple(old) + (9,) if isinstance(old, tuple) else old + '.9'
    I.require(not same(keys_of(I, tag), k1), 'library-version', 'the key of a tag is the same in another version of the library')


@scenario('C14')
def same_for_all_operations(I):
    """Reading, creating, invalidating, acquiring, releasing and the lock check use the same keys."""
    api = I.pick('interface', ('CacheTagging', 'CacheWrapper', 'django'))
    level = I.pick('level', ('READ COMMITTED', 'REPEATABLE READ', 'SERIALIZABLE'))
    tag = I.pick('tag', (sym('tag', str), sym('tag', int), 'name', 5))
    k, a, r = (keys_of(I, tag, w) for w in KINDS)
    version = V1
    S = Stack(I, level=level, api=api)

    def expect(what, ops, allowed, must):
        for o in ops:
            I.require(any(same(o.key, x) for x in allowed), 'same-key-everywhere', '%s uses another key for a tag: %s' % (what, show(o.key)), o.loc)
        for x in must:
            I.require(any(same(o.key, x) for o in ops), 'same-key-everywhere', '%s does not use the key of the tag' % what)
    S.do('get', KEY, None, version)
    n = len(S.backend.log)
    S.set(KEY, sym('value', object), (tag,), None, version)
    expect('the store', S.backend.reads(n), (k, a, r), (k, a, r))
    expect('the creation of a version', [o for o in S.backend.writes(n) if not same(o.key, KEY)], (k,), (k,))
    n = len(S.backend.log)
    S.do('get', KEY, None, version)
    expect('a read', [o for o in S.backend.reads(n) if not same(o.key, KEY)], (k,), (k,))
    n = len(S.backend.log)
    S.do('get_many', [KEY], version)
    expect('a bulk read', [o for o in S.backend.reads(n) if not same(o.key, KEY)], (k,), (k,))
    S.tx('begin')
    n = len(S.backend.log)
    S.invalidate((tag,), version)
    expect('an invalidation', S.backend.deletes(n), (k,), (k,))
    expect('an invalidation', S.backend.writes(n), (a,), (a,) if level in LOCKING else ())
    n = len(S.backend.log)
    S.tx('finish')
    expect('the end of a transaction', S.backend.deletes(n), (k,), (k,))
    expect('the end of a transaction', S.backend.writes(n), (r,), (r,) if level in LOCKING else ())


@scenario('C14')
def same_tag_in_all_forms(I):
    """A tag given alone, in a collection or in a dependency has the same key, whatever is with it."""
    t, o = sym('tag', str), sym('other_tag', str)
    k = keys_of(I, t)
    S = Stack(I, api='CacheTagging')
    form = I.pick('form', ([t], (t, o), [o, t], ASet([t, o]), ASet([t], True), 'dependency', 'composite'))
    if form == 'dependency':
        form = tags_dep(I, t, o)
    elif form == 'composite':
        form = composite(I, tags_dep(I, o), tags_dep(I, t))
    S.do('invalidate_tags', form)
    I.require(any(same(x.key, k) for x in S.backend.deletes()), 'same-key-everywhere', 'the key of a tag depends on the form it is given in')


# ---------------------------------------------------------------- C15

VERSIONS = (None, 0, V1, sym('cache_version', str))


def all_under(I, S, version, since, what):
    for o in S.backend.log[since:]:
        if o.op in ('clear', 'close'):
            continue
        I.require(same(o.version, version), 'version-of-caller', '%s: %s of %s under cache version %s instead of %s' % (what, o.op, 'the value' if same(o.key, KEY) else 'a tag or mark', show(o.version), show(version)), o.loc)


OPERATIONS = ('get', 'get_many', 'set', 'set, nothing given', 'set without tags', 'get_or_set', 'get_or_set, hit', 'invalidate', 'native set', 'delete', 'add', 'has_key', 'incr')


@scenario('C15')
def single_operations(I):
    """Every operation, alone, at any state of the tags."""
    api = I.pick('interface', ('CacheTagging', 'CacheWrapper', 'django'))
    level = I.pick('level', ('READ COMMITTED', 'REPEATABLE READ'))
    version = I.pick('version', VERSIONS)
    op = I.pick('operation', OPERATIONS)
    S = Stack(I, level=level, api=api)
    t1, t2 = tags_(2)
    v = sym('value', object)
    if op in ('get', 'get_many', 'get_or_set, hit', 'has_key') and I.pick('stored', (True, False)):
        S.set(KEY, v, (t1, t2), None, version)
        if I.pick('tag', ('valid', 'gone')) == 'gone':
            disturb(S, t1, version, 'gone')
    if op == 'incr':
        S.backend.store[(version, KEY)] = 5
    if I.pick('transaction', (False, True)):
        S.tx('begin')
    n = len(S.backend.log)
    if op == 'get':
        S.do('get', KEY, None, version) if I.pick('call', ('positional', 'keyword')) == 'positional' else S.do('get', KEY, version=version)
    elif op == 'get_many':
        S.do('get_many', [KEY], version) if I.pick('call', ('positional', 'keyword')) == 'positional' else S.do('get_many', [KEY], version=version)
    elif op == 'set':
        S.set(KEY, v, (t1, t2), sym('timeout', int), version)
    elif op == 'set, nothing given':
        S.do('set', KEY, v, version=version)
    elif op == 'set without tags':
        S.set(KEY, v, (), 5, version)
    elif op.startswith('get_or_set'):
        S.get_or_set(KEY, Callback(I, 'compute', v), (t1, t2), 60, version)
    elif op == 'invalidate':
        S.invalidate((t1, t2), version)
    elif op == 'native set':
        if api == 'CacheWrapper':
            S.do('set', KEY, v, None, 60, version)
        else:
            S.do('set', KEY, v, 60, version)
    elif op == 'delete':
        S.do('delete', KEY, version)
    elif op == 'add':
        S.do('add', KEY, v, 60, version)
    elif op == 'has_key':
        S.do('has_key', KEY, version)
    elif op == 'incr':
        S.do('incr', KEY, 1, version)
    I.require(len(S.backend.log) > n, 'reaches-cache', '%s does not reach the underlying cache' % op)
    all_under(I, S, version, n, op)
    n = len(S.backend.log)
    S.tx('flush')
    S.finish_threads()
    all_under(I, S, version, n, 'the end of the transaction after ' + op)


@scenario('C15')
def transactions(I):
    """Locks, releases and repeated invalidations, delayed ones included."""
    api = I.pick('interface', ('CacheTagging', 'django'))
    level = I.pick('level', LEVELS)
    delay = I.pick('delay', (0, 5))
    a, b = I.pick('versions', ((None, V1), (V1, None), (0, None), (V1, 0), (V1, sym('other_version', str))))
    S = Stack(I, level=level, api=api, delay=delay)
    t1, t2 = tags_(2)
    of = {}
    for t, v in ((t1, a), (t2, b)):
        for k in [tag_key(I, t)] + [x for m in mark_keys(I, t) for x in m]:
            of[k] = v
    n = len(S.backend.log)
    S.tx('begin')
    S.invalidate((t1,), a)
    nested = I.pick('nested', (False, True))
    if nested:
        S.tx('begin')
    S.invalidate((t2,), b)
    if nested:
        S.tx('finish')
    S.set(KEY, sym('value', object), (t1,), None, a)
    S.tx('finish')
    S.finish_threads()
    for o in S.backend.log[n:]:
        v = a if same(o.key, KEY) else of.get(o.key, None)
        I.require(same(o.key, KEY) or o.key in of, 'version-of-caller', 'a key is used that belongs to no tag of the transaction: %s' % show(o.key), o.loc)
        I.require(same(o.version, v), 'version-of-caller', '%s of a tag or mark under cache version %s instead of %s' % (o.op, show(o.version), show(v)), o.loc)


@scenario('C15')
def tracking(I):
    """Dependencies are collected and stored by cache version."""
    api = I.pick('interface', ('CacheTagging', 'CacheWrapper'))
    outer, inner = I.pick('versions', ((None, None), (None, V1), (V1, None), (0, None), (None, 0), (V1, V1), (V1, V2), (0, 0)))
    if outer is V1 and inner is V2:
        I.require(True, 'version-of-caller', '')
        if I.eq(V1, V2):
            return
    how = I.pick('nested entry', ('stored', 'hit', 'bulk hit', 'computed'))
    k0, k1 = keys_(2)
    t0, t1 = tags_(2)
    S = Stack(I, api=api)
    if 'hit' in how:
        S.set(k1, sym('value1', object), (t1,), None, inner)
    S.do('get', k0, None, outer)
    if how == 'stored':
        S.do('get', k1, None, inner)
        S.set(k1, sym('value1', object), (t1,), None, inner)
    elif how == 'hit':
        S.do('get', k1, None, inner)
    elif how == 'bulk hit':
        S.do('get_many', [k1], inner)
    else:
        S.get_or_set(k1, Callback(I, 'compute', sym('value1', object)), (t1,), None, inner)
    n = len(S.backend.log)
    S.set(k0, sym('value0', object), (t0,), None, outer)
    for o in S.backend.log[n:]:
        I.require(same(o.version, outer), 'version-of-caller', 'a store under cache version %s uses %s' % (show(outer), show(o.version)), o.loc)
    w = entry_writes(S, k0, n)
    has = bool(w) and any(same(x, t1) for x in subterms(w[0].value))
    I.require(w and has == same(outer, inner), 'tracked-by-version', 'an entry under cache version %s %s the tags of a nested entry under %s' % (show(outer), 'gets' if has else 'does not get', show(inner)))
