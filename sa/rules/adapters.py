"""C23: derived operations of the cache adapter agree with its basic ones."""
from .base import *

ADAPTER = '''
from cache_dependencies.cache import AbstractCache


class Adapter(AbstractCache):
    """A cache of a client which has the basic operations only."""
    def __init__(self, store):
        self.store = store

    def get(self, key, default=None, version=None):
        return self.store.get(key, default, version)

    def set(self, key, value, timeout=None, version=None):
        return self.store.set(key, value, timeout, version)

    def add(self, key, value, timeout=None, version=None):
        return self.store.add(key, value, timeout, version)

    def delete(self, key, version=None):
        return self.store.delete(key, version)


class Versioned(Adapter):
    version = 7


class Prefixed(Adapter):
    def __init__(self, store, prefix, version):
        self.store, self.key_prefix, self.version = store, prefix, version


class OwnKeys(Prefixed):
    @staticmethod
    def key_func(key, key_prefix, version):
        return (key, key_prefix, version)


class OwnMembership(Adapter):
    def has_key(self, key, version=None):
        return self.store.custom_native(key, version)


def contains(cache, key):
    return key in cache


def lazily(items):
    for i in items:
        yield i
'''

PRESENT = {'value': lambda: sym('value', object), 'zero': lambda: 0, 'empty string': lambda: '', 'false': lambda: False, 'empty list': lambda: []}


class World(object):
    def __init__(self, I):
        self.I = I
        self.ns = client(I, ADAPTER)
        self.store = Backend(I)

    def make(self, name='Adapter', *a):
        return I_call(self.I, self.ns[name], [self.store] + list(a))

    def put(self, key, version, value):
        self.store.store[(version, key)] = value

    def keys(self, ks, form):
        return {'list': lambda: list(ks), 'tuple': lambda: tuple(ks), 'set': lambda: ASet(ks),
                'iterator': lambda: self.I.call(self.ns['lazily'], [list(ks)], {})}[form]()


def I_call(I, f, a):
    return I.call(f, a, {})


def versions(I):
    """(how it is passed, version that reaches the basic operations)."""
    return I.pick('version', (None, V1))


@scenario('C23')
def bulk_reads(I):
    W = World(I)
    c = W.make()
    n = I.pick('number of keys', (0, 1, 3))
    ks = keys_(n)
    version = versions(I)
    want = {}
    for k in ks:
        what = I.pick('content of %s' % show(k), ('absent', 'value', 'zero', 'empty string', 'false') if k is ks[0] else ('absent', 'value'))
        if what != 'absent':
            v = PRESENT[what]() if what != 'value' else sym('value_of_%s' % show(k), object)
            W.put(k, version, v)
            want[k] = v
    form = I.pick('keys as', ('list', 'tuple', 'set', 'iterator'))
    ks_ = W.keys(ks, form)
    how = I.pick('version passed', ('by name', 'by position', 'not') if version is None else ('by name', 'by position'))
    r = I.call_method(c, 'get_many', [ks_] + ([version] if how == 'by position' else []), {'version': version} if how == 'by name' else {})
    I.require(isinstance(r, dict) and len(r) == len(want) and all(k in r and returned(r[k], v) for k, v in want.items()), 'bulk-read-agrees',
              'a bulk read does not give exactly the values of the present keys')
    I.require(all(same(o.version, version) for o in W.store.reads()), 'bulk-read-agrees', 'a bulk read reads under another version')
    I.require(not W.store.writes() and not W.store.deletes(), 'bulk-read-agrees', 'a bulk read changes the cache')


@scenario('C23')
def bulk_writes(I):
    W = World(I)
    c = W.make()
    n = I.pick('number of keys', (0, 1, 3))
    ks = keys_(n)
    version = versions(I)
    lifetime = I.pick('lifetime', (None, 0, sym('lifetime', int)))
    data = dict((k, sym('value_of_%s' % show(k), object)) for k in ks)
    if I.pick('arguments', ('by name', 'by position')) == 'by name':
        I.call_method(c, 'set_many', [data], {'timeout': lifetime, 'version': version})
    else:
        I.call_method(c, 'set_many', [data, lifetime, version])
    w = W.store.writes()
    I.require(len(w) == n, 'bulk-write-agrees', 'a bulk write does not write every key once')
    for k in ks:
        o = [x for x in w if same(x.key, k)]
        I.require(len(o) == 1 and returned(o[0].value, data[k]), 'bulk-write-agrees', 'a bulk write does not write the value of each key')
        I.require(len(o) == 1 and same(o[0].timeout, lifetime) and same(o[0].version, version), 'bulk-write-agrees', 'a bulk write loses lifetime or version')
    I.require(not W.store.deletes(), 'bulk-write-agrees', 'a bulk write deletes something')


@scenario('C23')
def bulk_deletes(I):
    W = World(I)
    c = W.make()
    n = I.pick('number of keys', (0, 1, 3))
    ks = keys_(n)
    version = versions(I)
    for k in ks:
        W.put(k, version, sym('value', object))
    form = I.pick('keys as', ('list', 'tuple', 'set', 'iterator'))
    if I.pick('arguments', ('by name', 'by position')) == 'by name':
        I.call_method(c, 'delete_many', [W.keys(ks, form)], {'version': version})
    else:
        I.call_method(c, 'delete_many', [W.keys(ks, form), version])
    d = W.store.deletes()
    I.require(len(d) == n and all(any(same(o.key, k) for o in d) for k in ks), 'bulk-delete-agrees', 'a bulk delete does not delete every key')
    I.require(all(same(o.version, version) for o in d), 'bulk-delete-agrees', 'a bulk delete deletes under another version')
    I.require(not W.store.writes(), 'bulk-delete-agrees', 'a bulk delete writes something')


@scenario('C23')
def membership(I):
    W = World(I)
    what = I.pick('content', ('absent',) + tuple(PRESENT))
    op = I.pick('operation', ('has_key', 'has_key with version', 'in', 'in with own has_key'))
    version = V1 if 'version' in op else None
    if what != 'absent':
        W.put(KEY, version, PRESENT[what]())
    if op == 'in with own has_key':
        c = W.make('OwnMembership')
        r = I.call(W.ns['contains'], [c, KEY], {})
        called = [e for e in I.events if e[0] == 'native' and e[1] == 'custom_native']
        I.require(len(called) == 1 and called[0][2][0] is KEY, 'membership-agrees', '"in" does not follow an overridden has_key()')
        return
    c = W.make()
    if op == 'in':
        r = I.call(W.ns['contains'], [c, KEY], {})
    elif version is None:
        r = I.call_method(c, 'has_key', [KEY])
    else:
        r = I.call_method(c, 'has_key', [KEY, version]) if I.pick('by position', (True, False)) else I.call_method(c, 'has_key', [KEY], {'version': version})
    I.require(I.truth(r) == (what != 'absent'), 'membership-agrees', '%s is not the presence of a value (%s)' % (op, what))
    I.require(all(same(o.key, KEY) and same(o.version, version) for o in W.store.reads()) and not W.store.writes(), 'membership-agrees', '%s looks at something else' % op)


@scenario('C23')
def counting(I):
    W = World(I)
    c = W.make()
    op = I.pick('operation', ('incr', 'decr'))
    version = versions(I)
    x = sym('number', int)
    what = I.pick('content', ('absent', 'number', 'zero'))
    if what != 'absent':
        W.put(KEY, version, x if what == 'number' else 0)
    start = x if what == 'number' else 0
    delta = I.pick('delta', (None, 5, -2, sym('delta', int)))
    args = [KEY] if delta is None else [KEY, delta]
    kw = {} if version is None else {'version': version}
    step = 1 if delta is None else delta
    if what == 'absent':
        e = fails(I, lambda: I.call_method(c, op, args, kw), 'absent-refused', '%s() of an absent key is not refused' % op)
        I.require(isinstance(e, ValueError), 'absent-refused', '%s() of an absent key is not refused with ValueError' % op)
        I.require(not W.store.writes() and not W.store.deletes(), 'absent-refused', '%s() of an absent key changes the cache' % op)
        return
    r = I.call_method(c, op, args, kw)
    want = I.binop('+' if op == 'incr' else '-', start, step)
    I.require(same(r, want), 'new-number', '%s() does not return the new number' % op)
    w = W.store.writes()
    I.require(len(w) == 1 and same(w[0].key, KEY) and same(w[0].version, version), 'same-key-and-version', '%s() writes another key or version than it has read' % op)
    I.require(len(w) == 1 and same(w[0].value, want), 'new-number', '%s() does not store the new number' % op)
    I.require(all(same(o.key, KEY) and same(o.version, version) for o in W.store.reads()) and not W.store.deletes(), 'same-key-and-version', '%s() touches something else' % op)


@scenario('C23')
def changing_of_versions(I):
    W = World(I)
    own = I.pick('class', ('Adapter', 'Versioned', 'Prefixed'))
    default = {'Adapter': 1, 'Versioned': 7, 'Prefixed': sym('own_version', int)}[own]
    c = W.make(own, *([sym('prefix', str), default] if own == 'Prefixed' else []))
    op = I.pick('operation', ('incr_version', 'decr_version'))
    given = I.pick('version', (None, V1))
    version = default if given is None else given
    delta = I.pick('delta', (None, 3, -1))
    what = I.pick('content', ('absent', 'value', 'zero', 'empty string', 'false'))
    v = None
    if what != 'absent':
        v = PRESENT[what]()
        W.put(KEY, version, v)
    args = [KEY] if delta is None else [KEY, delta]
    kw = {} if given is None else {'version': given}
    if what == 'absent':
        e = fails(I, lambda: I.call_method(c, op, args, kw), 'absent-refused', '%s() of an absent key is not refused' % op)
        I.require(isinstance(e, ValueError), 'absent-refused', '%s() of an absent key is not refused with ValueError' % op)
        I.require(not W.store.writes() and not W.store.deletes(), 'absent-refused', '%s() of an absent key changes the cache' % op)
        return
    r = I.call_method(c, op, args, kw)
    new = I.binop('+' if op == 'incr_version' else '-', version, 1 if delta is None else delta)
    I.require(same(r, new), 'new-number', '%s() does not return the new version' % op)
    w, d = W.store.writes(), W.store.deletes()
    I.require(len(w) == 1 and same(w[0].key, KEY) and same(w[0].version, new) and returned(w[0].value, v), 'moved', '%s() does not store the value under the new version' % op)
    I.require(len(d) == 1 and same(d[0].key, KEY) and same(d[0].version, version), 'moved', '%s() does not delete the key under the old version' % op)
    I.require(len(w) != 1 or len(d) != 1 or w[0].n < d[0].n, 'stored-before-deleted', '%s() deletes the value before it is stored under the new version' % op)


KEYS = {'portable': ('k' * 250, False), 'short': ('!', False), 'last portable character': ('a~', False), 'too long': ('k' * 251, True), 'space': ('a b', True),
        'control': ('a\x1f', True), 'delete': ('\x7f', True), 'newline first': ('\nabc', True), 'empty': ('', False), 'beyond ascii': ('\u00e9', False)}


@scenario('C23')
def checking_of_keys(I):
    W = World(I)
    c = W.make()
    what = I.pick('key', tuple(KEYS))
    key, bad = KEYS[what]
    n = len(I.events)
    quiet(I, lambda: I.call_method(c, 'validate_key', [key]), 'only-warns', 'checking a key (%s) fails' % what)
    warned = [e for e in I.events[n:] if e[0] == 'warn']
    I.require(bool(warned) == bad, 'only-warns', 'checking a key (%s) %s' % (what, 'does not warn' if bad else 'warns although the key is portable'))
    I.require(not W.store.log, 'only-warns', 'checking a key reaches the cache')


@scenario('C23')
def construction_of_keys(I):
    W = World(I)
    p, x = sym('prefix', str), sym('own_version', int)
    kind = I.pick('class', ('Prefixed', 'OwnKeys'))
    c = W.make(kind, p, x)
    given = I.pick('version', (None, 'not given', V1))
    version = x if given in (None, 'not given') else given
    k = I.call_method(c, 'make_key', [KEY] + ([] if given == 'not given' else [given]))
    if kind == 'OwnKeys':
        I.require(isinstance(k, tuple) and same(k, (KEY, p, version)), 'own-key-function', 'an overridden key function is not used with key, prefix and version')
    else:
        for q in (KEY, p, version):
            I.require(mentions(k, q), 'key-of-all-parts', 'a constructed key does not depend on %s' % show(q))
    I.require(same(k, I.call_method(c, 'make_key', [KEY] + ([version] if given == 'not given' else [given]))), 'key-stable', 'two constructions of a key differ')


def mentions(t, x):
    if t is x or isinstance(t, T) and isinstance(x, T) and t == x:
        return True
    if isinstance(t, T):
        return any(mentions(a, x) for a in t.args)
    if isinstance(t, (tuple, list)):
        return any(mentions(a, x) for a in t)
    return False


@scenario('C23')
def closing_an_adapter(I):
    W = World(I)
    c = W.make()
    quiet(I, lambda: I.call_method(c, 'close', [], I.pick('arguments', ({}, {'signal': sym('signal', object)}))), 'close-succeeds', 'closing an adapter fails')
    I.require(not W.store.log, 'close-succeeds', 'closing an adapter changes the cache')
