"""C12 and C13: confinement to threads; identity of sessions and uniqueness of versions."""
from .base import *
from ..values import Cls, Fn, mro_of

PKG = 'django_cache_dependencies'

# ---------------------------------------------------------------- C12


def public_operations(I, obj):
    """Names of the public operations of a guarded object: its own and those of what it wraps."""
    names = []
    for o in [obj] + [v for v in obj.attrs.values() if isinstance(v, Inst)]:
        for c in mro_of(o.cls):
            if isinstance(c, Cls):
                names += [n for n, v in c.ns.items() if not n.startswith('_') and isinstance(v, Fn) and n not in names]
    return sorted(names)


def arguments(I, S, which, name, k1, node):
    """Forms of arguments of a public operation."""
    known = {
        ('transaction', 'current'): [[], [S.tx('current')], [None]],
        ('transaction', 'begin'): [[]], ('transaction', 'finish'): [[]], ('transaction', 'flush'): [[]],
        ('relations', 'get'): [[k1], [sym('new_key', str)]], ('relations', 'current'): [[], [k1], [sym('new_key', str)], [node]],
        ('relations', 'pop'): [[k1], [sym('new_key', str)]], ('relations', 'clear'): [[]],
    }
    if (which, name) in known:
        return known[which, name]
    obj = getattr(S, which)
    for o in [obj] + [v for v in obj.attrs.values() if isinstance(v, Inst)]:
        for c in mro_of(o.cls):
            if isinstance(c, Cls) and isinstance(c.ns.get(name), Fn):
                a = c.ns[name].node.args
                n = len(a.posonlyargs + a.args) - len(a.defaults) - 1
                return [[sym('argument%d' % i, object) for i in range(n)]]
    return [[]]


@scenario('C12')
def foreign_thread(I):
    S = Stack(I, level=I.pick('level', ('READ COMMITTED', 'REPEATABLE READ')), api=I.pick('interface', ('CacheTagging', 'django')))
    which = I.pick('manager', ('transaction', 'relations'))
    state = I.pick('state', ('fresh', 'open', 'nested'))
    k1, k2 = keys_(2)
    t, = tags_(1)
    if state != 'fresh':
        for k in (k1, k2)[:2 if state == 'nested' else 1]:
            S.do('get', k)
            S.tx('begin')
        S.invalidate((t,), V1)
    obj = getattr(S, which)
    node = I.call_method(S.relations, 'current', [])
    names = public_operations(I, obj)
    I.require(set(('begin', 'finish', 'flush', 'current') if which == 'transaction' else ('get', 'current', 'pop', 'clear')) <= set(names), 'guarded-operations',
              'a public operation of the manager is missing')
    before = snapshot(obj)
    for name in names:
        for a in arguments(I, S, which, name, k1, node):
            n = len(S.backend.log)
            with As(I, thread='T2'):
                r, e = attempt(I, lambda: I.call_method(obj, name, list(a)))
            I.require(e is not None, 'foreign-thread-refused', '%s() of the %s manager works in a thread which did not create it' % (name, which.rstrip('s')))
            I.require(snapshot(obj) == before, 'no-effect', '%s() of the %s manager has an effect before it fails in a foreign thread' % (name, which.rstrip('s')))
            I.require(len(S.backend.log) == n, 'no-effect', '%s() of the %s manager reaches the underlying cache before it fails in a foreign thread' % (name, which.rstrip('s')))
            if snapshot(obj) != before:
                return
    # the thread that created it goes on
    S.tx('begin')
    S.do('get', k2)
    S.do('close')


@scenario('C12')
def foreign_scopes(I):
    """Scopes (with, decorator) of a foreign thread fail before their body is run."""
    ns = client(I, '''
def scope(transaction, body):
    with transaction:
        body()

def decorated(transaction, body):
    return transaction(body)()

def called(transaction, body):
    with transaction():
        body()
''')
    S = Stack(I, api=I.pick('interface', ('CacheTagging', 'django')))
    if I.pick('open', (False, True)):
        S.tx('begin')
    before = snapshot(S.transaction)
    body = Callback(I, 'body', None)
    with As(I, thread='T2'):
        fails(I, lambda: I.call(ns[I.pick('form', ('scope', 'decorated', 'called'))], [S.transaction, body], {}), 'foreign-thread-refused', 'a transaction scope works in a thread which did not create it')
    I.require(not body.calls, 'no-effect', 'the body of a scope is run although the scope cannot be opened')
    I.require(snapshot(S.transaction) == before, 'no-effect', 'a scope has an effect before it fails in a foreign thread')


@scenario('C12')
def foreign_cache(I):
    """The operations of a cache which work on the state of the thread."""
    S = Stack(I, level='REPEATABLE READ', api=I.pick('interface', ('CacheTagging', 'django')))
    t, = tags_(1)
    k1, k2 = keys_(2)
    S.do('get', k1)
    S.tx('begin')
    op = I.pick('operation', ('get', 'get_many', 'set', 'abort', 'invalidate', 'close'))
    before = snapshot(S.transaction), snapshot(S.relations)
    n = len(S.backend.log)
    with As(I, thread='T2'):
        fails(I, lambda: {'get': lambda: S.do('get', k2), 'get_many': lambda: S.do('get_many', [k2]), 'set': lambda: S.set(k1, sym('value', object), (t,)),
                          'abort': lambda: S.do('abort', k1), 'invalidate': lambda: S.invalidate((t,)), 'close': lambda: S.do('close')}[op](),
              'foreign-thread-refused', '%s uses the state of another thread' % op)
    I.require(not S.backend.writes(n) and not S.backend.deletes(n), 'no-effect', '%s changes the underlying cache before it fails in a foreign thread' % op)
    I.require((snapshot(S.transaction), snapshot(S.relations)) == before, 'no-effect', '%s changes the state of another thread' % op)


@scenario('C12')
def registry(I):
    caches = cls(I, PKG, 'caches')
    alias = I.pick('alias', ('default', 'other'))
    I.settings.CACHE_TAGGING = {'other': {'ISOLATION_LEVEL': 'SERIALIZABLE'}}
    get = [lambda: I.getitem(caches, alias), lambda: I.call(caches, [alias], {}), lambda: I.call(cls(I, PKG, 'get_cache'), [alias], {})]
    if alias == 'default':
        get += [lambda: I.call(caches, [], {}), lambda: I.call(caches, [None], {})]
    first = get[I.pick('first form', tuple(range(len(get))))]()
    I.call_method(I.getattr(first, 'transaction'), 'begin', [])
    for g in get:
        I.require(g() is first, 'same-object-in-thread', 'the registry gives another object for the same alias in the same thread')
    I.require(I.getitem(caches, 'third') is not first, 'own-object-per-alias', 'the registry gives one object for different aliases')
    with As(I, thread='T2'):
        I.require(not list(I.each(I.call_method(caches, 'all', []))), 'registry-per-thread', 'the registry lists caches of another thread')
        other = get[0]()
        I.require(other is not first, 'registry-per-thread', 'the registry gives the same object to two threads')
        I.require(all(g() is other for g in get), 'same-object-in-thread', 'the registry gives another object for the same alias in the same thread')
        for a in ('transaction', 'relation_manager', 'cache'):
            I.require(I.getattr(other, a) is not I.getattr(first, a), 'registry-per-thread', 'caches of two threads share their %s' % a)
        I.call(cls(I, PKG, 'close_caches'), [], {})
        I.require(all(c is not first for c in I.each(I.call_method(caches, 'all', []))), 'registry-per-thread', 'the registry lists caches of another thread')
    I.require(get[0]() is first, 'same-object-in-thread', 'the registry forgets an object when another thread uses it')
    t = I.call_method(I.getattr(first, 'transaction'), 'current', [])
    I.require(I.truth(t), 'registry-per-thread', 'the end of a request in one thread ends the transactions of another one')


@scenario('C12')
def delayed_work(I):
    """Work left to other threads uses the cache of the thread that does it."""
    level = I.pick('level', LEVELS)
    alias = I.pick('alias', ('default', 'other'))
    I.settings.CACHE_TAGGING = {alias: {'ISOLATION_LEVEL': level, 'DELAY': 5}}
    caches = cls(I, PKG, 'caches')
    t, = tags_(1)
    who = I.pick('other thread', ('new', 'has cache'))
    if who == 'has cache':
        with As(I, thread='T9'):
            I.call_method(I.getitem(caches, alias), 'get', [KEY])
    c = I.getitem(caches, alias)
    I.call_method(I.getattr(c, 'transaction'), 'begin', [])
    I.call_method(c, 'invalidate_tags', [t])
    I.call_method(c, 'set', [KEY, sym('value', object), (t,)])
    I.call_method(I.getattr(c, 'transaction'), 'finish', [])
    b = I.djcaches.storage(alias)
    n = len(b.log)
    I.require(bool(I.timers) == (level in ('READ UNCOMMITTED', 'READ COMMITTED')), 'delayed-work', 'the delayed work is not left to another thread')
    while I.timers:
        x = I.timers.pop(0)
        with As(I, thread='T9'):
            x.run()
    k = tag_key(I, t)
    if level in ('READ UNCOMMITTED', 'READ COMMITTED'):
        I.require([o for o in b.deletes(n) if same(o.key, k)], 'delayed-work', 'the delayed invalidation does not reach the cache of the same alias')
    for o in b.log:
        I.require(o.owner == o.thread, 'cache-of-executing-thread', 'an operation in thread %s uses the connection of thread %s (%s)' % (o.thread, o.owner, o.op), o.loc)
    for a, st in I.djcaches.stores.items():
        I.require(a == alias or not st.log, 'delayed-work', 'another cache is used than the one of the alias')


@scenario('C12')
def interleaved(I):
    """Two threads at work at the same time do not see each other's entries and transactions."""
    k1, k2 = keys_(2)
    t1, t2 = tags_(2)
    S1 = Stack(I, level='REPEATABLE READ', api='django')
    with As(I, thread='T2'):
        S2 = Stack(I, level='REPEATABLE READ', api='django')
    first = I.pick('first', ('transaction', 'entry'))
    if first == 'transaction':
        S1.tx('begin')
    S1.do('get', k1)
    with As(I, thread='T2'):
        I.require(S2.depth() == 0 and S2.current() is None, 'state-per-thread', 'a thread starts with the state of another one')
        S2.do('get', k2)
        S2.tx('begin')
        S2.set(k2, sym('value2', object), (t2,))
        S2.invalidate((t1,))
    I.require(S1.depth() == (1 if first == 'transaction' else 0) and same(S1.current(), k1), 'state-per-thread', 'the state of a thread is changed by another one')
    n = len(S1.backend.log)
    S1.set(k1, sym('value1', object), ())
    w = entry_writes(S1, k1, n)
    I.require(w and not any(same(x, t2) for x in subterms(w[0].value)), 'state-per-thread', 'an entry depends on tags of an entry which another thread generates')
    with As(I, thread='T2'):
        I.require(S2.depth() == 1, 'state-per-thread', 'the state of a thread is changed by another one')
        S2.do('close')
    I.require(S1.depth() == (1 if first == 'transaction' else 0), 'state-per-thread', 'closing the cache in one thread ends the transactions of another one')


DEFAULT = '''
def by_calls(cache, begun, body):
    cache.transaction.begin()
    begun()
    body()
    cache.transaction.finish()

def flushed(cache, begun, body):
    cache.transaction.begin()
    begun()
    body()
    cache.transaction.flush()

def by_scope(cache, begun, body):
    with cache.transaction:
        begun()
        body()

def decorated(cache, begun, body):
    @cache.transaction
    def f():
        begun()
        body()
    f()

def deprecated(cache, begun, body):
    cache.transaction_begin()
    begun()
    body()
    cache.transaction_finish()
'''


@scenario('C12')
def default_object(I):
    """The object for the default cache, used by two threads at the same time, is in each of them the cache of that thread."""
    cache = cls(I, PKG, 'cache')
    ns = client(I, DEFAULT)
    form = I.pick('scope', ('by_calls', 'flushed', 'by_scope', 'decorated', 'deprecated'))
    mine = I.getitem(cls(I, PKG, 'caches'), 'default')
    (t1, t2), (k1, k2) = tags_(2), keys_(2)
    v2 = sym('value2', object)

    def depth(c):
        n, x = 0, I.call_method(I.getattr(c, 'transaction'), 'current', [])
        while I.truth(x):
            n, x = n + 1, I.call_method(x, 'parent', [])
            if x is None:
                break
        return n

    def in_other():
        I.call_method(cache, 'get', [k2])
        I.call_method(cache, 'invalidate_tags', [t2])
        I.call_method(cache, 'set', [k2, v2, (t2,)])

    def other():
        with As(I, thread='T2'):
            theirs = I.getitem(cls(I, PKG, 'caches'), 'default')
            quiet(I, lambda: I.call(ns[form], [cache, NFn('begun', lambda: I.require(depth(theirs) == 1, 'default-cache-of-thread', 'the default cache begins a transaction elsewhere')),
                                              NFn('body', in_other)], {}), 'default-cache-of-thread', 'the default cache fails in a second thread')
            I.require(depth(theirs) == 0, 'default-cache-of-thread', 'the default cache does not end the transaction of the calling thread')

    when = I.pick('other thread', ('inside', 'before', 'begun last'))

    def begun():
        I.require(depth(mine) == 1, 'default-cache-of-thread', 'the default cache begins a transaction elsewhere')
        if when == 'inside':
            other()

    def body():
        I.require(depth(mine) == 1, 'default-cache-of-thread', 'the default cache ends the transaction of another thread')
        I.call_method(cache, 'invalidate_tags', [t1])
    if when == 'before':
        other()
    if when == 'begun last':
        with As(I, thread='T2'):
            theirs = I.getitem(cls(I, PKG, 'caches'), 'default')
            I.call_method(I.getattr(cache, 'transaction'), 'begin', [])
            I.call_method(cache, 'begin', [k2])
    quiet(I, lambda: I.call(ns[form], [cache, NFn('begun', begun), NFn('body', body)], {}), 'default-cache-of-thread', 'the default cache fails after it was used in a second thread')
    I.require(depth(mine) == 0, 'default-cache-of-thread', 'the default cache does not end the transaction of the calling thread')
    if when == 'begun last':
        with As(I, thread='T2'):
            I.require(depth(theirs) == 1, 'default-cache-of-thread', 'the default cache ends the transaction of another thread')
            quiet(I, lambda: I.call_method(cache, 'close', []), 'default-cache-of-thread', 'the default cache fails in a second thread')
            I.require(depth(theirs) == 0, 'default-cache-of-thread', 'closing the default cache does not end the transaction of the calling thread')
    for o in I.djcaches.storage('default').log:
        I.require(o.owner == o.thread, 'cache-of-executing-thread', 'an operation in thread %s uses the connection of thread %s (%s)' % (o.thread, o.owner, o.op), o.loc)


# ---------------------------------------------------------------- C13

LOSSLESS = {'hex': lambda t: t.args[1:], 'digest': lambda t: t.args[1:], 'encode': lambda t: t.args[:1], 'decode': lambda t: t.args[:1], 'fmt': lambda t: t.args,
            'b64': lambda t: t.args, 'lin': lambda t: [x for x, c in t.args[0]] if len(t.args[0]) == 1 else (), 'repr': lambda t: t.args, 'tohex': lambda t: t.args}


def carried(t):
    """The basic terms on which a value depends through steps that lose nothing but what a digest loses."""
    out, stack = [], [t]
    while stack:
        x = stack.pop()
        if isinstance(x, (tuple, list)):
            stack.extend(x)
        elif isinstance(x, T):
            f = LOSSLESS.get(x.op)
            if f is not None:
                stack.extend(f(x))
            else:
                out.append(x)
    return out


def decodable(t):
    """True if the parts of a text can be told apart: at most one part of free form, all others numbers set off by something that is not part of a number."""
    if isinstance(t, (tuple, list)):
        return all(decodable(x) for x in t)
    if not isinstance(t, T):
        return True
    if t.op in ('hex', 'digest', 'encode', 'decode', 'b64'):
        return all(decodable(x) for x in LOSSLESS[t.op](t))
    if t.op != 'fmt':
        return True
    parts = list(t.args)
    free = [p for p in parts if isinstance(p, T) and p.ty is not int and not fixed(p)]
    if len(free) > 1:
        return False
    for a, b in zip(parts, parts[1:]):
        if isinstance(a, T) and isinstance(b, T) and not fixed(a) and not fixed(b):
            return False
        for lit, num in ((a, b), (b, a)):
            if isinstance(lit, (str, bytes)) and isinstance(num, T) and not fixed(num):
                e = lit[0] if lit is b else lit[-1]
                e = e if isinstance(e, str) else chr(e)
                if e.isdigit() or e == '-' and lit is b:
                    return False
    return all(decodable(p) for p in parts)


def fixed(p):
    return isinstance(p, T) and p.op in ('hex', 'digest')


def fork(I, process):
    """Enters a process forked from the current thread."""
    ctx = As(I, process=process)
    ctx.__enter__()
    for e in list(I.events):
        if e[0] == 'atfork' and e[1].get('after_in_child') is not None:
            I.call(e[1]['after_in_child'], [], {})
    return ctx


def session(I, how):
    if how == 'utils':
        return I.call(cls(I, 'cache_dependencies.utils', 'get_thread_id'), [], {})
    S = Stack(I, api='CacheTagging')
    if how == 'transaction':
        S.tx('begin')
    if how == 'nested':
        S.tx('begin')
        S.tx('begin')
    return I.call_method(S.tx('current'), 'get_session_id', [])


HOW = ('utils', 'transaction', 'nested', 'no transaction')


def freshes(t):
    return set(x for x in subterms(t) if isinstance(x, T) and x.op == 'rand')


def distinct(a, b):
    """The two ids cannot be equal."""
    if same(a, b):
        return False
    fa, fb = freshes(a), freshes(b)
    if fa - fb and fb - fa:
        return True
    return decodable(a) and decodable(b)


@scenario('C13')
def session_ids(I):
    how = I.pick('asked through', HOW)
    first = session(I, how)
    for h in HOW:
        I.require(same(session(I, h), first), 'stable-in-thread', 'the session id of a thread changes')
    ids = [('this thread', first)]
    who = I.pick('others', ('threads', 'processes', 'hosts', 'threads of another process'))
    places = {'threads': [dict(thread='T2'), dict(thread='T3')], 'processes': [dict(process='P2'), dict(process='P3')],
              'hosts': [dict(host='H2'), dict(host='H3')], 'threads of another process': [dict(process='P2', thread='T2'), dict(process='P2', thread='T3'), dict(process='P3', thread='T2')]}[who]
    for p in places:
        if who == 'hosts':
            # nothing of the state of this process is known there
            old, I.thread = I.thread, I.thread
            with As(I, **p):
                J = dict(I.mods)
                for m in [m for m in I.mods if m.startswith(('cache_dependencies', 'django_cache_dependencies', 'cache_tagging'))]:
                    del I.mods[m]
                try:
                    x = session(I, how)
                finally:
                    I.mods.clear()
                    I.mods.update(J)
        elif 'process' in p and 'thread' not in p:
            ctx = fork(I, p['process'])
            try:
                x = session(I, how)
                I.require(same(session(I, how), x), 'stable-in-thread', 'the session id of a forked process changes')
            finally:
                ctx.__exit__()
        else:
            with As(I, **p):
                x = session(I, how)
                I.require(same(session(I, how), x), 'stable-in-thread', 'the session id of a thread changes')
        ids.append((str(p), x))
    for i in range(len(ids)):
        for j in range(i):
            I.require(distinct(ids[i][1], ids[j][1]), 'sessions-distinct', 'the session ids of %s and %s may be the same: %s, %s' % (ids[j][0], ids[i][0], show(ids[j][1]), show(ids[i][1])))
    if who == 'threads':
        I.require(same(session(I, how), first), 'stable-in-thread', 'the session id of a thread changes, when other threads ask for theirs')


@scenario('C13')
def fork_before_first_use(I):
    """Parent and child get different ids, whichever asks first."""
    I.import_module('cache_dependencies.utils')
    ctx = fork(I, 'P2')
    try:
        child = session(I, 'utils')
        grand = fork(I, 'P3')
        try:
            grandchild = session(I, 'utils')
        finally:
            grand.__exit__()
    finally:
        ctx.__exit__()
    parent = session(I, 'utils')
    for a, b in ((child, parent), (child, grandchild), (parent, grandchild)):
        I.require(distinct(a, b), 'sessions-distinct', 'a forked process may have the session id of its parent: %s, %s' % (show(a), show(b)))


@scenario('C13')
def sessions_in_marks(I):
    """What is written as the session of a transaction is the id of the thread in its process."""
    ts = tags_(2)
    found = []
    for place in (dict(), dict(thread='T2'), dict(process='P2')):
        with As(I, **place):
            S = Stack(I, level='REPEATABLE READ', api='CacheTagging')
            S.tx('begin')
            S.invalidate((ts[0],), V1)
            me = session(I, 'utils')
            w = S.backend.writes()
            S.tx('finish')
            for o in w + S.backend.writes(len(w)):
                if isinstance(o.value, Inst):
                    I.require(any(same(v, me) for v in o.value.attrs.values()), 'session-in-mark', 'a lock mark does not carry the session id of its transaction')


def new_versions(I, S, ts, version=V1):
    n = len(S.backend.log)
    S.set(KEY, sym('value', object), tuple(ts), None, version)
    out = []
    for t in ts:
        k = tag_key(I, t)
        w = [o for o in S.backend.writes(n) if same(o.key, k)]
        I.require(len(w) == 1, 'version-created', 'no version is created for a tag that has none')
        if w:
            out.append(w[0].value)
    return out


@scenario('C13')
def tag_versions(I):
    api = I.pick('interface', ('CacheTagging', 'django'))
    S = Stack(I, api=api)
    ts = tags_(4)
    if I.pick('transaction', (False, True)):
        S.tx('begin')
    found = new_versions(I, S, ts[:2])
    S.invalidate((ts[0],), V1)
    found += new_versions(I, S, ts[:1])
    found += new_versions(I, S, ts[2:3], None)
    if api == 'django':
        with As(I, thread='T2'):
            R = Stack(I, api='django')
            found += new_versions(I, R, ts[3:])
    me = carried(session(I, 'utils'))
    for v in found:
        base = carried(v)
        rand = [x for x in base if x.op == 'rand']
        full = [x for x in rand if x.args[0] == 'range' and all(isinstance(b, int) for b in x.args[1:3]) and x.args[2] - x.args[1] >= 2 ** 64]
        I.require(full, 'fresh-randomness', 'a new tag version does not carry fresh randomness of the full range: %s' % show(v))
        I.require(any(x.op in ('time', 'clock') for x in base), 'depends-on-time', 'a new tag version does not depend on the time: %s' % show(v))
        I.require(any(x.op == 'ident' for x in base) and any(x.op == 'pid' for x in base) and any(x.op == 'host' for x in base) or
                  any(x in rand and x not in full for x in rand) and all(x in base for x in me), 'depends-on-session',
                  'a new tag version does not depend on the session: %s' % show(v))
    for i in range(len(found)):
        for j in range(i):
            a, b = freshes(found[i]), freshes(found[j])
            I.require(a - b and b - a, 'own-version', 'two newly generated tag versions share their randomness')


@scenario('C13')
def direct_versions(I):
    """The generator itself, for one thread and for several."""
    g = cls(I, 'cache_dependencies.utils', 'generate_tag_version')
    vs = [I.call(g, [], {}) for _ in range(2)]
    with As(I, thread='T2'):
        vs.append(I.call(g, [], {}))
    ctx = fork(I, 'P2')
    try:
        vs.append(I.call(g, [], {}))
    finally:
        ctx.__exit__()
    for i in range(len(vs)):
        for j in range(i):
            a, b = freshes(vs[i]), freshes(vs[j])
            I.require(a - b and b - a, 'own-version', 'two newly generated tag versions share their randomness')
