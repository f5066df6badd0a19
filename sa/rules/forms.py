"""C22: all call forms of the public interface mean the same."""
from .base import *
from ..webworld import Site, Request, Response, Factors, install_web, page_key, header_key

PKG, LEGACY = 'django_cache_dependencies', 'cache_tagging.django_cache_tagging'


def cache_objects(I):
    """Ways to the default cache: (object to call, storage)."""
    way = I.pick('cache', ('CacheTagging', 'caches', 'cache', 'legacy caches', 'legacy cache', 'legacy class'))
    if way in ('CacheTagging', 'legacy class'):
        S = Stack(I)
        if way == 'legacy class':
            S.cache = I.call(cls(I, 'cache_tagging.tagging', 'CacheTagging'), [S.backend, S.relations, S.transaction], {})
        return S.cache, S.backend
    I.settings.CACHE_TAGGING = {}
    mod = LEGACY if 'legacy' in way else PKG
    c = cls(I, mod, 'cache' if way.endswith('cache') else 'caches')
    return (c if way.endswith('cache') else I.getitem(c, 'default')), I.djcaches.storage('default')


TAG_FORMS = ('tuple', 'list', 'set', 'frozenset', 'dependency of arguments', 'dependency of list', 'dependency of set', 'composite')


def as_form(I, form, tags):
    return {'tuple': lambda: tuple(tags), 'list': lambda: list(tags), 'set': lambda: ASet(tags), 'frozenset': lambda: ASet(tags, True),
            'dependency of arguments': lambda: tags_dep(I, *tags), 'dependency of list': lambda: tags_dep(I, list(tags)),
            'dependency of set': lambda: tags_dep(I, ASet(tags)),
            'composite': lambda: composite(I, *[tags_dep(I, t) for t in tags])}[form]()


def is_key(k, names):
    return any(same(k, x) for x in names)


@scenario('C22')
def forms_of_tags_in_stores(I):
    c, store = cache_objects(I)
    n = I.pick('number of tags', (0, 1, 2))
    tags = tags_(n)
    form = I.pick('form of the tags', TAG_FORMS)
    version = I.pick('version', (None, V1))
    lifetime = sym('lifetime', int)
    v, = values_(1)
    given = as_form(I, form, tags)
    how = I.pick('operation', ('set', 'set by name', 'get_or_set_callback', 'get_or_set_callback by name'))
    if how == 'set':
        I.call_method(c, 'set', [KEY, v, given, lifetime, version])
    elif how == 'set by name':
        I.call_method(c, 'set', [KEY, v], dict(tags=given, timeout=lifetime, version=version))
    else:
        f = Callback(I, 'compute', v)
        if how == 'get_or_set_callback':
            r = I.call_method(c, 'get_or_set_callback', [KEY, f, given, lifetime, version])
        else:
            r = I.call_method(c, 'get_or_set_callback', [KEY, f], dict(tags=given, timeout=lifetime, version=version))
        I.require(returned(r, v) and len(f.calls) == 1, 'computed-once', 'get_or_set_callback does not return what it has computed')
    keys = [tag_key(I, t) for t in tags]
    w = [o for o in store.writes() if same(o.key, KEY)]
    I.require(len(w) == 1, 'stored', 'a store with tags in the form %s is not made exactly once' % form)
    if len(w) != 1:
        return
    I.require(same(w[0].timeout, lifetime) and same(w[0].version, version), 'same-lifetime-and-version', 'lifetime or version of a store get lost (%s)' % form)
    others = [o for o in store.writes() if not same(o.key, KEY)]
    I.require(all(is_key(o.key, keys) for o in others), 'same-tags', 'a store with tags in the form %s depends on something else than its tags' % form)
    I.require(returned(I.call_method(c, 'get', [KEY], dict(version=version)), v), 'same-tags', 'a value stored with tags in the form %s is not found' % form)
    if n:
        t = tags[I.pick('tag', tuple(range(n)))]
        store.store[(version, tag_key(I, t))] = ABSENT
        I.require(I.call_method(c, 'get', [KEY], dict(version=version)) is None, 'same-tags', 'a value stored with tags in the form %s does not depend on each of them' % form)


@scenario('C22')
def forms_of_tags_in_invalidations(I):
    c, store = cache_objects(I)
    n = I.pick('number of tags', (0, 1, 2))
    tags = tags_(n)
    form = I.pick('form of the tags', ('one by one',) + TAG_FORMS)
    version = I.pick('version', (None, 'not given', V1))
    scope = I.pick('in a transaction', (False, True))
    if scope:
        I.call_method(I.getattr(c, 'transaction'), 'begin', [])
    args = list(tags) if form == 'one by one' else [as_form(I, form, tags)]
    kw = {} if version == 'not given' else {'version': version}
    version = kw.get('version')
    quiet(I, lambda: I.call_method(c, 'invalidate_tags', args, kw), 'accepted', 'tags in the form %s are not accepted by an invalidation' % form)
    n0 = len(store.log)
    for part in ('invalidation', 'end of the transaction')[:2 if scope else 1]:
        if part != 'invalidation':
            n0 = len(store.log)
            I.call_method(I.getattr(c, 'transaction'), 'finish', [])
        d = store.deletes(0 if part == 'invalidation' else n0)
        for t in tags:
            I.require(any(same(o.key, tag_key(I, t)) and same(o.version, version) for o in d), 'same-tags', '%s: a tag given in the form %s is not invalidated' % (part, form))
        I.require(all(is_key(o.key, [tag_key(I, t) for t in tags]) for o in d), 'same-tags', '%s: something else than the tags (form %s) is invalidated' % (part, form))


NATIVE = {
    'set(k, v)': ((), {}, None, None),
    'set(k, v, 60)': ((60,), {}, 60, None),
    'set(k, v, 0)': ((0,), {}, 0, None),
    'set(k, v, lifetime)': (('L',), {}, 'L', None),
    'set(k, v, 60, version)': ((60, V1), {}, 60, V1),
    'set(k, v, lifetime, version)': (('L', V1), {}, 'L', V1),
    'set(k, v, timeout=60)': ((), {'timeout': 60}, 60, None),
    'set(k, v, timeout=60, version=version)': ((), {'timeout': 60, 'version': V1}, 60, V1),
    'set(k, v, 60, version=version)': ((60,), {'version': V1}, 60, V1),
    'set(k, v, version=version)': ((), {'version': V1}, None, V1),
    'set(k, v, None)': ((None,), {}, None, None),
    'set(k, v, None, version)': ((None, V1), {}, None, V1),
    'set(k, v, 60, 2)': ((60, 2), {}, 60, 2),
    'set(k, v, 1.5)': ((1.5,), {}, 1.5, None),
    'set(key=k, value=v, timeout=60)': (None, {'timeout': 60}, 60, None),
}


@scenario('C22')
def what_is_not_given(I):
    """Lifetime, version, default and dependencies that are not given are none."""
    api = I.pick('interface', ('CacheTagging', 'CacheWrapper', 'django'))
    S = Stack(I, api=api)
    op = I.pick('operation', ('set', 'set with tags', 'get_or_set_callback', 'get', 'get_many', 'invalidate_tags', 'delete', 'add', 'set_many'))
    if api == 'CacheWrapper' and op == 'invalidate_tags':
        op = 'invalidate_dependency'
    v, = values_(1)
    t = sym('tag', str)
    given = (t,) if api != 'CacheWrapper' else tags_dep(I, t)
    plain = () if api != 'CacheWrapper' else dummy_dep(I)
    if op == 'set':
        S.do('set', KEY, v)
    elif op == 'set with tags':
        S.do('set', KEY, v, given)
    elif op == 'get_or_set_callback':
        S.do('get_or_set_callback', KEY, Callback(I, 'compute', v), given if I.pick('tags', (True, False)) else plain)
    elif op == 'get':
        r = S.do('get', KEY)
        I.require(not [o for o in S.backend.writes()], 'reads-only', 'a read writes')
        stored = S.backend.store.get((None, KEY), ABSENT)
        if stored is ABSENT:
            I.require(r is None, 'default-none', 'an absent value is %s' % show(r))
    elif op == 'get_many':
        S.do('get_many', (KEY, sym('other', str)))
    elif op == 'invalidate_tags':
        S.do('invalidate_tags', t)
    elif op == 'invalidate_dependency':
        S.do('invalidate_dependency', given)
    elif op == 'delete':
        S.do('delete', KEY)
    elif op == 'add':
        S.do('add', KEY, v)
    else:
        S.do('set_many', {KEY: v})
    ops = S.backend.ops()
    I.require(ops, 'reaches-the-cache', '%s does not reach the underlying cache' % op)
    I.require(all(o.version is None for o in ops), 'not-given-is-none', '%s without a version is made under one' % op)
    if op != 'add' and op != 'set_many':
        w = [o for o in S.backend.writes() if same(o.key, KEY) and o.op != 'delete']
        I.require(all(o.timeout is None for o in w), 'not-given-is-none', '%s without a lifetime is made with one' % op)


@scenario('C22')
def native_stores(I):
    c, store = cache_objects(I)
    form = I.pick('form', tuple(NATIVE))
    args, kw, lifetime, version = NATIVE[form]
    L = sym('lifetime', int)
    v, = values_(1)
    lifetime = L if lifetime == 'L' else lifetime
    if args is None:
        quiet(I, lambda: I.call_method(c, 'set', [], dict(kw, key=KEY, value=v)), 'accepted', '%s is not accepted' % form)
    else:
        quiet(I, lambda: I.call_method(c, 'set', [KEY, v] + [L if a == 'L' else a for a in args], dict(kw)), 'accepted', '%s is not accepted' % form)
    w = store.writes()
    I.require(len(w) == 1 and same(w[0].key, KEY), 'stored-without-tags', '%s is not a store of one value without tags' % form)
    if len(w) == 1:
        I.require(same(w[0].timeout, lifetime), 'same-lifetime-and-version', '%s is not stored with the lifetime that was given' % form)
        I.require(same(w[0].version, version), 'same-lifetime-and-version', '%s is not stored under the version that was given' % form)
    n = len(store.log)
    I.require(returned(I.call_method(c, 'get', [KEY], {'version': version}), v), 'stored-without-tags', 'what %s has stored is not found' % form)
    I.require(len(store.reads(n)) == 1, 'stored-without-tags', '%s: a value stored without tags depends on something' % form)


# ---------------------------------------------------------------- names

@scenario('C22')
def legacy_names(I):
    """The deprecated packages give the same objects, or ones that work on the same caches."""
    what = I.pick('name', ('caches', 'get_cache', 'cache', 'registry', 'autodiscover', 'close_caches', 'DEFAULT_CACHE_ALIAS', 'cache_transaction', 'middleware', 'tags', 'prevent_cache_page'))
    new = I.import_module(PKG)
    old = I.import_module(LEGACY)
    c = I.getitem(cls(I, PKG, 'caches'), 'default')
    store = I.djcaches.storage('default')
    v, = values_(1)
    t, = tags_(1)
    if what in ('caches', 'get_cache'):
        o = cls(I, LEGACY, what)
        I.require(I.getitem(o, 'default') is c and I.call(o, [], {}) is c and I.call(o, ['default'], {}) is c, 'same-cache', 'the legacy %s gives another cache than the modern one' % what)
        I.require(I.getitem(o, 'other') is I.getitem(cls(I, PKG, 'caches'), 'other'), 'same-cache', 'the legacy %s gives another cache than the modern one' % what)
    elif what == 'cache':
        o = cls(I, LEGACY, what)
        I.call_method(o, 'set', [KEY, v, (t,)])
        I.require(returned(I.call_method(c, 'get', [KEY]), v), 'same-cache', 'what is stored through the legacy cache is not found')
        I.call_method(o, 'invalidate_tags', [t])
        I.require(I.call_method(c, 'get', [KEY]) is None, 'same-cache', 'an invalidation through the legacy cache has no effect')
    elif what in ('registry', 'autodiscover', 'close_caches', 'DEFAULT_CACHE_ALIAS'):
        I.require(cls(I, LEGACY, what) is cls(I, PKG, what) or cls(I, LEGACY, what) == cls(I, PKG, what), 'same-object', 'the legacy %s is not the modern one' % what)
    elif what == 'cache_transaction':
        b = Callback(I, 'body', v, None, lambda: I.call_method(c, 'invalidate_tags', [t]))
        n = len(store.log)
        install_web(I)
        r = I.call(I.call(cls(I, LEGACY + '.decorators', what), [b], {}), [], {})
        I.require(returned(r, v), 'same-cache', 'the legacy transaction decorator does not pass the result on')
        I.require(len(store.deletes(n)) == 2, 'same-cache', 'the legacy transaction decorator opens no scope of the default cache')
    elif what == 'middleware':
        install_web(I)
        alias = I.pick('alias', ('default', 'pages'))
        m = I.call(cls(I, LEGACY + '.middleware', 'CacheMiddleware'), [], dict(cache_alias=alias, key_prefix='p', cache_timeout=60))
        I.require(I.getattr(m, 'cache') is I.getitem(cls(I, PKG, 'caches'), alias), 'same-cache', 'the legacy page cache works on another cache')
        m = I.call(cls(I, LEGACY + '.middleware', 'TransactionMiddleware'), [], {})
        I.call_method(m, 'process_request', [T('request', (), object)])
        I.require(I.truth(I.call_method(I.getattr(c, 'transaction'), 'current', [])), 'same-cache', 'the legacy transaction middleware opens no scope of the default cache')
    elif what == 'prevent_cache_page':
        install_web(I)
        f = cls(I, LEGACY + '.utils', what)
        g = cls(I, PKG + '.utils', what)
        a, b = type('R', (Model,), {})(), type('R', (Model,), {})()
        I.call(f, [a], {})
        I.call(g, [b], {})
        I.require({k: v for k, v in a.__dict__.items()} == {k: v for k, v in b.__dict__.items()}, 'same-meaning', 'the legacy prevent_cache_page does something else than the modern one')
    else:
        lib_old = quiet(I, lambda: cls(I, LEGACY + '.templatetags.cache_tagging_tags', 'register'), 'importable', 'the template tags cannot be loaded under the legacy name')
        lib_new = cls(I, PKG + '.templatetags.cache_tagging_tags', 'register')
        if lib_old is not None:
            I.require(sorted(lib_old.tags) == sorted(lib_new.tags) and sorted(lib_old.filters) == sorted(lib_new.filters), 'same-object', 'the legacy template library has other tags')


MODULES = ('cache', 'defer', 'dependencies', 'exceptions', 'interfaces', 'locks', 'mixins', 'nocache', 'relations', 'tagging', 'transaction', 'utils')


@scenario('C22')
def legacy_modules(I):
    m = I.pick('module', MODULES)
    if m not in [n.rpartition('.')[2] for n in I.src.mods if n.startswith('cache_dependencies.')]:
        return
    a = quiet(I, lambda: I.import_module('cache_tagging.' + m), 'importable', 'cache_tagging.%s cannot be imported' % m)
    b = I.import_module('cache_dependencies.' + m)
    if a is not None:
        missing = [n for n in b.ns if not n.startswith('_') and n not in a.ns]
        I.require(not missing, 'same-names', 'cache_tagging.%s lacks names of cache_dependencies.%s' % (m, m))


# ---------------------------------------------------------------- the default cache object

@scenario('C22')
def default_cache_object(I):
    p = cls(I, PKG, 'cache')
    caches = cls(I, PKG, 'caches')
    thread = I.pick('thread', ('T1', 'T2'))
    first = I.getitem(caches, 'default')
    I.call_method(p, 'get', [KEY])
    with As(I, thread=thread):
        c = I.getitem(caches, 'default')
        store = I.djcaches.storage('default')
        v, w = values_(2)
        what = I.pick('use', ('attribute', 'assignment', 'removal', 'membership', 'equality', 'store', 'bulk', 'callback', 'scope', 'native', 'unknown'))
        if what == 'attribute':
            for n in ('relation_manager', 'cache', 'ignore_descendants'):
                I.require(I.getattr(p, n) is I.getattr(c, n), 'same-object', 'the default cache object has another %s than the cache of the thread' % n)
        elif what == 'assignment':
            I.setattr(p, 'ignore_descendants', True)
            I.require(I.getattr(c, 'ignore_descendants') is True, 'same-object', 'an attribute set on the default cache object does not reach the cache')
            I.setattr(p, 'own_attribute', v)
            I.require(I.getattr(c, 'own_attribute') is v, 'same-object', 'an attribute set on the default cache object does not reach the cache')
            I.call_method(c, 'set', [KEY, v])
            I.require(I.getattr(p, 'own_attribute') is v, 'same-object', 'an attribute set on the default cache object gets lost')
        elif what == 'removal':
            I.setattr(c, 'own_attribute', v)
            I.delattr(p, 'own_attribute')
            r, e = attempt(I, lambda: I.getattr(c, 'own_attribute'))
            I.require(e is not None or r is not v, 'same-object', 'an attribute deleted on the default cache object stays on the cache')
        elif what == 'membership':
            I.require(not I.truth(I.contains(KEY, p)), 'same-cache', 'the default cache object claims to have what the cache lacks')
            I.require(not I.truth(I.call_method(I.getattr(c, 'relation_manager'), 'current', [])), 'same-cache', 'asking the default cache object for membership begins an entry')
            I.call_method(c, 'set', [KEY, v])
            I.require(I.truth(I.contains(KEY, p)), 'same-cache', 'the default cache object lacks what the cache has')
        elif what == 'equality':
            ns = client(I, 'def eq(a, b):\n    return a == b\n\ndef ne(a, b):\n    return a != b\n')
            other = I.getitem(caches, 'other')
            I.require(I.truth(I.call(ns['eq'], [p, c], {})) and not I.truth(I.call(ns['ne'], [p, c], {})), 'same-object', 'the default cache object does not equal the default cache')
            I.require(not I.truth(I.call(ns['eq'], [p, other], {})) and I.truth(I.call(ns['ne'], [p, other], {})), 'same-object', 'the default cache object equals another cache')
        elif what == 'store':
            t, = tags_(1)
            I.call_method(p, 'set', [KEY, v, (t,), 60, V1])
            I.require(returned(I.call_method(c, 'get', [KEY], {'version': V1}), v), 'same-cache', 'what is stored through the default cache object is not found')
            I.require(returned(I.call_method(p, 'get', [KEY, w, V1]), v), 'same-cache', 'what is stored is not found through the default cache object')
            I.call_method(p, 'invalidate_tags', [t], {'version': V1})
            I.require(I.call_method(p, 'get', [KEY, w, V1]) is w, 'same-cache', 'an invalidation through the default cache object has no effect')
        elif what == 'bulk':
            k1, k2 = keys_(2)
            I.call_method(p, 'set', [k1, v, (), 60, V1])
            r = I.call_method(p, 'get_many', [[k1, k2], V1])
            I.require(len(r) == 1 and returned(dict(r).get(k1), v), 'same-cache', 'a bulk read through the default cache object gives something else')
        elif what == 'callback':
            f = Callback(I, 'compute', v)
            I.require(returned(I.call_method(p, 'get_or_set_callback', [KEY, f]), v) and returned(I.call_method(c, 'get', [KEY]), v), 'same-cache', 'a computation through the default cache object is not stored')
        elif what == 'scope':
            I.call_method(I.getattr(p, 'transaction'), 'begin', [])
            tx = I.getattr(c, 'transaction')
            I.require(I.truth(I.call_method(tx, 'current', [])), 'same-cache', 'a scope opened through the default cache object is no scope of the cache')
            I.require(I.call_method(I.getattr(p, 'transaction'), 'current', []) is I.call_method(tx, 'current', []), 'same-object', 'the default cache object has another current transaction')
            I.call_method(I.getattr(p, 'transaction'), I.pick('end', ('finish', 'flush')), [])
            I.require(not I.truth(I.call_method(tx, 'current', [])), 'same-cache', 'a scope closed through the default cache object stays open')
        elif what == 'native':
            r = I.call_method(p, 'custom_native', [v], {'option': w})
            I.require(same(r, T('native', ('custom_native', v), object)), 'delegated', 'a native operation of the default cache object does not reach the underlying cache')
        else:
            fails(I, lambda: I.getattr(p, 'no_such_operation'), 'unknown-names-fail', 'an unknown name of the default cache object is not refused')
        if thread == 'T2':
            I.require(c is not first, 'per-thread', 'two threads share a cache object')


# ---------------------------------------------------------------- the page decorator

PAGE_FORMS = ('cache_page(60)(view)', 'cache_page(view, 60)', 'cache_page(60, view)', 'cache_page(view)', 'cache_page()(view)')


@scenario('C22')
def forms_of_page_decorator(I):
    install_web(I)
    s = I.settings
    s.CACHE_MIDDLEWARE_SECONDS, s.CACHE_MIDDLEWARE_KEY_PREFIX, s.CACHE_MIDDLEWARE_ALIAS = 600, 'configured', 'pages'
    form = I.pick('form', PAGE_FORMS)
    seconds = I.pick('lifetime', (60, 3600)) if '60' in form else None
    options = {}
    if I.pick('cache given', (False, True)):
        options['cache'] = 'special'
    if I.pick('prefix given', (False, True)):
        options['key_prefix'] = 'own'
    t, = tags_(1)
    tags = I.pick('tags', ('none', 'function'))
    if tags == 'function':
        options['tags'] = NFn('tags', lambda request: (t,))
    deco = cls(I, I.pick('package', (PKG, LEGACY)) + '.decorators', 'cache_page')
    request = Request(Factors(I, {}, {'method': 'GET', 'request cookies': False, 'session': 'none', 'authenticated': False}))
    response = Response(I, Factors(I, {}, {'response cookies': False, 'status': 200, 'streaming': False, 'vary': None, 'cache-control': None}))
    view = NFn('view', lambda *a, **k: calls.append((a, k)) or response)
    view.__dict__['__name__'] = 'view'
    calls = []
    decorated = quiet(I, lambda: {
        'cache_page(60)(view)': lambda: I.call(I.call(deco, [seconds], options), [view], {}),
        'cache_page(view, 60)': lambda: I.call(deco, [view, seconds], options),
        'cache_page(60, view)': lambda: I.call(deco, [seconds, view], options),
        'cache_page(view)': lambda: I.call(deco, [view], options),
        'cache_page()(view)': lambda: I.call(I.call(deco, [], options), [view], {}),
    }[form](), 'accepted', '%s is not accepted' % form)
    if decorated is None:
        return
    arg = sym('argument', object)
    r = I.call(decorated, [request], {'pk': arg})
    I.require(r is response and len(calls) == 1 and calls[0] == ((request,), {'pk': arg}), 'view-called', '%s: the view is not called with the request and its arguments' % form)
    alias = options.get('cache') or 'default'
    prefix = options.get('key_prefix') or ''
    store = I.djcaches.storage(alias)
    used = [a for a, st in I.djcaches.stores.items() if st.writes()]
    I.require(used == [alias], 'same-middleware', '%s: the page is kept in the cache(s) %s instead of %s' % (form, used, alias))
    pages = [o for o in store.writes() if isinstance(o.key, T) and o.key.op == 'page_key']
    heads = [o for o in store.writes() if isinstance(o.key, T) and o.key.op == 'header_key']
    I.require(len(pages) == 1 and len(heads) == 1, 'same-middleware', '%s: the page is not kept' % form)
    if len(pages) != 1 or len(heads) != 1:
        return
    lifetime = 600 if seconds is None else seconds
    I.require(same(pages[0].timeout, lifetime) and same(heads[0].timeout, lifetime), 'same-middleware', '%s: the page is not kept for the lifetime given or configured' % form)
    I.require(same(pages[0].key, page_key(request, 'GET', [], prefix)) and same(heads[0].key, header_key(prefix, request)), 'same-middleware', '%s: the page is kept under another prefix' % form)
    keys = [o.key for o in store.writes() if o is not pages[0] and o is not heads[0]]
    want = [tag_key(I, t)] if tags != 'none' else []
    I.require(all(is_key(k, want) for k in keys) and all(is_key(k, keys) for k in want), 'same-middleware', '%s: the page does not carry exactly the tags of the decorator' % form)
    I.signals['request_finished'].send(None)
    r = I.call(decorated, [request], {'pk': arg})
    I.require(len(calls) == 1, 'same-middleware', '%s: the page is not found again' % form)


# ---------------------------------------------------------------- native operations

class Native(Model):
    """An underlying cache which records everything that reaches it."""
    def __init__(self, I):
        self._I = I
        self.__dict__['calls'] = []
        self.__dict__['key_prefix'] = sym('native_prefix', str)
        self.__dict__['default_timeout'] = sym('native_default_timeout', int)

    def __getattr__(self, name):
        if name.startswith('_') or name == 'no_such_operation':
            raise AttributeError(name)
        return NFn(name, lambda *a, **k: self._record(name, a, k))

    def _record(self, name, a, k):
        self.calls.append((name, a, k))
        return T('native', (name, len(self.calls)), object)

    def __contains__(self, key):
        self.calls.append(('__contains__', (key,), {}))
        return True


OPERATIONS = ('add', 'delete', 'incr', 'decr', 'has_key', 'touch', 'clear', 'set_many', 'delete_many', 'incr_version', 'decr_version', 'get_or_set', 'validate_key', 'make_key', 'lock', 'get_backend_timeout')


@scenario('C22')
def native_operations(I):
    native = Native(I)
    api = I.pick('interface', ('CacheTagging', 'CacheWrapper'))
    S = Stack(I, api=api, backend=native)
    name = I.pick('operation', OPERATIONS + ('in', 'attribute', 'unknown'))
    x, y = sym('argument', object), sym('option', object)
    if name == 'in':
        I.require(I.truth(I.contains(KEY, S.cache)) is True and len(native.calls) == 1 and native.calls[0][0] in ('__contains__', 'has_key') and native.calls[0][1][0] is KEY,
                  'delegated', 'membership is not decided by the underlying cache')
        return
    if name == 'attribute':
        for n in ('key_prefix', 'default_timeout'):
            I.require(I.getattr(S.cache, n) is native.__dict__[n], 'delegated', 'the attribute %s is not that of the underlying cache' % n)
        return
    if name == 'unknown':
        e = fails(I, lambda: I.getattr(S.cache, 'no_such_operation'), 'unknown-names-fail', 'a name that the underlying cache lacks is not refused')
        I.require(isinstance(e, AttributeError), 'unknown-names-fail', 'a name that the underlying cache lacks is not refused with AttributeError')
        return
    args, kw = I.pick('arguments', (((), {}), ((KEY,), {}), ((KEY, x), {}), ((KEY, x), {'version': V1}), ((KEY, x, 60), {'version': V1, 'option': y})))
    r = S.do(name, *args, **kw)
    I.require(len(native.calls) == 1 and native.calls[0][0] == name and same(tuple(native.calls[0][1]), tuple(args)) and dict(native.calls[0][2]) == kw, 'delegated',
              '%s does not reach the underlying cache with its arguments' % name)
    I.require(same(r, T('native', (name, 1), object)), 'delegated', 'the result of %s gets lost' % name)
