"""C21: transaction scopes are closed on every way out."""
from .base import *

PKG = 'django_cache_dependencies'

SCOPES = '''
from django_cache_dependencies import cache as default_cache, caches


def with_scope(transaction, body, a, k):
    with transaction:
        return body(*a, **k)


def with_called_scope(transaction, body, a, k):
    with transaction():
        return body(*a, **k)


def with_two_scopes(transaction, body, a, k):
    with transaction, transaction:
        return body(*a, **k)


def decorated(transaction, body, a, k):
    return transaction(body)(*a, **k)


def decorated_called(transaction, body, a, k):
    return transaction()(body)(*a, **k)


def decorated_twice(transaction, body, a, k):
    return transaction(transaction(body))(*a, **k)


def leaves_loop(transaction, body, a, k):
    for i in (1, 2):
        with transaction:
            body(*a, **k)
            if i == 1:
                continue
            break
    return body.value


def mark(view):
    """The documentation of the view."""
    return view
'''

LEAVING = ('returns', 'raises', 'interrupted', 'closed', 'stops')


def outcome(how):
    return {'returns': None, 'raises': AnyError('of the body'), 'interrupted': KeyboardInterrupt(), 'closed': GeneratorExit(), 'stops': StopIteration()}[how]


class World(object):
    def __init__(self, I, level='REPEATABLE READ', api='CacheTagging'):
        self.I = I
        self.S = Stack(I, level=level, api=api)
        self.ns = client(I, SCOPES)
        self.tag, self.outer_tag = tags_(2)
        self.depths = []
        self.active = []

    def body(self, how, inner=0):
        """A body which looks at the scope, opens `inner` further ones and leaves it in the given way."""
        S, I = self.S, self.I

        def run(*a, **k):
            self.depths.append(S.depth())
            S.invalidate((self.tag,), V1)
            for _ in range(inner):
                S.tx('begin')
            return None
        b = Callback(I, 'the_body', sym('result', object), outcome(how), run)
        return b

    def released(self, tag, since, version=V1):
        k = (version, tag_key(self.I, tag))
        return [o for o in self.S.backend.deletes(since) if (o.version, o.key) == k]

    def leaves(self, call, how, b, args, kwargs, what):
        I = self.I
        r, e = attempt(I, call)
        if how == 'returns':
            I.require(e is None, 'result-passed-on', '%s: an error is raised although the body has none' % what)
            I.require(e is not None or returned(r, b.value), 'result-passed-on', '%s: the result of the body gets lost' % what)
        else:
            I.require(e is b.exc, 'exception-passed-on', '%s: the exception of the body is not passed on' % what)
        I.require(len(b.calls) >= 1 and all(tuple(a) == tuple(args) and dict(k) == dict(kwargs) for a, k in b.calls), 'arguments-passed-on',
                  '%s: the body is not called with its arguments' % what)


@scenario('C21')
def single_scopes(I):
    api = I.pick('interface', ('CacheTagging', 'CacheWrapper', 'django'))
    W = World(I, api=api, level=I.pick('level', ('READ COMMITTED', 'REPEATABLE READ')))
    S = W.S
    form = I.pick('form', ('with_scope', 'with_called_scope', 'with_two_scopes', 'decorated', 'decorated_called', 'decorated_twice', 'leaves_loop'))
    outer = I.pick('scopes around', (0, 1, 2))
    how = I.pick('body', LEAVING)
    for _ in range(outer):
        S.tx('begin')
    if outer:
        S.invalidate((W.outer_tag,), V1)
    n = len(S.backend.log)
    b = W.body(how)
    a, k = (sym('argument', object),), {'option': sym('option', object)}
    W.leaves(lambda: I.call(W.ns[form], [S.transaction, b, a, k], {}), how, b, a, k, form)
    opened = 2 if 'twice' in form or 'two' in form else 1
    I.require(W.depths and all(d == outer + opened for d in W.depths), 'scope-opened', '%s: the body is not run inside of its own scope' % form)
    I.require(S.depth() == outer, 'scope-closed', '%s: the number of open scopes is %d instead of %d after the body %s' % (form, S.depth(), outer, how))
    calls = len(b.calls)
    if outer:
        I.require(not W.released(W.outer_tag, n), 'only-own-scope', '%s: releases what belongs to the scopes around' % form)
        I.require(len(W.released(W.tag, n)) == calls, 'only-own-scope', '%s: an inner scope releases although an outer one is open' % form)
    else:
        I.require(len(W.released(W.tag, n)) == 2 * calls, 'released-when-closed', '%s: what was invalidated is not released when the scope is closed' % form)
    # the state is usable afterwards
    for _ in range(outer):
        S.tx('finish')
    I.require(S.depth() == 0, 'scope-closed', '%s: a scope remains open' % form)


@scenario('C21')
def failing_end(I):
    """The underlying cache fails while a scope is closed: the error is passed on, and the scope is closed nevertheless."""
    api = I.pick('interface', ('CacheTagging', 'CacheWrapper', 'django'))
    W = World(I, api=api, level=I.pick('level', ('READ COMMITTED', 'REPEATABLE READ')))
    S = W.S
    form = I.pick('form', ('with_scope', 'with_called_scope', 'decorated', 'finish', 'flush', 'close', 'finish of two', 'flush of two'))
    at = I.pick('fails at write', (1, 2))
    err = I.pick('error', (AnyError('of the cache'), KeyboardInterrupt()))
    count = [0]

    def boom(o):
        if o.op in ('set', 'delete'):
            count[0] += 1
            if count[0] == at:
                S.backend.fail = None
                I.throw(err)

    def arm():
        S.backend.fail = boom
    if form in ('with_scope', 'with_called_scope', 'decorated'):
        def run(*a, **k):
            S.invalidate((W.tag,), V1)
            arm()
        b = Callback(I, 'the_body', sym('result', object), None, run)
        r, e = attempt(I, lambda: I.call(W.ns[form], [S.transaction, b, (), {}], {}))
    else:
        n = 2 if form.endswith('two') else 1
        for _ in range(n):
            S.tx('begin')
            S.invalidate((W.tag,), V1)
        if form == 'finish of two':
            S.tx('finish')
            I.require(S.depth() == 1, 'scope-closed', 'the end of an inner scope does not close one level')
        arm()
        r, e = attempt(I, lambda: S.do('close') if form == 'close' else S.tx(form.split(' ')[0]))
    if S.backend.fail is not None:
        S.backend.fail = None
        I.require(e is None, 'no-error', 'the end of a scope fails')
    else:
        I.require(e is err, 'exception-passed-on', '%s: an error of the cache at the end of a scope does not reach the caller' % form)
    I.require(S.depth() == 0, 'scope-closed', '%s: a scope is left open when the cache fails at its end' % form)
    S.tx('begin')
    S.invalidate((W.outer_tag,), V1)
    n = len(S.backend.log)
    S.tx('finish')
    I.require(W.released(W.outer_tag, n), 'released-when-closed', 'a scope after one whose end has failed does not release its tags')


@scenario('C21')
def failing_end_of_request(I):
    """One cache fails at the end of a request: the scopes of the others are closed nevertheless."""
    which = I.pick('fails', ('first', 'special', 'last'))
    aliases = ('first', 'special', 'last')
    I.settings.CACHE_TAGGING = {}
    caches = cls(I, PKG, 'caches')
    t = sym('tag', str)
    how = I.pick('closed with', ('scopes', 'entries'))
    cs = {}
    for a in aliases:
        c = cs[a] = I.getitem(caches, a)
        I.call_method(I.getattr(c, 'transaction'), 'begin', [])
        I.call_method(c, 'invalidate_tags', [t])
        if how == 'entries':
            I.call_method(c, 'get', [KEY])
    st = I.djcaches.storage(which)

    def boom(o):
        if o.op in ('set', 'delete'):
            st.fail = None
            I.throw(AnyError('of the cache'))
    st.fail = boom
    attempt(I, lambda: I.signals['request_finished'].send(sender=None))
    for a in aliases:
        I.require(Depth(I, cs[a]) == 0, 'scope-closed', 'a cache that fails at the end of a request leaves scopes %s open' % ('of its own' if a == which else 'of others'))
        node = I.call_method(I.getattr(cs[a], 'relation_manager'), 'current', [])
        I.require(not I.truth(node), 'scope-closed', 'a cache that fails at the end of a request leaves entries %s under generation' % ('of its own' if a == which else 'of others'))


LEGACY = ('plain', 'called', 'cache as argument', 'default cache as argument', 'cache by name', 'called with function', 'function and cache')


def legacy(I, S, W, name, form, f):
    """The function decorated in one of the ways the legacy decorators support."""
    deco = cls(I, PKG + '.decorators', name)
    dflt = W.ns['default_cache']
    c = I.getitem(cls(I, PKG, 'caches'), 'default')
    return {'plain': lambda: I.call(deco, [f], {}),
            'called': lambda: I.call(I.call(deco, [], {}), [f], {}),
            'cache as argument': lambda: I.call(I.call(deco, [c], {}), [f], {}),
            'default cache as argument': lambda: I.call(I.call(deco, [dflt], {}), [f], {}),
            'cache by name': lambda: I.call(I.call(deco, [], {'cache': dflt}), [f], {}),
            'called with function': lambda: I.call(deco, [], {'f': f}),
            'function and cache': lambda: I.call(deco, [f, c], {})}[form]()


@scenario('C21')
def legacy_decorators(I):
    W = World(I, api='django')
    S = W.S
    name = I.pick('decorator', ('cache_transaction', 'cache_transaction_all'))
    form = I.pick('form', LEGACY)
    outer = I.pick('scopes around', (0, 1, 2))
    how = I.pick('body', LEAVING)
    inner = I.pick('scopes left open by the body', (0, 1)) if name.endswith('all') else 0
    b = W.body(how, inner)
    f = quiet(I, lambda: legacy(I, S, W, name, form, b), 'gives-callable', '%s (%s) fails' % (name, form))
    if f is None:
        return
    I.require(I.lib.callable_(f), 'gives-callable', '%s (%s) does not give a callable' % (name, form))
    I.require(I.getattr(f, '__name__') == 'the_body', 'name-kept', '%s (%s): the name of the function gets lost' % (name, form))
    for _ in range(outer):
        S.tx('begin')
    if outer:
        S.invalidate((W.outer_tag,), V1)
    n = len(S.backend.log)
    a, k = (sym('argument', object),), {'option': sym('option', object)}
    W.leaves(lambda: I.call(f, list(a), dict(k)), how, b, a, k, name)
    left = 0 if name.endswith('all') else outer
    I.require(W.depths == [outer + 1], 'scope-opened', '%s (%s): the body is not run inside of its own scope' % (name, form))
    I.require(S.depth() == left, 'scope-closed', '%s (%s): the number of open scopes is %d instead of %d after the body %s' % (name, form, S.depth(), left, how))
    if not left:
        for t in (W.tag, W.outer_tag)[:2 if outer else 1]:
            I.require(W.released(t, n), 'released-when-closed', '%s: what was invalidated is not released' % name)


@scenario('C21')
def names_of_decorated(I):
    """Name and documentation of a function written in the language itself."""
    W = World(I, api='django')
    S = W.S
    f = W.ns['mark']
    how = I.pick('decorator', ('transaction', 'transaction()', 'default', 'cache_transaction', 'cache_transaction_all', 'cache_transaction()', 'cache_transaction_all()'))
    d = {'transaction': lambda: I.call(S.transaction, [f], {}),
         'transaction()': lambda: I.call(I.call(S.transaction, [], {}), [f], {}),
         'default': lambda: I.call(I.getattr(W.ns['default_cache'], 'transaction'), [f], {}),
         'cache_transaction': lambda: legacy(I, S, W, 'cache_transaction', 'plain', f),
         'cache_transaction_all': lambda: legacy(I, S, W, 'cache_transaction_all', 'plain', f),
         'cache_transaction()': lambda: legacy(I, S, W, 'cache_transaction', 'called', f),
         'cache_transaction_all()': lambda: legacy(I, S, W, 'cache_transaction_all', 'called', f)}[how]()
    I.require(I.getattr(d, '__name__') == 'mark', 'name-kept', '%s: the name of the function gets lost' % how)
    x = sym('argument', object)
    I.require(I.call(d, [x], {}) is x, 'result-passed-on', '%s: the result gets lost' % how)
    I.require(I.call(d, [], {'view': x}) is x, 'result-passed-on', '%s: the result gets lost' % how)
    I.require(S.depth() == 0, 'scope-closed', '%s: a scope remains open' % how)


@scenario('C21')
def called_in_other_threads(I):
    """A module is imported by one thread, its functions are called by others."""
    W = World(I, api='django')
    S = W.S
    how = I.pick('decorator', ('@cache.transaction', '@cache.transaction()', 'cache_transaction', 'cache_transaction_all', 'cache_transaction()', 'cache_transaction_all()', 'cache_transaction(cache)', 'with'))
    leaving = I.pick('body', LEAVING)
    seen = []

    def run(*a, **k):
        S2 = Stack(I, api='django', level='REPEATABLE READ')
        seen.append((I.thread, S2.depth(), S.thread))
        S2.invalidate((W.tag,), V1)
    b = Callback(I, 'the_body', sym('result', object), outcome(leaving), run)
    dflt = W.ns['default_cache']
    f = {'@cache.transaction': lambda: I.call(I.getattr(dflt, 'transaction'), [b], {}),
         '@cache.transaction()': lambda: I.call(I.call(I.getattr(dflt, 'transaction'), [], {}), [b], {}),
         'with': lambda: NFn('f', lambda: I.call(W.ns['with_scope'], [I.getattr(dflt, 'transaction'), b, (), {}], {})),
         'cache_transaction': lambda: legacy(I, S, W, 'cache_transaction', 'plain', b),
         'cache_transaction_all': lambda: legacy(I, S, W, 'cache_transaction_all', 'plain', b),
         'cache_transaction()': lambda: legacy(I, S, W, 'cache_transaction', 'called', b),
         'cache_transaction_all()': lambda: legacy(I, S, W, 'cache_transaction_all', 'called', b),
         'cache_transaction(cache)': lambda: legacy(I, S, W, 'cache_transaction', 'default cache as argument', b)}[how]()
    before = snapshot(S.transaction)
    for thread in ('T2', 'T3'):
        with As(I, thread=thread):
            n = len(S.backend.log)
            del seen[:]
            W.leaves(lambda: I.call(f, [], {}), leaving, b, (), {}, how + ' in another thread')
            I.require([x[:2] for x in seen] == [(thread, 1)], 'scope-opened', '%s: in another thread than the decorating one the body does not run in a scope of its thread' % how)
            I.require(Stack(I, api='django', level='REPEATABLE READ').depth() == 0, 'scope-closed', '%s: a scope of the calling thread remains open' % how)
            I.require(len(W.released(W.tag, n)) == 2, 'released-when-closed', '%s: what another thread has invalidated is not released' % how)
    I.require(snapshot(S.transaction) == before, 'only-own-scope', '%s: a call in another thread changes the scopes of the decorating thread' % how)


class RequestModel(Model):
    pass


@scenario('C21')
def scope_of_a_request(I):
    alias = I.pick('alias', ('default', 'argument', 'none'))
    W = World(I, api='django')
    S = W.S
    target = 'special' if alias == 'argument' else 'default'
    C = cls(I, PKG + '.middleware', 'TransactionMiddleware')
    c = I.getitem(cls(I, PKG, 'caches'), target)
    depth = lambda: Depth(I, c)
    response = T('response', (), object)
    way = I.pick('way', ('response', 'exception, response', 'exception', 'short response'))
    left_open = I.pick('scopes left open by the view', (0, 1, 2))
    request = RequestModel()
    seen = []

    def view(req):
        seen.append(Depth(I, c))
        for _ in range(left_open):
            I.call_method(I.getattr(c, 'transaction'), 'begin', [])
        I.call_method(c, 'invalidate_tags', [W.tag])
        return response
    get_response = Callback(I, 'get_response', None, None, view)
    args = [get_response]
    m = I.call(C, args, {} if alias == 'default' else {'cache_alias': 'special' if alias == 'argument' else None})
    store = I.djcaches.storage(target)
    n = len(store.log)
    calls = I.pick('called as', ('middleware', 'hooks')) if way == 'response' else 'hooks'
    if calls == 'middleware':
        r = I.call(m, [request], {})
        I.require(r is response, 'result-passed-on', 'the transaction middleware does not pass the response on')
    else:
        r = I.call_method(m, 'process_request', [request])
        I.require(r is None, 'result-passed-on', 'process_request of the transaction middleware answers the request')
        if way != 'short response':
            I.call(get_response, [request], {})
        if 'exception' in way:
            r = I.call_method(m, 'process_exception', [request, AnyError('of the view')])
            I.require(r is None, 'exception-passed-on', 'process_exception of the transaction middleware answers for the exception')
        if 'response' in way:
            r = I.call_method(m, 'process_response', [request, response])
            I.require(r is response, 'result-passed-on', 'the transaction middleware does not pass the response on')
    if seen:
        I.require(seen[0] == 1, 'scope-opened', 'the request is not handled inside of a transaction scope of the configured cache')
        key = tag_key(I, W.tag)
        I.require(len([o for o in store.deletes(n) if same(o.key, key)]) >= 2, 'released-when-closed', 'what a request has invalidated is not released at its end (%s)' % way)
    I.require(depth() == 0, 'scope-closed', 'scopes of a request remain open after it has ended (%s)' % way)


def Depth(I, c):
    t, n = I.call_method(I.getattr(c, 'transaction'), 'current', []), 0
    while t is not None and I.truth(t):
        n += 1
        t = I.call_method(t, 'parent', [])
    return n


@scenario('C21')
def closing(I):
    api = I.pick('interface', ('CacheTagging', 'CacheWrapper', 'django'))
    W = World(I, api=api)
    S = W.S
    how = I.pick('closed by', ('close', 'request_finished') if api == 'django' else ('close',))
    depth = I.pick('open scopes', (0, 1, 2, 3))
    under = I.pick('entry under generation', (False, True))
    if under:
        S.do('get', KEY)
    for _ in range(depth):
        S.tx('begin')
        S.invalidate((W.tag,), V1)
    n = len(S.backend.log)
    others = []
    if api == 'django':
        c2 = I.getitem(cls(I, PKG, 'caches'), 'special')
        I.call_method(I.getattr(c2, 'transaction'), 'begin', [])
        others.append(c2)
    if how == 'close':
        quiet(I, lambda: S.do('close'), 'close-succeeds', 'closing the cache fails')
    else:
        I.signals['request_finished'].send(sender=None)
        for c2 in others:
            I.require(Depth(I, c2) == 0, 'scope-closed', 'the end of a request does not close the scopes of every cache of the thread')
    I.require(S.depth() == 0, 'scope-closed', 'a scope is open after %s' % how)
    I.require(S.current() is None, 'scope-closed', 'an entry is under generation after %s' % how)
    if depth:
        I.require(len(W.released(W.tag, n)) == 1, 'released-when-closed', 'what was invalidated is not released exactly once by %s' % how)
    quiet(I, lambda: S.do('close'), 'close-succeeds', 'closing the cache twice fails')


@scenario('C21')
def legacy_methods(I):
    """transaction_begin() and its companions on the cache are the operations of the transaction."""
    api = I.pick('interface', ('CacheTagging', 'django'))
    W = World(I, api=api)
    S = W.S
    depth = I.pick('open scopes', (1, 2, 3))
    for d in range(depth):
        r = S.do('transaction_begin')
        I.require(S.depth() == d + 1, 'scope-opened', 'transaction_begin() does not open a scope')
        I.require(r is S.cache, 'result-passed-on', 'transaction_begin() does not return the cache')
    S.invalidate((W.tag,), V1)
    n = len(S.backend.log)
    if I.pick('end', ('finish', 'finish_all')) == 'finish':
        r = S.do('transaction_finish')
        I.require(S.depth() == depth - 1, 'scope-closed', 'transaction_finish() does not close exactly one scope')
    else:
        r = S.do('transaction_finish_all')
        I.require(S.depth() == 0, 'scope-closed', 'transaction_finish_all() leaves a scope open')
    I.require(r is S.cache, 'result-passed-on', 'the end of a scope does not return the cache')
    I.require(bool(W.released(W.tag, n)) == (S.depth() == 0), 'released-when-closed', 'tags are not released with the outermost scope')
