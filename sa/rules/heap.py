"""C33: what failures of validation and of locks name. C34: nothing accumulates. C35: shared objects are not modified. C36: what is stored."""
from .base import *
from .locking import APIS, LOCKING
from ..heap import walk, size, state, changed, program
from ..engine import ModV, NBound, GenObj
from ..lib import Obj, LocalModel, LocalInst
from ..webworld import Site, Request, Response, Factors
from ..tplworld import Templates


# ---------------------------------------------------------------- C34

def measure(I, roots, S=None):
    if S is not None:
        S.finish_threads()
    I.events.clear()
    return size(roots())


def compare(I, a, b, rule, what):
    """b was measured after as much work as a, and one round more."""
    (n, before), (m, after) = a, b
    grown = [(p, l, len_) for k, (p, len_, x) in sorted(after.items(), key=lambda t: len(t[1][0])) for l in [before.get(k, (p, None, x))[1]] if l is not None and len_ > l]
    if grown:
        I.require(False, rule, '%s leaves something behind in %s' % (what, grown[0][0][-120:]))
    else:
        I.require(m <= n, rule, '%s leaves objects behind that stay reachable (%d more)' % (what, m - n))


def _hit(S, R):
    S.set(R['k'], R['v'], (R['t'], R['t2']), None, V1)
    S.do('get', R['k'], None, V1)
    S.do('get_many', [R['k']], V1)


def _failed(S, R):
    f = Callback(S.I, 'compute', exc=AnyError('failed'))
    attempt(S.I, lambda: S.get_or_set(R['k'], f, (R['t'],), None, V1))


def _scope(S, R, body):
    I = S.I
    attempt(I, lambda: I.call(I.call(S.transaction, [NFn('f', body)], {}), [], {}))


def _cache_fails(S, R):
    I = S.I
    for at in (1, 2):
        n = [0]

        def boom(o):
            n[0] += 1
            if n[0] == at:
                I.throw(UserError('cache'))
        S.backend.fail = boom
        for f in (lambda: S.do('get', R['k'], None, V1), lambda: S.do('get_many', [R['k'], R['k2']], V1),
                  lambda: S.get_or_set(R['k'], Callback(I, 'compute', R['v']), (R['t'],), None, V1), lambda: S.set(R['k2'], R['v'], (R['t'],), None, V1)):
            n[0] = 0
            attempt(I, f)
        S.backend.fail = None
    S.do('abort', R['k'])
    S.do('abort', R['k2'])


def _outdated(S, R):
    S.set(R['k'], R['v'], (R['t'],), None, V1)
    S.invalidate((R['t'],), V1)
    S.do('get', R['k'], None, V1, True)
    S.do('get_many', [R['k']], V1, True)
    S.get_or_set(R['k'], Callback(S.I, 'compute', R['v']), (R['t'],), None, V1)


def _opted_out(S, R):
    o = S.cache
    S.I.setattr(o, 'ignore_descendants', True)
    S.do('get', R['k'], None, V1)
    S.do('get_many', [R['k'], R['k2']], V1)
    S.get_or_set(R['k2'], Callback(S.I, 'compute', R['v']), (R['t'],), None, V1)
    S.do('get', R['k2'], None, V1)
    S.I.setattr(o, 'ignore_descendants', False)


def _foreign(S, R):
    """A store that is held off by another session."""
    t = sym('tag_of_another_session', str)
    O = Stack(S.I, level='REPEATABLE READ', backend=Backend(S.I, share=S.backend), api='CacheTagging')
    with As(S.I, process='P2'):
        O.tx('begin')
        O.invalidate((t,), V1)
    S.do('get', R['k'], None, V1)
    S.set(R['k'], R['v'], (t,), None, V1)


WORK = {
    'a hit': _hit,
    'an aborted generation': lambda S, R: (S.do('get', R['k'], None, V1), S.do('get', R['k2'], None, V1), S.do('abort', R['k2']), S.do('abort', R['k'])),
    'a generation begun and ended': lambda S, R: (S.do('begin', R['k']), S.set(R['k'], R['v'], (R['t'],), None, V1)),
    'a store': lambda S, R: S.set(R['k'], R['v'], (R['t'],), None, V1),
    'nested generations': lambda S, R: (S.do('get', R['k'], None, V1), S.do('get', R['k2'], None, V1), S.do('get_many', [R['k3']], V1), S.set(R['k3'], R['v'], (R['t'],), None, V1),
                                        S.set(R['k2'], R['v'], (R['t2'],), None, V1), S.set(R['k'], R['v'], (), None, V1)),
    'a computation': lambda S, R: (S.get_or_set(R['k'], Callback(S.I, 'compute', R['v']), (R['t'],), None, V1), S.get_or_set(R['k'], Callback(S.I, 'compute', R['v']), (R['t'],), None, V1)),
    'a failing computation': _failed,
    'a failing cache': _cache_fails,
    'an outdated entry': _outdated,
    'reads that opt out': lambda S, R: (S.do('get', R['k'], None, V1, True), S.do('get_many', [R['k'], R['k2']], V1, True)),
    'a cache that opts out': _opted_out,
    'an invalidation': lambda S, R: S.invalidate((R['t'], R['t2']), V1),
    'a transaction': lambda S, R: (S.tx('begin'), S.invalidate((R['t'],), V1), S.do('get', R['k'], None, V1), S.set(R['k'], R['v'], (R['t2'],), None, V1), S.tx('finish')),
    'nested transactions': lambda S, R: (S.tx('begin'), S.invalidate((R['t'],), V1), S.tx('begin'), S.invalidate((R['t2'],), V1), S.tx('finish'), S.tx('finish')),
    'transactions that are flushed': lambda S, R: (S.tx('begin'), S.tx('begin'), S.invalidate((R['t'],), V1), S.tx('flush')),
    'a decorated function': lambda S, R: _scope(S, R, lambda: S.invalidate((R['t'],), V1)),
    'a decorated function that fails': lambda S, R: _scope(S, R, lambda: (S.invalidate((R['t'],), V1), S.I.throw(AnyError('failed')))),
    'ends without a beginning': lambda S, R: (S.tx('finish'), S.tx('flush'), S.do('abort', R['k']), S.do('abort', R['k2'])),
    'a store held off by a lock': _foreign,
    'misses and closing': lambda S, R: (S.do('get', R['k'], None, V1), S.do('get_many', [R['k2'], R['k3']], V1), S.tx('begin'), S.invalidate((R['t'],), V1), S.do('close')),
}


def _names(i):
    k, t, v = keys_(3, 'key_of_round_%d_' % i), tags_(2, 'tag_of_round_%d_' % i), sym('value_of_round_%d' % i, object)
    return dict(k=k[0], k2=k[1], k3=k[2], t=t[0], t2=t[1], v=v)


@scenario('C34')
def over_and_over(I):
    """Work that is over leaves nothing behind, in whatever order different kinds of it follow each other."""
    level, delay = I.pick('level', (('READ COMMITTED', 0), ('READ UNCOMMITTED', 3), ('REPEATABLE READ', 3)))
    S = Stack(I, level=level, delay=delay, api=I.pick('interface', APIS))
    a, b = I.pick('work', sorted(WORK)), I.pick('then', ('a hit', 'a transaction'))
    inside = I.pick('inside of', ('nothing', 'a generation', 'a transaction'))
    closes = 'misses and closing' in (a, b)
    if inside == 'a generation' and (closes or a.startswith('a cache that')):
        inside = 'nothing'
    if inside == 'a transaction' and (closes or 'flushed' in a or a.startswith('ends')):
        inside = 'nothing'
    roots = lambda: program(I) + [('cache', S.cache)]
    done = []
    for i in range(4):
        R = _names(i)
        outer = sym('outer_key_of_round_%d' % i, str)
        if inside == 'a generation':
            S.do('get', outer, None, V1)
        elif inside == 'a transaction':
            S.tx('begin')
        WORK[a](S, R)
        WORK[b](S, R)
        if inside == 'a generation':
            S.set(outer, R['v'], (), None, V1)
        elif inside == 'a transaction':
            S.tx('finish')
        done.append(measure(I, roots, S))
    what = '%s, then %s%s,' % (a, b, '' if inside == 'nothing' else ' inside of ' + inside)
    compare(I, done[1], done[3], 'nothing-left-behind', what)


@scenario('C34')
def until_closed(I):
    """What is not over is given up at the end of the request."""
    S = Stack(I, level=I.pick('level', ('READ COMMITTED', 'REPEATABLE READ')), api=I.pick('interface', APIS))
    failing = I.pick('cache', ('works', 'fails'))
    what = I.pick('left open', ('misses', 'bulk misses', 'generations', 'transactions', 'all'))
    roots = lambda: program(I) + [('cache', S.cache)]
    done = []
    for i in range(3):
        R = _names(i)
        if what in ('misses', 'all'):
            S.do('get', R['k'], None, V1)
        if what in ('bulk misses', 'all'):
            S.do('get_many', [R['k2'], R['k3']], V1)
        if what in ('generations', 'all'):
            S.do('begin', R['k'])
            S.do('begin', R['k2'])
            S.set(R['k3'], R['v'], (R['t'],), None, V1)
        if what in ('transactions', 'all'):
            S.tx('begin')
            S.invalidate((R['t'],), V1)
            S.tx('begin')
            S.invalidate((R['t2'],), V1)
        if failing == 'fails':
            err = AnyError('cache')

            def boom(o):
                I.throw(err)
            S.backend.fail = boom
            attempt(I, lambda: S.do('close'))
            S.backend.fail = None
            S.tx('flush')
        else:
            S.do('close')
        done.append(measure(I, roots, S))
    compare(I, done[0], done[2], 'nothing-left-after-closing', 'a request that left %s open' % what)


@scenario('C34')
def threads_that_end(I):
    """Threads that are gone leave nothing behind in the process."""
    pkg = I.import_module('django_cache_dependencies')
    what = I.pick('work', ('a hit', 'a transaction', 'nested generations', 'an invalidation', 'misses', 'another alias', 'other arguments'))
    roots = lambda: program(I)
    done = []
    for i in range(4):
        with As(I, thread='worker %d' % i):
            S = Stack(I, api='django')
            R = _names(i)
            if what in WORK:
                WORK[what](S, R)
            elif what == 'misses':
                S.do('get', R['k'], None, V1)
                S.tx('begin')
                S.invalidate((R['t'],), V1)
            elif what == 'another alias':
                c = I.getitem(cls(I, pkg.name, 'caches'), 'other alias')
                I.call_method(c, 'get', [R['k']])
            else:
                c = I.call(cls(I, pkg.name, 'caches'), [], {})
                I.call_method(c, 'set', [R['k'], R['v'], (R['t'],)])
            I.signals['request_finished'].send(None)
        done.append(measure(I, roots))
    compare(I, done[1], done[3], 'nothing-left-of-threads', '%s in a thread that has ended' % what)


def _request(I, i, method='GET'):
    domains = {'method': (method,), 'request cookies': (False,), 'response cookies': (False,), 'session': ('none',), 'authenticated': (False,),
               'status': (200,), 'streaming': (None,), 'vary': (None,), 'cache-control': (None,)}
    f = Factors(I, domains)
    return f, Request(f, url=sym('url_of_round_%d' % i, str))


@scenario('C34')
def pages(I):
    """Requests to cached pages leave nothing behind."""
    how = I.pick('set up', ('two parts', 'combined', 'called', 'decorator'))
    kind = I.pick('response', ('plain', 'unrendered', 'fails'))
    again = I.pick('requested', ('once', 'twice', 'by POST'))
    tag = [None]
    site = Site(I, how, alias='default', tags=NFn('tags', lambda request: (tag[0],)))
    roots = lambda: program(I) + [('middleware', x) for x in (getattr(site, 'update', None), getattr(site, 'fetch', None), getattr(site, 'decorated', None)) if x is not None] + [('cache', site.cache_of('default'))]
    done = []
    for i in range(4):
        tag[0] = sym('tag_of_round_%d' % i, str)
        for _ in range(2 if again == 'twice' else 1):
            f, request = _request(I, i, 'POST' if again == 'by POST' else 'GET')

            def view(request):
                if kind == 'fails':
                    I.throw(UserError('view'))
                return Response(I, f, kind)
            r, e = attempt(I, lambda: site.serve(request, view, end=False))
            site.end()
        done.append(measure(I, roots))
    compare(I, done[1], done[3], 'nothing-left-of-requests', 'a request to a cached page')


@scenario('C34')
def transactions_of_requests(I):
    mod = 'django_cache_dependencies.middleware'
    m = I.call(cls(I, mod, 'TransactionMiddleware'), [], {})
    S = Stack(I, level=I.pick('level', ('READ COMMITTED', 'SERIALIZABLE')), api='django')
    how = I.pick('view', ('answers', 'fails'))
    roots = lambda: program(I) + [('middleware', m), ('cache', S.cache)]
    done = []
    for i in range(4):
        R = _names(i)
        f, request = _request(I, i)
        I.call_method(m, 'process_request', [request])
        S.invalidate((R['t'],), None)
        if how == 'fails':
            I.call_method(m, 'process_exception', [request, UserError('view')])
        else:
            I.call_method(m, 'process_response', [request, Response(I, f)])
        I.signals['request_finished'].send(None)
        done.append(measure(I, roots, S))
    compare(I, done[1], done[3], 'nothing-left-of-requests', 'a request in a transaction')


class OneRequest(Model):
    """The request object in a context."""


@scenario('C34')
def fragments(I):
    """Rendering a template over and over leaves nothing behind."""
    I.concrete = True
    I.settings.SECRET_KEY = 'secret key'
    X = Templates(I)
    what = I.pick('template', ('plain', 'nested', 'tags added', 'prevented', 'fails', 'nocache'))
    body = {'plain': ['text'], 'nested': [('tag', 'cache_tagging inner t2', ['inner text'])], 'tags added': [('tag', 'cache_add_tags t2')],
            'prevented': [('tag', 'cache_tagging_prevent')], 'fails': [('call', lambda c: I.throw(AnyError('failed')))], 'nocache': [('tag', 'nocache'), 'echo(1)', ('tag', 'endnocache')]}[what]
    tpl = X.compiled([('tag', 'cache_tagging name t1' + (' nocache=1' if what == 'nocache' else ''), body)])
    node = compiled_nodes(tpl)
    again = I.pick('rendered', ('once', 'twice'))
    request = I.pick('request', (False, True))
    roots = lambda: program(I) + [('template', node), ('cache', X.cache())]
    done = []
    for i in range(4):
        R = _names(i)
        for _ in range(2 if again == 'twice' else 1):
            vars = dict(name=R['k'], inner=R['k2'], t1=R['t'], t2=R['t2'])
            if request:
                vars['request'] = OneRequest()
            attempt(I, lambda: tpl.render(X.context(**vars)))
        I.signals['request_finished'].send(None)
        done.append(measure(I, roots))
    compare(I, done[1], done[3], 'nothing-left-of-templates', 'the rendering of a fragment (%s)' % what)


def compiled_nodes(tpl):
    """The node objects of a compiled template."""
    f = tpl._render
    out = []
    for cell in f.__closure__ or ():
        for c in cell.cell_contents if isinstance(cell.cell_contents, list) else ():
            if isinstance(c, tuple) and c[0] == 'node':
                out.append(c[1])
    return out


@scenario('C34')
def saved_objects(I):
    """Saving and deleting objects of registered models leaves nothing behind."""
    from .signals import ModelModel, ObjectModel, FUNCTIONS, PKG
    S = Stack(I, api='django')
    ns = client(I, FUNCTIONS, 'functions')
    M = ModelModel('Article')
    I.call_method(cls(I, PKG, 'registry'), 'register', [[(M, ns[I.pick('tags', ('single', 'in_list', 'of_object'))])]])
    roots = lambda: program(I) + [('cache', S.cache)]
    done = []
    for i in range(4):
        o = ObjectModel('object_%d' % i)
        I.signals['post_save'].send(M, instance=o, created=True)
        I.signals['pre_delete'].send(M, instance=o)
        I.signals['request_finished'].send(None)
        done.append(measure(I, roots, S))
    compare(I, done[1], done[3], 'nothing-left-of-objects', 'saving and deleting an object')


@scenario('C34')
def expansions(I):
    """Expanding uncached blocks leaves nothing behind."""
    I.concrete = True
    I.settings.SECRET_KEY = 'secret key'
    h = cls(I, 'django_cache_dependencies', 'nocache')
    start = I.call_method(h, 'start', [], {'x': 1})
    roots = lambda: program(I) + [('handler', h)]
    done = []
    writes = I.pick('block', ('writes', 'fails')) == 'writes'
    for i in range(4):
        v = 'value of round %d' % i
        text = 'before ' + start + 'echo(%s)' % ('v' if writes else 'missing') + I.call_method(h, 'end', []) + ' after'
        r, e = attempt(I, lambda: I.call_method(h, 'handle', [text], {'v': v}))
        I.require(r == 'before %s after' % v if writes else e is not None, 'nothing-left-of-expansions', 'a block is not expanded')
        done.append(measure(I, roots))
    compare(I, done[1], done[3], 'nothing-left-of-expansions', 'the expansion of an uncached block')


# ---------------------------------------------------------------- C35

class Watch(object):
    """Compares everything that threads share with what it was at the beginning, whenever the analysed code hands over control."""
    def __init__(self, I, roots, rule, what):
        self.I, self.roots, self.rule, self.what = I, roots, rule, what
        self.bad, self.n = None, 0
        self.before = state(roots())
        self.keep = roots()

    def look(self, when):
        self.n += 1
        if self.bad is None:
            p = changed(self.before, state(self.roots()))
            if p is not None:
                self.bad = (p, when, self.I.loc())

    def verdict(self):
        if self.bad is not None:
            p, when, loc = self.bad
            self.I.require(False, self.rule, '%s changes %s, which other threads use at the same time (seen %s)' % (self.what, p[-100:], when), loc)
        else:
            self.I.require(True, self.rule, self.what)


def watched(I, roots, rule, what, op, backends=(), second=None):
    """Runs op once to warm up, then again with other data under observation."""
    op(0)
    w = Watch(I, roots, rule, what)
    for b in backends:
        b.fail = lambda o: w.look('in the middle')
    try:
        op(1, w)
    finally:
        for b in backends:
            b.fail = None
    w.look('afterwards')
    w.verdict()


@scenario('C35')
def cached_pages(I):
    """The middleware of cached pages, and a decorated view, serve many threads with one object."""
    how = I.pick('set up', ('two parts', 'combined', 'called', 'decorator'))
    kind = I.pick('response', ('plain', 'unrendered', 'fails'))
    method = I.pick('method', ('GET', 'HEAD', 'POST'))
    before = I.pick('the page', ('absent', 'stored'))
    age = I.pick('cache-control', (None, 'max-age=60'))
    tag = [None]
    site = Site(I, how, alias='default', tags=NFn('tags', lambda request: (tag[0],)))
    site.cache_of('default')
    st = I.djcaches.storage('default')
    middle = [x for x in (getattr(site, 'update', None), getattr(site, 'fetch', None), getattr(site, 'decorated', None)) if x is not None]
    roots = lambda: program(I) + [('middleware', x) for x in middle + list(I.middlewares)]

    def op(i, w=None):
        tag[0] = sym('tag_of_request_%d' % i, str)
        domains = {'method': (method,), 'request cookies': (False,), 'response cookies': (False,), 'session': ('none',), 'authenticated': (False,),
                   'status': (200,), 'streaming': (None,), 'vary': (None,), 'cache-control': (age,)}
        f = Factors(I, domains)
        request = Request(f, url=sym('url_of_request_%d' % i, str))

        def view(request):
            if w is not None:
                w.look('in the view')
            if kind == 'fails':
                I.throw(UserError('view'))
            return Response(I, f, kind, on_render=(lambda: w.look('while the response is rendered')) if w is not None else None)
        attempt(I, lambda: site.serve(request, view, end=False))
        if w is not None:
            w.look('between requests')
        site.end()
    if before == 'stored':
        op(1)
    watched(I, roots, 'middleware-is-not-modified', 'a request to a cached page', op, [st])


@scenario('C35')
def transactions_of_pages(I):
    m = I.call(cls(I, 'django_cache_dependencies.middleware', 'TransactionMiddleware'), [], {})
    S = Stack(I, level=I.pick('level', ('READ COMMITTED', 'SERIALIZABLE')), api='django')
    how = I.pick('view', ('answers', 'fails'))

    def op(i, w=None):
        R = _names(i)
        f, request = _request(I, i)
        I.call_method(m, 'process_request', [request])
        if w is not None:
            w.look('in the view')
        S.invalidate((R['t'],), None)
        if how == 'fails':
            I.call_method(m, 'process_exception', [request, UserError('view')])
        else:
            I.call_method(m, 'process_response', [request, Response(I, f)])
        I.signals['request_finished'].send(None)
    watched(I, lambda: program(I) + [('middleware', m)], 'middleware-is-not-modified', 'a request in a transaction', op, [S.backend])


@scenario('C35')
def compiled_templates(I):
    """A compiled template is rendered by many threads at the same time."""
    I.concrete = True
    I.settings.SECRET_KEY = 'secret key'
    X = Templates(I)
    what = I.pick('template', ('plain', 'nested', 'tags added', 'prevented', 'fails', 'uncached block', 'lifetime and listed tags'))
    looks = [None]

    def look(context):
        if looks[0] is not None:
            looks[0].look('in the body of the fragment')
        if what == 'fails':
            I.throw(AnyError('failed'))
    body = {'nested': [('tag', 'cache_tagging inner t2', [('call', look)])], 'tags added': [('tag', 'cache_add_tags t2')], 'prevented': [('tag', 'cache_tagging_prevent')],
            'uncached block': [('tag', 'nocache'), 'echo(1)', ('tag', 'endnocache')]}.get(what, [])
    args = {'uncached block': ' nocache=1', 'lifetime and listed tags': ' tags=listed timeout=lifetime'}.get(what, '')
    tpl = X.compiled([('tag', 'cache_tagging name t1' + args, body + [('call', look)])])
    nodes = compiled_nodes(tpl)
    request = I.pick('request', (False, True))
    before = I.pick('the fragment', ('absent', 'stored'))

    def op(i, w=None):
        looks[0] = w
        R = _names(i)
        vars = dict(name=R['k'], inner=R['k2'], t1=R['t'], t2=R['t2'], listed=[R['k3']], lifetime=10 + i)
        if request:
            vars['request'] = OneRequest()
        attempt(I, lambda: tpl.render(X.context(**vars)))
        I.signals['request_finished'].send(None)
    if before == 'stored':
        op(1)
    watched(I, lambda: program(I) + [('template', nodes)], 'templates-are-not-modified', 'the rendering of a fragment (%s)' % what, op, [I.djcaches.storage('default')])


@scenario('C35')
def objects_of_models(I):
    from .signals import ModelModel, ObjectModel, FUNCTIONS, PKG
    S = Stack(I, level=I.pick('level', ('READ COMMITTED', 'SERIALIZABLE')), api='django')
    ns = client(I, FUNCTIONS, 'functions')
    M = ModelModel('Article')
    fn = I.pick('tags', ('single', 'in_list', 'in_set', 'of_object'))
    I.call_method(cls(I, PKG, 'registry'), 'register', [[(M, ns[fn])]])
    depth = I.pick('transaction', (0, 1))

    def op(i, w=None):
        o = ObjectModel('object_%d' % i)
        for _ in range(depth):
            S.tx('begin')
        I.signals['post_save'].send(M, instance=o, created=True)
        I.signals['pre_delete'].send(M, instance=o)
        for _ in range(depth):
            S.tx('finish')
        I.signals['request_finished'].send(None)
    watched(I, lambda: program(I), 'handlers-are-not-modified', 'saving and deleting an object', op, [S.backend])


@scenario('C35')
def uncached_blocks(I):
    """The handler of uncached blocks is one object for all threads."""
    I.concrete = True
    I.settings.SECRET_KEY = 'secret key'
    h = cls(I, 'django_cache_dependencies', 'nocache')
    inner = I.pick('block', ('writes', 'fails', 'nested'))

    def op(i, w=None):
        looked = []
        data = {'x': 'value of round %d' % i, 'nocache': h, 'look': NFn('look', lambda: (looked.append(1), w.look('in the block') if w is not None else None)[1])}
        start, end = I.call_method(h, 'start', [], {'n': i}), I.call_method(h, 'end', [])
        text = 'before ' + start + 'look()\necho(%s)\nlook()' % ('x' if inner != 'fails' else 'missing') + end + ' after'
        if inner == 'nested':
            text = 'a ' + start + 'echo(nocache.start())\nlook()\necho("look()")\necho(nocache.end())\nlook()' + end + ' b'
        attempt(I, lambda: I.call_method(h, 'handle', [text], data))
        I.require(len(looked) > (inner != 'fails'), 'handler-is-not-modified', 'the block is not executed')
    watched(I, lambda: program(I) + [('handler', h)], 'handler-is-not-modified', 'the expansion of an uncached block', op)


@scenario('C35')
def proxies(I):
    """The default cache and its transaction are proxies that keep nothing themselves; what they do belongs to the caller's thread."""
    S = Stack(I, level=I.pick('level', ('READ COMMITTED', 'REPEATABLE READ')), delay=I.pick('delay', (0, 3)), api='django')
    pkg = 'django_cache_dependencies'
    cache = cls(I, pkg, 'cache')
    name = I.pick('operation', ('get', 'set', 'get_many', 'get_or_set_callback', 'invalidate_tags', 'abort', 'transaction', 'opting out', 'decorated', 'scope', 'delete', 'close', 'registering'))

    def op(i, w=None):
        R = _names(i)
        if name in ('get', 'abort'):
            I.call_method(cache, name, [R['k']])
        elif name == 'set':
            I.call_method(cache, 'set', [R['k'], R['v'], (R['t'],)])
        elif name == 'get_many':
            I.call_method(cache, name, [[R['k'], R['k2']]])
        elif name == 'get_or_set_callback':
            I.call_method(cache, name, [R['k'], NFn('f', lambda: (w.look('in the function') if w is not None else None, R['v'])[1]), (R['t'],)])
        elif name == 'invalidate_tags':
            I.call_method(cache, name, [R['t'], R['t2']])
        elif name in ('transaction', 'scope'):
            tr = I.getattr(cache, 'transaction')
            I.call_method(tr, 'begin', [])
            I.call_method(cache, 'invalidate_tags', [R['t']])
            I.call_method(tr, 'flush' if name == 'scope' else 'finish', [])
        elif name == 'opting out':
            I.setattr(cache, 'ignore_descendants', True)
            I.setattr(cache, 'ignore_descendants', False)
        elif name == 'decorated':
            I.call(I.call(I.getattr(cache, 'transaction'), [NFn('f', lambda: I.call_method(cache, 'invalidate_tags', [R['t']]))], {}), [], {})
        elif name in ('delete', 'close'):
            I.call_method(cache, name, [R['k']] if name == 'delete' else [])
        elif name == 'registering' and i == 0:
            pass
        S.finish_threads()
        I.signals['request_finished'].send(None)
    watched(I, lambda: program(I), 'proxies-keep-nothing', 'the operation "%s" of the default cache' % name, op, [S.backend])


# ---------------------------------------------------------------- C36

LIVE = ('ICache', 'ITransaction', 'ITransactionManager', 'IRelationManager', 'ICacheNode', 'IDependencyLock', 'IDeferred')


def live(I, x):
    """What cannot be kept in a cache, or should not: the name of its kind, or None."""
    if isinstance(x, (Fn, Bound, NBound, Prop)):
        return 'a function'
    if isinstance(x, (GenObj,)):
        return 'an iterator'
    if isinstance(x, ModV):
        return 'a module'
    if isinstance(x, LocalInst) or isinstance(x, (LocalModel, Backend, Response, Request)):
        return 'a live object (%s)' % type(x).__name__
    if isinstance(x, (Model, Obj)):
        return 'a live object (%s)' % type(x).__name__
    if isinstance(x, Inst):
        for c in x.cls.mro():
            n = getattr(c, 'name', None)
            if n in LIVE:
                return 'an object of the running process (%s)' % x.cls.name
            if n in ('CacheWrapper', 'CacheTagging', 'AbstractDeferredIterator'):
                return 'an object of the running process (%s)' % x.cls.name
            if isinstance(c, type) and issubclass(c, BaseException):
                return 'an error'
    if type(x).__module__ == 'builtins' and hasattr(x, '__next__'):
        return 'an iterator'
    return None


def plain(I, S, what, n=0, values=()):
    for o in S.backend.writes(n):
        bad = None
        for path, x in walk([('stored', o.value)], enter=lambda y: live(I, y) is None):
            k = live(I, x)
            if k is not None and not any(x is v for v in values):
                bad = (path, k)
                break
        I.require(bad is None, 'only-plain-data-is-stored', '%s stores %s in an entry (%s)' % ((what,) + ((bad[1], bad[0][-100:]) if bad else ('', ''))), o.loc)


@scenario('C36')
def entries_and_marks(I):
    """Whatever is written to the underlying cache: values, dependencies, versions and marks."""
    level, delay = I.pick('level', (('READ COMMITTED', 0), ('READ UNCOMMITTED', 3), ('REPEATABLE READ', 3), ('SERIALIZABLE', 0)))
    S = Stack(I, level=level, delay=delay, api=I.pick('interface', APIS), accessor=I.pick('accessor', ('backend', 'wrapper')))
    if I.pick('underlying cache', ('copies', 'keeps objects')) != 'copies':
        S.backend.copying = False
    a = I.pick('work', sorted(WORK))
    inside = I.pick('inside of', ('nothing', 'a generation', 'a transaction'))
    for i in range(2):
        R = _names(i)
        outer = sym('outer_key_of_round_%d' % i, str)
        if inside == 'a generation':
            S.do('get', outer, None, V1)
        elif inside == 'a transaction':
            S.tx('begin')
        WORK[a](S, R)
        S.set(R['k3'], R['v'], (R['t'], R['t2']), None, V1)
        S.do('get', R['k3'], None, V1)
        if inside == 'a generation':
            S.set(outer, R['v'], (), None, V1)
        elif inside == 'a transaction':
            S.tx('finish')
    S.finish_threads()
    plain(I, S, a)


@scenario('C36')
def used_dependencies(I):
    """A dependency object of the caller that has been through stores, checks, locks and invalidations before."""
    S = Stack(I, level=I.pick('level', ('READ COMMITTED', 'REPEATABLE READ')), api=I.pick('interface', ('CacheTagging', 'CacheWrapper')))
    S.backend.copying = I.pick('underlying cache', ('copies', 'keeps objects')) == 'copies'
    k, k2, k3 = keys_(3)
    t, t2 = tags_(2)
    v, = values_(1)
    kind = I.pick('dependency', ('tags', 'composite', 'nested', 'dummy'))
    d = {'tags': lambda: tags_dep(I, t, t2), 'composite': lambda: composite(I, tags_dep(I, t), dummy_dep(I)), 'nested': lambda: composite(I, composite(I, tags_dep(I, t, t2))), 'dummy': lambda: dummy_dep(I)}[kind]()
    uses = {'store': lambda: S.set(k, v, d, None, V1), 'check': lambda: attempt(I, lambda: I.call_method(I.call_method(d, 'validate', [S.backend, V1]), 'get', [])),
            'invalidation': lambda: S.invalidate(d, V1), 'in a transaction': lambda: (S.tx('begin'), S.invalidate(d, V1), S.tx('finish')),
            'nested': lambda: (S.do('get', k2, None, V1), S.set(k, v, d, None, V1), S.set(k2, v, (), None, V1)),
            'failed check': lambda: (disturb(S, t, V1, 'new'), attempt(I, lambda: I.call_method(I.call_method(d, 'validate', [S.backend, V1]), 'get', []))),
            'held off': lambda: locked_out(I, S, k, v, d, t), 'taken up': lambda: taken_up(I, S, d)}
    first, then = I.pick('first', sorted(uses)), I.pick('then', sorted(uses))
    uses[first]()
    uses[then]()
    n = len(S.backend.log)
    S.set(k3, v, d, None, V1)
    plain(I, S, 'a store with a dependency used before', n)
    plain(I, S, 'a store with a dependency', 0)


def taken_up(I, S, d):
    current = I.call_method(I.getattr(S.cache, 'transaction'), 'current', [])
    return attempt(I, lambda: I.call_method(current, 'evaluate', [d, V1]))


def locked_out(I, S, k, v, d, t):
    other = sym('other_session_%d' % I.uid(), str)
    with As(I, process='P2'):
        O = Stack(I, level='REPEATABLE READ', backend=Backend(I, share=S.backend), api='CacheTagging')
        O.tx('begin')
        O.invalidate((t,), V1)
    S.set(k, v, d, None, V1)
    taken_up(I, S, d)
    # the other session goes away
    for key in list(S.backend.store):
        if isinstance(key[1], T) and show(key[1]).find('acquired_') >= 0:
            S.backend.store[key] = ABSENT


# ---------------------------------------------------------------- C33

def is_a(I, e, name):
    return I.exc_isinstance(e, cls(I, 'cache_dependencies.exceptions', name))


def shown(I, xs):
    """The elements (in any order) that an accessor of an error gives."""
    return sorted(show(x) for x in I.each(xs))


def error_names(I, e, name, attribute, dep, tags, what):
    """The error of one dependency names it and exactly these tags, whenever it is asked."""
    I.require(is_a(I, e, name), 'kind-of-failure', '%s ends with another error than %s' % (what, name))
    I.require(I.getattr(e, 'dependency') is dep, 'failure-names-dependency', 'the failure of %s names another dependency' % what)
    for _ in range(2):
        got = shown(I, I.getattr(e, attribute))
        I.require(got == sorted(show(t) for t in tags), 'failure-names-tags', 'the failure of %s names %s instead of exactly what has failed' % (what, got))


def validation(I, S, d, version=V1):
    return attempt(I, lambda: I.call_method(I.call_method(d, 'validate', [S.backend, version]), 'get', []))[1]


FATES = ('same', 'new', 'gone')


@scenario('C33')
def outdated_tags(I):
    """Every combination of what happened to the tags of an entry."""
    S = Stack(I, api='CacheWrapper')
    n = I.pick('tags', (1, 2, 3))
    ts = tags_(n)
    d = tags_dep(I, *ts)
    I.call_method(d, 'evaluate', [S.backend, S.tx('current'), V1])
    fates = [I.pick('tag %d' % i, FATES) for i in range(n)]
    for t, f in zip(ts, fates):
        disturb(S, t, V1, f)
    bad = [t for t, f in zip(ts, fates) if f != 'same']
    for _ in range(2):
        e = validation(I, S, d)
        if not bad:
            I.require(e is None, 'no-failure-without-reason', 'the check of a valid dependency fails')
        else:
            I.require(e is not None, 'failure-is-reported', 'the check of a dependency with outdated tags does not fail')
            if e is not None:
                error_names(I, e, 'TagsInvalid', 'errors', d, bad, 'a check')
                I.require(is_a(I, e, 'DependencyInvalid'), 'kind-of-failure', 'an outdated tag is not reported as DependencyInvalid')


def _parts(I, kinds, ts):
    """Parts of a composite: (dependency, its tags)."""
    out = []
    i = 0
    for k in kinds:
        if k == 'tags':
            out.append((tags_dep(I, ts[i], ts[i + 1]), [ts[i], ts[i + 1]], None))
            i += 2
        elif k == 'dummy':
            out.append((dummy_dep(I), [], None))
        elif k == 'nested':
            a, b = tags_dep(I, ts[i]), tags_dep(I, ts[i + 1])
            out.append((composite(I, a, b), [ts[i], ts[i + 1]], ((a, ts[i]), (b, ts[i + 1]))))
            i += 2
        elif k == 'empty':
            out.append((composite(I), [], ()))
    return out


SHAPES = (('tags',), ('tags', 'tags'), ('tags', 'dummy', 'tags'), ('dummy', 'tags'), ('nested', 'tags'), ('tags', 'nested'), ('empty', 'tags', 'dummy'), ('dummy', 'dummy'), ())


def composite_failure(I, e, names, d, parts, bad, what):
    """One failure per part that has failed, in their order; together they name exactly the tags."""
    whole, one, attribute = names
    I.require(is_a(I, e, whole), 'kind-of-failure', '%s ends with another error than %s' % (what, whole))
    I.require(I.getattr(e, 'dependency') is d, 'failure-names-dependency', 'the failure of %s names another dependency' % what)
    failed = [p for p in parts if any(t in bad for t in p[1])]
    for _ in range(2):
        got = shown(I, I.getattr(e, attribute))
        I.require(got == sorted(show(t) for t in bad), 'failure-names-tags', 'the failure of %s names %s instead of exactly what has failed' % (what, got))
        children = list(I.each(e))
        I.require(len(children) == len(failed), 'one-failure-per-part', 'the failure of %s has %d parts although %d parts have failed' % (what, len(children), len(failed)))
        for c in children:
            mine = [p for p in failed if p[0] is I.getattr(c, 'dependency')]
            I.require(len(mine) == 1, 'one-failure-per-part', 'a failure of %s does not name the part that has failed' % what)
            if not mine:
                continue
            p = mine[0]
            own = [t for t in p[1] if t in bad]
            if p[2] is None:
                error_names(I, c, one, attribute, p[0], own, what)
            else:
                I.require(is_a(I, c, whole), 'kind-of-failure', 'a nested failure of %s is no %s' % (what, whole))
                I.require(shown(I, I.getattr(c, attribute)) == sorted(show(t) for t in own), 'failure-names-tags', 'a nested failure of %s does not name exactly what has failed' % what)
                deeper = [I.getattr(x, 'dependency') for x in I.each(c)]
                I.require(len(deeper) == len(own) and all(any(a is x for x in deeper) for a, t in p[2] if t in own), 'one-failure-per-part', 'a nested failure of %s does not name the parts that have failed' % what)


@scenario('C33')
def outdated_parts(I):
    """Composite dependencies of any shape: which of the parts have failed, and why."""
    S = Stack(I, api='CacheWrapper')
    shape = I.pick('parts', SHAPES)
    ts = tags_(4)
    parts = _parts(I, shape, ts)
    d = composite(I, *[p[0] for p in parts])
    I.call_method(d, 'evaluate', [S.backend, S.tx('current'), V1])
    used = [t for p in parts for t in p[1]]
    bad = [t for i, t in enumerate(used) if I.pick('tag %d' % i, ('same', 'changed')) == 'changed']
    for i, t in enumerate(bad):
        disturb(S, t, V1, ('new', 'gone')[i % 2])
    for _ in range(2):
        e = validation(I, S, d)
        if not bad:
            I.require(e is None, 'no-failure-without-reason', 'the check of a valid dependency fails')
            continue
        I.require(e is not None, 'failure-is-reported', 'the check of a dependency with outdated parts does not fail')
        if e is not None:
            composite_failure(I, e, ('CompositeDependencyInvalid', 'TagsInvalid', 'errors'), d, parts, bad, 'a check')
            I.require(is_a(I, e, 'DependencyInvalid'), 'kind-of-failure', 'an outdated part is not reported as DependencyInvalid')


@scenario('C33')
def locked_tags(I):
    """Every combination of tags held by other sessions: acquired or released there."""
    Clock(I)
    S = Stack(I, level='REPEATABLE READ', api='CacheWrapper')
    shape = I.pick('parts', ('one',) + SHAPES)
    ts = tags_(4)
    if shape == 'one':
        n = I.pick('tags', (1, 2, 3))
        ts = ts[:n]
        d, parts, used = tags_dep(I, *ts), None, ts
    else:
        parts = _parts(I, shape, ts)
        d = composite(I, *[p[0] for p in parts])
        used = [t for p in parts for t in p[1]]
    fates = [I.pick('tag %d' % i, ('free', 'acquired', 'released')) if i < 2 else I.pick('tag %d' % i, ('free', 'acquired')) for i in range(len(used))]
    S.tx('begin')
    with As(I, thread='T2'):
        O = Stack(I, level='REPEATABLE READ', backend=Backend(I, share=S.backend), api='CacheTagging')
        O.tx('begin')
        for t, f in zip(used, fates):
            if f == 'released':
                O.invalidate((t,), V1)
        O.tx('finish')
        O.tx('begin')
        for t, f in zip(used, fates):
            if f == 'acquired':
                O.invalidate((t,), V1)
    bad = [t for t, f in zip(used, fates) if f != 'free']
    e = attempt(I, lambda: I.call_method(d, 'evaluate', [S.backend, S.tx('current'), V1]))[1]
    if not bad:
        I.require(e is None, 'no-failure-without-reason', 'taking up the versions of tags that nobody holds fails')
        return
    I.require(e is not None, 'failure-is-reported', 'taking up the versions of tags held by another session does not fail')
    if e is None:
        return
    I.require(is_a(I, e, 'DependencyLocked'), 'kind-of-failure', 'a held tag is not reported as DependencyLocked')
    if parts is None:
        error_names(I, e, 'TagsLocked', 'items', d, bad, 'a lock')
    else:
        composite_failure(I, e, ('CompositeDependencyLocked', 'TagsLocked', 'items'), d, parts, bad, 'a lock')


@scenario('C33')
def stored_dependencies(I):
    """The dependency that comes out of the cache with an entry, inherited parts included."""
    S = Stack(I, level=I.pick('level', ('READ COMMITTED', 'REPEATABLE READ')), api=I.pick('interface', APIS[:2]))
    k1, = keys_(1)
    t1, t2, t3 = tags_(3)
    v1, v2 = values_(2)
    S.do('get', KEY, None, V1)
    S.do('get', k1, None, V1)
    S.set(k1, v1, (t3, t2), None, V1)
    S.set(KEY, v2, (t1, t2), None, V1)
    d = None
    for path, x in walk([('entry', S.backend.at(KEY, V1))]):
        if isinstance(x, Inst) and any(getattr(c, 'name', None) == 'IDependency' for c in x.cls.mro()):
            d = x
            break
    if d is None:
        raise AnalysisError('anchor: the dependency of a stored entry is not found')
    fates = [I.pick('tag %d' % i, FATES) for i in range(3)]
    for t, f in zip((t1, t2, t3), fates):
        disturb(S, t, V1, f)
    bad = [t for t, f in zip((t1, t2, t3), fates) if f != 'same']
    e = validation(I, S, d)
    I.require((e is None) == (not bad), 'failure-is-reported', 'the check of a stored dependency fails although it is valid, or the other way round')
    if e is not None:
        I.require(is_a(I, e, 'DependencyInvalid'), 'kind-of-failure', 'an outdated entry is not reported as DependencyInvalid')
        got = sorted(set(shown(I, I.getattr(e, 'errors'))))
        I.require(got == sorted(show(t) for t in bad), 'failure-names-tags', 'the failure of a stored dependency names %s instead of exactly what has failed' % got)


@scenario('C33')
def made_by_hand(I):
    """The errors themselves: what they are given in any form, they keep and name."""
    x = 'cache_dependencies.exceptions'
    kind = I.pick('error', (('TagsInvalid', 'CompositeDependencyInvalid', 'errors', 'DependencyInvalid'), ('TagsLocked', 'CompositeDependencyLocked', 'items', 'DependencyLocked')))
    one, whole, attribute, base = kind
    form = I.pick('given as', ('list', 'tuple', 'set', 'iterator', 'generator'))
    as_ = {'list': list, 'tuple': tuple, 'set': ASet, 'iterator': lambda l: iter(list(l)), 'generator': lambda l: I.call(client(I, GEN)['each'], [list(l)], {})}[form]
    ts = tags_(4)
    d1, d2, d3 = tags_dep(I, *ts[:2]), tags_dep(I, ts[2]), tags_dep(I, ts[3])
    e1 = I.call(cls(I, x, one), [d1, as_(ts[:2])], {})
    e2 = I.call(cls(I, x, one), [d2, as_(ts[2:3])], {})
    e3 = I.call(cls(I, x, one), [d3, as_([])], {})
    d = composite(I, d1, d2)
    errors = [e1, e2, e3][:I.pick('parts', (0, 1, 2, 3))]
    for e, dep, tags in ((e1, d1, ts[:2]), (e2, d2, ts[2:3]), (e3, d3, [])):
        error_names(I, e, one, attribute, dep, tags, 'an error')
        I.require(is_a(I, e, base), 'kind-of-failure', '%s is no %s' % (one, base))
    lst = list(errors)
    c = I.call(cls(I, x, whole), [d, as_(lst) if form != 'set' else lst], {})
    lst.append(e1)
    I.require(is_a(I, c, base), 'kind-of-failure', '%s is no %s' % (whole, base))
    for _ in range(2):
        I.require([id(y) for y in I.each(c)] == [id(y) for y in errors], 'one-failure-per-part', 'a composite error does not give the errors of its parts')
        want = sorted(show(t) for e, tags in ((e1, ts[:2]), (e2, ts[2:3]), (e3, [])) if any(e is y for y in errors) for t in tags)
        I.require(shown(I, I.getattr(c, attribute)) == want, 'failure-names-tags', 'a composite error does not name what its parts name')
    outer = I.call(cls(I, x, whole), [composite(I, d, d3), [c, e3]], {})
    I.require(shown(I, I.getattr(outer, attribute)) == want, 'failure-names-tags', 'a nested error does not name what its parts name')


GEN = """
def each(items):
    for x in items:
        yield x
"""
