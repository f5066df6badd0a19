"""C17: the page cache."""
from .base import *
from ..webworld import *

HOWS = ('two parts', 'combined', 'called', 'decorator')


def own_keys(request, prefix, headers=(), methods=('GET', 'HEAD')):
    return [header_key(prefix, request)] + [page_key(request, m, list(headers), prefix) for m in methods]


def is_page(k):
    return isinstance(k, T) and k.op == 'page_key'


def is_headers(k):
    return isinstance(k, T) and k.op == 'header_key'


def page_ops(site, since=0):
    return [o for o in site.storage().writes(since) if is_page(o.key)]


def header_ops(site, since=0):
    return [o for o in site.storage().writes(since) if is_headers(o.key)]


DOMAINS = {
    'method': ('GET', 'HEAD', 'POST', 'PUT'),
    'request cookies': (True, False), 'response cookies': (False, True),
    'session': ('none', 'not accessed', 'accessed'), 'authenticated': (False, True),
    'status': (200, 203, 206, 301, 304, 404, 500), 'streaming': (None, False, True),
    'vary': (None, 'Cookie', 'Accept-Encoding, cookie'),
    'cache-control': (None, 'max-age=60', 'max-age=0', 'private, Max-Age=30'),
}


def max_age(cc):
    for p in (cc or '').split(','):
        if p.strip().lower().startswith('max-age='):
            return int(p.split('=')[1])
    return None


def storable(env, anonymous, seconds):
    """Must the response be kept: True, False, or None if either is right."""
    if env['method'] not in ('GET', 'HEAD'):
        return False
    if env['status'] != 200 or env['streaming']:
        return False
    if not env['request cookies'] and env['response cookies'] and 'cookie' in (env['vary'] or '').lower():
        return False
    age = max_age(env['cache-control'])
    if (seconds if age is None else age) == 0:
        return False
    if anonymous and env['authenticated']:
        return False if env['session'] == 'accessed' else None
    return True


def no_promises(I, response, before=()):
    """Clients are told nothing about how long they may keep a page: invalidations do not reach them."""
    told = sorted(n for n in response._set if n in ('expires', 'last-modified', 'cache-control', 'age', 'pragma') and n not in before)
    I.require(not told, 'no-promise-to-clients', 'clients are told by %s that they may keep a page, which invalidations do not reach' % ', '.join(told))


@scenario('C17')
def decision(I):
    """Every combination of the facts about request and response that the code looks at; the others must not matter."""
    how = I.pick('set up', HOWS)
    anonymous = I.pick('anonymous only', (False, True)) if how != 'decorator' else False
    seconds = I.pick('configured lifetime', (600, 0))
    prevented = False
    kind = I.pick('response', ('plain', 'unrendered'))
    site = Site(I, how, seconds=seconds, anonymous=anonymous, tags=NFn('tags', lambda request: ()))
    f = Factors(I, DOMAINS)
    request = Request(f)
    response = Response(I, f, kind)

    def view(request):
        return response
    r, called = site.serve(request, view)
    I.require(called and r is response, 'response-passed-on', 'the response of the view is not passed on')
    no_promises(I, response)
    pages, headers = page_ops(site), header_ops(site)
    kept = bool(pages)
    for env in f.completions():
        want = storable(env, anonymous, seconds) and not prevented if not prevented else False
        if want is None or want == kept:
            continue
        what = ', '.join('%s: %s' % (k, env[k]) for k in sorted(env))
        if kept:
            why = reason(env, anonymous, seconds, prevented)
            I.require(False, 'only-shareable-pages', 'a page is kept although %s' % why, pages[0].loc)
        else:
            I.require(False, 'shareable-pages-are-kept', 'a page that may be kept is not kept')
        break
    else:
        I.require(True, 'only-shareable-pages', '')
    if not kept and headers:
        I.require(False, 'only-shareable-pages', 'the header list of a page is kept although the page is not', headers[0].loc)
    others = [o for a, st in I.djcaches.stores.items() if a != site.alias for o in st.writes()]
    I.require(not others, 'same-cache', 'the page is kept in another cache')


def reason(env, anonymous, seconds, prevented):
    if prevented:
        return 'caching was prevented'
    if env['method'] not in ('GET', 'HEAD'):
        return 'the request was a %s request' % env['method']
    if env['status'] != 200:
        return 'the status is %s' % env['status']
    if env['streaming']:
        return 'the response is streaming'
    age = max_age(env['cache-control'])
    if (seconds if age is None else age) == 0:
        return 'its lifetime is zero'
    if anonymous and env['authenticated']:
        return 'the user is authenticated and only anonymous pages may be kept'
    return 'it sets a cookie for a request without cookies while varying on them'


@scenario('C17')
def anonymous_only(I):
    """Anonymous-only mode: what is given to the middleware counts, else the setting, else it is off."""
    how = I.pick('set up', ('two parts', 'combined', 'called', 'settings only', 'decorator'))
    given = I.pick('given', (None, False, True)) if how in ('combined', 'called') else None
    setting = I.pick('setting', ('missing', False, True))
    site = Site(I, how, anonymous=given, settings={'anonymous': None if setting == 'missing' else setting, 'seconds': 600, 'alias': 'pages', 'prefix': 'prefix'})
    f = facts(I, session=I.pick('session', ('accessed', 'not accessed')), authenticated=I.pick('authenticated', (True, False)))
    site.serve(Request(f), lambda request: Response(I, f))
    mode = given if given is not None else setting is True
    kept = bool(page_ops(site))
    if mode and f.get('session') == 'accessed' and f.get('authenticated'):
        I.require(not kept, 'only-shareable-pages', 'a page for an authenticated user is kept in anonymous-only mode (given: %s, setting: %s)' % (given, setting))
    elif not mode or not f.get('authenticated'):
        I.require(kept, 'shareable-pages-are-kept', 'a page is not kept although anonymous-only mode is off or the user anonymous (given: %s, setting: %s)' % (given, setting))


PLAIN = {'method': 'GET', 'request cookies': True, 'response cookies': False, 'session': 'none', 'authenticated': False, 'status': 200,
         'streaming': False, 'vary': None, 'cache-control': None}


def facts(I, **k):
    d = dict(PLAIN)
    d.update({n.replace('_', ' '): v for n, v in k.items()})
    if 'cache control' in d:
        d['cache-control'] = d.pop('cache control')
    return Factors(I, DOMAINS, d)


def add_request_tags(I, request, tags):
    if not hasattr(request, 'cache_tagging'):
        request.cache_tagging = ASet()
    for t in tags:
        request.cache_tagging.add(t)


@scenario('C17')
def kept_page(I):
    """A page is found again until one of its tags changes; lifetime, cache, prefix and tags of page and header list."""
    how = I.pick('set up', HOWS)
    method = I.pick('method', ('GET', 'HEAD'))
    cc = I.pick('cache-control', (None, 'max-age=60', 'public', 'max-age=1'))
    kind = I.pick('response', ('plain', 'rendered'))
    view_tags, request_tags = tags_(2, 'view_tag'), tags_(2, 'request_tag')
    given = I.pick('tags', ('view', 'request', 'both', 'none'))
    seconds = 600
    tf = NFn('tags', lambda request: list(view_tags) if given in ('view', 'both') else ())
    site = Site(I, how, seconds=seconds, prefix=sym('prefix', str), alias='pages', tags=tf, settings={'seconds': 77, 'alias': 'other', 'prefix': 'wrong'} if how != 'two parts' else None)
    f = facts(I, method=method, cache_control=cc)
    response = Response(I, f, kind)

    def view(request):
        if given in ('request', 'both'):
            add_request_tags(I, request, request_tags)
        return response
    r, called = site.serve(Request(f), view)
    pages, headers = page_ops(site), header_ops(site)
    I.require(len(pages) == 1 and len(headers) == 1, 'kept-once', 'a page and its header list are not kept exactly once each')
    if not pages or not headers:
        return
    age = max_age(cc)
    for o in pages + headers:
        I.require(o.timeout == (seconds if age is None else age), 'lifetime', 'a page or its header list is kept for %s instead of %s seconds' % (show(o.timeout), seconds if age is None else age), o.loc)
    I.require(all(o.key.args[0] == site.prefix for o in pages + headers), 'same-prefix', 'a page is kept under another prefix')
    again = Request(f)
    r, called = site.serve(again, lambda request: Response(I, f, 'plain', 'second'))
    I.require(not called and r is response, 'kept-page-is-found', 'a page that was kept is not found by the next request')
    no_promises(I, response)
    I.require(len(page_ops(site)) == 1, 'only-misses-are-kept', 'a page that was found is kept again')
    expect = (view_tags if given in ('view', 'both') else []) + (request_tags if given in ('request', 'both') else [])
    pk, hk = pages[0].key, headers[0].key
    old = dict(site.storage().store)
    for t in expect:
        for k, what in ((pk, 'page'), (hk, 'header list')):
            kk = (None, tag_key(I, t))
            I.require(old.get(kk, ABSENT) is not ABSENT, 'all-tags', 'a tag of a page has no version')
            site.storage().store[kk] = ABSENT
            I.require(I.call_method(site.cache_of(), 'get', [k, None, None, True]) is None, 'all-tags',
                      'the %s of a page does not depend on a tag of the %s' % (what, 'view' if t in view_tags else 'request'))
            site.storage().store.clear()
            site.storage().store.update(old)
    I.require(same(I.call_method(site.cache_of(), 'get', [pk, None, None, True]), response), 'kept-page-is-found', 'a page is not found under its own key')
    others = [o for a, st in I.djcaches.stores.items() if a != site.alias for o in st.ops()]
    I.require(not others, 'same-cache', 'pages are kept or looked up in another cache')
    # another prefix, another url: not found
    x = Request(f, url='other url')
    r, called = site.serve(x, lambda request: Response(I, f, 'plain', 'second'))
    I.require(called, 'own-pages-only', 'the page of another url is returned')


@scenario('C17')
def other_prefix(I):
    """Two sites with different prefixes in one cache do not see each other's pages."""
    how = I.pick('set up', ('combined', 'called', 'decorator'))
    site = Site(I, how, prefix='a')
    other = Site(I, how, prefix='b')
    f = facts(I)
    a, b = Response(I, f, 'plain', 'a'), Response(I, f, 'plain', 'b')
    site.serve(Request(f), lambda request: a)
    r, called = other.serve(Request(f), lambda request: b)
    I.require(called and r is b, 'same-prefix', 'the page of another prefix is returned')
    r, called = site.serve(Request(f), lambda request: None)
    I.require(not called and r is a, 'same-prefix', 'a page is not found under its own prefix')
    r, called = other.serve(Request(f), lambda request: None)
    I.require(not called and r is b, 'same-prefix', 'a page is not found under its own prefix')


@scenario('C17')
def head_requests(I):
    """A HEAD request is answered by the page of the GET request, but not the other way round."""
    how = I.pick('set up', HOWS)
    first, second = I.pick('requests', (('GET', 'HEAD'), ('HEAD', 'GET'), ('HEAD', 'HEAD'), ('GET', 'GET')))
    site = Site(I, how)
    f, g = facts(I, method=first), facts(I, method=second)
    a, b = Response(I, f, 'plain', 'a'), Response(I, g, 'plain', 'b')
    site.serve(Request(f), lambda request: a)
    r, called = site.serve(Request(g), lambda request: b)
    hit = (first, second) != ('HEAD', 'GET')
    I.require(called != hit and r is (a if hit else b), 'head-and-get', 'a %s request is %sanswered by the page kept for a %s request' % (second, '' if not hit else 'not ', first))


@scenario('C17')
def not_cached_methods(I):
    """Other methods neither look pages up nor keep them."""
    how = I.pick('set up', HOWS)
    site = Site(I, how)
    f, g = facts(I), facts(I, method=I.pick('method', ('POST', 'PUT', 'DELETE', 'PATCH', 'OPTIONS')))
    a, b = Response(I, f, 'plain', 'a'), Response(I, g, 'plain', 'b')
    if I.pick('page', ('kept', 'none')) == 'kept':
        site.serve(Request(f), lambda request: a)
    n = len(site.storage().log)
    r, called = site.serve(Request(g), lambda request: b)
    I.require(called and r is b, 'only-get-and-head', 'a request that is neither GET nor HEAD is answered by a kept page')
    I.require(not [o for o in site.storage().writes(n) if is_page(o.key) or is_headers(o.key)], 'only-shareable-pages', 'the answer to a request that is neither GET nor HEAD is kept')


@scenario('C17')
def answered_before(I):
    """A response to a request that was never looked up (another middleware has answered it) is passed on and not kept."""
    site = Site(I, I.pick('set up', ('two parts', 'combined', 'settings only')))
    f = facts(I, method=I.pick('method', ('GET', 'HEAD', 'POST')), vary=I.pick('vary', (None, 'Cookie')))
    request, response = Request(f), Response(I, f, 'plain', 'a')
    r = quiet(I, lambda: I.call_method(site.update, 'process_response', [request, response]), 'response-passed-on', 'the response to a request that was not looked up makes the middleware fail')
    I.require(r is response, 'response-passed-on', 'the response to a request that was not looked up is not passed on')
    I.require(not page_ops(site) and not header_ops(site), 'only-shareable-pages', 'the response to a request that was not looked up is kept')


@scenario('C17')
def variants(I):
    """Responses that vary on headers: every variant is found by requests with the same headers only."""
    how = I.pick('set up', ('two parts', 'combined', 'decorator'))
    vary = I.pick('vary', ('Accept-Encoding', 'Accept-Encoding, Cookie', 'cookie', 'X-A, X-B', 'X-B,X-A', 'X-A ,X-B', 'X-Forwarded-For, X-B'))
    names = [n.strip().upper().replace('-', '_') for n in vary.split(',')]
    names = ['HTTP_' + n for n in names]
    site = Site(I, how)
    f = facts(I, vary=vary)
    h1 = {n: 'one' for n in names}
    which = I.pick('different header', names + ['HTTP_OTHER'])
    h2 = dict(h1)
    h2[which] = 'two'
    a, b = Response(I, f, 'plain', 'a'), Response(I, f, 'plain', 'b')
    site.serve(Request(f, headers=h1), lambda request: a)
    r, called = site.serve(Request(f, headers=h2), lambda request: b)
    if which in names:
        I.require(called and r is b, 'vary', 'a page that varies on a header is returned for another value of it')
        r, called = site.serve(Request(f, headers=h2), lambda request: None)
        I.require(not called and r is b, 'vary', 'the second variant of a page is not found')
    else:
        I.require(not called and r is a, 'vary', 'a page is not found although the headers it varies on are the same')
    r, called = site.serve(Request(f, headers=h1), lambda request: None)
    I.require(not called and r is a, 'vary', 'the first variant of a page is not found')


@scenario('C17')
def redundant_language(I):
    """With translations the language is part of the key already; the other headers still count."""
    I.settings.USE_I18N = I.pick('USE_I18N', (False, True))
    I.settings.USE_L10N = I.pick('USE_L10N', (False, True))
    site = Site(I, 'combined')
    f = facts(I, vary='Accept-Language, X-A')
    a, b = Response(I, f, 'plain', 'a'), Response(I, f, 'plain', 'b')
    site.serve(Request(f, headers={'HTTP_ACCEPT_LANGUAGE': 'en', 'HTTP_X_A': '1'}), lambda request: a)
    r, called = site.serve(Request(f, headers={'HTTP_ACCEPT_LANGUAGE': 'en', 'HTTP_X_A': '2'}), lambda request: b)
    I.require(called and r is b, 'vary', 'a page that varies on a header is returned for another value of it')
    if not I.settings.USE_I18N and not I.settings.USE_L10N:
        r, called = site.serve(Request(f, headers={'HTTP_ACCEPT_LANGUAGE': 'de', 'HTTP_X_A': '1'}), lambda request: b)
        I.require(called, 'vary', 'a page that varies on the language is returned for another language')


@scenario('C17')
def fragments_in_page(I):
    """A page inherits the tags of the cached values used while it was generated, for every variant."""
    how = I.pick('set up', ('two parts', 'combined', 'decorator'))
    vary = I.pick('vary', (None, 'X-A'))
    site = Site(I, how, alias='default')
    t = sym('tag', str)
    frag = sym('fragment', str)
    state = I.pick('fragment', ('kept before', 'generated'))
    cache = site.cache_of()
    if state == 'kept before':
        I.call_method(cache, 'set', [frag, sym('text', object), (t,)])
        site.end()
    f = facts(I, vary=vary)
    a, b = Response(I, f, 'plain', 'a'), Response(I, f, 'plain', 'b')

    def view(resp):
        def run(request):
            c = site.cache_of()
            if I.call_method(c, 'get', [frag]) is None:
                I.call_method(c, 'set', [frag, sym('text', object), (t,)])
            return resp
        return run
    site.serve(Request(f, headers={'HTTP_X_A': '1'}), view(a))
    if vary:
        site.serve(Request(f, headers={'HTTP_X_A': '2'}), view(b))
    order = I.pick('asked again', ('1', '2') if vary else ('1',))
    I.call_method(site.cache_of(), 'invalidate_tags', [t])
    r, called = site.serve(Request(f, headers={'HTTP_X_A': order}), view(Response(I, f, 'plain', 'c')))
    I.require(called, 'all-tags', 'a page is found although a tag of a cached value used in it was invalidated')


@scenario('C17')
def prevention(I):
    """prevent_cache_page() at any moment before the response is left holds for this request only."""
    how = I.pick('set up', HOWS)
    kind = I.pick('response', ('plain', 'rendered', 'unrendered'))
    when = I.pick('when', ('view', 'rendering'))
    site = Site(I, how)
    f = facts(I)
    prevent = cls(I, 'django_cache_dependencies.utils', 'prevent_cache_page')
    request = Request(f)

    def on_render():
        if when == 'rendering':
            I.call(prevent, [request], {})
    a = Response(I, f, kind, 'a', on_render=on_render)

    def view(req):
        if when == 'view' or kind != 'unrendered':
            I.call(prevent, [req], {})
        return a
    if when == 'rendering' and kind == 'unrendered' and how != 'decorator':
        def rendered(req):     # Django renders the response before it passes the middleware
            return a.render_now()
        r, called = site.serve(request, rendered)
    else:
        r, called = site.serve(request, view)
    I.require(not page_ops(site), 'only-shareable-pages', 'a page is kept although caching was prevented')
    b = Response(I, f, 'plain', 'b')
    r, called = site.serve(Request(f), lambda request: b)
    I.require(called and r is b, 'only-shareable-pages', 'a page is found although caching was prevented')
    r, called = site.serve(Request(f), lambda request: None)
    I.require(not called and r is b, 'kept-page-is-found', 'prevention for one request holds for later ones')


@scenario('C17')
def entity_tags(I):
    """With entity tags switched on the same pages are kept."""
    how = I.pick('set up', HOWS)
    kind = I.pick('response', ('plain', 'unrendered', 'rendered'))
    own = I.pick('entity tag of its own', (False, True))
    streaming = I.pick('streaming', (None, True))
    site = Site(I, how)
    I.settings.USE_ETAGS = True
    f = facts(I, streaming=streaming)
    response = Response(I, f, kind)
    if own:
        response['ETag'] = '"own"'
    r, called = site.serve(Request(f), lambda request: response)
    I.require(called and r is response, 'response-passed-on', 'the response of the view is not passed on')
    no_promises(I, response)
    I.require('etag' not in response._set or own == (response._set['etag'] == '"own"'), 'own-entity-tag', 'the entity tag of a response is replaced')
    if streaming:
        I.require(not page_ops(site), 'only-shareable-pages', 'a page is kept although the response is streaming')
        return
    I.require(len(page_ops(site)) == 1, 'shareable-pages-are-kept', 'a page with an entity tag is not kept')
    r, called = site.serve(Request(f), lambda request: None)
    I.require(not called and r is response, 'kept-page-is-found', 'a page with an entity tag is not found again')


@scenario('C17')
def header_lists(I):
    """The list of headers, kept by itself: what is not given is taken from the settings."""
    s = I.settings
    site = Site(I, 'combined', seconds=sym('seconds of the settings', int), prefix=sym('prefix of the settings', str), alias='pages')
    given = {n: I.pick(n, (False, True)) for n in ('lifetime', 'prefix', 'cache')}
    keywords = I.pick('as keywords', (False, True))
    f = facts(I, vary=I.pick('vary', (None, 'Accept-Encoding, Cookie')))
    request, response, t = Request(f), Response(I, f, 'plain'), sym('tag', str)
    lifetime, prefix = sym('given_lifetime', int), sym('given_prefix', str)
    cache = I.getitem(site.caches, 'given')
    a = [request, response, (t,)]
    k = dict(cache_timeout=lifetime if given['lifetime'] else None, key_prefix=prefix if given['prefix'] else None, cache=cache if given['cache'] else None)
    k = {n: v for n, v in k.items() if v is not None} if keywords else k
    f_ = cls(I, 'django_cache_dependencies.utils', 'learn_cache_key')
    key = I.call(f_, a, k) if keywords else I.call(f_, a + [k['cache_timeout'], k['key_prefix'], k['cache']], {})
    want = 'given' if given['cache'] else 'pages'
    p = prefix if given['prefix'] else s.CACHE_MIDDLEWARE_KEY_PREFIX
    for alias in ('given', 'pages', 'default'):
        ops = [o for o in I.djcaches.storage(alias).writes() if is_headers(o.key)]
        I.require(len(ops) == (alias == want), 'same-cache', 'the header list of a page is not kept in the cache that is given or configured')
        for o in ops:
            I.require(same(o.timeout, lifetime if given['lifetime'] else s.CACHE_MIDDLEWARE_SECONDS), 'lifetime', 'a header list is kept for %s' % show(o.timeout))
            I.require(same(o.key, header_key(p, request)), 'same-prefix', 'a header list is kept under another prefix than the one given or configured')
    headers = ['HTTP_ACCEPT_ENCODING', 'HTTP_COOKIE'] if f.get('vary') else []
    I.require(same(key, page_key(request, 'GET', headers, p)), 'vary', 'the key of a page does not consist of its address, its headers and its prefix')
    c = cache if given['cache'] else I.getitem(site.caches, 'pages')
    I.require(same(I.call_method(c, 'get', [header_key(p, request), None, None, True]), headers), 'vary', 'the header list of a page is not what its response varies on')
    I.call_method(c, 'invalidate_tags', [t])
    I.require(I.call_method(c, 'get', [header_key(p, request), None, None, True]) is None, 'all-tags', 'the header list of a page does not depend on the tags given')
