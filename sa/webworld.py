"""Stand-ins for Django's requests, responses, cache keys and middleware machinery."""
from .values import *
from .world import *
from .lib import NFn

CACHE_UTILS = '''
import hashlib
import re
import time
cc_delim_re = re.compile(r'\\s*,\\s*')


def get_max_age(response):
    if not response.has_header('Cache-Control'):
        return None
    cc = dict(pair(el) for el in cc_delim_re.split(response['Cache-Control']))
    if 'max-age' in cc:
        try:
            return int(cc['max-age'])
        except (ValueError, TypeError):
            pass


def pair(s):
    t = s.split('=', 1)
    if len(t) == 2:
        return t[0].lower(), t[1]
    return t[0].lower(), True


def has_vary_header(response, header_query):
    if not response.has_header('Vary'):
        return False
    return header_query.lower() in set(h.lower() for h in cc_delim_re.split(response['Vary']))


def patch_vary_headers(response, newheaders):
    vary = cc_delim_re.split(response['Vary']) if response.has_header('Vary') else []
    existing = set(h.lower() for h in vary)
    response['Vary'] = ', '.join(vary + [h for h in newheaders if h.lower() not in existing])


def patch_cache_control(response, **kwargs):
    cc = dict(pair(el) for el in cc_delim_re.split(response['Cache-Control'])) if response.get('Cache-Control') else {}
    if 'max-age' in cc and 'max_age' in kwargs:
        kwargs['max_age'] = min(int(cc['max-age']), kwargs['max_age'])
    if 'private' in cc and 'public' in kwargs:
        del cc['private']
    elif 'public' in cc and 'private' in kwargs:
        del cc['public']
    for k, v in kwargs.items():
        cc[k.replace('_', '-')] = v
    response['Cache-Control'] = ', '.join(k if v is True else '%s=%s' % (k, v) for k, v in cc.items())


def set_response_etag(response):
    if not response.streaming:
        response['ETag'] = '"' + hashlib.md5(response.content).hexdigest() + '"'
    return response


def patch_response_headers(response, cache_timeout=None):
    from django.conf import settings
    if cache_timeout is None:
        cache_timeout = settings.CACHE_MIDDLEWARE_SECONDS
    if cache_timeout < 0:
        cache_timeout = 0
    if settings.USE_ETAGS and not response.has_header('ETag'):
        if hasattr(response, 'render') and callable(response.render):
            response.add_post_render_callback(set_response_etag)
        else:
            response = set_response_etag(response)
    if not response.has_header('Last-Modified'):
        response['Last-Modified'] = http_date()
    if not response.has_header('Expires'):
        response['Expires'] = http_date(time.time() + cache_timeout)
    patch_cache_control(response, max_age=cache_timeout)


def add_never_cache_headers(response):
    patch_response_headers(response, cache_timeout=-1)
    patch_cache_control(response, no_cache=True, no_store=True, must_revalidate=True)


def learn_cache_key(request, response, cache_timeout=None, key_prefix=None, cache=None):
    from django.conf import settings
    if key_prefix is None:
        key_prefix = settings.CACHE_MIDDLEWARE_KEY_PREFIX
    if cache_timeout is None:
        cache_timeout = settings.CACHE_MIDDLEWARE_SECONDS
    cache_key = _generate_cache_header_key(key_prefix, request)
    if cache is None:
        from django.core.cache import caches
        cache = caches[settings.CACHE_MIDDLEWARE_ALIAS]
    headerlist = []
    if response.has_header('Vary'):
        for header in cc_delim_re.split(response['Vary']):
            header = header.upper().replace('-', '_')
            if header == 'ACCEPT_LANGUAGE' and (settings.USE_I18N or settings.USE_L10N):
                continue
            headerlist.append('HTTP_' + header)
        headerlist.sort()
    cache.set(cache_key, headerlist, cache_timeout)
    return _generate_cache_key(request, request.method, headerlist, key_prefix)


def get_cache_key(request, key_prefix=None, method='GET', cache=None):
    from django.conf import settings
    if key_prefix is None:
        key_prefix = settings.CACHE_MIDDLEWARE_KEY_PREFIX
    cache_key = _generate_cache_header_key(key_prefix, request)
    if cache is None:
        from django.core.cache import caches
        cache = caches[settings.CACHE_MIDDLEWARE_ALIAS]
    headerlist = cache.get(cache_key)
    if headerlist is not None:
        return _generate_cache_key(request, method, headerlist, key_prefix)
    return None
'''

DECORATORS = '''
from functools import wraps


def make_middleware_decorator(middleware_class):
    def _make_decorator(*m_args, **m_kwargs):
        middleware = middleware_class(*m_args, **m_kwargs)
        created(middleware)

        def _decorator(view_func):
            @wraps(view_func)
            def _wrapped_view(request, *args, **kwargs):
                if hasattr(middleware, 'process_request'):
                    result = middleware.process_request(request)
                    if result is not None:
                        return result
                if hasattr(middleware, 'process_view'):
                    result = middleware.process_view(request, view_func, args, kwargs)
                    if result is not None:
                        return result
                try:
                    response = view_func(request, *args, **kwargs)
                except Exception as e:
                    if hasattr(middleware, 'process_exception'):
                        result = middleware.process_exception(request, e)
                        if result is not None:
                            return result
                    raise
                if hasattr(response, 'render') and callable(response.render):
                    if hasattr(middleware, 'process_template_response'):
                        response = middleware.process_template_response(request, response)
                    if hasattr(middleware, 'process_response'):
                        response.add_post_render_callback(lambda r: middleware.process_response(request, r))
                else:
                    if hasattr(middleware, 'process_response'):
                        return middleware.process_response(request, response)
                return response
            return _wrapped_view
        return _decorator
    return _make_decorator


def decorator_from_middleware(middleware_class):
    return make_middleware_decorator(middleware_class)()


class RequestDataTooBig(Exception):
    pass
'''


class AuthFlag(Model):
    """user.is_authenticated: a flag and a function."""
    def __init__(self, get):
        self._get = get

    def __call__(self):
        return self._get()

    def __bool__(self):
        return self._get()


class User(Model):
    def __init__(self, f):
        self._f = f

    @property
    def is_authenticated(self):
        return AuthFlag(lambda: self._f.get('authenticated'))

    @property
    def is_anonymous(self):
        return AuthFlag(lambda: not self._f.get('authenticated'))

    @property
    def is_active(self):
        return self._f.get('authenticated')


class Session(Model):
    def __init__(self, f):
        self._f = f

    @property
    def accessed(self):
        return self._f.get('session') == 'accessed'

    @property
    def modified(self):
        return False

    def is_empty(self):
        return self._f.get('session') != 'accessed'


class Request(Model):
    def __init__(self, f, url='url', headers=None):
        self._f = f
        self.__dict__['url'] = url
        self.META = dict(headers or {})

    @property
    def method(self):
        return self._f.get('method')

    @property
    def COOKIES(self):
        c = {'sessionid': 'x'} if self._f.get('request cookies') else {}
        return c

    @property
    def session(self):
        if self._f.get('session') == 'none':
            raise AttributeError('session')
        return Session(self._f)

    @property
    def user(self):
        return User(self._f)

    def build_absolute_uri(self, *a):
        return self.url

    def get_full_path(self, *a):
        return self.url

    path = path_info = property(lambda self: self.url)
    GET = POST = property(lambda self: {})


class Headers(object):
    pass


class Response(Model):
    """Plain or template response; its headers and state are chosen when they are looked at."""
    def __init__(self, I, f, kind='plain', name='response', vary=None, on_render=None):
        self._I, self._f, self._kind, self._name = I, f, kind, name
        self._set, self._callbacks, self._vary = {}, [], vary
        self.__dict__['is_rendered'] = kind != 'unrendered'
        self._on_render = on_render
        self.content = T('content', (name,), bytes)

    @property
    def status_code(self):
        return self._f.get('status')

    @property
    def streaming(self):
        s = self._f.get('streaming')
        if s is None:
            raise AttributeError('streaming')
        return s

    @property
    def cookies(self):
        return {'a': 'b'} if self._f.get('response cookies') else {}

    def _header(self, name):
        n = name.lower()
        if n in self._set:
            return self._set[n]
        if n == 'vary':
            return self._f.get('vary') if self._vary is None else self._vary
        if n == 'cache-control':
            return self._f.get('cache-control')
        return None

    def has_header(self, name):
        return self._header(name) is not None

    __contains__ = has_header

    def get(self, name, default=None):
        v = self._header(name)
        return default if v is None else v

    def __getitem__(self, name):
        v = self._header(name)
        if v is None:
            raise KeyError(name)
        return v

    def __setitem__(self, name, v):
        self._set[name.lower()] = v

    def __delitem__(self, name):
        self._set[name.lower()] = None

    def items(self):
        return [(n, self._header(n)) for n in ('Vary', 'Cache-Control') if self._header(n) is not None]

    @property
    def render(self):
        if self._kind == 'plain':
            raise AttributeError('render')
        return NFn('render', self.render_now)

    @property
    def add_post_render_callback(self):
        if self._kind == 'plain':
            raise AttributeError('add_post_render_callback')
        return NFn('add_post_render_callback', self._add)

    def _add(self, f):
        if self.is_rendered:
            self._I.call(f, [self], {})
        else:
            self._callbacks.append(f)

    def render_now(self):
        if not self.is_rendered:
            if self._on_render is not None:
                self._on_render()
            self.__dict__['is_rendered'] = True
            cs, self._callbacks = self._callbacks, []
            for f in cs:
                self._I.call(f, [self], {})
        return self

    def __bool__(self):
        return True

    def __repr__(self):
        return '<%s>' % self._name


class Factors(object):
    """Facts about request and response: chosen when the analysed code asks for them."""
    def __init__(self, I, domains, given=None):
        self.I, self.domains = I, domains
        self.chosen = dict(given or {})

    def get(self, name):
        if name not in self.chosen:
            self.chosen[name] = self.I.pick(name, self.domains[name])
        return self.chosen[name]

    def completions(self):
        import itertools
        rest = [n for n in self.domains if n not in self.chosen]
        for vals in itertools.product(*[self.domains[n] for n in rest]):
            env = dict(self.chosen)
            env.update(zip(rest, vals))
            yield env


def page_key(request, method, headerlist, key_prefix):
    hs = tuple((h, request.META.get(h)) for h in headerlist)
    return T('page_key', (key_prefix, method, request.url, hs), str)


def header_key(key_prefix, request):
    return T('header_key', (key_prefix, request.url), str)


def install_web(I):
    e = I.ext
    e['django.utils.cache._generate_cache_key'] = NFn('_generate_cache_key', page_key)
    e['django.utils.cache._generate_cache_header_key'] = NFn('_generate_cache_header_key', header_key)
    ns = client(I, CACHE_UTILS, 'django_utils_cache')
    ns['_generate_cache_key'], ns['_generate_cache_header_key'] = e['django.utils.cache._generate_cache_key'], e['django.utils.cache._generate_cache_header_key']
    e['django.utils.http.http_date'] = ns['http_date'] = NFn('http_date', lambda *a: T('http_date', (), str))
    for n in ('cc_delim_re', 'get_max_age', 'has_vary_header', 'get_cache_key', 'patch_vary_headers', 'patch_cache_control', 'set_response_etag',
              'patch_response_headers', 'add_never_cache_headers', 'learn_cache_key'):
        e['django.utils.cache.' + n] = ns[n]
    ns = client(I, DECORATORS, 'django_utils_decorators')
    I.middlewares = []
    ns['created'] = NFn('created', I.middlewares.append)
    e['django.utils.decorators.decorator_from_middleware_with_args'] = ns['make_middleware_decorator']
    e['django.utils.decorators.decorator_from_middleware'] = ns['decorator_from_middleware']
    e['django.utils.decorators.make_middleware_decorator'] = ns['make_middleware_decorator']


class Site(object):
    """A page with its cache middleware, in one of the ways it can be set up."""
    def __init__(self, I, how='combined', seconds=600, prefix='prefix', alias='pages', anonymous=None, tags=None, settings=None):
        self.I, self.how = I, how
        install_web(I)
        s = I.settings
        conf = settings or {}
        s.CACHE_MIDDLEWARE_SECONDS = conf.get('seconds', seconds)
        s.CACHE_MIDDLEWARE_KEY_PREFIX = conf.get('prefix', prefix)
        s.CACHE_MIDDLEWARE_ALIAS = conf.get('alias', alias)
        if conf.get('anonymous', anonymous) is not None:
            s.CACHE_MIDDLEWARE_ANONYMOUS_ONLY = conf.get('anonymous', anonymous)
        self.alias, self.prefix, self.seconds = alias, prefix, seconds
        self.caches = cls(I, 'django_cache_dependencies', 'caches')
        mod = 'django_cache_dependencies.middleware'
        self.view = None
        inner = NFn('get_response', lambda request, *a, **k: self.inner(request, *a, **k))
        inner.__dict__['__name__'] = 'view'
        if how == 'two parts':
            self.update = I.call(cls(I, mod, 'UpdateCacheMiddleware'), [], {})
            self.fetch = I.call(cls(I, mod, 'FetchFromCacheMiddleware'), [], {})
            if tags is not None:
                I.setattr(self.update, 'tags', tags)
        elif how in ('combined', 'settings only', 'called'):
            kw = dict(cache_timeout=seconds, cache_anonymous_only=anonymous, key_prefix=prefix, cache_alias=alias) if how != 'settings only' else {}
            if tags is not None:
                kw['tags'] = tags
            self.update = self.fetch = I.call(cls(I, mod, 'CacheMiddleware'), [inner] if how == 'called' else [], kw)
        elif how == 'decorator':
            deco = cls(I, 'django_cache_dependencies.decorators', 'cache_page')
            kw = dict(cache=alias, key_prefix=prefix)
            if tags is not None:
                kw['tags'] = tags
            self.decorated = I.call(I.call(deco, [seconds], kw), [inner], {})
        else:
            raise AnalysisError(how)

    def inner(self, request, *a, **k):
        self.called += 1
        return self.view(request)

    def storage(self, alias=None):
        return self.I.djcaches.storage(alias or self.alias)

    def serve(self, request, view, end=True):
        """One request through the middleware; gives (response, whether the view was called)."""
        I = self.I
        self.view, self.called = view, 0
        if self.how == 'decorator':
            r = I.call(self.decorated, [request], {})
        elif self.how == 'called':
            r = I.call(self.update, [request], {})
        else:
            r = I.call_method(self.fetch, 'process_request', [request])
            if r is None:
                r = self.inner(request)
            r = I.call_method(self.update, 'process_response', [request, r])
        if isinstance(r, Response):
            r.render_now()
        if end:
            self.end()
        return r, self.called > 0

    def end(self):
        self.I.signals['request_finished'].send(None)

    def cache_of(self, alias=None):
        return self.I.getitem(self.caches, alias or self.alias)
