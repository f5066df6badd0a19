"""Stand-ins for the collaborators of the analysed code: the underlying cache, Django, the template engine.

They are abstract: they record what reaches them, and answer with provenance terms or with what was stored.
"""
from .values import *
from .lib import NFn, Curry, clone, Silent
from .program import ModInfo

ABSENT = type('Absent', (), {'__repr__': lambda s: 'ABSENT'})()


class Op(object):
    """One operation on the underlying cache."""
    def __init__(self, op, key, version, value=None, timeout=None, bulk=None, loc=None, thread=None, n=0, owner=None, name=None):
        self.op, self.key, self.version, self.value, self.timeout = op, key, version, value, timeout
        self.bulk, self.loc, self.thread, self.n, self.owner, self.name = bulk, loc, thread, n, owner, name

    def __repr__(self):
        s = '%s(%s' % (self.op, show(self.key))
        if self.op in ('set', 'add'):
            s += ', %s, timeout=%s' % (show(self.value), show(self.timeout))
        return s + ', version=%s)' % show(self.version)


class Contents(object):
    """What is stored: may be reached through several connections (one per thread)."""
    def __init__(self, init):
        self.store, self.log, self.init = {}, [], init
        self.fail = self.on_read = None
        self.copying = True


class Backend(Model):
    """The underlying cache: exact store of what was written, initial contents chosen by the scenario."""
    ifaces = ('ICache',)

    def __init__(self, I, name='backend', init=None, share=None):
        self._I, self._name = I, name
        self._st = share._st if share is not None else Contents(init)
        self._owner = I.thread
        self._bulk = 0
        self.key_prefix = ''
        self.version = 1

    store = property(lambda self: self._st.store)
    log = property(lambda self: self._st.log)
    init = property(lambda self: self._st.init, lambda self, v: setattr(self._st, 'init', v))
    fail = property(lambda self: self._st.fail, lambda self, v: setattr(self._st, 'fail', v))
    on_read = property(lambda self: self._st.on_read, lambda self, v: setattr(self._st, 'on_read', v))
    copying = property(lambda self: self._st.copying, lambda self, v: setattr(self._st, 'copying', v))

    # the store

    def _op(self, op, key, version, value=None, timeout=None, bulk=None):
        I = self._I
        I.hashable(key)
        o = Op(op, key, version, value, timeout, bulk, I.loc(), I.thread, len(self.log), self._owner, self._name)
        self.log.append(o)
        I.events.append(('cache', self, o))
        if self.fail is not None:
            self.fail(o)
        return o

    def _peek(self, key, version):
        k = (version, key)
        if k not in self.store:
            self.store[k] = ABSENT if self.init is None else self.init(key, version)
        return self.store[k]

    def _read(self, key, version, bulk=None):
        self._op('get', key, version, bulk=bulk)
        v = self._peek(key, version)
        if self.on_read is not None:
            v = self.on_read(key, version, v)
        return v if v is ABSENT else clone(v) if self.copying else v

    def _write(self, op, key, version, value, timeout, bulk=None):
        value = clone(value) if self.copying else value
        self._op(op, key, version, value, timeout, bulk)
        self.store[(version, key)] = value

    def _drop(self, key, version, bulk=None):
        self._op('delete', key, version, bulk=bulk)
        self.store[(version, key)] = ABSENT

    def _b(self):
        self._bulk += 1
        return self._bulk

    # the interface

    def get(self, key, default=None, version=None):
        v = self._read(key, version)
        return default if v is ABSENT else v

    def set(self, key, value, timeout=None, version=None):
        self._write('set', key, version, value, timeout)
        return T('setresult', (self._name,), None)

    def add(self, key, value, timeout=None, version=None):
        if self._peek(key, version) is not ABSENT:
            self._op('get', key, version)
            return False
        self._write('add', key, version, value, timeout)
        return True

    def delete(self, key, version=None):
        self._drop(key, version)
        return True

    def get_many(self, keys, version=None):
        b = self._b()
        d = {}
        for k in list(self._I.each(keys)):
            v = self._read(k, version, b)
            if v is not ABSENT:
                d[k] = v
        return d

    def set_many(self, data, timeout=None, version=None):
        b = self._b()
        for k, v in list(data.items()):
            self._write('set', k, version, v, timeout, b)
        return []

    def delete_many(self, keys, version=None):
        b = self._b()
        for k in list(self._I.each(keys)):
            self._drop(k, version, b)

    def has_key(self, key, version=None):
        return self._read(key, version) is not ABSENT

    def __contains__(self, key):
        return self.has_key(key)

    def incr(self, key, delta=1, version=None):
        v = self._read(key, version)
        if v is ABSENT:
            self._I.throw(ValueError('Key not found'))
        v = self._I.binop('+', v, delta)
        self._write('set', key, version, v, None)
        return v

    def decr(self, key, delta=1, version=None):
        return self.incr(key, self._I.binop('-', 0, delta), version)

    def get_or_set(self, key, default, timeout=None, version=None):
        self._op('native', key, version)
        return T('native', ('get_or_set', key))

    def touch(self, key, timeout=None, version=None):
        self._op('native', key, version)
        return True

    def incr_version(self, key, delta=1, version=None):
        self._op('native', key, version)
        return T('native', ('incr_version', key))

    def decr_version(self, key, delta=1, version=None):
        self._op('native', key, version)
        return T('native', ('decr_version', key))

    def validate_key(self, key):
        self._op('native', key, None)

    def make_key(self, key, version=None):
        return T('native', ('make_key', key))

    def clear(self):
        self._op('clear', None, None)
        self.store.clear()
        self.init = None

    def close(self, **kw):
        self._op('close', None, None)

    def custom_native(self, *a, **k):
        self._I.events.append(('native', 'custom_native', a, k))
        return T('native', ('custom_native',) + tuple(a), object)

    # queries of the rules

    def writes(self, since=0):
        return [o for o in self.log[since:] if o.op in ('set', 'add')]

    def deletes(self, since=0):
        return [o for o in self.log[since:] if o.op == 'delete']

    def reads(self, since=0):
        return [o for o in self.log[since:] if o.op == 'get']

    def ops(self, since=0):
        return [o for o in self.log[since:] if o.op in ('get', 'set', 'add', 'delete', 'native')]

    def at(self, key, version=None):
        """Contents without recording a read."""
        return self._peek(key, version)


class Callback(Model):
    """A user's function: records its calls, answers with a fixed value, may raise."""
    def __init__(self, I, name, value=None, exc=None, run=None):
        self._I, self.__dict__['__name__'] = I, name
        self.value, self.exc, self.run = value, exc, run
        self.calls = []
        self.attrs_ = {'__name__': name, '__doc__': None, '__module__': 'user', '__qualname__': name}

    def __call__(self, *a, **k):
        I = self._I
        self.calls.append((a, k))
        I.events.append(('callback', self, a, k))
        if self.run is not None:
            r = self.run(*a, **k)
            if r is not None:
                return r
        if self.exc is not None:
            I.throw(self.exc)
        return self.value

    def __getattr__(self, n):
        a = self.__dict__.get('attrs_', {})
        if n in a:
            return a[n]
        raise AttributeError(n)


class UserError(Exception):
    """An error of the user's code."""


class AnyError(UserError):
    """An error of a class the library does not know: whether it is a KeyError, an OSError... is open until somebody asks."""
    def __init__(self, *a):
        UserError.__init__(self, *a)
        self.known = {}

    def is_a(self, I, h):
        if h in (UserError, Exception, BaseException, object):
            return True
        if not issubclass(h, Exception) or issubclass(h, (StopIteration, StopAsyncIteration)):
            return False
        if h not in self.known:
            if any(v and issubclass(k, h) for k, v in self.known.items()):
                self.known[h] = True
            elif any(not v and issubclass(h, k) for k, v in self.known.items()):
                self.known[h] = False
            else:
                self.known[h] = bool(I.choose(2))
                I.order.append(('the error is a %s' % h.__name__, repr(self.known[h])))
        return self.known[h]


class Settings(Model):
    def __init__(self, **k):
        self.__dict__.update(k)


class SignalModel(Model):
    def __init__(self, I, name):
        self._I, self._name = I, name
        self.receivers = []

    def connect(self, receiver, sender=None, weak=True, dispatch_uid=None):
        key = (dispatch_uid if dispatch_uid is not None else ('id', id(receiver)), id(sender))
        self._I.events.append(('connect', self, receiver, sender, weak, dispatch_uid, self._I.loc()))
        if not any(k == key for k, r, s, w in self.receivers):
            self.receivers.append((key, receiver, sender, weak))

    def disconnect(self, receiver=None, sender=None, dispatch_uid=None):
        key = (dispatch_uid if dispatch_uid is not None else ('id', id(receiver)), id(sender))
        n = len(self.receivers)
        self.receivers = [x for x in self.receivers if x[0] != key]
        return len(self.receivers) < n

    def send(self, sender, **named):
        I = self._I
        out = []
        for key, r, s, weak in list(self.receivers):
            if s is None or s is sender:
                if weak and not isinstance(r, (Fn,)) or weak and isinstance(r, Fn) and r.frame is not None:
                    continue     # nothing else keeps such a receiver alive
                kw = dict(named, signal=self, sender=sender)
                out.append((r, I.call(r, [], kw)))
        return out


class DjangoCaches(Model):
    """django.core.cache.caches: one connection per thread and alias, one storage per alias."""
    def __init__(self, I):
        self._I = I
        self.stores = {}
        self.conns = {}

    def storage(self, alias):
        if alias not in self.stores:
            self.stores[alias] = Backend(self._I, alias if isinstance(alias, str) else show(alias))
        return self.stores[alias]

    def __getitem__(self, alias):
        I = self._I
        I.hashable(alias)
        k = (I.thread, alias)
        if k not in self.conns:
            self.conns[k] = Backend(I, alias if isinstance(alias, str) else show(alias), share=self.storage(alias))
        return self.conns[k]

    def all(self):
        return [c for (t, a), c in self.conns.items() if t == self._I.thread]


class MiddlewareMixinModel(Model):
    def __init__(self, get_response=None):
        I = CUR[0]
        I.setattr_default(self, 'get_response', get_response)

    def __call__(self, request):
        I = CUR[0]
        response = None
        if I.lib.hasattr_(self, 'process_request'):
            response = I.call_method(self, 'process_request', [request])
        if response is None:
            response = I.call(I.getattr(self, 'get_response'), [request], {})
        if I.lib.hasattr_(self, 'process_response'):
            response = I.call_method(self, 'process_response', [request, response])
        return response


class NodeModel(Model):
    def __init__(self, *a, **k):
        pass


class LibraryModel(Model):
    def __init__(self):
        self.tags, self.filters = {}, {}

    def tag(self, name=None, compile_function=None):
        if compile_function is not None:
            self.tags[name] = compile_function
            return compile_function
        if callable(name):
            self.tags[CUR[0].lib.getattr_(name, '__name__', None)] = name
            return name
        return NFn('tag', lambda f: self.tags.__setitem__(name or CUR[0].lib.getattr_(f, '__name__', None), f) or f)

    def filter(self, name=None, filter_func=None, **flags):
        if filter_func is not None:
            self.filters[name] = filter_func
            return filter_func
        if callable(name):
            self.filters[CUR[0].lib.getattr_(name, '__name__', None)] = name
            return name
        return NFn('filter', lambda f: self.filters.__setitem__(name, f) or f)

    def simple_tag(self, func=None, takes_context=None, name=None):
        def deco(f):
            self.tags[name or CUR[0].lib.getattr_(f, '__name__', None)] = ('simple', f, takes_context)
            return f
        return deco(func) if func is not None else NFn('simple_tag', deco)

    inclusion_tag = assignment_tag = simple_tag


def install(I):
    """Default stand-ins for what the repository imports."""
    e = I.ext
    settings = I.settings = Settings(SECRET_KEY=sym('SECRET_KEY', str), INSTALLED_APPS=[], CACHE_MIDDLEWARE_SECONDS=sym('SECONDS', int),
                                     CACHE_MIDDLEWARE_KEY_PREFIX=sym('PREFIX', str), CACHE_MIDDLEWARE_ALIAS=sym('ALIAS', str),
                                     USE_ETAGS=False, USE_I18N=False, USE_L10N=False)
    e['django.conf.settings'] = settings
    I.djcaches = DjangoCaches(I)
    e['django.core.cache.caches'] = I.djcaches
    e['django.core.cache.DEFAULT_CACHE_ALIAS'] = 'default'
    I.signals = {n: SignalModel(I, n) for n in ('post_save', 'pre_delete', 'pre_save', 'post_delete', 'm2m_changed', 'request_finished', 'request_started')}
    for n, s in I.signals.items():
        e[('django.core.signals.' if n.startswith('request') else 'django.db.models.signals.') + n] = s
    e['django.utils.functional.curry'] = NFn('curry', lambda f, *a, **k: Curry(f, a, k))
    e['django.utils.deprecation.MiddlewareMixin'] = MiddlewareMixinModel
    e['django.template.Node'] = e['django.template.base.Node'] = NodeModel
    e['django.template.Library'] = NFn('Library', LibraryModel)
    from .lib import Obj
    for n in ('TemplateSyntaxError', 'VariableDoesNotExist'):
        t = type(n, (Exception,), {})
        e['django.template.' + n] = e['django.template.base.' + n] = e['django.template.exceptions.' + n] = t
    e['django.utils.safestring.mark_safe'] = NFn('mark_safe', lambda s: s)


def cls(I, mod, name):
    """A class or function of the repository: a vanished anchor ends the analysis."""
    m = I.import_module(mod)
    if name not in m.ns:
        raise AnalysisError('anchor %s.%s has vanished' % (mod, name))
    return m.ns[name]


LEVELS = ('READ UNCOMMITTED', 'READ COMMITTED', 'REPEATABLE READ', 'SERIALIZABLE')


class Stack(object):
    """A cache as the framework assembles it, over an abstract backend."""
    def __init__(self, I, level='READ COMMITTED', delay=0, api='CacheTagging', accessor='backend', backend=None):
        self.I, self.api = I, api
        self.thread = I.thread
        if api == 'django':
            pkg = I.import_module('django_cache_dependencies')
            tagging = dict(getattr(I.settings, 'CACHE_TAGGING', {}))
            tagging['default'] = {'ISOLATION_LEVEL': level, 'DELAY': delay}
            I.settings.CACHE_TAGGING = tagging
            self.cache = I.getitem(cls(I, pkg.name, 'caches'), 'default')
            self.wrapper = I.getattr(self.cache, 'cache')
            self.transaction = I.getattr(self.cache, 'transaction')
            self.relations = I.getattr(self.cache, 'relation_manager')
            self.backend = I.djcaches.storage('default')
            self.accessed = []
            return
        self.backend = backend or Backend(I)
        rel = cls(I, 'cache_dependencies.relations', 'RelationManager')
        relt = cls(I, 'cache_dependencies.relations', 'ThreadSafeRelationManagerDecorator')
        lock = cls(I, 'cache_dependencies.locks', 'DependencyLock')
        tm = cls(I, 'cache_dependencies.transaction', 'TransactionManager')
        tmt = cls(I, 'cache_dependencies.transaction', 'ThreadSafeTransactionManagerDecorator')
        self.accessed = []

        def acc():
            self.accessed.append(I.thread)
            return self.backend if accessor == 'backend' else self.wrapper
        self.lock = I.call(I.getattr(lock, 'make'), [level, NFn('accessor', acc), delay], {})
        self.transaction = I.call(tmt, [I.call(tm, [self.lock], {})], {})
        self.relations = I.call(relt, [I.call(rel, [], {})], {})
        if api == 'CacheTagging':
            self.cache = I.call(cls(I, 'cache_dependencies.tagging', 'CacheTagging'), [self.backend, self.relations, self.transaction], {})
            self.wrapper = I.getattr(self.cache, 'cache')
        else:
            self.cache = self.wrapper = I.call(cls(I, 'cache_dependencies.cache', 'CacheWrapper'),
                                               [self.backend, self.relations, self.transaction], {})

    def do(self, name, *a, **k):
        return self.I.call_method(self.cache, name, list(a), k)

    def set(self, key, value, tags=(), timeout=None, version=None):
        """Stores with tags through whichever interface this assembly has."""
        if self.api == 'CacheWrapper':
            tags = tags_dep(self.I, *tags) if isinstance(tags, tuple) and tags else dummy_dep(self.I) if isinstance(tags, tuple) else tags
        return self.do('set', key, value, tags, timeout, version)

    def invalidate(self, tags, version=None):
        if self.api == 'CacheWrapper':
            return self.do('invalidate_dependency', tags_dep(self.I, *tags) if isinstance(tags, tuple) else tags, version)
        return self.do('invalidate_tags', *(tags if isinstance(tags, tuple) else (tags,)), **({} if version is None else {'version': version}))

    def get_or_set(self, key, callback, tags=(), timeout=None, version=None, args=None, kwargs=None):
        if self.api == 'CacheWrapper':
            tags = tags_dep(self.I, *tags) if isinstance(tags, tuple) and tags else dummy_dep(self.I) if isinstance(tags, tuple) else tags
        return self.do('get_or_set_callback', key, callback, tags, timeout, version, args, kwargs)

    def depth(self):
        """Number of open transaction scopes."""
        I = self.I
        t, n = self.tx('current'), 0
        while I.truth(t):
            n += 1
            t = I.call_method(t, 'parent', [])
            if t is None:
                break
        return n

    def w(self, name, *a, **k):
        return self.I.call_method(self.wrapper, name, list(a), k)

    def tx(self, name, *a, **k):
        return self.I.call_method(self.transaction, name, list(a), k)

    def current(self):
        """The innermost entry under generation (its key, or None)."""
        I = self.I
        node = I.call_method(self.relations, 'current', [])
        return I.call_method(node, 'key', []) if I.truth(node) else None

    def finish_threads(self, thread='T9'):
        """Runs everything that was left to other threads."""
        I = self.I
        while I.timers:
            t = I.timers.pop(0)
            old, I.thread = I.thread, thread
            try:
                t.run()
            finally:
                I.thread = old


START = {'H0': 0.0}


class Clock(object):
    """The clock of all hosts, as the scenario sets it."""
    def __init__(self, I, start=1000.0):
        self.now, self.step, self.reads = start, 0, []
        f = NFn('time', self.read)
        I.ext['time.time'] = f
        for n in ('monotonic', 'perf_counter'):      # since the start of each host
            I.ext['time.' + n] = NFn(n, lambda: self.read() + START.get(I.host, 900.0))

    def read(self):
        v = self.now
        self.reads.append(v)
        if not isinstance(v, T):
            self.now = v + self.step
        return v


class As(object):
    """Runs the body as another thread / process / host."""
    def __init__(self, I, thread=None, process=None, host=None):
        self.I, self.new = I, (thread, process, host)

    def __enter__(self):
        I = self.I
        self.old = I.thread, I.process, I.host
        I.thread, I.process, I.host = [n if n is not None else o for n, o in zip(self.new, self.old)]

    def __exit__(self, *a):
        self.I.thread, self.I.process, self.I.host = self.old


_SNIPPETS = {}


def client(I, text, name='client'):
    """A module of a user of the library, written in the analysed language."""
    import ast
    from .engine import ModV
    if text not in _SNIPPETS:
        _SNIPPETS[text] = ast.parse(text)
    info = type('Info', (), dict(name=name, path='<%s>' % name, tree=_SNIPPETS[text], ispkg=False))
    m = ModV(name, info)
    fr = Frame(m.ns, None, m, None, 'module')
    m.frame = fr
    I.in_frame(fr, lambda: I.exec_block(info.tree.body, fr))
    return m.ns


APPS = '''
from importlib import import_module
from django.conf import settings


class AppConfig(object):
    def __init__(self, app_name, app_module):
        self.name, self.module, self.label = app_name, app_module, app_name.rpartition('.')[2]

    @classmethod
    def create(cls, entry):
        try:
            module = import_module(entry)
        except ImportError:
            mod_path, _, cls_name = entry.rpartition('.')
            if not mod_path:
                raise
        else:
            try:
                entry = module.default_app_config
            except AttributeError:
                return cls(entry, module)
            mod_path, _, cls_name = entry.rpartition('.')
        mod = import_module(mod_path)
        try:
            cls = getattr(mod, cls_name)
        except AttributeError:
            raise ImportError(entry)
        return cls(cls.name, import_module(cls.name))


class Apps(object):
    ready = apps_ready = True

    def get_app_configs(self):
        return [AppConfig.create(entry) for entry in settings.INSTALLED_APPS]

    def is_installed(self, name):
        return any(c.name == name for c in self.get_app_configs())


apps = Apps()


def autodiscover_modules(*names):
    for config in apps.get_app_configs():
        for name in names:
            try:
                import_module('%s.%s' % (config.name, name))
            except Exception:
                from django.utils.module_loading import module_has_submodule
                if module_has_submodule(config.module, name):
                    raise
'''


def install_apps(I, modules, others=()):
    """The applications of a project: sources by name of the module; others are names that do not exist."""
    import ast
    for name, text in modules.items():
        ispkg = any(m.startswith(name + '.') for m in modules)
        if text not in _SNIPPETS:
            _SNIPPETS[text] = ast.parse(text)
        I.project[name] = ModInfo(name, 'project/' + name.replace('.', '/') + ('/__init__.py' if ispkg else '.py'), _SNIPPETS[text], ispkg)
    for n in others:
        I.project[n] = None
    ns = client(I, APPS, 'django.apps')
    for n in ('AppConfig', 'apps'):
        I.ext['django.apps.' + n] = I.ext['django.apps.%s.%s' % ('config' if n == 'AppConfig' else 'registry', n)] = ns[n]
    I.ext['django.utils.module_loading.autodiscover_modules'] = ns['autodiscover_modules']


def tags_dep(I, *tags):
    return I.call(cls(I, 'cache_dependencies.dependencies', 'TagsDependency'), list(tags), {})


def dummy_dep(I):
    return I.call(cls(I, 'cache_dependencies.dependencies', 'DummyDependency'), [], {})


def composite(I, *deps):
    return I.call(cls(I, 'cache_dependencies.dependencies', 'CompositeDependency'), list(deps), {})


def tag_key(I, tag):
    left = list(I.left)
    k = I.call(cls(I, 'cache_dependencies.utils', 'make_tag_key'), [tag], {})
    I.left.clear()
    I.left.extend(left)
    return k


def attempt(I, f):
    """(value, None) or (None, exception)."""
    depth = len(I.stack)
    try:
        return f(), None
    except RaiseSig as s:
        del I.stack[depth:]
        I.last_raise = s.loc
        return None, s.value
