"""C20: saving or deleting a registered object invalidates its tags."""
from .base import *

PKG = 'django_cache_dependencies'

FUNCTIONS = '''
def single(*args, **kwargs):
    return kwargs['instance'].tag

def by_names(sender, instance, **kwargs):
    return (instance.tag, instance.other)

def in_tuple(*args, **kwargs):
    return (kwargs['instance'].tag, kwargs['instance'].other)

def in_list(*args, **kwargs):
    return [kwargs['instance'].tag, kwargs['instance'].other]

def in_set(*args, **kwargs):
    return set([kwargs['instance'].tag, kwargs['instance'].other])

def in_frozenset(*args, **kwargs):
    return frozenset([kwargs['instance'].tag, kwargs['instance'].other])

def of_object(obj):
    return obj.tag

def of_object_in_list(obj):
    return [obj.tag, obj.other]

def of_object_in_set(obj):
    return set([obj.tag, obj.other])

def number(*args, **kwargs):
    return kwargs['instance'].number

def none(*args, **kwargs):
    return ()

def more(*args, **kwargs):
    return [kwargs['instance'].more]
'''

FORMS = {'single': 1, 'by_names': 2, 'in_tuple': 2, 'in_list': 2, 'in_set': 2, 'in_frozenset': 2, 'of_object': 1, 'of_object_in_list': 2, 'of_object_in_set': 2, 'none': 0, 'number': -1}


class ModelModel(Model):
    """A model class of the project."""
    def __init__(self, name):
        self._name = name
        self.attrs_ = {'__name__': name, '__module__': 'app.models'}

    def __getattr__(self, n):
        a = self.__dict__.get('attrs_', {})
        if n in a:
            return a[n]
        raise AttributeError(n)


class ObjectModel(Model):
    """An object of a model, whose tags depend on it."""
    def __init__(self, name):
        self.pk = sym('pk_of_%s' % name, int)
        self.number = sym('number_of_%s' % name, int)
        self.tag, self.other, self.more = (sym('%s_of_%s' % (n, name), str) for n in ('tag', 'other_tag', 'more_tag'))

    def tags(self, form):
        if FORMS.get(form) == -1:
            return (self.number,)
        return (self.tag, self.other)[:FORMS[form]] if form in FORMS else (self.more,)


class App(object):
    def __init__(self, I):
        self.I = I
        self.pkg = I.import_module(PKG)
        self.registry = cls(I, PKG, 'registry')
        self.fn = client(I, FUNCTIONS)

    def register(self, *items, **k):
        self.I.call_method(self.registry, 'register', [k.get('kind', list)(items)])

    def happens(self, what, model, obj):
        """Sends the signals of a save or a deletion; gives the point from which invalidations count."""
        I, s = self.I, self.I.signals

        def send(name, **kw):
            s[name].send(sender=model, instance=obj, using='replica' if what == 'other database' else 'default', **kw)
        if what != 'delete':
            fields = ASet([sym('field', str)], True) if what == 'some fields' else None
            send('pre_save', raw=(what == 'fixture'), update_fields=fields)
            mark = self.mark()
            send('post_save', raw=(what == 'fixture'), created=what in ('create', 'fixture'), update_fields=fields)
        else:
            mark = self.mark()
            send('pre_delete')
            send('post_delete')
        return mark

    def mark(self):
        return {a: len(st.log) for a, st in self.I.djcaches.stores.items()}

    def deleted(self, alias, mark):
        st = self.I.djcaches.storage(alias)
        return [o for o in st.deletes(mark.get(alias, 0))]

    def invalidates(self, alias, mark, tags, what):
        I = self.I
        d = self.deleted(alias, mark)
        for t in tags:
            I.require(any(same(o.key, tag_key(I, t)) and o.version is None for o in d), 'all-tags-invalidated',
                      '%s does not invalidate every tag of the object in the cache of the registration' % what)
        for o in d:
            I.require(any(same(o.key, tag_key(I, t)) for t in tags), 'only-own-tags', '%s invalidates something else than the tags of the object' % what)


EVENTS = ('create', 'update', 'some fields', 'fixture', 'other database', 'delete')
WORDS = {'create': 'creating an object', 'update': 'saving an object', 'some fields': 'saving some fields of an object', 'fixture': 'loading an object from a fixture',
         'other database': 'saving an object in another database', 'delete': 'deleting an object'}


@scenario('C20')
def forms_of_functions(I):
    A = App(I)
    m, other = ModelModel('Post'), ModelModel('Article')
    form = I.pick('function', tuple(FORMS))
    alias = I.pick('cache', (None, 'alias', 'object', 'empty'))
    kind = I.pick('list', (list, tuple))
    cache = {'object': lambda: I.getitem(cls(I, PKG, 'caches'), 'special'), 'alias': lambda: 'special', 'empty': lambda: None}.get(alias, lambda: None)()
    A.register((m, A.fn[form]) if alias is None else (m, A.fn[form], cache), kind=kind)
    target = 'special' if alias in ('alias', 'object') else 'default'
    what = I.pick('event', EVENTS)
    obj, stranger = ObjectModel('post'), ObjectModel('article')
    if I.pick('inside a transaction', (False, True)):
        I.call_method(I.getattr(I.getitem(cls(I, PKG, 'caches'), target), 'transaction'), 'begin', [])
    mark = quiet(I, lambda: A.happens(what, m, obj), 'handler-succeeds', '%s fails' % WORDS[what])
    if mark is None:
        return
    A.invalidates(target, mark, obj.tags(form), WORDS[what])
    A.invalidates('default' if target == 'special' else 'special', mark, (), WORDS[what] + ' (in a cache it was not registered with)')
    mark = A.happens(what, other, stranger)
    A.invalidates('default', mark, (), WORDS[what] + ' of a model which is not registered')
    # and once more: handlers stay connected
    again = ObjectModel('post2')
    mark = A.happens(what, m, again)
    A.invalidates(target, mark, again.tags(form), WORDS[what] + ' for the second time')


@scenario('C20')
def several_registrations(I):
    A = App(I)
    m1, m2 = ModelModel('Post'), ModelModel('Article')
    f, g = A.fn['in_tuple'], A.fn['more']
    case = I.pick('registrations', ('two functions of a model', 'one function of two models', 'two caches', 'other models', 'register twice', 'two functions, two caches'))
    expect = {}          # (model, alias) -> forms

    def want(m, alias, form):
        expect.setdefault((m, alias), []).append(form)
    if case == 'two functions of a model':
        items = [(m1, f), (m1, g)]
        want(m1, 'default', 'in_tuple'), want(m1, 'default', 'more')
    elif case == 'one function of two models':
        items = [(m1, f), (m2, f)]
        want(m1, 'default', 'in_tuple'), want(m2, 'default', 'in_tuple')
    elif case == 'two caches':
        items = [(m1, f), (m1, f, 'special')]
        want(m1, 'default', 'in_tuple'), want(m1, 'special', 'in_tuple')
    elif case == 'two functions, two caches':
        items = [(m1, f, 'special'), (m1, g, 'default')]
        want(m1, 'special', 'in_tuple'), want(m1, 'default', 'more')
    elif case == 'other models':
        items = [(m1, f, 'special'), (m2, g)]
        want(m1, 'special', 'in_tuple'), want(m2, 'default', 'more')
    else:
        items = [(m1, f)]
        want(m1, 'default', 'in_tuple'), want(m2, 'special', 'more')
    if I.pick('in one list', (True, False)):
        A.register(*items)
    else:
        for i in items:
            A.register(i)
    if case == 'register twice':
        A.register((m2, g, 'special'))
    what = I.pick('event', EVENTS)
    for m in (m1, m2):
        obj = ObjectModel('object_of_%s' % m._name)
        mark = A.happens(what, m, obj)
        for alias in ('default', 'special'):
            tags = [t for form in expect.get((m, alias), ()) for t in obj.tags(form)]
            A.invalidates(alias, mark, tags, '%s of model %s (%s)' % (WORDS[what], m._name, case))


@scenario('C20')
def handlers_run_in_any_thread(I):
    """The signals of a request are handled in the thread of the request."""
    A = App(I)
    m = ModelModel('Post')
    alias = I.pick('cache', (None, 'special'))
    A.register((m, A.fn['in_list']) if alias is None else (m, A.fn['in_list'], alias))
    A.happens('create', m, ObjectModel('first'))
    what = I.pick('event', EVENTS)
    with As(I, thread='T2'):
        tx = I.getattr(I.getitem(cls(I, PKG, 'caches'), alias or 'default'), 'transaction')
        I.call_method(tx, 'begin', [])
        obj = ObjectModel('post')
        mark = quiet(I, lambda: A.happens(what, m, obj), 'handler-succeeds', '%s fails in another thread than the one which has registered the model' % WORDS[what])
        A.invalidates(alias or 'default', mark, obj.tags('in_list'), '%s in another thread' % WORDS[what])
        mark = A.mark()
        I.call_method(tx, 'finish', [])
        A.invalidates(alias or 'default', mark, obj.tags('in_list'), 'the end of the transaction in which an object was saved or deleted')



REGISTRATION = """
from django_cache_dependencies import registry
from %(app)s.models import Post


def tags(*args, **kwargs):
    return [kwargs['instance'].tag, kwargs['instance'].other]


registry.register([(Post, tags)])
"""
CONFIG = """
from django.apps import AppConfig


class Config(AppConfig):
    name = '%(app)s'
"""
ENTRIES = {'package': ('%s', ''), 'configuration': ('%s.apps.Config', ''), 'default configuration': ('%s', "default_app_config = '%s.apps.Config'")}


@scenario('C20')
def discovery(I):
    """Applications register their models in modules of their own, which are found at start."""
    entry, init = ENTRIES[I.pick('application', tuple(ENTRIES))]
    app = I.pick('name', ('blog', 'shop.blog'))
    before = I.pick('other applications before', ('none', 'without models to register', 'missing', 'a single module', 'with models to register'))
    after = I.pick('other applications after', ('none', 'missing', 'with models to register'))
    modules, posts, installed = {'shop': '', 'empty': '', 'empty.models': '', 'alone': ''}, {}, []
    for name, e, i in ((app, entry, init), ('news', '%s', '')):
        posts[name] = ModelModel('Post')
        I.ext['models_of_' + name.replace('.', '_') + '.Post'] = posts[name]
        modules.update({name: i % name if i else '', name + '.caches': REGISTRATION % {'app': name}, name + '.apps': CONFIG % {'app': name},
                        name + '.models': 'from models_of_%s import Post' % name.replace('.', '_')})
    names = {'none': [], 'without models to register': ['empty'], 'missing': ['nowhere'], 'a single module': ['alone'], 'with models to register': ['news']}
    I.settings.INSTALLED_APPS = names[before] + [entry % app] + [n for n in names[after] if n not in names[before]]
    A = App(I)
    install_apps(I, modules, ('nowhere',))
    quiet(I, lambda: I.call(cls(I, PKG, 'autodiscover'), [], {}), 'discovery-succeeds', 'autodiscover() fails')
    for name, m in posts.items():
        if name == 'news' and 'news' not in I.settings.INSTALLED_APPS:
            continue
        what = I.pick('event', ('create', 'delete'))
        obj = ObjectModel('post')
        mark = A.happens(what, m, obj)
        A.invalidates('default', mark, obj.tags('in_list'), '%s registered by an application' % WORDS[what])
