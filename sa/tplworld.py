"""Stand-ins for the template engine: contexts, node lists, parser and tokens."""
import re

from .values import *
from .world import *
from .lib import NFn

CONTEXT = '''
from copy import copy
from contextlib import contextmanager


class Pushed(object):
    def __init__(self, context):
        self.context = context

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.context.pop()


class BaseContext(object):
    def __init__(self, dict_=None):
        self._reset_dicts(dict_)

    def _reset_dicts(self, value=None):
        self.dicts = [{'True': True, 'False': False, 'None': None}]
        if value is not None:
            self.dicts.append(value)

    def __copy__(self):
        duplicate = copy(super(BaseContext, self))
        duplicate.dicts = self.dicts[:]
        return duplicate

    def __iter__(self):
        for d in reversed(self.dicts):
            yield d

    def push(self, *args, **kwargs):
        d = {}
        for a in args:
            d.update(a)
        d.update(kwargs)
        self.dicts.append(d)
        return Pushed(self)

    def pop(self):
        return self.dicts.pop()

    def __setitem__(self, key, value):
        self.dicts[-1][key] = value

    def __getitem__(self, key):
        for d in reversed(self.dicts):
            if key in d:
                return d[key]
        raise KeyError(key)

    def __delitem__(self, key):
        del self.dicts[-1][key]

    def __contains__(self, key):
        for d in self.dicts:
            if key in d:
                return True
        return False

    has_key = __contains__

    def get(self, key, otherwise=None):
        for d in reversed(self.dicts):
            if key in d:
                return d[key]
        return otherwise

    def setdefault(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            self[key] = default
        return default

    def new(self, values=None):
        new_context = copy(self)
        new_context._reset_dicts(values)
        return new_context

    def flatten(self):
        flat = {}
        for d in self.dicts:
            flat.update(d)
        return flat


class Context(BaseContext):
    def __init__(self, dict_=None, autoescape=True):
        self.autoescape = autoescape
        self.render_context = BaseContext()
        self.template = None
        super(Context, self).__init__(dict_)

    def __copy__(self):
        duplicate = super(Context, self).__copy__()
        duplicate.render_context = copy(self.render_context)
        return duplicate

    def update(self, other_dict):
        self.dicts.append(dict(other_dict))
        return Pushed(self)
'''


class Expr(Model):
    """A filter expression: a literal or a variable of the context."""
    def __init__(self, I, text):
        self._I = I
        self.token = self.var = text
        self.filters = []

    def resolve(self, context, ignore_failures=False):
        I = self._I
        t = self.token
        if re.match(r'^([\'"]).*\1$', t):
            return t[1:-1]
        if re.match(r'^-?\d+$', t):
            return int(t)
        if t.startswith('unresolvable'):     # an argument of a filter that is missing
            I.throw(I.ext['django.template.VariableDoesNotExist'](t))
        r, e = attempt(I, lambda: I.getitem(context, t))
        if e is not None:
            return None if ignore_failures else ''
        return r


class Token(Model):
    def __init__(self, contents):
        self.contents = contents
        self.token_type = 2
        self.lineno = 1

    def split_contents(self):
        return self.contents.split()


class ParserModel(Model):
    """Hands out the body of the tag that is being compiled."""
    def __init__(self, T_, body):
        self._t, self._body = T_, body
        self.tags, self.filters = {}, {'force_escape': NFn('force_escape', lambda s: s), 'upper': NFn('upper', lambda s: s)}
        self.parsed = False

    def compile_filter(self, text):
        return Expr(self._t.I, text)

    def parse(self, until=None):
        self.parsed = True
        return self._t.nodelist(self._body)

    def delete_first_token(self):
        pass

    def skip_past(self, name):
        pass


class NodeListModel(Model):
    def __init__(self, I, render):
        self._I, self._render = I, render

    def render(self, context):
        return self._render(context)


class Templates(object):
    """Templates as trees. Nodes: a text; ('tag', 'contents', body); ('with', {vars}, body); ('call', python function); ('for', values, body)."""
    def __init__(self, I):
        self.I = I
        I.ext['django.core.urlresolvers.reverse'] = NFn('reverse', lambda *a, **k: T('url', tuple(a), str))
        self.mod = I.import_module('django_cache_dependencies.templatetags.cache_tagging_tags')
        if 'register' not in self.mod.ns:
            raise AnalysisError('anchor cache_tagging_tags.register has vanished')
        self.lib = self.mod.ns['register']
        self.ctx = client(I, CONTEXT, 'django_template_context')
        self.caches = cls(I, 'django_cache_dependencies', 'caches')

    def cache(self):
        return self.I.getitem(self.caches, 'default')

    def context(self, **vars):
        return self.I.call(self.ctx['Context'], [dict(vars)], {})

    def compile(self, node):
        I = self.I
        if not isinstance(node, tuple):
            return ('text', node)
        kind = node[0]
        if kind == 'tag':
            name = node[1].split()[0]
            body = node[2] if len(node) > 2 else ()
            f = self.lib.tags.get(name)
            if f is None:
                raise AnalysisError('anchor: template tag %s has vanished' % name)
            if isinstance(f, tuple):
                return ('simple', f, node[1].split()[1:])
            return ('node', I.call(f, [ParserModel(self, body), Token(node[1])], {}))
        if kind == 'with':
            return ('with', node[1], self.nodelist(node[2]))
        if kind == 'for':
            return ('for', node[1], node[2], self.nodelist(node[3]))
        if kind == 'call':
            return ('call', node[1])
        raise AnalysisError('template node %r' % (kind,))

    def nodelist(self, nodes):
        compiled = [self.compile(n) for n in nodes]
        return NodeListModel(self.I, lambda context: self.render_nodes(compiled, context))

    def render_nodes(self, compiled, context):
        I = self.I
        out = []
        for c in compiled:
            out.append(self.render_node(c, context))
        return fmt(*out) if out else ''

    def render_node(self, c, context):
        I = self.I
        if c[0] == 'text':
            return c[1]
        if c[0] == 'node':
            return I.call_method(c[1], 'render', [context])
        if c[0] == 'call':
            r = c[1](context)
            return '' if r is None else r
        if c[0] == 'simple':
            (kind, f, takes), bits = c[1], c[2]
            a, k = [], {}
            for b in bits:
                m = re.match(r'^(\w+)=(.*)$', b)
                if m:
                    k[m.group(1)] = Expr(I, m.group(2)).resolve(context)
                else:
                    a.append(Expr(I, b).resolve(context))
            return I.call(f, ([context] if takes else []) + a, k)
        if c[0] == 'with':
            I.call_method(context, 'push', [], dict(c[1]))
            r = c[2].render(context)
            I.call_method(context, 'pop', [])
            return r
        if c[0] == 'for':
            I.call_method(context, 'push', [], {})
            out = []
            for v in c[2]:
                I.setitem(context, c[1], v)
                out.append(c[3].render(context))
            I.call_method(context, 'pop', [])
            return fmt(*out)

    def render(self, nodes, context):
        return self.nodelist(nodes).render(context)

    def compiled(self, nodes):
        return self.nodelist(nodes)
