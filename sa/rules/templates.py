"""C18: cached template fragments. C19: uncached blocks."""
from .base import *
from ..tplworld import *


class Counter(object):
    """A part of a template that counts its renderings."""
    def __init__(self, text, do=None):
        self.text, self.n, self.do = text, 0, do

    def __call__(self, context):
        self.n += 1
        if self.do is not None:
            self.do(context)
        return self.text


class WebRequest(Model):
    """The request object in a context."""


class Frag(object):
    """What the rules say about one fragment of a template."""
    def __init__(self, name, tags=(), prevented=False):
        self.name, self.tags, self.prevented = name, list(tags), prevented


def writes_of(I, name, since=0):
    return [o for o in I.djcaches.storage('default').writes(since) if same(o.key, name)]


def cached(I, X, name):
    return I.call_method(X.cache(), 'get', [name, None, None, True])


def depends_exactly(I, X, name, value, tags, others, what):
    """The stored fragment is lost exactly when one of its tags changes."""
    st = I.djcaches.storage('default')
    I.require(same(cached(I, X, name), value), 'fragment-is-stored', '%s is not found after it was stored' % what)
    for t in list(tags) + list(others):
        old = dict(st.store)
        st.store[(None, tag_key(I, t))] = sym('other_tag_version_%d' % I.uid(), str)
        v = cached(I, X, name)
        if any(same(t, x) for x in tags):
            I.require(v is None, 'all-tags', '%s does not depend on its tag %s' % (what, show(t)))
        else:
            I.require(v is not None, 'only-own-tags', '%s depends on the tag %s, which is not its own' % (what, show(t)))
        st.store.clear()
        st.store.update(old)


def finish(I):
    I.signals['request_finished'].send(None)


def tracked(I, X):
    node = I.call_method(I.getattr(X.cache(), 'relation_manager'), 'current', [])
    return I.truth(node)


@scenario('C18')
def stored(I):
    """A single fragment: stored once under its name, with its lifetime and all its tags; then found without rendering."""
    X = Templates(I)
    name = sym('name', str)
    t = tags_(5)
    extra = I.pick('tags as arguments', (0, 2))
    listed = I.pick('tags as a list', (None, 2))
    add = I.pick('added while rendering', (None, 'one', 'several', 'as a list', 'as a set', 'as a frozenset', 'as a tuple', 'in a scope', 'in two scopes'))
    lifetime, expect = I.pick('lifetime', ((None, None), ('timeout=100', 100), ("timeout='100'", 100), ('timeout=lifetime', sym('lifetime', int))))
    contents = 'cache_tagging name'
    tags = []
    for i in range(extra):
        contents += ' t%d' % i
        tags.append(t[i])
    if listed:
        contents += ' tags=listed'
        tags += t[2:2 + listed]
    if lifetime:
        contents += ' ' + lifetime
    body = Counter(sym('text', str))
    inner = [('call', body)]
    added = []
    if add == 'one':
        inner.append(('tag', 'cache_add_tags t4'))
        added = [t[4]]
    elif add == 'several':
        inner.append(('tag', 'cache_add_tags t4 t3'))
        added = [t[3], t[4]]
    elif add and add.startswith('as '):
        inner.append(('tag', 'cache_add_tags more'))
        added = [t[3], t[4]]
    elif add == 'in a scope':
        inner.append(('with', {'x': 1}, [('tag', 'cache_add_tags t4')]))
        added = [t[4]]
    elif add == 'in two scopes':
        inner.append(('for', 'x', (1, 2), [('with', {'y': 2}, [('tag', 'cache_add_tags t4')])]))
        added = [t[4]]
    vars = dict(name=name, t0=t[0], t1=t[1], t3=t[3], t4=t[4], listed=list(t[2:2 + (listed or 0)]), lifetime=sym('lifetime', int),
                more={'as a list': [t[3], t[4]], 'as a tuple': (t[3], t[4])}.get(add, ASet([t[3], t[4]], add == 'as a frozenset')))
    if I.pick('request', (False, True)):
        vars['request'] = WebRequest()
    tpl = X.compiled([('tag', contents, inner)])
    n = len(I.djcaches.storage('default').log)
    r = tpl.render(X.context(**vars))
    I.require(same(r, body.text), 'rendered', 'a fragment that was not found is not rendered')
    ws = writes_of(I, name, n)
    I.require(len(ws) == 1, 'fragment-is-stored', 'a fragment is stored %d times instead of once' % len(ws))
    if ws:
        I.require(same(ws[0].timeout, expect), 'lifetime', 'a fragment is stored for %s instead of %s' % (show(ws[0].timeout), show(expect)), ws[0].loc)
    all_tags = tags + added
    depends_exactly(I, X, name, body.text, all_tags, [x for x in t if x not in all_tags], 'a fragment')
    I.require(same(vars['listed'], list(t[2:2 + (listed or 0)])), 'lists-unchanged', 'the list of tags given to a fragment is changed')
    if 'request' in vars:
        got = getattr(vars['request'], 'cache_tagging', ())
        I.require(all(x in got for x in all_tags), 'page-gets-tags', 'the tags of a fragment are not passed on to the page')
    finish(I)
    n = len(I.djcaches.storage('default').log)
    r = tpl.render(X.context(**vars))
    I.require(same(r, body.text) and body.n == 1, 'found-is-not-rendered', 'a fragment that is found is rendered again')
    I.require(not writes_of(I, name, n), 'found-is-not-rendered', 'a fragment that is found is stored again')


BAD = ('unresolvable', "'abc'", "''", 'missing', 'listvalue', "'1.5'", 'nonevalue')


@scenario('C18')
def invalid_lifetime(I):
    X = Templates(I)
    bad = I.pick('lifetime', BAD)
    depth = I.pick('nesting', (0, 1))
    name, outer = keys_(2, 'name')
    body = Counter('text')
    tree = [('tag', 'cache_tagging name tag timeout=%s' % bad, [('call', body)])]
    if depth:
        tree = [('tag', 'cache_tagging outer', tree)]
    tpl = X.compiled(tree)
    e = fails(I, lambda: tpl.render(X.context(name=name, outer=outer, tag=sym('tag', str), listvalue=[1], nonevalue=None)), 'invalid-lifetime-refused', 'a lifetime that is no number is accepted')
    if e is None:
        return
    I.require(isinstance(e, I.ext['django.template.TemplateSyntaxError']) or isinstance(e, I.ext['django.template.base.TemplateSyntaxError']), 'invalid-lifetime-refused',
              'an invalid lifetime ends in another error than one of the template: %s' % type(e).__name__)
    I.require(not writes_of(I, name) and not writes_of(I, outer), 'invalid-lifetime-refused', 'a fragment with an invalid lifetime is stored')
    I.require(not tracked(I, X), 'failure-ends-tracking', 'a fragment whose rendering failed is left under generation')


def shapes():
    """Trees of fragments: (name, [children]) with scopes between them."""
    return {
        'nested': ('a', [('b', [])]),
        'nested twice': ('a', [('b', [('c', [])])]),
        'beside': ('a', [('b', []), ('c', [])]),
    }


class Tree(object):
    """A template of nested fragments with actions at chosen places."""
    def __init__(self, I, X, shape, scope, act, at):
        self.I, self.X = I, X
        self.names = {n: sym('name_' + n, str) for n in 'abc'}
        self.tags = {n: sym('tag_' + n, str) for n in 'abc'}
        self.frags = {}
        self.counters = {}
        self.scope, self.act, self.at = scope, act, at
        self.parents = {}
        self.tree = self.build(shape, None)

    def place(self, n, pos):
        return list(self.act) if self.at == (n, pos) else []

    def build(self, s, parent):
        n, children = s
        self.parents[n] = parent
        c = self.counters[n] = Counter('<%s>' % n)
        inner = [('call', c)] + self.place(n, 'before')
        for ch in children:
            sub = [self.build(ch, n)]
            inner += [('with', {'x': 1}, sub)] if self.scope else sub
        inner += self.place(n, 'after')
        return ('tag', 'cache_tagging name_%s tag_%s' % (n, n), inner)

    def vars(self):
        d = {'name_' + n: v for n, v in self.names.items()}
        d.update({'tag_' + n: v for n, v in self.tags.items()})
        return d

    def inside(self, n):
        """Fragments that contain fragment n, itself included."""
        out = []
        while n is not None:
            out.append(n)
            n = self.parents[n]
        return out


POSITIONS = ('before', 'after')


def choose_place(I, shape):
    names = []

    def walk(s):
        names.append(s[0])
        for c in s[1]:
            walk(c)
    walk(shape)
    return I.pick('place', [(n, p) for n in names for p in POSITIONS]), names


@scenario('C18')
def nesting(I):
    """Tags added anywhere: the fragment and all enclosing ones depend on them, no other does."""
    X = Templates(I)
    shape = shapes()[I.pick('shape', ('nested', 'nested twice', 'beside'))]
    at, names = choose_place(I, shape)
    scope = I.pick('scopes between', (False, True))
    extra = sym('added_tag', str)
    how = I.pick('added', ('directly', 'in a scope'))
    act = [('tag', 'cache_add_tags added')]
    if how == 'in a scope':
        act = [('with', {'y': 1}, act)]
    tr = Tree(I, X, shape, scope, act, at)
    vars = dict(tr.vars(), added=extra)
    request = WebRequest()
    if I.pick('request', (True, False)):
        vars['request'] = request
    tpl = X.compiled(['start', tr.tree, 'end'])
    tpl.render(X.context(**vars))
    finish(I)
    for n in names:
        own = [tr.tags[m] for m in names if n in tr.inside(m)]
        if n in tr.inside(at[0]):
            own.append(extra)
        v = cached(I, X, tr.names[n])
        I.require(v is not None, 'fragment-is-stored', 'fragment %s is not stored' % n)
        if v is not None:
            depends_exactly(I, X, tr.names[n], v, own, [x for x in [tr.tags[m] for m in names] + [extra] if not any(same(x, y) for y in own)], 'fragment %s of %s' % (n, shape))
    if 'request' in vars:
        got = getattr(request, 'cache_tagging', ())
        I.require(all(x in got for x in [tr.tags[m] for m in names] + [extra]), 'page-gets-tags', 'the tags of a fragment are not passed on to the page')
        I.require(getattr(request, '_cache_update_cache', True), 'prevention-only-where-asked', 'the page is not kept although nothing prevented it')


@scenario('C18')
def prevention(I):
    """Prevention at any place: exactly the fragments around that place and the page are not stored."""
    X = Templates(I)
    shape = shapes()[I.pick('shape', ('nested', 'nested twice', 'beside'))]
    at, names = choose_place(I, shape)
    scope = I.pick('scopes between', (False, True))
    how = I.pick('prevented', ('directly', 'in a scope', 'in a loop'))
    act = [('tag', 'cache_tagging_prevent')]
    if how == 'in a scope':
        act = [('with', {'y': 1}, [('with', {'z': 1}, act)])]
    elif how == 'in a loop':
        act = [('for', 'y', (1, 2), act)]
    tr = Tree(I, X, shape, scope, act, at)
    vars = tr.vars()
    request = WebRequest()
    request._cache_update_cache = True
    if I.pick('request', (True, False)):
        vars['request'] = request
    tpl = X.compiled([tr.tree])
    r = tpl.render(X.context(**vars))
    I.require(not tracked(I, X), 'tracking-ends', 'a fragment of which caching was prevented in %s of %s leaves an entry under generation' % (at[0], shape))
    finish(I)
    I.require(all(tr.counters[n].n == 1 for n in names), 'rendered', 'a fragment is not rendered exactly once')
    for n in names:
        hit = n in tr.inside(at[0])
        ws = writes_of(I, tr.names[n])
        if hit:
            I.require(not ws, 'prevented-is-not-stored', 'fragment %s of %s is stored although caching was prevented in %s (%s it)' % (n, shape, at[0], at[1]), ws[0].loc if ws else None)
        else:
            I.require(len(ws) == 1, 'prevention-only-where-asked', 'fragment %s of %s is not stored although caching was prevented only in %s' % (n, shape, at[0]))
    if 'request' in vars:
        I.require(request._cache_update_cache is False, 'prevented-is-not-stored', 'the page may be stored although caching was prevented in a fragment')
    # next rendering: prevented ones are rendered again, the others found
    tpl.render(X.context(**tr.vars()))
    for n in names:
        again = n in tr.inside(at[0])
        I.require(tr.counters[n].n == (2 if again else 1), 'found-is-not-rendered' if not again else 'prevented-is-not-stored',
                  'fragment %s of %s is %srendered again' % (n, shape, 'not ' if again else ''))


@scenario('C18')
def prevention_outside(I):
    """Prevention outside of all fragments, or in a fragment beside: other fragments are stored as usual."""
    X = Templates(I)
    where = I.pick('prevented', ('before', 'in an earlier fragment', 'in a later fragment', 'in an earlier scope'))
    a, b = keys_(2, 'name')
    ca, cb = Counter('A'), Counter('B')
    first = ('tag', 'cache_tagging a', [('call', ca)] + ([('tag', 'cache_tagging_prevent')] if where == 'in an earlier fragment' else []))
    second = ('tag', 'cache_tagging b', [('call', cb)] + ([('tag', 'cache_tagging_prevent')] if where == 'in a later fragment' else []))
    start = {'before': [('tag', 'cache_tagging_prevent')], 'in an earlier scope': [('with', {'x': 1}, [('tag', 'cache_tagging_prevent')])]}.get(where, [])
    vars = dict(a=a, b=b)
    request = WebRequest()
    request._cache_update_cache = True
    if I.pick('request', (True, False)):
        vars['request'] = request
    X.render(start + [first, second], X.context(**vars))
    I.require(bool(writes_of(I, a)) == (where != 'in an earlier fragment'), 'prevention-only-where-asked', 'prevention beside a fragment decides whether it is stored')
    I.require(bool(writes_of(I, b)) == (where != 'in a later fragment'), 'prevention-only-where-asked', 'prevention beside a fragment decides whether it is stored')
    if 'request' in vars and 'fragment' in where:
        I.require(request._cache_update_cache is False, 'prevented-is-not-stored', 'the page may be stored although caching was prevented in a fragment')


@scenario('C18')
def found_inside(I):
    """A nested fragment that is found is not rendered, and its tags reach the enclosing one and stay."""
    X = Templates(I)
    a, b = keys_(2, 'name')
    ta, tb, tc = tags_(3)
    ca, cb = Counter('A'), Counter('B')
    inner = ('tag', 'cache_tagging b tb', [('call', cb), ('tag', 'cache_add_tags tc')])
    scope = I.pick('scope', (False, True))
    outer = ('tag', 'cache_tagging a ta', [('call', ca), ('with', {'x': 1}, [inner]) if scope else inner])
    vars = dict(a=a, b=b, ta=ta, tb=tb, tc=tc)
    X.render([inner], X.context(**vars))
    finish(I)
    X.render([outer], X.context(**vars))
    finish(I)
    I.require(cb.n == 1, 'found-is-not-rendered', 'a nested fragment that is found is rendered again')
    v = cached(I, X, a)
    I.require(v is not None, 'fragment-is-stored', 'the enclosing fragment is not stored')
    if v is not None:
        depends_exactly(I, X, a, v, [ta, tb, tc], [], 'the enclosing fragment')


def raising(exc):
    def do(context):
        CUR[0].throw(exc)
    return do


def failing(I):
    """A failure anywhere in the rendering of nested fragments."""
    X = Templates(I)
    shape = shapes()[I.pick('shape', ('nested', 'nested twice', 'beside'))]
    at, names = choose_place(I, shape)
    scope = I.pick('scopes between', (False, True))
    boom = I.pick('error', (AnyError('boom'), KeyboardInterrupt()))
    tr = Tree(I, X, shape, scope, [('call', Counter('', raising(boom)))], at)
    vars = tr.vars()
    outside = sym('outside', str)
    begun = I.pick('outer entry', (False, True))
    if begun:
        I.call_method(X.cache(), 'get', [outside])
    r, e = attempt(I, lambda: X.render([tr.tree], X.context(**vars)))
    I.require(e is boom, 'failure-passes', 'the error of a rendering does not come through')
    node = I.call_method(I.getattr(X.cache(), 'relation_manager'), 'current', [])
    key = I.call_method(node, 'key', []) if I.truth(node) else None
    I.require(same(key, outside) if begun else key is None, 'failure-ends-tracking', 'a fragment whose rendering failed is left under generation')
    for n in tr.inside(at[0]):
        I.require(not writes_of(I, tr.names[n]), 'failed-is-not-stored', 'a fragment whose rendering failed is stored')
    if begun:
        # what is generated afterwards belongs to the outer entry, and it stores as usual
        t = sym('later_tag', str)
        I.call_method(X.cache(), 'set', [sym('later', str), sym('x', object), (t,)])
        I.call_method(X.cache(), 'set', [outside, sym('value', object)])
        depends_exactly(I, X, outside, sym('value', object), [t], [], 'the enclosing entry')


scenario('C18', name='failing')(failing)
scenario('C05', name='failing_templates')(failing)


@scenario('C18')
def repeated(I):
    """Fragments in a loop, and renderings one after the other in one context, are independent."""
    X = Templates(I)
    names = keys_(2, 'name')
    ts = tags_(2)
    c = Counter('x')
    how = I.pick('how', ('loop', 'one after the other', 'two renderings'))
    prevent = I.pick('prevented in the first', (False, True))

    def first(context):
        if prevent and c.n == 1:
            I.call(X.lib.tags['cache_tagging_prevent'][1], [context], {})
        ft = ts[0] if c.n == 1 else ts[1]
        I.call_method(X.compile(('tag', 'cache_add_tags tag'))[1], 'render', [context])
    c.do = first
    body = ('tag', 'cache_tagging name', [('call', c)])
    if how == 'loop':
        X.render([('for', 'i', (0, 1), [('call', lambda ctx: I.setitem(ctx, 'name', names[c.n])), ('call', lambda ctx: I.setitem(ctx, 'tag', ts[c.n])), body])], X.context())
    elif how == 'one after the other':
        X.render([('with', {'name': names[0], 'tag': ts[0]}, [body]), ('with', {'name': names[1], 'tag': ts[1]}, [body])], X.context())
    else:
        ctx = X.context(name=names[0], tag=ts[0])
        X.render([body], ctx)
        I.setitem(ctx, 'name', names[1])
        I.setitem(ctx, 'tag', ts[1])
        X.render([body], ctx)
    finish(I)
    I.require(bool(writes_of(I, names[0])) == (not prevent), 'prevented-is-not-stored' if prevent else 'fragment-is-stored', 'the first of two fragments is %sstored' % ('' if prevent else 'not '))
    I.require(len(writes_of(I, names[1])) == 1, 'prevention-only-where-asked', 'the second of two fragments is not stored')
    if writes_of(I, names[1]):
        depends_exactly(I, X, names[1], cached(I, X, names[1]), [ts[1]], [ts[0]], 'the second of two fragments')


@scenario('C18')
def syntax(I):
    """Missing arguments are refused when the template is compiled."""
    X = Templates(I)
    what = I.pick('tag', ('cache_tagging', 'cache_add_tags'))
    e = fails(I, lambda: X.compiled([('tag', what, [])]), 'missing-arguments-refused', 'a tag without arguments is accepted')
    I.require(e is None or type(e).__name__ == 'TemplateSyntaxError', 'missing-arguments-refused', 'a tag without arguments ends in another error than one of the template')


# ---------------------------------------------------------------- C19

OUTSIDE = ('', 'text', 'a\nb\n', '<b>x</b>', "echo('not code')", '<nocache:py>', '</nocache:py>x', '\\1 \\g<1> $1 {0} %s', '\u044f\u4e2d', '<nocache:py secret="" data="">')
# code, what it writes (with mine and yours as data of the block and of the caller)
BLOCKS = (
    ("echo('one')", lambda mine, yours: 'one'),
    ("\n    if True:\n        echo('two')\n    else:\n        echo('no')\n", lambda m, y: 'two'),
    ("\n\n        for i in (1, 2):\n\n            echo(i, ',')\n        echo('<b>', '</b>')\n   ", lambda m, y: '1,2,<b></b>'),
    ("echo(yours)", lambda m, y: y),
    ("echo(mine, '|', yours)", lambda m, y: '%s|%s' % (m, y)),
    ("x = mine\necho(x)\r\necho('\u044f')  \n", lambda m, y: '%s\u044f' % m),
    ("pass", lambda m, y: ''),
    ("echo('')", lambda m, y: ''),
    ("echo()", lambda m, y: ''),
    ("echo(None, 1, 1.5)", lambda m, y: 'None11.5'),
    ("# first\necho('#', \"a # b\", mine)  # last", lambda m, y: '#a # b%s' % m),
    ("\n\tif yours:\n\t\techo('%s;' % yours)\n\techo('{0}\\t<a href=\"#\">')", lambda m, y: '%s;{0}\t<a href="#">' % y),
)


SECRET = '5ec4e70123456789abcdef0123456789'


def handler(I, secret=SECRET):
    I.concrete = True
    return I.call(cls(I, 'cache_dependencies.nocache', 'NoCache'), [secret], {})


def block(I, h, code, **data):
    return I.call_method(h, 'start', [], data) + code + I.call_method(h, 'end', [])


def evals(I, since=0):
    return [e for e in I.events[since:] if e[0] == 'eval']


@scenario('C19')
def blocks(I):
    """Texts with up to three blocks: every block is executed once, in place, with its data; the rest is passed through."""
    h = handler(I)
    n = I.pick('blocks', (0, 1, 2, 3))
    start = I.choose(len(BLOCKS), 'first block') if n else 0
    out0 = I.choose(len(OUTSIDE), 'text around')
    text, want = '', ''
    for i in range(n):
        o = OUTSIDE[(out0 + i) % len(OUTSIDE)]
        code, exp = BLOCKS[(start + 3 * i) % len(BLOCKS)]
        text += o + block(I, h, code, mine='m%d' % i, other=i)
        want += o + exp('m%d' % i, 'yours!')
    o = OUTSIDE[(out0 + n) % len(OUTSIDE)]
    text, want = text + o, want + o
    k = len(I.events)
    r = I.call_method(h, 'handle', [text], dict(yours='yours!'))
    I.require(r == want, 'blocks-in-place', 'the blocks of a text are not replaced by their output, each with its data, or the text around them is changed: %s' % show(r)[:80])
    I.require(len(evals(I, k)) == n, 'executed-once', '%d blocks are executed %d times' % (n, len(evals(I, k))))
    # again: everything runs again
    k = len(I.events)
    r = I.call_method(h, 'handle', [text], dict(yours='again'))
    I.require(r == want.replace('yours!', 'again') and len(evals(I, k)) == n, 'executed-at-every-rendering', 'a block is not executed again at the next rendering')


@scenario('C19')
def own_data(I):
    """Data of one block is not visible in another one, nor in what the caller gave."""
    h = handler(I)
    probe = "\ntry:\n    echo(mine)\nexcept NameError:\n    echo('nothing')\n"
    text = block(I, h, "echo(mine)\nleft = 1", mine='a') + '-' + block(I, h, probe) + '-' + block(I, h, "echo(mine)", mine='c')
    data = dict(yours='y')
    r = I.call_method(h, 'handle', [text], data)
    I.require(r == 'a-nothing-c', 'own-data', 'the data of a block is seen by another one: %s' % show(r))
    I.require(data == dict(yours='y'), 'own-data', 'the data given by the caller is changed')
    r = I.call_method(h, 'handle', [block(I, h, "echo(yours)", yours='own') + block(I, h, "echo(yours)")], data)
    I.require(r == 'owny', 'own-data', 'a block does not see its own data if the caller gives something of the same name: %s' % show(r))
    shared = []
    r = I.call_method(h, 'handle', [block(I, h, "shared.append(1)\necho(len(shared))") * 2], dict(shared=shared))
    I.require(r == '12' and shared == [1, 1], 'callers-data', "the caller's objects are not handed to the blocks")


@scenario('C19')
def values_of_data(I):
    """Data of a block survives its way through the text."""
    h = handler(I)
    v = I.pick('value', (1, 'text', '\u044f"<>&\n', [1, {'a': (2,)}], None, b'bytes', 1.5, True, {'k': 'v'}))
    r = I.call_method(h, 'handle', [block(I, h, 'echo(repr(mine))', mine=v)], {})
    I.require(r == repr(v), 'own-data', 'a value given to a block does not arrive: %s' % show(r))


@scenario('C19')
def only_with_secret(I):
    """Nothing but blocks with the secret of this installation is executed."""
    h = handler(I)
    forged = I.pick('forged', ('other secret', 'other start', 'other end', 'no secret', 'empty secret', 'prefix', 'longer', 'upper case', 'no data', 'other tag', 'unterminated', 'end only', 'any character'))
    ok = block(I, h, "echo('ok')")
    start = I.call_method(h, 'start', [], {})
    end = I.call_method(h, 'end', [])
    code = "echo('executed')"
    others = {'other secret': '0the4' * 6 + 'x0', 'other start': '6' + SECRET[1:], 'other end': SECRET[:-1] + '8'}
    bad = block(I, handler(I, others[forged]), code) if forged in others else {
        'no secret': start.replace(' secret="%s"' % SECRET, '') + code + end,
        'empty secret': start.replace(SECRET, '') + code + end, 'prefix': start.replace(SECRET, SECRET[:-2]) + code + end,
        'longer': start.replace(SECRET, SECRET + 'x') + code + end, 'upper case': start.replace(SECRET, SECRET.upper()) + code + end,
        'no data': '<nocache:py secret="%s">' % SECRET + code + end, 'other tag': start.replace('nocache:py', 'nocache:xx') + code + end.replace('nocache:py', 'nocache:xx'),
        'unterminated': start + code, 'end only': code + end, 'any character': start.replace(SECRET, '5.' + SECRET[2:]) + code + end,
    }[forged]
    if SECRET not in start and forged not in others:    # made by another rule: these forgeries do not exist
        return
    where = I.pick('place', ('alone', 'before', 'after'))
    if forged == 'unterminated' and where == 'before':
        where = 'after'
    text, want = {'alone': (bad, bad), 'before': (bad + '|' + ok, bad + '|ok'), 'after': (ok + '|' + bad, 'ok|' + bad)}[where]
    k = len(I.events)
    r = I.call_method(h, 'handle', [text], {})
    I.require(not any("'executed'" in str(getattr(e[1], 'src', '')) for e in evals(I, k)), 'only-with-secret', 'code is executed that is not in a block with the secret of the installation (%s)' % forged)
    I.require(r == want, 'outside-unchanged', 'text outside of blocks is changed (%s): %s' % (forged, show(r)[:120]))


@scenario('C19')
def produced_blocks(I):
    """A block that writes a block: the inner one is executed as well, with the same data of the caller."""
    h = handler(I)
    depth = I.pick('depth', (1, 2, 12))
    if depth == 12:
        code = "echo('a', nocache.start(n=n - 1, c=c) + c + nocache.end() if n else yours, 'b')"
        text = block(I, h, code, n=12, c=code)
        r = I.call_method(h, 'handle', [text], dict(nocache=h, yours='!'))
        I.require(r == 'a' * 13 + '!' + 'b' * 13, 'produced-blocks', 'a block produced by a block is not expanded: %s' % show(r)[:100])
        return
    if depth == 1:
        code = "echo('a', nocache.start(mine='inner'), 'echo(mine, yours)', nocache.end(), 'b')"
        want = 'ainner!b'
    else:
        code = "echo('a', nocache.start(mine='x'), \"echo(nocache.start(mine='inner'), 'echo(mine, yours)', nocache.end())\", nocache.end(), 'b')"
        want = 'ainner!b'
    text = 'x' + block(I, h, code, mine='outer') + 'y'
    r = I.call_method(h, 'handle', [text], dict(nocache=h, yours='!'))
    I.require(r == 'x' + want + 'y', 'produced-blocks', 'a block produced by a block is not expanded: %s' % show(r)[:100])


@scenario('C19')
def data_of_the_block(I):
    """A block has its own data and those of the caller, and nothing of the block that produced it or of one before it."""
    h = handler(I)
    how = I.pick('other block', ('produces it', 'before it', 'after it'))
    left = I.pick('name in the other block', ('data', 'overriding data', 'variable', 'overriding variable'))
    name = 'yours' if left.startswith('overriding') else 'private'
    code = "echo(yours)\ntry:\n    echo(private)\nexcept NameError:\n    echo('-')"
    data = {name: 'outer'} if left.endswith('data') else {}
    assign = '' if data else '%s = \'outer\'\n' % name
    if how == 'produces it':
        text = block(I, h, assign + 'echo(nocache.start(), code, nocache.end())', **data)
        want = '!-'
    else:
        first, second = block(I, h, assign + "echo('other')", **data), block(I, h, code)
        text, want = (first + second, 'other!-') if how == 'before it' else (second + first, '!-other')
    r = I.call_method(h, 'handle', [text], dict(nocache=h, yours='!', code=code))
    I.require(r == want, 'data-of-the-block', 'a block sees the data or the variables of another block: %s' % show(r)[:100])
    r = I.call_method(h, 'handle', [block(I, h, code)], dict(nocache=h, yours='?', code=code))
    I.require(r == '?-', 'data-of-the-block', 'a block sees the data or the variables of a block of another text: %s' % show(r)[:100])


@scenario('C19')
def failing_block(I):
    """An error of a block reaches the caller."""
    h = handler(I)
    e = fails(I, lambda: I.call_method(h, 'handle', [block(I, h, "raise KeyError('boom')")], {}), 'error-passes', 'an error of a block is swallowed')
    I.require(e is None or isinstance(e, KeyError), 'error-passes', 'an error of a block arrives as another one')


@scenario('C19')
def secret_of_installation(I):
    """The secret of the handler of Django depends on SECRET_KEY, completely."""
    key = I.settings.SECRET_KEY
    h = cls(I, 'django_cache_dependencies', 'nocache')
    s = I.call_method(h, 'start', [], {})
    from .threads import carried
    I.require(any(same(x, key) or isinstance(x, T) and key in set(y for y in subterms(x) if isinstance(y, T)) for x in carried(s)) or mentions(s, key),
              'secret-from-key', 'the secret of the blocks does not depend on SECRET_KEY')
    hexes = [x for x in subterms(s) if isinstance(x, T) and x.op == 'hex' and mentions(x, key)]
    I.require(bool(hexes), 'secret-from-key', 'the secret of the blocks is SECRET_KEY itself or a part of it')


@scenario('C19')
def keys_apart(I):
    I.concrete = True
    out = []
    for k in ('first secret key', 'second secret key'):
        I.settings.SECRET_KEY = k
        for m in list(I.mods):
            if m.split('.')[0] == 'django_cache_dependencies':
                del I.mods[m]
        out.append(I.call_method(cls(I, 'django_cache_dependencies', 'nocache'), 'start', [], {}))
    I.require(out[0] != out[1], 'secret-from-key', 'installations with different keys have the same secret')


@scenario('C19')
def in_fragments(I):
    """Stored unexpanded; expanded on every rendering, hit or miss, when asked for."""
    I.concrete = True
    I.settings.SECRET_KEY = 'secret key'
    X = Templates(I)
    ask, expands = I.pick('nocache', (('nocache=1', True), ('', False), ("nocache=''", False), ('nocache=0', False), ('nocache=flag', True), ('nocache=noflag', False)))
    prevented = I.pick('prevented', (False, True))
    scope = I.pick('in a scope', (False, True))
    counter = Counter('text')
    code = "\n   echo(n, '/', mine, '/', context['n'], '/', filters.escape('e'))\n"
    body = [('call', counter), '<', ('tag', 'nocache mine=m'), code, ('tag', 'endnocache'), '>'] + ([('tag', 'cache_tagging_prevent')] if prevented else [])
    tree = [('tag', 'cache_tagging name tag %s' % ask, body)]
    if scope:
        tree = [('with', {'n': 'inner'}, tree)]
    name, t = 'fragment', sym('tag', str)
    tpl = X.compiled(tree)
    st = I.djcaches.storage('default')
    stored = None
    for i in range(3):
        n = 'n%d' % i
        k = len(I.events)
        r = tpl.render(X.context(name=name, tag=t, m='m%d' % i, n=n, flag=True, noflag=False))
        m = 'm%d' % (i if prevented else 0)
        seen = 'inner' if scope else n
        if expands:
            I.require(r == 'text<%s/%s/%s/e>' % (seen, m, seen), 'expanded-at-every-rendering', 'rendering %d of a fragment does not have its blocks expanded: %s' % (i + 1, show(r)[:100]))
            I.require(len(evals(I, k)) == 1, 'executed-at-every-rendering', 'a block of a fragment is executed %d times in one rendering' % len(evals(I, k)))
        else:
            I.require(isinstance(r, str) and code in r and not evals(I, k), 'expanded-when-asked', 'a block is executed although the fragment does not ask for it')
        if not prevented:
            v = cached(I, X, name)
            if i == 0:
                stored = v
                I.require(isinstance(v, str) and code in v, 'stored-unexpanded', 'the stored fragment does not contain its block unexpanded')
                I.require(isinstance(v, str) and (seen + '/') not in v, 'stored-unexpanded', 'the stored fragment contains the output of its block')
            I.require(same(v, stored), 'stored-unexpanded', 'the stored fragment is changed by a later rendering')
        finish(I)
    I.require(len(writes_of(I, name)) == (0 if prevented else 1), 'stored-unexpanded', 'a fragment with blocks is stored %d times' % len(writes_of(I, name)))
    I.require(counter.n == (3 if prevented else 1), 'found-is-not-rendered', 'a fragment is rendered again although it is found')


@scenario('C19')
def second_pass_of_django_phased(I):
    """With django-phased: the second pass follows the store, on every rendering, when it is asked for."""
    seen = []
    installed = I.pick('installed', (True, False))
    if installed:
        I.ext['phased.utils.second_pass_render'] = NFn('second_pass_render', lambda request, text: (seen.append((request, text)), T('second pass', (text, len(seen)), str))[1])
    I.concrete = True
    I.settings.SECRET_KEY = 'secret key'
    X = Templates(I)
    ask, expands = I.pick('phased', (('phased=1', True), ('', False), ("phased=''", False), ('phased=flag', True)))
    nocache = I.pick('nocache', (False, True))
    prevented = I.pick('prevented', (False, True))
    counter = Counter('text')
    body = [('call', counter)] + ([('tag', 'nocache'), "echo(n)", ('tag', 'endnocache')] if nocache else []) + ([('tag', 'cache_tagging_prevent')] if prevented else [])
    tpl = X.compiled([('tag', 'cache_tagging name tag %s %s' % (ask, 'nocache=1' if nocache else ''), body)])
    t = sym('tag', str)
    for i in range(2):
        req = WebRequest()
        del seen[:]
        r = tpl.render(X.context(name='fragment', tag=t, n='n%d' % i, flag=True, request=req))
        text = 'text' + ('n%d' % i if nocache else '')
        if expands and installed:
            I.require(len(seen) == 1 and seen[0][0] is req and seen[0][1] == text and same(r, T('second pass', (text, 1), str)), 'second-pass-at-every-rendering',
                      'the second pass is not made once over the whole of a fragment that asks for it')
        else:
            I.require(not seen and r == text, 'second-pass-when-asked', 'a second pass is made although the fragment does not ask for it')
        v = cached(I, X, 'fragment')
        I.require((v is None) if prevented else isinstance(v, str) and v.startswith('text'), 'stored-unexpanded', 'what is stored for a fragment is not what comes before the second pass')
        finish(I)
    I.require(counter.n == (2 if prevented else 1), 'found-is-not-rendered', 'a fragment is rendered again although it is found')
