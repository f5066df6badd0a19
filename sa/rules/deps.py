"""C16: combining dependencies never changes the caller's objects."""
from .base import *

OWN = '''
import copy
from cache_dependencies import interfaces, exceptions, defer


class OwnDependency(interfaces.IDependency):
    """A dependency the library knows nothing about."""
    def __init__(self, name, log, refuse=()):
        self.name, self.log, self.refuse = name, log, refuse

    def evaluate(self, cache, transaction, version):
        self.log.append(('evaluate', self.name))

    def validate(self, cache, version):
        self.log.append(('validate', self.name))
        d = defer.Deferred(None, defer.NoneDeferredIterator)

        def callback(*a, **kw):
            if self.name in self.refuse:
                raise exceptions.DependencyInvalid(self, ('own',))
        d.add_callback(callback)
        return d

    def invalidate(self, cache, version):
        self.log.append(('invalidate', self.name))

    def acquire(self, cache, transaction, version):
        self.log.append(('acquire', self.name))

    def release(self, cache, transaction, delay, version):
        self.log.append(('release', self.name))

    def extend(self, other):
        return False

    def __copy__(self):
        return OwnDependency(self.name, self.log, self.refuse)


def copied(d):
    return copy.copy(d)
'''


class Log(Model):
    """Shared by all copies of a client's dependency."""
    def __init__(self):
        self.items = []

    def append(self, x):
        self.items.append(x)


class World(object):
    def __init__(self, I):
        self.I = I
        self.ns = client(I, OWN)
        self.log = Log()
        self.refuse = Log()
        self.S = Stack(I, api='CacheWrapper')
        self.S.backend.copying = True

    def own(self, name):
        return self.I.call(self.ns['OwnDependency'], [name, self.log, ()], {})

    def effect(self, d, version=V1):
        """What an invalidation of the dependency reaches: (tags, own parts)."""
        n, m = len(self.S.backend.log), len(self.log.items)
        store = dict(self.S.backend.store)
        self.I.call_method(d, 'invalidate', [self.S.backend, version])
        out = [o.key for o in self.S.backend.deletes(n)]
        self.S.backend.store.clear()
        self.S.backend.store.update(store)
        own = sorted(x[1] for x in self.log.items[m:] if x[0] == 'invalidate')
        return out, own

    def reaches(self, d, tags, own, what):
        I = self.I
        keys, o = self.effect(d)
        for t in tags:
            I.require(any(same(k, tag_key(I, t)) for k in keys), 'keeps-all-parts', '%s: the tag %s has got lost' % (what, show(t)))
        for k in keys:
            I.require(any(same(k, tag_key(I, t)) for t in tags), 'no-foreign-parts', '%s: reaches something else than its own tags' % what)
        I.require(sorted(set(o)) == sorted(own), 'keeps-all-parts', "%s: the client's parts are %s instead of %s" % (what, o, sorted(own)))

    def invalid(self, d, version=V1):
        I = self.I
        r, e = attempt(I, lambda: I.call_method(I.call_method(d, 'validate', [self.S.backend, version]), 'get', []))
        return e is not None

    def evaluate(self, d, version=V1):
        I = self.I
        I.call_method(d, 'evaluate', [self.S.backend, self.S.tx('current'), version])


# forms of a dependency: (name, tags, own parts, build)
def forms(W, tags, own):
    I = W.I
    t1, t2 = tags
    return {
        'one tag': ((t1,), (), lambda: tags_dep(I, t1)),
        'two tags': ((t1, t2), (), lambda: tags_dep(I, [t1, t2])),
        'no tag': ((), (), lambda: tags_dep(I)),
        'nothing': ((), (), lambda: dummy_dep(I)),
        'own': ((), (own,), lambda: W.own(own)),
        'empty composite': ((), (), lambda: composite(I)),
        'tags in composite': ((t1, t2), (), lambda: composite(I, tags_dep(I, t1), tags_dep(I, t2))),
        'mixed composite': ((t1, t2), (own,), lambda: composite(I, tags_dep(I, t1), W.own(own), dummy_dep(I), tags_dep(I, t2))),
        'composite in composite': ((t1, t2), (own,), lambda: composite(I, composite(I, tags_dep(I, t1)), composite(I, W.own(own), tags_dep(I, t2)))),
    }


NAMES = ('one tag', 'two tags', 'no tag', 'nothing', 'own', 'empty composite', 'tags in composite', 'mixed composite', 'composite in composite')


class Unchanged(object):
    """The attributes an object had, with all they contain; attributes added later do not count."""
    def __init__(self, v):
        self.v, self.names = v, {}
        self._collect(v)
        self.before = self._snap(v, {})

    def _collect(self, v):
        if isinstance(v, (list, tuple)):
            for x in v:
                self._collect(x)
        elif isinstance(v, dict):
            for x in v.values():
                self._collect(x)
        elif isinstance(v, Inst) and id(v) not in self.names:
            self.names[id(v)] = set(v.attrs)
            self._collect(list(v.attrs.values()))

    def _snap(self, v, memo):
        if isinstance(v, Inst):
            if id(v) in memo:
                return ('seen', memo[id(v)])
            memo[id(v)] = len(memo)
            names = self.names.get(id(v), set(v.attrs))
            return ('inst', v.cls.name, tuple(sorted((n, self._snap(x, memo)) for n, x in v.attrs.items() if n in names)))
        if isinstance(v, (list, tuple)):
            return (type(v).__name__,) + tuple(self._snap(x, memo) for x in v)
        if isinstance(v, dict):
            return ('dict',) + tuple(sorted(((show(k), self._snap(x, memo)) for k, x in v.items()), key=lambda p: p[0]))
        if isinstance(v, ASet):
            return ('set',) + tuple(sorted(show(x) for x in v))
        return show(v)

    def now(self):
        return self._snap(self.v, {}) == self.before


def union(a, b):
    out = list(a)
    for x in b:
        if not any(same(x, y) for y in out):
            out.append(x)
    return out


def overlap(I):
    """Tags of two dependencies: disjoint or sharing one."""
    t = tags_(4)
    return (t[0], t[1]), (t[2], t[3]) if I.pick('tags', ('disjoint', 'shared')) == 'disjoint' else (t[1], t[2])


@scenario('C16')
def extend(I):
    """a.extend(b): all of both, or a refusal that changes nothing; b as it was, and nothing shared."""
    W = World(I)
    ta, tb = overlap(I)
    a_ = forms(W, ta, 'A')[I.pick('extended', NAMES)]
    b_ = forms(W, tb, 'B')[I.pick('added', NAMES)]
    a, b = a_[2](), b_[2]()
    fa, fb = Unchanged(a), Unchanged(b)
    n = len(W.S.backend.log)
    r = I.truth(I.call_method(a, 'extend', [b]))
    I.require(not W.S.backend.log[n:], 'no-side-effects', 'extending a dependency touches the underlying cache')
    I.require(fb.now(), 'added-unchanged', 'the dependency added to another one is changed')
    I.require(r or not isinstance(a, Inst) or a.cls.name != 'CompositeDependency', 'keeps-all-parts', 'a composite refuses a dependency')
    if not r:
        I.require(fa.now(), 'refusal-changes-nothing', 'a refused dependency has changed the other one')
        W.reaches(a, a_[0], a_[1], 'after a refusal')
        return
    tags, own = union(a_[0], b_[0]), union(a_[1], b_[1])
    W.reaches(a, tags, own, 'extended dependency')
    W.reaches(b, b_[0], b_[1], 'added dependency')
    # changes of the one do not reach the other
    more = sym('further_tag', str)
    I.call_method(a, 'extend', [tags_dep(I, more)])
    W.reaches(b, b_[0], b_[1], 'added dependency after a further extension')
    I.require(fb.now(), 'nothing-shared', 'extending a dependency changes another one that was added to it')
    fa = Unchanged(a)
    if I.truth(I.call_method(b, 'extend', [tags_dep(I, sym('third_tag', str))])):
        I.require(fa.now(), 'nothing-shared', 'a change of a dependency reaches the one it was added to')
    W.evaluate(b)
    I.require(fa.now(), 'nothing-shared', 'a change of a dependency reaches the one it was added to')


@scenario('C16')
def versions_kept(I):
    """Recorded versions of both survive a combination: each single change is noticed, no change is not."""
    W = World(I)
    ta, tb = overlap(I)
    a_ = forms(W, ta, 'A')[I.pick('extended', NAMES)]
    b_ = forms(W, tb, 'B')[I.pick('added', NAMES)]
    a, b = a_[2](), b_[2]()
    W.evaluate(a)
    W.evaluate(b)
    r = I.truth(I.call_method(a, 'extend', [b]))
    I.require(not W.invalid(a), 'versions-kept', 'a combination of valid dependencies is invalid')
    both = union(a_[0], b_[0]) if r else list(a_[0])
    if both:
        tag = both[I.choose(len(both), 'changed tag')]
        disturb(W.S, tag, V1, 'gone')
        I.require(W.invalid(a), 'versions-kept', 'a combination does not notice that a tag of one of its parts has changed')


@scenario('C16')
def copies(I):
    """A copy has all the parts, and is independent in both directions."""
    W = World(I)
    name = I.pick('copied', NAMES)
    tags, own, build = forms(W, tags_(2), 'A')[name]
    d = build()
    evaluated = I.pick('versions', ('recorded', 'none'))
    if evaluated == 'recorded':
        W.evaluate(d)
    c = I.call(W.ns['copied'], [d], {})
    I.require(c is not d, 'copy-is-new', 'the copy of a dependency is the dependency itself')
    W.reaches(c, tags, own, 'copy')
    if evaluated == 'recorded':
        I.require(not W.invalid(c), 'versions-kept', 'the copy of a valid dependency is invalid')
        for t in tags:
            old = dict(W.S.backend.store)
            disturb(W.S, t, V1, 'gone')
            I.require(W.invalid(c), 'versions-kept', 'the copy of a dependency has lost recorded versions')
            W.S.backend.store.update(old)
    x, y = (c, d) if I.pick('changed', ('copy', 'original')) == 'copy' else (d, c)
    f = Unchanged(y)
    how = I.pick('by', ('extend', 'evaluate', 'extend with versions'))
    if how == 'evaluate':
        for t in tags:
            disturb(W.S, t, V1, 'new')
        W.evaluate(x)
    else:
        o = tags_dep(I, sym('further_tag', str))
        if how != 'extend':
            W.evaluate(o)
        I.call_method(x, 'extend', [o])
        I.call_method(x, 'extend', [composite(I, o, dummy_dep(I))]) if x.cls.name == 'CompositeDependency' else None
    I.require(f.now(), 'nothing-shared', 'a change of a copy reaches the original or the other way round')
    W.reaches(y, tags, own, 'the other one')


@scenario('C16')
def store_keeps_object(I):
    """A store (single, nested, enclosing, get-or-compute, skipped) leaves the caller's dependency as it was."""
    W = World(I)
    S = W.S
    name = I.pick('dependency', NAMES)
    tags, own, build = forms(W, tags_(2), 'A')[name]
    d = build()
    where = I.pick('store', ('alone', 'nested', 'enclosing', 'both', 'computed', 'skipped'))
    k0, k1 = keys_(2, 'entry')
    other = sym('other_tag', str)
    f = Unchanged(d)
    if where == 'skipped':
        L = Stack(I, level='SERIALIZABLE', api='CacheWrapper', backend=S.backend)
        with As(I, thread='T2', process='P2'):
            M = Stack(I, level='SERIALIZABLE', api='CacheWrapper', backend=S.backend)
            M.tx('begin')
            M.invalidate(tags_dep(I, *(tags or (other,))), V1)
        L.set(k0, sym('value', object), d, None, V1)
    elif where == 'computed':
        S.get_or_set(k0, Callback(I, 'compute', sym('value', object), run=lambda: S.set(k1, sym('inner', object), tags_dep(I, other), None, V1) and None), d, None, V1)
    elif where == 'alone':
        S.set(k0, sym('value', object), d, None, V1)
    else:
        S.do('get', k0, None, V1)
        S.do('get', k1, None, V1)
        S.set(k1, sym('inner', object), d if where != 'enclosing' else tags_dep(I, other), None, V1)
        I.require(f.now(), 'store-keeps-object', 'a store changes the dependency object of the caller')
        S.set(k0, sym('value', object), d if where != 'nested' else tags_dep(I, other), None, V1)
    I.require(f.now(), 'store-keeps-object', 'a store changes the dependency object of the caller')
    W.reaches(d, tags, own, "the caller's dependency after a store")
    # the same object for another entry: only its own tags
    k2 = sym('later_entry', str)
    S.set(k2, sym('later', object), d, None, V2)
    I.require(f.now(), 'store-keeps-object', 'a store changes the dependency object of the caller')
    I.require(same(S.do('get', k2, None, V2, True), sym('later', object)), 'store-keeps-object', 'an entry stored with a dependency that was used before is not found')
    disturb(S, other, V2, 'new')
    I.require(same(S.do('get', k2, None, V2, True), sym('later', object)), 'store-keeps-object', 'an entry depends on tags of another entry that was stored with the same dependency object')


@scenario('C16')
def changed_after_store(I):
    """What happens to the object after the store does not reach the enclosing entries or what was stored."""
    W = World(I)
    S = W.S
    S.backend.copying = False     # also for caches which keep the objects themselves
    name = I.pick('dependency', NAMES)
    tags, own, build = forms(W, tags_(2), 'A')[name]
    d = build()
    k0, k1 = keys_(2, 'entry')
    more = sym('further_tag', str)
    S.do('get', k0, None, V1)
    S.do('get', k1, None, V1)
    S.set(k1, sym('inner', object), d, None, V1)
    I.call_method(d, 'extend', [tags_dep(I, more)])
    S.set(k0, sym('value', object), dummy_dep(I), None, V1)
    n, m = len(S.backend.log), len(W.log.items)
    I.require(same(S.do('get', k0, None, V1, True), sym('value', object)), 'nothing-shared', 'the enclosing entry is not found')
    read = [o.key for o in S.backend.reads(n)]
    I.require(not any(same(k, tag_key(I, more)) for k in read), 'nothing-shared', "a later change of the caller's dependency reaches the enclosing entry")
    for t in tags:
        I.require(any(same(k, tag_key(I, t)) for k in read), 'keeps-all-parts', 'the enclosing entry has lost the tag %s' % show(t))
    I.require(sorted(set(x[1] for x in W.log.items[m:] if x[0] == 'validate')) == sorted(own), 'keeps-all-parts', "the enclosing entry has lost a client's part")


@scenario('C16')
def siblings(I):
    """Entries beside each other in one enclosing entry: what is collected for one is not for the other."""
    W = World(I)
    S = W.S
    names = ('two tags', 'own', 'mixed composite', 'tags in composite', 'nothing')
    t = tags_(4)
    fa, fb = forms(W, (t[0], t[1]), 'A')[I.pick('first', names)], forms(W, (t[2], t[3]), 'B')[I.pick('second', names)]
    k0, k1, k2, k3 = keys_(4, 'entry')
    v = values_(4)
    S.do('get', k0, None, V1)
    for k, f, i in ((k1, fa, 1), (k2, fb, 2)):
        S.do('get', k, None, V1)
        S.set(k, v[i], f[2](), None, V1)
    S.set(k0, v[0], dummy_dep(I), None, V1)
    for k, tags, own, val in ((k1, fa[0], fa[1], v[1]), (k2, fb[0], fb[1], v[2]), (k0, union(fa[0], fb[0]), union(fa[1], fb[1]), v[0])):
        n, m = len(S.backend.log), len(W.log.items)
        I.require(same(S.do('get', k, None, V1, True), val), 'keeps-all-parts', 'an entry is not found after its store')
        read = [o.key for o in S.backend.reads(n) if not same(o.key, k)]
        I.require(all(any(same(x, tag_key(I, y)) for x in read) for y in tags), 'keeps-all-parts', 'an entry has lost one of its tags')
        I.require(all(any(same(x, tag_key(I, y)) for y in tags) for x in read), 'no-foreign-parts', 'an entry depends on tags of an entry beside it')
        I.require(sorted(set(x[1] for x in W.log.items[m:] if x[0] == 'validate')) == sorted(own), 'keeps-all-parts', "an entry has lost or gained a client's part")


@scenario('C16')
def transactions(I):
    """A dependency handed to a transaction: nothing is shared, nothing merged into the caller's objects, nothing lost."""
    level = I.pick('level', ('READ COMMITTED', 'SERIALIZABLE'))
    W = World(I)
    S = W.S = Stack(I, level=level, api='CacheWrapper')
    t = tags_(4)
    names = ('two tags', 'nothing', 'own', 'tags in composite', 'mixed composite')
    a_ = forms(W, (t[0], t[1]), 'A')[I.pick('first', names)]
    b_ = forms(W, (t[2], t[3]), 'B')[I.pick('second', names)]
    a, b = a_[2](), b_[2]()
    same_object = I.pick('second one', ('another object', 'the same object, extended'))
    depth = I.pick('nesting', (1, 2))
    S.tx('begin')
    if depth == 2:
        S.tx('begin')
    fa, fb = Unchanged(a), Unchanged(b)
    S.invalidate(a, V1)
    I.require(fa.now(), 'added-unchanged', 'an invalidation in a transaction changes the dependency object of the caller')
    if same_object == 'another object':
        S.invalidate(b, V1)
        I.require(fa.now() and fb.now(), 'added-unchanged', 'an invalidation in a transaction changes the dependency object of the caller or an earlier one')
        expect = union(a_[0], b_[0])
    else:
        more = sym('further_tag', str)
        I.call_method(a, 'extend', [tags_dep(I, more)])
        expect = list(a_[0])
    if depth == 2:
        S.tx('finish')
    n, m = len(S.backend.log), len(W.log.items)
    S.tx('finish')
    gone = [o.key for o in S.backend.deletes(n)]
    I.require(all(any(same(x, tag_key(I, y)) for x in gone) for y in expect), 'keeps-all-parts', 'a tag invalidated in the transaction is lost until its end')
    I.require(all(any(same(x, tag_key(I, y)) for y in expect) for x in gone), 'nothing-shared', 'a later change of the dependency object reaches the transaction')
    own = union(a_[1], b_[1] if same_object == 'another object' else ())
    I.require(sorted(set(x[1] for x in W.log.items[m:] if x[0] == ('release' if level == 'SERIALIZABLE' else 'invalidate'))) == sorted(own) or
              sorted(set(x[1] for x in W.log.items[m:])) == sorted(own), 'keeps-all-parts', "a client's dependency is lost until the end of the transaction")
    if same_object == 'another object':
        I.require(fa.now() and fb.now(), 'added-unchanged', 'the end of a transaction changes the dependency object of the caller')
