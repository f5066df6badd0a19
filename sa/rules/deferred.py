"""C11: merged lookups."""
from .base import *

CLIENT = '''
from cache_dependencies import defer

class OwnIterator(defer.GetManyDeferredIterator):
    pass

def merge(a, b):
    a += b
    return a

def drain(d):
    return [x for x in d]

class Source(object):
    def __init__(self, ask):
        self.ask = ask
    def get_many(self, keys, *args, **kwargs):
        return self.ask(keys, args, kwargs)
    def other(self, keys, *args, **kwargs):
        return self.ask(keys, args, kwargs)
'''
DEFER = 'cache_dependencies.defer'
W1, W2 = sym('argument', object), sym('other_argument', object)


class Lookups(object):
    """Lookups of several kinds with recording callbacks."""
    def __init__(self, I):
        self.I = I
        self.ns = client(I, CLIENT)
        self.queries = []       # (kind of the executor, keys, args, kwargs)
        self.calls = []         # (name, found, args, kwargs)
        self.found = lambda key: True
        self.answer_none = False
        self.extra = False
        self.sources = {n: I.call(self.ns['Source'], [NFn('ask', lambda keys, a, k, n=n: self._ask(n, keys, a, k))], {}) for n in ('S', 'R')}

    def _ask(self, name, keys, a, k):
        ks = list(self.I.each(keys))
        self.queries.append((name, ks, tuple(a), dict(k)))
        if self.answer_none:
            return None
        src = (name, show(tuple(a)), show(dict(k)))
        d = {x: T('found', (x,) + src, object) for x in ks if self.found(x)}
        if self.extra:
            for x in self.extra:
                d.setdefault(x, T('found', (x,) + src, object))
        return d

    KINDS = {
        # name: (executor, args, kwargs)
        'A': ('S.get_many', (W1,), {}),
        'A, other version': ('S.get_many', (W2,), {}),
        'A, no version': ('S.get_many', (None,), {}),
        'other source': ('R.get_many', (W1,), {}),
        'other method': ('S.other', (W1,), {}),
        'keyword': ('S.get_many', (W1,), {'option': 1}),
        'other keyword': ('S.get_many', (W1,), {'option': 2}),
        'list': ('S.get_many', ([1, {'a': [2]}],), {}),
        'other list': ('S.get_many', ([1, {'a': [3]}],), {}),
        'set': ('S.get_many', (ASet([1, 2]),), {'option': {'a': (1,)}}),
        'other set': ('S.get_many', (ASet([1, 3]),), {'option': {'a': (1,)}}),
        'dictionary': ('S.get_many', (ASet([1, 2]),), {'option': {'a': (2,)}}),
        'two arguments': ('S.get_many', (W1, [1, 2]), {'option': 1, 'choice': 2}),
        'arguments in another order': ('S.get_many', (W1, [2, 1]), {'option': 1, 'choice': 2}),
        'arguments exchanged': ('S.get_many', ([1, 2], W1), {'option': 1, 'choice': 2}),
        'names exchanged': ('S.get_many', (W1, [1, 2]), {'option': 2, 'choice': 1}),
        'other name': ('S.get_many', (W1,), {'choice': 1}),
        'own iterator': ('S.get_many', (W1,), {}),
        'none': (None, (), {}),
        'none, other arguments': (None, (W1,), {}),
    }

    def executor(self, kind):
        ex = self.KINDS[kind][0]
        if ex is None:
            return None
        s, m = ex.split('.')
        return self.I.getattr(self.sources[s], m)

    def make(self, kind):
        I = self.I
        ex, a, k = self.KINDS[kind]
        it = self.ns['OwnIterator'] if kind == 'own iterator' else cls(I, DEFER, 'NoneDeferredIterator' if ex is None else 'GetManyDeferredIterator')
        return I.call(cls(I, DEFER, 'Deferred'), [self.executor(kind), it] + [clone_arg(x) for x in a], {n: clone_arg(v) for n, v in k.items()})

    def add(self, d, name, keys, args=(), kwargs=None, pulls=0, form=list):
        """Adds a recording callback."""
        I = self.I

        def run(node, found, *a, **k):
            self.calls.append((name, found if found is None else dict(found), a, k))
            got = [I.call_method(node, 'get', []) for _ in range(pulls)]
            return T('result', (name,), object)
        f = NFn('callback ' + name, run)
        I.call_method(d, 'add_callback', ([f] if keys is None else [f, form(keys)]) + list(args), dict(kwargs or {}))

    def merge(self, a, b):
        return self.I.call(self.ns['merge'], [a, b], {})

    def get(self, d):
        return self.I.call_method(d, 'get', [])


def clone_arg(x):
    return ASet(list(x)) if isinstance(x, ASet) else [clone_arg(y) for y in x] if isinstance(x, list) else {k: clone_arg(v) for k, v in x.items()} if isinstance(x, dict) else x


def same_all(a, b):
    return len(a) == len(b) and all(any(same(x, y) for y in b) for x in a)


def check_calls(I, L, plan, calls, queries, found):
    """plan: [(name, kind, keys, args, kwargs)] in the order of addition."""
    want = list(reversed(plan))
    I.require([c[0] for c in calls] == [p[0] for p in want], 'each-once-last-first', 'the callbacks are not run exactly once each, last added first: %s instead of %s' % (
        [c[0] for c in calls], [p[0] for p in want]))
    by = {c[0]: c for c in calls}
    for name, kind, keys, args, kwargs in plan:
        c = by.get(name)
        if c is None:
            continue
        n, res, a, k = c
        if L.KINDS[kind][0] is None:
            I.require(res is None, 'own-results', 'a requester without a lookup gets results')
            I.require(a == tuple(args) and k == dict(kwargs), 'own-arguments', 'a callback does not get the arguments it was added with')
            continue
        src = (L.KINDS[kind][0].split('.')[0], show(L.KINDS[kind][1]), show(L.KINDS[kind][2]))
        exp = {x: T('found', (x,) + src, object) for x in keys if found(x)}
        I.require(res is not None and same_all(list(res), list(exp)) and all(same(res[x], exp[x]) for x in res if x in exp), 'own-results',
                  'a requester of kind %s gets %s, expected %s' % (kind, show(res), show(exp)))
        I.require(len(a) == 1 + len(args) and same_all(list(I.each(a[0])), list(keys)) and a[1:] == tuple(args) and k == dict(kwargs), 'own-arguments',
                  'a callback does not get the arguments it was added with')
    kinds = []
    for p in plan:
        if p[1] not in kinds and L.KINDS[p[1]][0] is not None:
            kinds.append(p[1])
    I.require(len(queries) == len(kinds), 'one-query-per-kind', '%d queries are made for %d kinds of lookups' % (len(queries), len(kinds)))
    for kind in kinds:
        ex, a, k = L.KINDS[kind]
        union = []
        for p in plan:
            if p[1] == kind:
                union += [x for x in p[2] if not any(same(x, y) for y in union)]
        q = [q for q in queries if q[0] == ex.split('.')[0] and q[2] == a and q[3] == k and same_all(q[1], union)]
        I.require(q, 'union-of-keys', 'lookups of kind %s do not share one query over the union of their keys' % kind)


def exhausted(I, L, d):
    for _ in range(2):
        n = len(L.calls)
        r, e = attempt(I, lambda: L.get(d))
        I.require(e is not None, 'ends-when-exhausted', 'asking for another result gives one, when nothing is left')
        I.require(len(L.calls) == n, 'ends-when-exhausted', 'asking for another result runs a callback again')


def leaf(I, L, i, kind, ks, ncb, plan):
    """A lookup with ncb callbacks over overlapping keys."""
    d = L.make(kind)
    for j in range(ncb):
        name = '%d.%d' % (i, j)
        keys = None if L.KINDS[kind][0] is None else [ks[0], ks[i + 1]] if j == 0 else [ks[i + 1], ks[4 + i]]
        args, kwargs = ((sym('extra%d' % i, object),), {'option': sym('option%d' % i, object)}) if (i + j) % 2 else ((), {})
        L.add(d, name, keys, args, kwargs)
        plan.append((name, kind, keys or [], args, kwargs))
    return d


def _scenario(I, kinds_, n, trees):
    L = Lookups(I)
    ks = keys_(8)
    plan = []
    kinds = [I.pick('kind of lookup %d' % i, kinds_) for i in range(n)]
    parts = [leaf(I, L, i, kinds[i], ks, 2 if i != 1 else 1, plan) for i in range(n)]
    tree = I.pick('order of merging', trees)
    if tree == 'left' or n < 3:
        d = parts[0]
        for p in parts[1:]:
            d = L.merge(d, p)
    elif tree == 'right':
        d = parts[-1]
        for p in reversed(parts[:-1]):
            d = L.merge(p, d)
    else:
        left, right = parts[0], parts[n // 2]
        for p in parts[1:n // 2]:
            left = L.merge(left, p)
        for p in parts[n // 2 + 1:]:
            right = L.merge(right, p)
        d = L.merge(left, right)
    state = I.pick('found', ('all', 'some', 'nothing', 'no answer', 'more'))
    missing = {ks[1], ks[4]}
    L.found = {'some': lambda x: x not in missing, 'nothing': lambda x: False, 'no answer': lambda x: False}.get(state, lambda x: True)
    L.answer_none = state == 'no answer'
    L.extra = [sym('unrequested', str)] + (ks if state == 'more' else []) if state == 'more' else False
    results = [L.get(d) for _ in plan]
    I.require(all(same(r, T('result', (p[0],), object)) for r, p in zip(results, reversed(plan))), 'own-results', 'the results are not those of the callbacks in their order')
    check_calls(I, L, plan, L.calls, L.queries, L.found)
    exhausted(I, L, d)


@scenario('C11')
def three_lookups(I):
    _scenario(I, ('A', 'A, other version', 'other source', 'none'), 3, ('left', 'right'))


@scenario('C11')
def two_lookups(I):
    _scenario(I, tuple(Lookups.KINDS), 2, ('left',))


@scenario('C11')
def single_lookup(I):
    _scenario(I, tuple(Lookups.KINDS), 1, ('left',))


@scenario('C11', 'thorough')
def four_lookups(I):
    _scenario(I, ('A', 'A, other version', 'other source', 'none'), 4, ('left', 'right', 'both'))


@scenario('C11')
def operand_unchanged(I):
    """The merged-in operand keeps its own callbacks and results, whatever happens to the merged one."""
    L = Lookups(I)
    ks = keys_(8)
    kinds = ('A', 'other source', 'none')
    plans = [], [], []
    parts = [leaf(I, L, i, I.pick('kind of lookup %d' % i, kinds), ks, 1, plans[i]) for i in range(3)]
    operand, oplan = parts[1], plans[1]
    if I.pick('operand', ('single', 'merged')) == 'merged':
        operand = L.merge(parts[1], parts[2])
        oplan = plans[1] + plans[2]
    merged = L.merge(parts[0], operand)
    mplan = plans[0] + oplan
    later = I.pick('afterwards', ('nothing', 'added to operand', 'added to merged', 'merged again'))
    if later == 'added to operand':
        k = oplan[-1][1]
        keys = None if k == 'none' else [ks[7]]
        L.add(operand, 'late', keys)
        oplan = oplan + [('late', k, keys or [], (), {})]
    elif later == 'added to merged':
        k = mplan[-1][1]
        keys = None if k == 'none' else [ks[7]]
        L.add(merged, 'late', keys)
        mplan = mplan + [('late', k, keys or [], (), {})]
    elif later == 'merged again':
        other = leaf(I, L, 3, I.pick('kind of lookup 3', kinds), ks, 1, mplan)
        merged = L.merge(merged, other)
    order = I.pick('first', ('merged', 'operand'))
    for which in (order, 'operand' if order == 'merged' else 'merged'):
        d, plan = (merged, mplan) if which == 'merged' else (operand, oplan)
        n, q = len(L.calls), len(L.queries)
        for _ in plan:
            r, e = attempt(I, lambda: L.get(d))
            if e is not None:
                break
        check_calls(I, L, plan, L.calls[n:], L.queries[q:], L.found)
        exhausted(I, L, d)


@scenario('C11')
def merged_into_two(I):
    """One lookup may be merged into two others."""
    L = Lookups(I)
    ks = keys_(8)
    kinds = ('A', 'other source')
    shared_plan, p0, p1 = [], [], []
    shared = leaf(I, L, 0, I.pick('shared kind', kinds), ks, 2, shared_plan)
    a = leaf(I, L, 1, I.pick('first kind', kinds), ks, 1, p0)
    b = leaf(I, L, 2, I.pick('second kind', kinds), ks, 1, p1)
    a, b = L.merge(a, shared), L.merge(b, shared)
    for d, plan in ((a, p0 + shared_plan), (b, p1 + shared_plan)):
        n, q = len(L.calls), len(L.queries)
        for _ in plan:
            r, e = attempt(I, lambda: L.get(d))
            if e is not None:
                break
        check_calls(I, L, plan, L.calls[n:], L.queries[q:], L.found)
        exhausted(I, L, d)


@scenario('C11')
def callback_asks_for_results(I):
    """A callback may itself ask for the results which were added before it."""
    L = Lookups(I)
    ks = keys_(8)
    kinds = ('A', 'other source', 'none')
    plan = []
    parts = []
    for i in range(2):
        parts.append(leaf(I, L, i, I.pick('kind of lookup %d' % i, kinds), ks, 1, plan))
    kind = I.pick('kind of lookup 2', kinds)
    last = L.make(kind)
    keys = None if kind == 'none' else [ks[5], ks[0]]
    pulls = I.pick('asks for', (1, 2))
    L.add(last, 'last', keys, pulls=pulls)
    plan.append(('last', kind, keys or [], (), {}))
    d = parts[0]
    for p in parts[1:] + [last]:
        d = L.merge(d, p)
    got = [L.get(d)] + [L.get(d) for _ in range(2 - pulls)]
    I.require(same(got[0], T('result', ('last',), object)), 'own-results', 'a callback that asks for other results loses its own')
    check_calls(I, L, plan, L.calls, L.queries, L.found)
    exhausted(I, L, d)


@scenario('C11')
def iteration(I):
    """Iterating gives the same results as asking one by one, and ends."""
    L = Lookups(I)
    ks = keys_(8)
    plan = []
    d = leaf(I, L, 0, I.pick('kind of lookup 0', ('A', 'none')), ks, 2, plan)
    if I.pick('merged', (False, True)):
        d = L.merge(d, leaf(I, L, 1, I.pick('kind of lookup 1', ('A', 'other source', 'none')), ks, 1, plan))
    first = I.pick('before', (0, 1))
    head = [L.get(d) for _ in range(first)]
    tail = I.call(L.ns['drain'], [d], {})
    I.require([show(x) for x in head + list(tail)] == [show(T('result', (p[0],), object)) for p in reversed(plan)], 'each-once-last-first', 'iteration does not give all results once')
    check_calls(I, L, plan, L.calls, L.queries, L.found)
    exhausted(I, L, d)


@scenario('C11')
def key_collections(I):
    """Keys may be any collection, duplicates and no keys at all included."""
    L = Lookups(I)
    ks = keys_(3)
    form = I.pick('form', (list, tuple, lambda x: ASet(x), lambda x: {k: None for k in x}))
    keys = I.pick('keys', ((), (0,), (0, 0), (0, 1, 0)))
    keys = [ks[i] for i in keys]
    d = L.make('A')
    L.add(d, 'first', keys, form=form)
    o = L.make('A')
    L.add(o, 'second', [ks[0], ks[2]])
    d = L.merge(d, o)
    for _ in range(2):
        L.get(d)
    uniq = []
    for k in keys:
        if k not in uniq:
            uniq.append(k)
    res = {c[0]: c[1] for c in L.calls}
    I.require(same_all(list(res.get('first', {})), uniq), 'own-results', 'a requester does not get the entries of exactly its own keys')
    I.require(same_all(list(res.get('second', {})), [ks[0], ks[2]]), 'own-results', 'a requester does not get the entries of exactly its own keys')
    I.require(len(L.queries) == 1 and same_all(L.queries[0][1], uniq + [k for k in (ks[0], ks[2]) if k not in uniq]), 'union-of-keys', 'the query is not made once over the union of all keys')


@scenario('C11')
def foreign_operand(I):
    L = Lookups(I)
    d = L.make('A')
    x = I.pick('operand', (None, 5, [], sym('operand', object)))
    fails(I, lambda: L.merge(d, x), 'foreign-operand-refused', 'something that is not a deferred lookup is merged')
