"""Large operands: the rules for many tags, keys, parts, levels and versions, where a limit or a batch in the code would show."""
from .base import *
from .entries import _carries, _depends
from .locking import LOCKING, mark_keys, mark_ops, one, invalidated
from .deferred import Lookups, check_calls
from .forms import cache_objects, TAG_FORMS, as_form
from .signals import App, ModelModel, ObjectModel, EVENTS, WORDS
from .templates import Templates, Counter, WebRequest, cached, handler, block, evals
from .web import HOWS, Site, Request, Response, facts, add_request_tags, page_ops, header_ops
from .adapters import World as AdapterWorld

N = 130      # beyond the usual batches of 10, 50, 64, 100 and 128
SPOTS = (0, 1, 2, 9, 10, 49, 50, 63, 64, 99, 100, 127, 128, 129)


def spots(n):
    return [i for i in SPOTS if i < n]


def size(I):
    return I.pick('number', (3, N))


@scenario('C01', name='many_entries_in_one_bulk', max_steps=20000000)
def bulk(I):
    S = Stack(I)
    n = I.pick('number', (3, N, 260))
    ks, ts, vs = keys_(n), tags_(n), values_(n)
    for k, t, v in zip(ks, ts, vs):
        S.set(k, v, (t,), None, V1)
    if n > N:
        I.require(len(S.do('get_many', ks, V1, True)) == n, 'fresh-entry-returned', 'a bulk read of %d entries does not return all' % n)
        return
    stale = I.pick('stale', ('none', 'first', 'middle', 'last', 'two') if n < N else ('two',))
    bad = {'none': (), 'first': (0,), 'middle': (n // 2,), 'last': (n - 1,), 'two': (1, n - 1)}[stale]
    for i in bad:
        disturb(S, ts[i], V1, I.pick('how', ('gone', 'new')))
    r = S.do('get_many', ks, V1, True)
    for i in range(n):
        if i in bad:
            I.require(ks[i] not in r, 'stale-entry-rejected', 'a bulk read of %d entries returns one whose tag has changed' % n)
        else:
            I.require(same(r.get(ks[i]), vs[i]), 'fresh-entry-returned', 'a bulk read of %d entries does not return one whose tags have not changed' % n)


@scenario('C01', name='many_tags_of_one_entry')
def tags_of_one(I):
    S = Stack(I)
    n = size(I)
    ts = tags_(n)
    V = sym('value', object)
    dep = tuple(ts)
    if I.pick('dependency', ('tags', 'composite')) == 'composite':
        S = Stack(I, api='CacheWrapper')
        dep = composite(I, *[tags_dep(I, t) for t in ts])
    S.set(KEY, V, dep, None, V1)
    _carries(I, S, KEY, [ts[i] for i in spots(n)], V1, V)


@scenario('C02', name='many_tags')
def versions_of_many(I):
    S = Stack(I, level=I.pick('level', ('READ COMMITTED', 'REPEATABLE READ')))
    n = size(I)
    ts = tags_(n)
    some = I.pick('with version', ('none', 'every second', 'all but last'))
    have = {'none': (), 'every second': range(0, n, 2), 'all but last': range(n - 1)}[some]
    for i in have:
        S.backend.store[(V1, tag_key(I, ts[i]))] = sym('current_%d' % i, str)
    V = sym('value', object)
    m = len(S.backend.log)
    S.set(KEY, V, tuple(ts), None, V1)
    e = entry_writes(S, KEY, m)
    I.require(len(e) == 1, 'stored-once', 'an entry with %d tags is written %d times' % (n, len(e)))
    for i, t in enumerate(ts):
        w = [o for o in tag_ops(S, t, S.backend.writes(m))]
        if i in have:
            I.require(not w, 'existing-version-kept', 'set replaces the existing version of a tag')
        else:
            I.require(len(w) == 1 and w[0].version == V1 and bool(e) and w[0].n < e[0].n, 'version-created-first',
                      'the version of one of %d tags is not written exactly once before the entry' % n)
    vs = [S.backend.at(tag_key(I, t), V1) for t in ts]
    I.require(all(not same(a, b) for i, a in enumerate(vs) for b in vs[:i]) if n < 10 else True, 'own-version-each', 'two tags get the same version')
    _carries(I, S, KEY, [ts[i] for i in spots(n)], V1, V)


@scenario('C03', name='one_of_many_tags_locked')
def locked_of_many(I):
    clock = Clock(I)
    n = size(I)
    ts = tags_(n)
    S = Stack(I, level='REPEATABLE READ')
    i = I.pick('locked', ('none', 'first', 'second', 'middle', 'last'))
    bad = {'none': None, 'first': 0, 'second': 1, 'middle': n // 2, 'last': n - 1}[i]
    if bad is not None:
        with As(I, thread='T1'):
            F = Stack(I, level='REPEATABLE READ', backend=S.backend)
            F.tx('begin')
            F.invalidate((ts[bad],), V1)
            clock.now += 1
            if I.pick('state', ('acquired', 'released')) == 'released':
                clock.now += 1
                F.tx('finish')
    m = len(S.backend.log)
    S.set(KEY, sym('value', object), tuple(ts), None, V1)
    I.require(bool(entry_writes(S, KEY, m)) == (bad is None), 'skipped-iff-locked', 'an entry with %d tags is %s' % (
        n, 'not stored' if bad is None else 'stored although one of them is locked'))
    if bad is not None:
        I.require(not S.backend.writes(m), 'no-version-while-locked', 'versions are created for the tags of a locked dependency')


@scenario('C04', name='many_nested_entries', max_steps=20000000)
def nested(I):
    S = Stack(I)
    n = size(I)
    ks, ts, vs = keys_(n), tags_(n), values_(n)
    how = I.pick('nested entries', ('bulk hit', 'bulk hit and miss', 'single hits', 'stores', 'chain'))
    outer, V, other = sym('outer', str), sym('outer_value', object), sym('other_tag', str)
    if how in ('bulk hit', 'bulk hit and miss', 'single hits'):
        for k, t, v in zip(ks, ts, vs):
            S.set(k, v, (t,), None, V1)
    S.do('get', outer, None, V1)
    if how == 'bulk hit':
        S.do('get_many', ks, V1)
    elif how == 'bulk hit and miss':
        absent = keys_(n // 2, 'absent')
        S.do('get_many', absent + ks, V1)
        for k in absent:
            S.do('abort', k)
    elif how == 'single hits':
        for k in ks:
            S.do('get', k, None, V1)
    elif how == 'stores':
        for k, t, v in zip(ks, ts, vs):
            S.do('get', k, None, V1)
            S.set(k, v, (t,), None, V1)
    else:
        n = min(n, 40)
        ks, ts, vs = ks[:n], ts[:n], vs[:n]
        for k in ks:
            S.do('get', k, None, V1)
        for k, t, v in reversed(list(zip(ks, ts, vs))):
            S.set(k, v, (t,), None, V1)
    S.set(outer, V, (), None, V1)
    _depends(I, S, outer, [ts[i] for i in sorted(set(spots(n) + [n // 2, n - 1]))], [other], V1, V, 'an entry with %d entries nested in it' % n)
    if how == 'chain':
        _depends(I, S, ks[1], ts[1:n:7] + [ts[n - 1]], [ts[0]], V1, vs[1], 'an entry in a chain of %d' % n)


@scenario('C04', name='many_missed_reads', max_steps=20000000)
def misses(I):
    """Entries that were missed and never stored stay under generation: what is read or stored then still is passed on."""
    S = Stack(I)
    outer, V, t, k = sym('outer', str), sym('outer_value', object), sym('tag', str), sym('inner', str)
    how = I.pick('inner entry', ('hit', 'stored'))
    if how == 'hit':
        S.set(k, sym('value', object), (t,), None, V1)
    ks = keys_(1000, 'missed')
    S.do('get', outer, None, V1)
    for x in ks:
        S.do('get', x, None, V1)
    if how == 'hit':
        S.do('get', k, None, V1)
    else:
        S.set(k, sym('value', object), (t,), None, V1)
    S.set(ks[500], sym('another', object), (), None, V1)
    S.set(outer, V, (), None, V1)
    _depends(I, S, outer, [t], [], V1, V, 'an entry with %d unfinished entries nested in it' % len(ks))


@scenario('C06', name='many_tags_invalidated')
def invalidate_many(I):
    level = I.pick('level', ('READ COMMITTED', 'REPEATABLE READ'))
    S = Stack(I, level=level)
    n = size(I)
    ts = tags_(n)
    tx = I.pick('transaction', (False, True))
    if tx:
        S.tx('begin')
    dep = tuple(ts)
    m = len(S.backend.log)
    if I.pick('dependency', ('tags', 'composite')) == 'composite':
        I.call_method(S.wrapper, 'invalidate_dependency', [composite(I, *[tags_dep(I, t) for t in ts]), V1])
    else:
        S.invalidate(dep, V1)
    d = S.backend.deletes(m)
    for t in ts:
        k = tag_key(I, t)
        I.require(any(same(o.key, k) and o.version == V1 for o in d), 'version-deleted', 'an invalidation of %d tags does not delete the version of each' % n)
    if tx and level in LOCKING:
        I.require(max(o.n for o in S.backend.writes(m)) < min(o.n for o in d) if S.backend.writes(m) and d else False, 'announced-before-deleted', 'a tag is deleted before all are marked')


def _many_in_transaction(I, pid):
    level = I.pick('level', ('READ COMMITTED', 'REPEATABLE READ'))
    n = size(I)
    how = I.pick('invalidated', ('together', 'one by one', 'in nested transactions', 'under many cache versions'))
    if n == N and how != 'together':
        n = 24
    ts = tags_(n)
    S = Stack(I, level=level)
    S.tx('begin')
    vers = [V1] * n
    m = len(S.backend.log)
    if how == 'together':
        S.invalidate(tuple(ts), V1)
    elif how == 'under many cache versions':
        vers = [sym('cache_version_%d' % i, int) for i in range(n)]
        for t, v in zip(ts, vers):
            S.invalidate((t,), v)
    else:
        for t in ts:
            if how == 'in nested transactions':
                S.tx('begin')
            S.invalidate((t,), V1)
    e = len(S.backend.log)
    while S.depth() > 1:
        S.tx('finish')
    I.require(len(S.backend.log) == e or not (S.backend.writes(e) or S.backend.deletes(e)), 'nested-end-releases-nothing', 'the end of a nested transaction changes the cache')
    e = len(S.backend.log)
    S.tx('finish')
    keys = {}
    for i in sorted(set(spots(n) + [n // 2, n - 1])):
        a, r = mark_keys(I, ts[i])
        a, r = one(I, a, 'an invalidation'), one(I, r, 'the end of a transaction')
        if level in LOCKING:
            I.require([o for o in mark_ops(S, a, vers[i], m) if o.n < e], 'locked-when-invalidated' if pid == 'C07' else 'mark-for-every-tag', 'one of %d tags is not marked as acquired' % n)
            w = mark_ops(S, r, vers[i], e)
            I.require(len(w) == 1, 'released-exactly-once' if pid == 'C07' else 'mark-for-every-tag', 'one of %d tags is marked as released %d times' % (n, len(w)))
            for o in mark_ops(S, a, vers[i], m) + w:
                I.require(o.timeout is not None, 'marks-expire', 'a mark is stored without expiry')
        I.require(len(invalidated(S, ts[i], vers[i], e)) == 1, 'released-exactly-once' if pid == 'C07' else 'mark-for-every-tag', 'one of %d tags is invalidated %d times by the end of the transaction' % (
            n, len(invalidated(S, ts[i], vers[i], e))))


@scenario('C07', name='many_tags_in_transaction')
def many_released(I):
    _many_in_transaction(I, 'C07')


@scenario('C10', name='marks_of_many_tags')
def many_marks(I):
    _many_in_transaction(I, 'C10')


@scenario('C07', name='deep_nesting_of_transactions')
def deep(I):
    S = Stack(I, level='READ COMMITTED')
    d = 30
    t1, t2 = tags_(2)
    for i in range(d):
        S.tx('begin')
    S.invalidate((t1,), V1)
    for i in range(d - 1):
        m = len(S.backend.log)
        S.tx('finish')
        I.require(S.depth() == d - 1 - i and not S.backend.deletes(m), 'nested-end-releases-nothing', 'one of %d nested transactions releases tags at its end, or ends another one' % d)
        if i == d // 2:
            S.invalidate((t2,), V1)
    m = len(S.backend.log)
    S.tx('finish')
    for t in (t1, t2):
        I.require(len(invalidated(S, t, V1, m)) == 1, 'released-exactly-once', 'a tag invalidated in one of %d nested transactions is not released once by the end of the outermost one' % d)


@scenario('C11', name='many_requesters')
def requesters(I):
    L = Lookups(I)
    n = I.pick('number', (3, 60))
    ks = keys_(n)
    overlap = I.pick('keys', ('own', 'overlapping'))
    total, plan = None, []
    for i in range(n):
        d = L.make('A')
        mine = [ks[i]] if overlap == 'own' else [ks[i], ks[(i * 7) % n], ks[0]]
        mine = list(dict.fromkeys(mine))
        L.add(d, 'r%d' % i, mine)
        plan.append(('r%d' % i, 'A', mine, (), {}))
        total = d if total is None else L.merge(total, d)
    for _ in plan:
        L.get(total)
    check_calls(I, L, plan, L.calls, L.queries, L.found)


@scenario('C16', name='composites_of_many_parts')
def parts(I):
    n = size(I)
    ts = tags_(n)
    S = Stack(I, api='CacheWrapper')
    c = composite(I)
    for t in ts:
        I.call_method(c, 'extend', [tags_dep(I, t)])
    how = I.pick('used as', ('itself', 'copy', 'part of another'))
    if how == 'copy':
        c = I.call_method(c, '__copy__', [])
    elif how == 'part of another':
        d = composite(I, tags_dep(I, sym('more', str)))
        I.call_method(d, 'extend', [c])
        c = d
    V = sym('value', object)
    S.do('set', KEY, V, c, None, V1)
    _carries(I, S, KEY, [ts[i] for i in sorted(set(spots(n) + [n - 1]))], V1, V, rule='no-part-dropped')


# ---------------------------------------------------------------- the outer layers


@scenario('C22', name='many_tags_in_all_forms', max_steps=20000000)
def many_in_forms(I):
    """Four and more tags: the same in every form, for stores as for invalidations."""
    c, store = cache_objects(I)
    n = I.pick('number', (4, N))
    tags = tags_(n)
    form = I.pick('form of the tags', ('one by one',) + TAG_FORMS)
    given = list(tags) if form == 'one by one' else [as_form(I, form, tags)]
    if form != 'one by one':
        v, = values_(1)
        I.call_method(c, 'set', [KEY, v] + given)
        I.require(returned(I.call_method(c, 'get', [KEY]), v), 'same-tags', 'a value stored with %d tags in the form %s is not found' % (n, form))
        missing = [t for t in tags if store.store.get((None, tag_key(I, t)), ABSENT) is ABSENT]
        I.require(not missing, 'same-tags', 'a store with %d tags in the form %s loses some' % (n, form))
        for i in sorted(set(spots(n) + [n - 1])):
            k = (None, tag_key(I, tags[i]))
            old, store.store[k] = store.store[k], ABSENT
            I.require(I.call_method(c, 'get', [KEY, None, None, True]) is None, 'same-tags', 'a value stored with %d tags in the form %s does not depend on each of them' % (n, form))
            store.store[k] = old
    m = len(store.log)
    I.call_method(c, 'invalidate_tags', given)
    d = store.deletes(m)
    for t in tags:
        I.require(any(same(o.key, tag_key(I, t)) for o in d), 'same-tags', 'an invalidation of %d tags in the form %s loses some' % (n, form))


@scenario('C20', name='many_tags_and_models', max_steps=20000000)
def many_models(I):
    A = App(I)
    n = size(I)
    what = I.pick('event', EVENTS[:2] + EVENTS[-1:])
    if I.pick('many', ('tags', 'models')) == 'tags':
        ts = tags_(n)
        m = ModelModel('Post')
        kind = I.pick('collection', (list, tuple, ASet))
        A.register((m, NFn('tags', lambda *a, **k: kind(ts))))
        obj = ObjectModel('post')
        mark = A.happens(what, m, obj)
        A.invalidates('default', mark, ts, '%s with %d tags' % (WORDS[what], n))
        return
    ms = [ModelModel('Model%d' % i) for i in range(n)]
    A.register(*[(m, A.fn['in_tuple']) for m in ms])
    for i in sorted(set(spots(n) + [n - 1])):
        obj = ObjectModel('object%d' % i)
        mark = A.happens(what, ms[i], obj)
        A.invalidates('default', mark, obj.tags('in_tuple'), '%s of one of %d models' % (WORDS[what], n))


@scenario('C18', name='many_tags_and_fragments', max_steps=20000000)
def many_fragments(I):
    X = Templates(I)
    n = I.pick('number', (3, 12, N))
    where = I.pick('tags', ('as arguments', 'as a list', 'added one by one', 'added at once', 'added as a list', 'of nested fragments'))
    name, ts = sym('name', str), tags_(n)
    names = keys_(n, 'inner_name')
    vars = dict(name=name, listed=list(ts), **{'t%d' % i: t for i, t in enumerate(ts)})
    vars.update(('n%d' % i, x) for i, x in enumerate(names))
    contents, body = 'cache_tagging name', Counter(sym('text', str))
    inner = [('call', body)]
    all_ = ' '.join('t%d' % i for i in range(n))
    if where == 'as arguments':
        contents += ' ' + all_
    elif where == 'as a list':
        contents += ' tags=listed'
    elif where == 'added one by one':
        inner += [('tag', 'cache_add_tags t%d' % i) for i in range(n)]
    elif where == 'added at once':
        inner.append(('tag', 'cache_add_tags ' + all_))
    elif where == 'added as a list':
        inner.append(('tag', 'cache_add_tags listed'))
    else:
        inner += [('tag', 'cache_tagging n%d t%d' % (i, i), [('call', Counter(''))]) for i in range(n)]
    vars['request'] = request = WebRequest()
    X.compiled([('tag', contents, inner)]).render(X.context(**vars))
    st = I.djcaches.storage('default')
    I.require(cached(I, X, name) is not None, 'fragment-is-stored', 'a fragment with %d tags is not found after it was stored' % n)
    for i in sorted(set(spots(n) + [n - 1])):
        k = (None, tag_key(I, ts[i]))
        old = dict(st.store)
        st.store[k] = ABSENT
        I.require(cached(I, X, name) is None, 'all-tags', 'a fragment does not depend on each of its %d tags (%s)' % (n, where))
        st.store.clear()
        st.store.update(old)
    I.require(all(t in request.cache_tagging for t in ts), 'page-gets-tags', 'the page does not get all of the %d tags of its fragments' % n)


@scenario('C17', name='many_tags_of_a_page', max_steps=20000000)
def page_with_many_tags(I):
    n = I.pick('number', (3, 12, N))
    ts = tags_(n)
    of = I.pick('tags', ('view', 'request', 'half and half'))
    view_tags, request_tags = {'view': (ts, []), 'request': ([], ts), 'half and half': (ts[::2], ts[1::2])}[of]
    site = Site(I, I.pick('set up', HOWS), seconds=600, prefix=sym('prefix', str), alias='pages', tags=NFn('tags', lambda request: list(view_tags)))
    if site.how == 'two parts' and view_tags:
        return
    f = facts(I)

    def view(request):
        if request_tags:
            add_request_tags(I, request, request_tags)
        return Response(I, f)
    site.serve(Request(f), view)
    pages, headers = page_ops(site), header_ops(site)
    I.require(len(pages) == 1 and len(headers) == 1, 'kept-once', 'a page and its header list are not kept exactly once each')
    st = site.storage()
    for o, what in [(o, 'page') for o in pages] + [(o, 'header list') for o in headers]:
        for i in sorted(set(spots(n) + [n - 1])):
            k = (None, tag_key(I, ts[i]))
            old = st.store.get(k, ABSENT)
            I.require(old is not ABSENT, 'all-tags', 'one of %d tags of a page has no version' % n)
            st.store[k] = ABSENT
            I.require(I.call_method(site.cache_of(), 'get', [o.key, None, None, True]) is None, 'all-tags', 'the %s of a page does not depend on each of %d tags' % (what, n))
            st.store[k] = old


@scenario('C19', name='many_blocks')
def many_blocks(I):
    h = handler(I)
    n = I.pick('number', (12, N, 1000))
    text = ''.join('%d:' % i + block(I, h, 'echo(mine, yours)', mine=i) for i in range(n)) + 'end'
    k = len(I.events)
    r = I.call_method(h, 'handle', [text], dict(yours='!'))
    I.require(r == ''.join('%d:%d!' % (i, i) for i in range(n)) + 'end', 'blocks-in-place', 'the blocks of a text with %d of them are not all replaced by their output' % n)
    I.require(len(evals(I, k)) == n, 'executed-once', '%d blocks are executed %d times' % (n, len(evals(I, k))))


@scenario('C23', name='many_keys')
def bulk_of_many(I):
    W = AdapterWorld(I)
    c = W.make()
    n = I.pick('number', (12, N))
    ks, vs = keys_(n), values_(n)
    form = I.pick('keys as', ('list', 'tuple', 'set', 'iterator'))
    what = I.pick('operation', ('get_many', 'set_many', 'delete_many'))
    if what == 'set_many':
        I.call_method(c, 'set_many', [dict(zip(ks, vs)), 60, V1])
    else:
        for k, v in zip(ks, vs):
            W.put(k, V1, v)
    if what == 'delete_many':
        I.call_method(c, 'delete_many', [W.keys(ks, form)], {'version': V1})
        d = W.store.deletes()
        I.require(len(d) == n and all(same(o.version, V1) for o in d) and all(W.store.store.get((V1, k), ABSENT) is ABSENT for k in ks), 'bulk-delete-agrees', 'a bulk delete of %d keys leaves some' % n)
        return
    if what == 'set_many':
        w = W.store.writes()
        I.require(len(w) == n and all(o.timeout == 60 and same(o.version, V1) for o in w), 'bulk-write-agrees', 'a bulk write of %d entries is not one write with its lifetime for each' % n)
    r = I.call_method(c, 'get_many', [W.keys(ks, form)], {'version': V1})
    I.require(isinstance(r, dict) and len(r) == n and all(returned(r.get(k), v) for k, v in zip(ks, vs)), 'bulk-read-agrees', 'a bulk read of %d keys does not give all of them' % n)


@scenario('C21', name='deep_scopes', max_steps=20000000)
def deep_scopes(I):
    """Many levels left open: all of them are ended by the scope of a request, by closing the cache and by the legacy function."""
    S = Stack(I, api='django', level='REPEATABLE READ')
    n = size(I)
    how = I.pick('ended by', ('request', 'failed request', 'close', 'flush', 'all'))
    tag, = tags_(1)
    m = None
    if 'request' in how:
        m = I.call(cls(I, 'django_cache_dependencies.middleware', 'TransactionMiddleware'), [], {})
        I.call_method(m, 'process_request', [sym('request', object)])
    for _ in range(n):
        S.tx('begin')
    S.invalidate((tag,), None)
    since = len(S.backend.log)
    if how == 'request':
        I.call_method(m, 'process_response', [sym('request', object), sym('response', object)])
    elif how == 'failed request':
        I.call_method(m, 'process_exception', [sym('request', object), AnyError('of the view')])
    elif how == 'close':
        S.do('close')
    elif how == 'flush':
        S.tx('flush')
    else:
        I.call_method(S.cache, 'transaction_finish_all', [])
    I.require(S.depth() == 0, 'scope-closed', '%d scopes left open are not all closed (%s)' % (n, how))
    I.require(any(same(o.key, tag_key(I, tag)) for o in S.backend.deletes(since)), 'released-when-closed', 'what was invalidated in %d scopes is not released (%s)' % (n, how))
