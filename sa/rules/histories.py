"""Histories: all sequences of operations up to a length, against the state machine that the property describes.

The machine is the specification (the tracking of entries for C04 and C05, the scopes of transactions for C07); the
sources are interpreted along every sequence and have to agree with the machine after every operation."""
from .base import *
from .entries import _cur
from .locking import LOCKING, mark_keys, one


class Node(object):
    def __init__(self, key, parent, tag, value):
        self.key, self.parent, self.tag, self.value, self.got = key, parent, tag, value, set()


class Tracking(object):
    """C04, C05: which entries are under generation, what they have collected, and what stored entries depend on."""
    def __init__(self, S, bulk=2):
        self.S, self.I = S, S.I
        self.nodes = {}            # key -> node: entries under generation
        self.top = None
        self.stored = {}           # (key, version) -> (value, tags)
        self.n = 0
        self.bulk = bulk
        self.done, self.names = [], []

    # bookkeeping

    def fresh(self):
        self.n += 1
        i = self.n
        self.names.append((sym('key%d' % i, str), sym('tag%d' % i, str), sym('value%d' % i, object)))
        return self.names[-1]

    def idle(self):
        """Entries that were given up: neither under generation nor stored."""
        return [x for x in self.names if x[0] not in self.nodes and all(k != x[0] for k, v in self.stored)]

    def begin(self, k, t, v, innermost=True):
        self.nodes[k] = Node(k, self.nodes.get(self.top), t, v)
        if innermost:
            self.top = k

    def end(self, k):
        n = self.nodes.pop(k, None)
        if n is not None and self.top is not None and self.top is k:
            self.top = None if n.parent is None else n.parent.key
        return n

    def pass_on(self, node, things):
        while node is not None:
            node.got |= things
            node = node.parent

    def loose(self):
        """Entries missed in bulk: under generation, but not on the way from the innermost one outwards."""
        path, n = [], self.nodes.get(self.top)
        while n is not None:
            path.append(n)
            n = n.parent
        return [k for k, n in self.nodes.items() if n not in path and all(x.parent is not n for x in self.nodes.values())]

    # operations

    def miss(self, version):
        k, t, v = self.fresh()
        self.S.do('get', k, None, version)
        self.begin(k, t, v)

    def miss_again(self, version):
        k, t, v = self.idle()[0]
        self.S.do('get', k, None, version)
        self.begin(k, t, v)

    def miss_in_bulk(self, version):
        ks = [self.fresh() for _ in range(self.bulk)]
        self.S.do('get_many', [k for k, t, v in ks], version)
        for k, t, v in ks:
            self.begin(k, t, v, False)

    def opted_out(self, version):
        k, t, v = self.fresh()
        if self.I.pick('opted out read', ('single', 'bulk')) == 'single':
            self.S.do('get', k, None, version, True)
        else:
            self.S.do('get_many', [k], version, True)

    def store(self, k, version, t=None, v=None):
        n = self.nodes.get(k)
        t, v = (n.tag, n.value) if n else (t, v)
        self.S.set(k, v, (t,), None, version)
        n = self.end(k)
        own = set([(version, t)])
        self.stored[(k, version)] = (v, own | (n.got if n else set()))
        if n is not None:
            self.pass_on(n.parent, own)
        else:
            self.pass_on(self.nodes.get(self.top), own)

    def store_unread(self, version):
        k, t, v = self.fresh()
        self.store(k, version, t, v)

    def hit(self, version):
        """The entry stored last is read, alone or in bulk with an entry that is missing."""
        live = [k for k in self.stored if k[1] is version or same(k[1], version)]
        k, version = live[-1]
        want, tags = self.stored[(k, version)]
        if self.I.pick('hit', ('single', 'bulk')) == 'single':
            got = self.S.do('get', k, None, version)
        else:
            k2, t2, v2 = self.fresh()
            d = self.S.do('get_many', [k2, k], version)
            got = d.get(k)
            self.begin(k2, t2, v2, False)
        self.I.require(same(got, want), 'stored-entry-readable', 'an entry that was stored and not invalidated is not returned')
        self.pass_on(self.nodes.get(self.top), set(x for x in tags if same(x[0], version)))

    def abort(self, k):
        self.S.do('abort', k)
        self.end(k)

    def compute(self, version):
        k, t, v = self.fresh()

        def run():
            self.I.require(self.S.current() is not None and same(self.S.current(), k), 'innermost-entry', 'an entry that is being computed is not the innermost one')
        self.begin(k, t, v)
        r = self.S.get_or_set(k, Callback(self.I, 'callback', v, run=run), (t,), None, version)
        self.I.require(same(r, v), 'value-returned', 'get_or_set_callback does not return what it has computed')
        n = self.end(k)
        own = set([(version, t)])
        self.stored[(k, version)] = (v, own | n.got)
        self.pass_on(n.parent, own)

    def fail(self, version):
        k, t, v = self.fresh()
        err = AnyError('failed')
        r, e = attempt(self.I, lambda: self.S.get_or_set(k, Callback(self.I, 'callback', exc=err), (t,), None, version))
        self.I.require(e is err, 'error-passed-on', 'the error of a computation does not reach the caller unchanged')

    def close(self):
        self.S.do('close')
        self.nodes, self.top = {}, None

    def choices(self, versions):
        out = []
        for v in versions:
            out += [('missed read', self.miss, (v,)), ('bulk miss', self.miss_in_bulk, (v,)), ('computation', self.compute, (v,))]
            if self.top is not None:
                out.append(('store of the innermost entry', lambda v: self.store(self.top, v), (v,)))
                out.append(('store of an entry that was not read', self.store_unread, (v,)))
            if self.loose():
                out.append(('store of an entry missed in bulk', lambda v: self.store(self.loose()[-1], v), (v,)))
            if any(k[1] is v for k in self.stored):
                out.append(('hit', self.hit, (v,)))
        if self.idle():
            out.append(('missed read of an entry that was given up', self.miss_again, (versions[0],)))
        out += [('opted out read', self.opted_out, (versions[0],)), ('failing computation', self.fail, (versions[0],)), ('close', self.close, ())]
        if self.top is not None:
            out.append(('abort of the innermost entry', lambda: self.abort(self.top), ()))
        if self.loose():
            out.append(('abort of an entry missed in bulk', lambda: self.abort(self.loose()[0]), ()))
        return out

    def step(self, i, versions):
        options = self.choices(versions)
        n = self.I.pick('operation %d' % (i + 1), range(len(options)))
        name, f, a = options[n]
        self.done.append(name)
        f(*a)
        self.check()

    def check(self):
        _cur(self.I, self.S, self.top, ', '.join(self.done))

    def settle(self):
        """What is left is stored, innermost first; then every entry depends on exactly what the machine says."""
        while self.top is not None or self.loose():
            k = self.top if self.top is not None else self.loose()[0]
            loose = self.loose()
            self.store(loose[0] if loose else self.top, self.version)
        self.check()
        I, S = self.I, self.S
        everything = set(x for v, tags in self.stored.values() for x in tags)
        for (k, version), (v, tags) in self.stored.items():
            I.require(same(S.do('get', k, None, version, True), v), 'stored-entry-readable', 'an entry that was stored is not returned')
            for ver, t in sorted(everything, key=show):
                if not same(ver, version):
                    continue
                kk = (ver, tag_key(I, t))
                old = S.backend.store.get(kk, ABSENT)
                disturb(S, t, ver, 'new')
                r = S.do('get', k, None, version, True)
                S.backend.store[kk] = old
                if (ver, t) in tags:
                    I.require(r is None, 'dependency-inherited', 'after %s: an entry does not depend on a tag of an entry nested in it' % ', '.join(self.done))
                else:
                    I.require(same(r, v), 'no-foreign-dependency', 'after %s: an entry depends on a tag of an entry that is not nested in it' % ', '.join(self.done))


def _tracking(I, length, versions, api):
    S = Stack(I, api=api)
    M = Tracking(S)
    M.version = versions[0]
    for i in range(length):
        M.step(i, versions)
    M.settle()


@scenario('C05', name='histories_of_three')
def histories(I):
    _tracking(I, 3, (V1,), 'CacheTagging')


@scenario('C04', name='histories_under_two_versions')
def histories_versions(I):
    _tracking(I, 2, (V1, None), 'CacheWrapper')


@scenario('C05', 'thorough', name='histories_of_four')
def histories_long(I):
    _tracking(I, 4, (V1,), 'CacheWrapper')


@scenario('C04', 'thorough', name='histories_of_three_under_two_versions')
def histories_versions_long(I):
    _tracking(I, 3, (V1, None), 'CacheTagging')


@scenario('C05', name='histories_around_close')
def around_close(I):
    """What was under generation when the cache was closed starts afresh when it is read again, wherever that is."""
    S = Stack(I)
    M = Tracking(S)
    M.version = V1
    M.step(0, (V1,))
    M.step(1, (V1,))
    how = I.pick('end of all', ('close', 'give up one by one'))
    if how == 'close':
        M.close()
    else:
        while M.nodes:
            M.abort(M.loose()[0] if M.loose() else M.top)
    M.done.append(how)
    M.check()
    M.miss(V1)
    while M.idle():
        M.miss_again(V1)
        M.check()
    M.settle()


# ---------------------------------------------------------------- C07: scopes of transactions

class Scopes(object):
    """What the open transactions have invalidated, and what their ends do."""
    def __init__(self, I, level, delay, api):
        self.I, self.level, self.delay = I, level, delay
        self.tags = tags_(2)
        self.keys = {}
        for t in self.tags:
            a, r = mark_keys(I, t)
            self.keys[t] = one(I, a, 'an invalidation'), one(I, r, 'the end of a transaction')
        self.S = Stack(I, level=level, delay=delay, api=api)
        self.depth, self.pending, self.done = 0, set(), []
        self.locking = level in LOCKING

    def expect(self, n, deleted, acquired, released, later, what):
        """Effects since n: exactly these deletions and marks, for pairs (tag, cache version)."""
        I, S = self.I, self.S
        what = '%s after %s' % (what, ', '.join(self.done) or 'nothing')
        left = list(S.backend.writes(n)) + list(S.backend.deletes(n))
        for t in self.tags:
            ak, rk = self.keys[t]
            tk = tag_key(I, t)
            for v in (V1, V2):
                d = [o for o in left if o.op == 'delete' and same(o.key, tk) and o.version == v]
                a = [o for o in left if o.op != 'delete' and same(o.key, ak) and o.version == v]
                r = [o for o in left if o.op != 'delete' and same(o.key, rk) and o.version == v]
                p = (t, v)
                I.require(bool(d) == (p in deleted), 'released-exactly-once' if self.what_end else 'version-deleted',
                          '%s: %s is %s' % (what, show(t), 'not invalidated' if not d else 'invalidated'))
                I.require(bool(a) == (p in acquired), 'locked-when-invalidated', '%s: %s is %s' % (what, show(t), 'not marked as acquired' if not a else 'marked as acquired'))
                I.require(len(r) == (1 if p in released else 0), 'released-exactly-once', '%s: %s is marked as released %d times' % (what, show(t), len(r)))
                if p in released or p in deleted and self.what_end:
                    I.require(len(d) == 1, 'released-exactly-once', '%s: %s is invalidated %d times' % (what, show(t), len(d)))
                left = [o for o in left if o not in d and o not in a and o not in r]
        I.require(not left, 'nothing-else-changed', '%s: something else is changed in the cache' % what)
        I.require(len(I.timers) == later, 'released-exactly-once', '%s: %d delayed invalidations are started' % (what, len(I.timers)))

    what_end = False

    def act(self, what, f, deleted=(), acquired=(), released=(), later=0, end=False):
        self.what_end = end
        n = len(self.S.backend.log)
        f()
        self.expect(n, set(deleted), set(acquired), set(released), later, what)
        if later:
            n = len(self.S.backend.log)
            self.S.finish_threads()
            self.expect(n, set(deleted) | set(self.after), (), (), 0, 'the delayed part of %s' % what)
        self.done.append(what)
        self.I.require(self.S.depth() == self.depth, 'transactions-ended', 'after %s %d transactions are open instead of %d' % (', '.join(self.done), self.S.depth(), self.depth))

    def begin(self):
        self.depth += 1
        self.act('begin', lambda: self.S.tx('begin'))

    def ended(self, what, f, all_):
        last = all_ or self.depth <= 1
        p = self.pending if last else set()
        self.after = p
        if last:
            self.pending = set()
        self.depth = 0 if all_ else max(0, self.depth - 1)
        if self.locking:
            self.act(what, f, p, (), p, 0, True)
        else:
            now = p if self.level == 'READ COMMITTED' or not self.delay else ()
            self.act(what, f, now, (), (), len(set(v for t, v in p)) if self.delay else 0, True)

    def invalidate(self, ts, v, how):
        p = set((t, v) for t in ts)
        if self.depth:
            self.pending |= p
        self.act('invalidate %s' % '+'.join(show(t) for t in ts), lambda: self.S.invalidate(how(ts), v), p, p if self.locking and self.depth else ())

    def choices(self):
        t1, t2 = self.tags
        together = lambda ts: tuple(ts)
        out = [('begin', self.begin, ()),
               ('invalidate', self.invalidate, ((t1,), V1, together)),
               ('invalidate under other version', self.invalidate, ((t1,), V2, together)),
               ('invalidate both', self.invalidate, ((t2, t1), V1, together)),
               ('finish', self.ended, ('finish', lambda: self.S.tx('finish'), False)),
               ('flush', self.ended, ('flush', lambda: self.S.tx('flush'), True)),
               ('close', self.ended, ('close', lambda: self.S.do('close'), True))]
        return out

    def step(self, i):
        options = self.choices()
        n = self.I.pick('operation %d' % (i + 1), range(len(options)))
        name, f, a = options[n]
        f(*a)


def _scopes(I, length, levels, api):
    level, delay = I.pick('level and delay', levels)
    M = Scopes(I, level, delay, api)
    M.begin()
    for i in range(length):
        M.step(i)
    while M.depth:
        M.ended('finish', lambda: M.S.tx('finish'), False)


@scenario('C07', name='transaction_histories')
def transactions(I):
    _scopes(I, 3, (('REPEATABLE READ', 0), ('READ COMMITTED', 0)), 'CacheTagging')


@scenario('C07', 'thorough', name='long_transaction_histories')
def transactions_long(I):
    _scopes(I, 4, (('REPEATABLE READ', 0), ('SERIALIZABLE', 5), ('READ COMMITTED', 5), ('READ UNCOMMITTED', 5)), 'CacheWrapper')


@scenario('C08', name='transaction_histories_of_all_levels')
def transactions_levels(I):
    _scopes(I, 2, [(l, d) for l in LEVELS for d in (0, 5)], 'CacheTagging')


# ---------------------------------------------------------------- C09, C03: two sessions

class Sessions(object):
    """Two sessions with one tag: what each may store, and what of it stays readable."""
    def __init__(self, I, level, delay, threads=('A', 'B')):
        self.I, self.level, self.delay = I, level, delay
        self.locking = level in LOCKING
        self.clock = Clock(I, 1000.0)
        self.tag, = tags_(1)
        self.backend = Backend(I)
        self.stacks, self.start, self.depth, self.dirty = {}, {}, {}, {}
        self.names = threads
        for w in threads:
            with As(I, thread=w):
                self.stacks[w] = Stack(I, level=level, delay=delay, backend=self.backend, api='CacheTagging')
            self.depth[w], self.start[w], self.dirty[w] = 0, None, False
        self.acquired = self.released = None       # (session, time)
        self.entry = None                          # (key, value): the readable one
        self.done, self.n = [], 0

    def begin(self, w):
        self.stacks[w].tx('begin')
        if not self.depth[w]:
            self.start[w] = self.clock.now
        self.depth[w] += 1

    def finish(self, w):
        self.stacks[w].tx('finish')
        if self.depth[w] == 1 and self.dirty[w]:
            self.dirty[w] = False
            if self.locking:
                self.released = (w, self.clock.now)
            self.entry = None
        self.depth[w] = max(0, self.depth[w] - 1)

    def invalidate(self, w):
        self.stacks[w].invalidate((self.tag,), V1)
        self.entry = None
        if self.depth[w]:
            self.dirty[w] = True
            if self.locking:
                self.acquired = (w, self.start[w])

    def locked(self, w):
        if not self.locking:
            return False
        a, r = self.acquired, self.released
        s = self.start[w] if self.depth[w] else self.clock.now
        if a and r:
            if r[0] == a[0] and r[1] > a[1]:
                a = None
            else:
                r = None
        if a:
            return a[0] != w
        return bool(r) and r[0] != w and s <= r[1] + self.delay

    def store(self, w):
        I, S = self.I, self.stacks[w]
        self.n += 1
        k, v = sym('key%d' % self.n, str), sym('value%d' % self.n, object)
        n = len(self.backend.log)
        S.set(k, v, (self.tag,), None, V1)
        stored = bool(entry_writes(S, k, n))
        locked = self.locked(w)
        I.require(stored != locked, 'lock-decision', 'after %s: what session %s stores is %s' % (', '.join(self.done), w, 'not kept' if not stored else 'kept although the tag is locked'))
        if stored:
            self.entry = (k, v)

    def check(self):
        I = self.I
        if self.entry is None:
            return
        k, v = self.entry
        w = self.names[-1]
        with As(I, thread=w):
            r = self.stacks[w].do('get', k, None, V1, True)
        I.require(same(r, v), 'stored-entry-readable', 'after %s: an entry that was stored and not invalidated is not returned' % ', '.join(self.done))

    def stale(self, k):
        I = self.I
        w = self.names[0]
        with As(I, thread=w):
            return self.stacks[w].do('get', k, None, V1, True)

    def step(self, i):
        I = self.I
        options = [(f, w) for w in self.names for f in ('begin', 'finish', 'invalidate', 'store')
                   if not (f == 'finish' and not self.depth[w] or f == 'begin' and self.depth[w] > 1)]
        f, w = options[I.pick('operation %d' % (i + 1), range(len(options)))]
        self.clock.now += 1
        before = self.entry
        with As(I, thread=w):
            getattr(self, f)(w)
        self.done.append('%s %s' % (w, f))
        if before is not None and self.entry is None:
            I.require(self.stale(before[0]) is None, 'invalidated-entry-gone', 'after %s: an entry is still returned although its tag was invalidated' % ', '.join(self.done))
        self.check()


def _sessions(I, length, level, delay):
    M = Sessions(I, level, delay)
    M.clock.now += 1
    with As(I, thread='A'):
        M.begin('A')
    M.done.append('A begin')
    for i in range(length):
        M.step(i)
    for w in M.names:
        M.clock.now += 1
        with As(I, thread=w):
            M.store(w)
        M.done.append('%s store' % w)
        M.check()


@scenario('C09', name='histories_of_two_sessions')
def sessions(I):
    _sessions(I, 3, 'REPEATABLE READ', I.pick('delay', (0, 2)))


@scenario('C08', name='histories_of_two_sessions_of_all_levels')
def sessions_levels(I):
    _sessions(I, 3, I.pick('level', LEVELS), 0)


@scenario('C09', 'thorough', name='long_histories_of_two_sessions')
def sessions_long(I):
    _sessions(I, 4, 'SERIALIZABLE', I.pick('delay', (0, 1, 2)))


# ---------------------------------------------------------------- C01, C02: freshness

class Freshness(object):
    """Entries with shared tags under two cache versions: readable exactly until one of their tags is invalidated."""
    def __init__(self, I, level, api):
        self.I = I
        self.S = Stack(I, level=level, api=api)
        self.tags = tags_(2)
        t1, t2 = self.tags
        k1, k2 = keys_(2)
        self.kinds = ((k1, (t1, t2), V1), (k2, (t2,), V1), (k1, (t1,), V2))
        self.live = {}
        self.done, self.n = [], 0

    def store(self, i):
        k, ts, ver = self.kinds[i]
        self.n += 1
        v = sym('value%d' % self.n, object)
        self.S.set(k, v, ts, None, ver)
        self.live[(k, ver)] = (v, ts)

    def drop(self, t, ver):
        for x in [x for x, (v, ts) in self.live.items() if x[1] is ver and t in ts]:
            del self.live[x]

    def invalidate(self, t, ver):
        self.S.invalidate((t,), ver)
        self.drop(t, ver)

    def evict(self, t, ver):
        disturb(self.S, t, ver, 'gone')
        self.drop(t, ver)

    def check(self):
        I, S = self.I, self.S
        ks = keys_(2)
        for ver in (V1, V2):
            d = S.do('get_many', list(reversed(ks)), ver, True)
            for k in ks:
                want = self.live.get((k, ver))
                got = S.do('get', k, None, ver, True)
                for g in (got, d.get(k)):
                    if want is None:
                        I.require(g is None, 'no-stale-value', 'after %s: an entry is returned although one of its tags has changed, or it was never stored' % ', '.join(self.done))
                    else:
                        I.require(same(g, want[0]), 'fresh-value-returned', 'after %s: an entry is not returned, or with another value, although none of its tags has changed' % ', '.join(self.done))

    def step(self, i):
        t1, t2 = self.tags
        options = [('store %d' % (j + 1), self.store, (j,)) for j in range(len(self.kinds))]
        options += [('invalidate %s' % show(t), self.invalidate, (t, v)) for t, v in ((t1, V1), (t2, V1), (t1, V2))]
        options += [('eviction of %s' % show(t), self.evict, (t, v)) for t, v in ((t2, V1), (t1, V2))]
        name, f, a = options[self.I.pick('operation %d' % (i + 1), range(len(options)))]
        self.done.append(name)
        f(*a)
        self.check()


@scenario('C01', name='histories_of_entries')
def freshness(I):
    M = Freshness(I, 'READ COMMITTED', 'CacheTagging')
    for i in range(3):
        M.step(i)


@scenario('C01', 'thorough', name='long_histories_of_entries')
def freshness_long(I):
    M = Freshness(I, 'REPEATABLE READ', 'CacheWrapper')
    M.S.tx('begin')
    for i in range(4):
        M.step(i)
