"""C24: the file backend publishes an entry completely or not at all."""
from .base import *
from ..fsworld import FS

K, OTHER = 'key', 'other key'
OLD, NEW, THEIRS = sym('old_value', object), sym('new_value', object), sym('value_of_another_writer', object)
ABSENCE = sym('default_of_reader', object)
OPS = 14


class Disk(object):
    def __init__(self, I, exists=True, fresh=True):
        self.I = I
        self.clock = Clock(I)
        self.fs = FS(I)
        if exists:
            self.fs.dirs.add('/cache/dir')
        self.cls = cls(I, 'django_cache_dependencies.backends', 'FileBasedCache')
        self.cache = self.make()

    def make(self):
        return self.I.call(self.cls, ['/cache/dir', {}], {})

    def aside(self, f, thread='T2', process=None):
        """Done by somebody else: nothing of it fails, nothing comes between."""
        I = self.I
        self.fs.depth += 1
        timers = list(I.timers)
        try:
            with As(I, thread, process):
                return attempt(I, f)
        finally:
            I.timers[:] = timers
            self.fs.depth -= 1

    def put(self, key, value, timeout=1000, version=None, cache=None):
        c = self.cache if cache is None else cache
        return self.aside(lambda: self.I.call_method(c, 'set', [key, value], {'timeout': timeout, 'version': version}))

    def read(self, key, version=None):
        return self.aside(lambda: self.I.call_method(self.make(), 'get', [key], {'default': ABSENCE, 'version': version}))

    def watch(self, key, version, allowed):
        """From now on everybody who reads must find one of these."""
        def look():
            self.sound(key, version, allowed)
        self.fs.after = look

    def sound(self, key, version, allowed, rule='complete-or-nothing'):
        I = self.I
        r, e = self.read(key, version)
        I.require(e is None, rule, 'a reader fails on an entry that is being written')
        I.require(any(same(r, a) for a in allowed), rule, 'a reader finds %s' % show(r))
        return r


def store(D, how, key, value, *a, **k):
    return D.I.call_method(D.cache, how, [key, value] + list(a), k)


def calls(I, lifetime, version):
    """Positional and named arguments."""
    form = I.pick('arguments', ('by name', 'by position'))
    if form == 'by position':
        return [lifetime] + ([] if version is None else [version]), {}
    return [], dict(timeout=lifetime, **({} if version is None else {'version': version}))


@scenario('C24')
def publish(I):
    D = Disk(I, exists=I.pick('directory exists', (True, False)))
    version = I.pick('version', (None, 2))
    old = I.pick('old entry', (True, False))
    if old:
        D.put(K, OLD, version=version)
    D.put(OTHER, THEIRS, version=version)
    D.put(K, THEIRS, version=5)
    lifetime, until = I.pick('lifetime', ((None, 300), (60, 60), (0, 0)))
    a, k = calls(I, lifetime, version) if lifetime is not None else I.pick('no lifetime', (([], {'version': version}), ([None, version], {})))
    D.watch(K, version, (OLD, NEW) if old and until else (OLD, NEW, ABSENCE) if old else (NEW, ABSENCE))    # Replaced, it is there all the time.
    quiet(I, lambda: store(D, 'set', K, NEW, *a, **k), 'stored', 'a store in the file backend fails')
    D.fs.after = None
    D.clock.now += 0.5
    D.sound(K, version, (NEW,) if until else (ABSENCE,), 'stored')
    if until:
        D.clock.now += until - 1
        D.sound(K, version, (NEW,), 'lifetime')
        D.clock.now += 1
        D.sound(K, version, (ABSENCE,), 'lifetime')
    else:
        D.clock.now += 1
    D.sound(OTHER, version, (THEIRS,), 'stored')
    D.sound(K, 5, (THEIRS,), 'stored')


@scenario('C24')
def publish_if_absent(I):
    D = Disk(I)
    old = I.pick('old entry', (True, False))
    if old:
        D.put(K, OLD)
    D.watch(K, None, (OLD,) if old else (NEW, ABSENCE))
    r = quiet(I, lambda: store(D, 'add', K, NEW, 60), 'stored', 'a store in the file backend fails')
    D.fs.after = None
    I.require(I.truth(r) != old, 'stored', 'a conditional store does not tell whether it stored')
    D.sound(K, None, (OLD,) if old else (NEW,), 'stored')


@scenario('C24')
def failures(I):
    """Operation number n fails: nothing of it reaches the caller, and no part is published."""
    D = Disk(I, exists=I.pick('directory exists', (True, False)))
    old = I.pick('old entry', (True, False))
    if old:
        D.put(K, OLD)
    n = I.pick('operation that fails', range(OPS))
    D.fs.fail = (n,)
    allowed = (OLD, NEW, ABSENCE) if old else (NEW, ABSENCE)
    D.watch(K, None, allowed)
    r, e = attempt(I, lambda: store(D, 'set', K, NEW, 60))
    I.require(e is None, 'failures-stay-inside', 'a failure of the file system in %s reaches the caller of the store' % (D.fs.failed[0][0] if D.fs.failed else '?'),
              D.fs.failed[0][1] if D.fs.failed else None)
    D.fs.fail, D.fs.after = (), None
    D.sound(K, None, allowed)
    quiet(I, lambda: store(D, 'set', K, NEW, 60), 'failures-stay-inside', 'a store after a failed one fails')
    D.sound(K, None, (NEW,), 'failures-stay-inside')


@scenario('C24')
def interference(I):
    """Somebody else acts on the same entry just before operation number n."""
    D = Disk(I, exists=I.pick('directory exists', (True, False)))
    old = I.pick('old entry', (True, False))
    if old:
        D.put(K, OLD)
    n = I.pick('operation before which somebody acts', range(OPS))
    what = I.pick('what is done', ('set', 'set by another process', 'delete', 'clear'))
    allowed = [NEW, ABSENCE] + ([OLD] if old else []) + ([THEIRS] if 'set' in what else [])
    other = D.make()

    def act(i):
        if i == n:
            if 'set' in what:
                D.put(K, THEIRS, cache=other)
            elif what == 'delete':
                D.aside(lambda: I.call_method(other, 'delete', [K], {}))
            else:
                D.aside(lambda: I.call_method(other, 'clear', [], {}))
            D.sound(K, None, allowed)
    D.fs.hook = act
    D.watch(K, None, allowed)
    quiet(I, lambda: store(D, 'set', K, NEW, 60), 'failures-stay-inside', 'a store which others interfere with fails')
    D.fs.hook = D.fs.after = None
    r = D.sound(K, None, allowed)
    if 'set' in what:
        I.require(not same(r, ABSENCE) and not same(r, OLD), 'complete-or-nothing', 'of two concurrent stores none is there afterwards')


@scenario('C24', 'thorough')
def failure_and_interference(I):
    D = Disk(I)
    D.put(K, OLD)
    n = I.pick('operation that fails', range(OPS))
    m = I.pick('operation before which somebody acts', range(OPS))
    allowed = [OLD, NEW, ABSENCE, THEIRS]
    other = D.make()

    def act(i):
        if i == m:
            D.put(K, THEIRS, cache=other)
            D.sound(K, None, allowed)
    D.fs.hook, D.fs.fail = act, (n,)
    D.watch(K, None, allowed)
    quiet(I, lambda: store(D, 'set', K, NEW, 60), 'failures-stay-inside', 'a failure of the file system reaches the caller of the store')
    D.fs.hook = D.fs.after = None
    D.sound(K, None, allowed)


@scenario('C24')
def values_that_cannot_be_written(I):
    """The store of such a value may fail, but the entry stays what it was or is gone."""
    D = Disk(I)
    old = I.pick('old entry', (True, False))
    if old:
        D.put(K, OLD)
    bad = sym('value_that_cannot_be_pickled', object)
    D.fs.unpicklable = bad
    allowed = (OLD, ABSENCE) if old else (ABSENCE,)
    D.watch(K, None, allowed)
    attempt(I, lambda: store(D, 'set', K, bad, 60))
    D.fs.after = None
    D.sound(K, None, allowed)


@scenario('C24')
def housekeeping(I):
    """The removal of surplus entries, wherever it runs, leaves no parts and reaches no caller."""
    D = Disk(I)
    D.put(K, OLD)
    D.fs.full = I.pick('cache is full', (True, False))
    D.watch(K, None, (OLD, NEW, ABSENCE))
    quiet(I, lambda: store(D, 'set', K, NEW, 60), 'failures-stay-inside', 'a store in the file backend fails')
    D.fs.after = None
    while I.timers:
        t = I.timers.pop(0)
        r, e = D.aside(t.run)
        I.require(e is None, 'failures-stay-inside', 'the removal of surplus entries fails')
    D.sound(K, None, (NEW, ABSENCE) if D.fs.full else (NEW,))
