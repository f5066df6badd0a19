"""What the interpreter knows about Python's builtins and library: abstract transfer functions.

Pure container and iterator functions are applied to containers of abstract values directly; everything that yields
unknown data (time, randomness, identity of threads, digests, pickles) gives a provenance term.
"""
import ast
import base64
import binascii
import collections
import collections.abc
import dataclasses
import functools
import hashlib
import io
import itertools
import json
import math
import operator
import os
import pickle
import posixpath
import re
import string
import struct
import sys
import types
import zlib

from .program import ModInfo
from .values import *
from .values import _native

ABSENT_MODULES = ('thread', 'cPickle', 'StringIO', 'phased.utils', 'phased', 'six', '__builtin__', 'urlparse', 'Queue',
                  'django.template.base.builtins')
PURE = {'itertools', 'math', 'string', 're', 'numbers', 'calendar', 'keyword', 'textwrap', 'fnmatch', 'heapq', 'bisect'}
SILENT = {'logging', 'gc', 'traceback', 'faulthandler'}


class Obj(object):
    """Helper object of the library model."""


class NFn(Obj):
    binds = False

    def __init__(self, name, fn, binds=False):
        self.name, self.fn = name, fn
        self.__name__ = name
        self.binds = binds

    def __call__(self, *a, **k):
        return self.fn(*a, **k)

    def __repr__(self):
        return '<%s>' % self.name


class FrameFn(Obj):
    """Builtin which needs the frame of its caller."""
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, *a, **k):
        return self.fn(CUR[0].stack[-1], *a, **k)


class Curry(Obj):
    """functools.partial / curry."""
    def __init__(self, fn, args, kw):
        self.func, self.args, self.keywords = fn, tuple(args), dict(kw)

    def __call__(self, *a, **k):
        kw = dict(self.keywords)
        kw.update(k)
        return CUR[0].call(self.func, list(self.args) + list(a), kw)

    def __repr__(self):
        return '<partial %r%r>' % (self.func, self.args)


class PartialMethod(Obj):
    def __init__(self, fn, *args, **kw):
        self.fn, self.args, self.kw = fn, args, kw


class Cached(Obj):
    def __init__(self, fn):
        self.fn, self.name = fn, None


class HashObj(Model):
    def __init__(self, alg, data=b''):
        self._alg, self._parts = alg, [data]
        self.name = alg

    def update(self, data):
        self._parts.append(data)

    def _data(self):
        d = fmt(*self._parts)
        if any(isinstance(p, str) for p in self._parts):
            CUR[0].throw(TypeError('Strings must be encoded before hashing'))
        if isinstance(d, T) and d.ty is str and d.op != 'fmt':
            CUR[0].throw(TypeError('Strings must be encoded before hashing'))
        return d

    def hexdigest(self):
        d = self._data()
        if isinstance(d, bytes) and CUR[0].concrete:
            return hashlib.new(self._alg, d).hexdigest()
        return T('hex', (self._alg, d), str)

    def digest(self):
        return T('digest', (self._alg, self._data()), bytes)

    def copy(self):
        h = HashObj(self._alg)
        h._parts = list(self._parts)
        return h


class Code(Obj):
    def __init__(self, src, tree, mode):
        self.src, self.tree, self.mode = src, tree, mode


PRELUDE = {}
NODEFAULT = object()


class Field(Obj):
    def __init__(self, default=NODEFAULT, default_factory=None, init=True, **k):
        self.default, self.factory, self.init = default, default_factory, init


class PreludeRef(Obj):
    def __init__(self, name):
        self.name = name


class Auto(Obj):
    pass


class LocalBase(Model):
    """Base threading.local of an analysed class."""


class LocalModel(LocalBase):
    def __init__(self):
        object.__setattr__(self, '_d', {})

    def _ns(self):
        return object.__getattribute__(self, '_d').setdefault((CUR[0].process if False else None, CUR[0].thread), {})

    def __getattr__(self, name):
        try:
            return self._ns()[name]
        except KeyError:
            raise AttributeError(name)

    def __setattr__(self, name, v):
        CUR[0].events.append(('local', CUR[0].thread, name, CUR[0].loc()))
        self._ns()[name] = v

    def __delattr__(self, name):
        try:
            del self._ns()[name]
        except KeyError:
            raise AttributeError(name)


class LocalInst(Inst):
    """Instance of a subclass of threading.local: attributes per thread, __init__ called in each of them."""
    __slots__ = ('spaces', 'init')

    def __init__(self, cls, args, kw):
        self.spaces, self.init = {}, None
        Inst.__init__(self, cls)
        self.init = (list(args), dict(kw))

    @property
    def attrs(self):
        t = CUR[0].thread
        if t not in self.spaces:
            self.spaces[t] = {}
            i, c = CUR[0].class_find(self.cls.mro(), '__init__')
            if self.init is not None and isinstance(i, Fn):
                CUR[0].call(Bound(i, self), list(self.init[0]), dict(self.init[1]))
        return self.spaces[t]

    @attrs.setter
    def attrs(self, d):
        self.spaces[CUR[0].thread] = d


class LockModel(Model):
    """Lock, RLock and semaphores.

    A thread which would have to wait for a lock of a call that is still in progress is on a schedule that does not exist; if no such call
    holds the lock, nobody will ever release it.
    """
    def __init__(self, again=False, value=1, anyone=False):
        self.again, self.value, self.anyone = again, value, anyone
        self.holders = []

    def acquire(self, blocking=True, timeout=-1):
        I = CUR[0]
        me = (I.process, I.thread)
        root = I.stack[0] if I.stack else None
        if self.again and self.holders and self.holders[-1][0] == me or len(self.holders) < self.value:
            self.holders.append((me, root))
            return True
        if not I.truth(blocking) or timeout not in (-1, None):
            return False
        if any(h[0] != me and h[1] is root for h in self.holders):
            raise Infeasible()
        raise Diverges(I.loc())

    def release(self, n=1):
        I = CUR[0]
        me = (I.process, I.thread)
        if not self.holders:
            if self.anyone:
                self.value += 1
                return
            I.throw(RuntimeError('release unlocked lock'))
        if self.again and self.holders[-1][0] != me:
            I.throw(RuntimeError('cannot release un-acquired lock'))
        mine = [i for i, h in enumerate(self.holders) if h[0] == me]
        del self.holders[mine[-1] if mine else -1]

    def locked(self):
        return bool(self.holders)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class CondModel(LockModel):
    def __init__(self, lock=None):
        LockModel.__init__(self, True)
        if lock is not None:
            self.acquire, self.release, self.lock = lock.acquire, lock.release, lock

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def wait(self, timeout=None):
        if timeout is None:
            raise Infeasible()
        return False

    def wait_for(self, f, timeout=None):
        if not CUR[0].truth(CUR[0].call(f, [], {})):
            return self.wait(timeout)
        return True

    def notify(self, *a):
        return None

    notify_all = notifyAll = notify


class EventModel(Model):
    def __init__(self):
        self.is_ = False

    def set(self):
        self.is_ = True

    def clear(self):
        self.is_ = False

    def is_set(self):
        return self.is_

    isSet = is_set

    def wait(self, timeout=None):
        if not self.is_ and timeout is None:
            raise Infeasible()
        return self.is_


def path_parts(n, a):
    """Path functions on strings of which the directories are known; None if they are not."""
    if n == 'join' and len(a) == 2 and isinstance(a[0], str) and isinstance(a[1], T) and a[1].op == 'fmt' and isinstance(a[1].args[0], str) and not a[1].args[0].startswith('/'):
        return fmt(a[0], '' if a[0].endswith('/') else '/', a[1])
    if n in ('dirname', 'basename', 'split') and isinstance(a[0], T) and a[0].op == 'fmt':
        parts = a[0].args
        i = max([i for i, x in enumerate(parts) if isinstance(x, str) and '/' in x] or [-1])
        if i >= 0 and not any(isinstance(x, T) and x.op in ('sym', 'attr') for x in parts[i:]):
            d, _, b = parts[i].rpartition('/')
            r = fmt(*(tuple(parts[:i]) + (d,))), fmt(*((b,) + tuple(parts[i + 1:])))
            return {'dirname': r[0], 'basename': r[1], 'split': r}[n]
    return None


class ThreadModel(Model):
    """threading.Thread and threading.Timer."""
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None, delay=None):
        self.target, self.args, self.kwargs, self.delay = target, tuple(args), dict(kwargs or {}), delay
        self.daemon, self.name, self.started = daemon, name, False
        self.loc = CUR[0].loc()

    @property
    def interval(self):
        return self.delay

    def start(self):
        I = CUR[0]
        self.started = True
        I.timers.append(self)
        I.events.append(('thread', self, self.delay, I.loc()))

    def cancel(self):
        if self in CUR[0].timers:
            CUR[0].timers.remove(self)

    def run(self):
        return CUR[0].call(self.target, list(self.args), self.kwargs)

    def join(self, *a):
        I = CUR[0]
        if not self.started:
            I.throw(RuntimeError('cannot join thread before it is started'))
        if self in I.timers:
            I.timers.remove(self)
            old, I.thread = I.thread, 'of %s at %s' % (I.thread, self.loc)
            try:
                self.run()
            except RaiseSig:
                pass
            finally:
                I.thread = old

    def setDaemon(self, v):
        self.daemon = v

    def is_alive(self):
        return False

    @property
    def ident(self):
        return T('ident', (CUR[0].thread,), int)


class CurThread(Model):
    def __init__(self, name):
        self.tname = name
        self.name = T('tname', (name,), str)
        self.ident = T('ident', (name,), int)
        self.daemon = False

    def getName(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, CurThread) and o.tname == self.tname

    def __hash__(self):
        return hash(self.tname)


class RandModel(Model):
    """A random generator; after seeding with known data its numbers are not fresh."""
    def __init__(self, *a):
        self._seed = None
        self._n = 0
        if a and a[0] is not None:
            self.seed(*a)

    def _r(self, kind, lo, hi, ty=int):
        I = CUR[0]
        if self._seed is not None:
            self._n += 1
            return T('seeded', (kind, lo, hi, self._seed, self._n), ty)
        return T('rand', (kind, lo, hi, I.uid()), ty)

    def randrange(self, start, stop=None, step=1):
        return self._r('range', 0 if stop is None else start, start if stop is None else stop)

    def randint(self, a, b):
        return self._r('range', a, CUR[0].binop('+', b, 1))

    def random(self):
        return self._r('float', 0, 1, float)

    def getrandbits(self, k):
        return self._r('range', 0, 2 ** k if isinstance(k, int) else T('pow', (2, k), int))

    def choice(self, seq):
        return self._r('choice', tuple(seq), 1, None)

    def uniform(self, a, b):
        return self._r('float', a, b, float)

    def seed(self, a=None, version=2):
        self._seed = None if a is None or any(isinstance(x, T) and x.op == 'rand' for x in subterms(a)) else a


class SysRandModel(RandModel):
    def seed(self, *a, **k):
        return None


class UuidModel(Model):
    def __init__(self, kind):
        I = CUR[0]
        self._t = T('rand', ('range', 0, 2 ** 122, I.uid()), int) if kind == 4 else T('uuid1', (I.process, I.host, I.uid()), int)

    @property
    def hex(self):
        return fmt(self._t)

    @property
    def int(self):
        return self._t

    def __str__(self):
        return 'uuid'


class Snap(object):
    """Immutable snapshot of a value."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return show(self.v)


class Buf(Model):
    """StringIO / BytesIO."""
    def __init__(self, init='', newline=None):
        self._parts = [init] if init is not None else []
        self.closed = False

    def write(self, x):
        if self.closed:
            CUR[0].throw(ValueError('I/O operation on closed file'))
        self._parts.append(x)
        return None

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def getvalue(self):
        if self.closed:
            CUR[0].throw(ValueError('I/O operation on closed file'))
        return fmt(*self._parts)

    def read(self, *a):
        return self.getvalue()

    def flush(self):
        return None

    def close(self):
        self.closed = True

    def seek(self, *a):
        return 0

    def truncate(self, *a):
        self._parts = []
        return 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True


class CM(Model):
    """Context manager made from a generator."""
    def __init__(self, gen, again):
        self._gen, self._again = gen, again

    def __enter__(self):
        try:
            return next(self._gen)
        except StopIteration:
            CUR[0].throw(RuntimeError("generator didn't yield"))

    def __exit__(self, typ=None, value=None, tb=None):
        I = CUR[0]
        if typ is None:
            try:
                next(self._gen)
            except StopIteration:
                return False
            I.throw(RuntimeError("generator didn't stop"))
        try:
            self._gen.throw(value)
        except StopIteration:
            return True
        except RaiseSig as s:
            if s.value is value or isinstance(value, StopIteration) and getattr(s.value, '__cause__', None) is value:
                return False
            raise
        I.throw(RuntimeError("generator didn't stop after throw()"))

    def __call__(self, fn):
        I = CUR[0]

        def inner(*a, **k):
            cm = self._again()
            cm.__enter__()
            try:
                r = I.call(fn, list(a), k)
            except RaiseSig as s:
                if not cm.__exit__(type(s.value), s.value, None):
                    raise
                return None
            cm.__exit__(None, None, None)
            return r
        return NFn('inner', inner, True)


class Closing(Model):
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *a):
        CUR[0].call_method(self.thing, 'close', [])


class Suppress(Model):
    def __init__(self, *types):
        self.types = types

    def __enter__(self):
        return None

    def __exit__(self, typ, value, tb):
        return typ is not None and CUR[0].exc_isinstance(value, CUR[0].lib.exc_types(tuple(self.types)))


class NullCM(Model):
    def __init__(self, v=None):
        self.v = v

    def __enter__(self):
        return self.v

    def __exit__(self, *a):
        return None


class ExitStackM(Model):
    def __init__(self):
        self.cbs = []

    def __enter__(self):
        return self

    def callback(self, f, *a, **k):
        self.cbs.append(lambda *e: CUR[0].call(f, list(a), k) and False)
        return f

    def push(self, f):
        self.cbs.append(lambda *e: CUR[0].call(f, list(e), {}))
        return f

    def enter_context(self, cm):
        I = CUR[0]
        r = I.call_method(cm, '__enter__', [])
        self.cbs.append(lambda *e: I.call_method(cm, '__exit__', list(e)))
        return r

    def close(self):
        self.__exit__(None, None, None)

    def pop_all(self):
        n = ExitStackM()
        n.cbs, self.cbs = self.cbs, []
        return n

    def __exit__(self, typ, value, tb):
        I = CUR[0]
        pend = value
        while self.cbs:
            cb = self.cbs.pop()
            try:
                if I.truth(cb(None if pend is None else type(pend), pend, None)) and pend is not None:
                    pend = None
            except RaiseSig as s:
                pend = s.value
        if pend is not None and pend is not value:
            raise RaiseSig(pend, I.loc())
        return value is not None and pend is None


class Weak(Model):
    def __init__(self, o, cb=None):
        self.o = o

    def __call__(self):
        return self.o

    def __hash__(self):
        return hash(self.o)

    def __eq__(self, x):
        return isinstance(x, Weak) and x.o is self.o


class WeakDict(dict):
    """Does not keep its keys or values alive."""


class SubV(object):
    """Instance of an analysed class that inherits from a builtin container."""
    _cls = None


def rebuild(v, items, attrs):
    r = type(v).__new__(type(v))
    if isinstance(v, ASet):
        ASet.__init__(r, items, v.frozen)
    elif isinstance(v, (tuple, str)):
        r = v._base.__new__(type(v), *items) if hasattr(v, '_fields') or isinstance(v, str) else tuple.__new__(type(v), items)
    elif isinstance(v, dict):
        if isinstance(v, collections.defaultdict):
            r.default_factory = v.default_factory
        for x, y in items:
            dict.__setitem__(r, x, y)
    else:
        for x in items:
            v._base.append(r, x)
    r.__dict__.update(attrs)
    return r


def clone(v, memo=None):
    """Deep copy of mutable values, as by pickling."""
    if memo is None:
        memo = {}
    k = id(v)
    if isinstance(v, SubV):
        if k not in memo:
            items = [str(v)] if isinstance(v, str) else dict.items(v) if isinstance(v, dict) else v._base.__iter__(v)
            memo[k] = rebuild(v, [clone(x, memo) for x in items], {a: clone(b, memo) for a, b in v.__dict__.items()})
        return memo[k]
    if isinstance(v, (list, dict, ASet, Inst, collections.deque)):
        if k in memo:
            return memo[k]
        if isinstance(v, Inst):
            I = CUR[0]
            if isinstance(v.attrs.get('_enum'), Cls):
                return v
            g, gc = I.class_find(v.cls.mro(), '__reduce__')
            if isinstance(g, Fn):
                st = I.call_method(v, '__reduce__', [])
                if isinstance(st, str):
                    return v
                r = memo[k] = I.call(st[0], [clone(x, memo) for x in st[1]], {})
                if len(st) > 2 and st[2] is not None:
                    if I.type_attr(r, '__setstate__') is not None:
                        I.call_method(r, '__setstate__', [clone(st[2], memo)])
                    else:
                        r.attrs.update(clone(st[2], memo))
                return r
            g, gc = I.class_find(v.cls.mro(), '__getstate__')
            r = memo[k] = Inst(v.cls)
            if gc is not None and gc is not object:
                st = clone(I.call_method(v, '__getstate__', []), memo)
            else:
                st = {x: clone(y, memo) for x, y in v.attrs.items()}
            if isinstance(I.class_find(v.cls.mro(), '__setstate__')[0], Fn):
                I.call_method(r, '__setstate__', [st])
            elif isinstance(st, dict):
                r.attrs.update(st)
            return r
        if isinstance(v, list):
            r = memo[k] = []
            r.extend(clone(x, memo) for x in v)
        elif isinstance(v, collections.deque):
            r = memo[k] = collections.deque(maxlen=v.maxlen)
            r.extend(clone(x, memo) for x in v)
        elif isinstance(v, dict):
            r = memo[k] = collections.defaultdict(v.default_factory) if isinstance(v, collections.defaultdict) else \
                type(v)() if type(v).__module__ == 'collections' else {}
            for x, y in v.items():
                r[clone(x, memo)] = clone(y, memo)
        else:
            r = memo[k] = ASet([clone(x, memo) for x in v], v.frozen)
        return r
    if isinstance(v, tuple):
        if not any(isinstance(x, (tuple, list, dict, ASet, Inst)) for x in v):
            return v
        t = tuple(clone(x, memo) for x in v)
        return tuple.__new__(type(v), t) if hasattr(v, '_fields') else t
    return v


class ConstModule(Obj):
    def __init__(self, **kw):
        self.__dict__.update(kw)


EXC_NAMES = [n for n in dir(__builtins__ if isinstance(__builtins__, types.ModuleType) else types.SimpleNamespace(**__builtins__))]


class Lib(object):
    STR_METHODS = frozenset(('format', 'join', 'encode', 'decode', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace',
                             'split', 'rsplit', 'startswith', 'endswith', 'title', 'find', 'index', 'splitlines', 'isdigit', 'count',
                             'partition', 'rpartition', 'zfill', 'ljust', 'rjust', 'format_map', 'isspace', 'translate', 'rfind'))

    def __init__(self, I):
        self.I = I
        self.TYPE_ALIAS = {set: NFn('set', lambda x=(): ASet(self.elems(x))),
                           frozenset: NFn('frozenset', lambda x=(): ASet(self.elems(x), True)),
                           list: NFn('list', lambda x=(): list(I.each(x))),
                           tuple: NFn('tuple', lambda x=(): tuple(I.each(x))),
                           str: NFn('str', self.str_type), int: NFn('int', self.int_), float: NFn('float', self.float_),
                           bool: NFn('bool', lambda x=False: I.truth(x)), dict: NFn('dict', self.dict_),
                           type: NFn('type', self.type_), object: NFn('object', self.object_), bytes: NFn('bytes', self.bytes_),
                           property: Prop, staticmethod: Static, classmethod: ClsM,
                           super: FrameFn(self.super_)}
        self.b = self.make_builtins()
        self.models = self.make_models()
        self.ext_excs = {}
        self.term_attr_hook = None
        self.lru = {}

    # ---------------------------------------------------------------- builtins

    def builtin(self, name):
        if name in self.b:
            return self.b[name]
        self.I.throw(NameError("name '%s' is not defined" % name))

    def make_builtins(self):
        I = self.I
        import builtins
        b = {}
        for n in dir(builtins):
            v = getattr(builtins, n)
            if isinstance(v, type) and issubclass(v, BaseException) or n in ('None', 'True', 'False', 'NotImplemented', 'Ellipsis', '__debug__',
                                                                             'object', 'str', 'int', 'float', 'bool', 'bytes', 'list', 'dict',
                                                                             'set', 'frozenset', 'tuple', 'type', 'complex', 'range', 'slice',
                                                                             'enumerate', 'zip', 'map', 'filter', 'reversed',
                                                                             'bytearray', 'super'):
                b[n] = v
        b['property'], b['staticmethod'], b['classmethod'] = Prop, Static, ClsM
        for n in ('super',):
            b[n] = FrameFn(self.super_)
        b['zip'] = NFn('zip', lambda *a: zip(*[I.iterate(x) for x in a]))
        b['map'] = NFn('map', lambda f, *a: map(lambda *x: I.call(f, list(x), {}), *[I.iterate(x) for x in a]))
        b['filter'] = NFn('filter', lambda f, a: filter(lambda x: I.truth(x if f is None else I.call(f, [x], {})), I.iterate(a)))
        b['enumerate'] = NFn('enumerate', lambda a, start=0: enumerate(I.iterate(a), start))
        b['reversed'] = NFn('reversed', lambda a: I.call_method(a, '__reversed__', []) if isinstance(a, Inst) else reversed(list(a) if isinstance(a, type({}.values())) else a))
        b['len'] = NFn('len', self.len_)
        b['isinstance'] = NFn('isinstance', self.isinstance_)
        b['issubclass'] = NFn('issubclass', self.issubclass_)
        b['getattr'] = NFn('getattr', self.getattr_)
        b['hasattr'] = NFn('hasattr', self.hasattr_)
        b['setattr'] = NFn('setattr', lambda o, n, v: I.setattr(o, n, v))
        b['delattr'] = NFn('delattr', lambda o, n: I.delattr(o, n))
        b['callable'] = NFn('callable', self.callable_)
        b['iter'] = NFn('iter', self.iter_)
        b['next'] = NFn('next', self.next_)
        b['repr'] = NFn('repr', self.repr_)
        b['ascii'] = b['repr']
        b['format'] = NFn('format', lambda v, s='': self.format_(v, s))
        b['hash'] = NFn('hash', self.hash_)
        b['id'] = NFn('id', lambda o: T('id', (o.tag if isinstance(o, Inst) else id(o),), int))
        b['any'] = NFn('any', lambda xs: any(I.truth(x) for x in I.each(xs)))
        b['all'] = NFn('all', lambda xs: all(I.truth(x) for x in I.each(xs)))
        b['sum'] = NFn('sum', self.sum_)
        b['sorted'] = NFn('sorted', lambda xs, key=None, reverse=False: sorted(I.each(xs), key=key, reverse=I.truth(reverse)))
        b['min'] = NFn('min', lambda *a, **k: self.minmax('<', a, k))
        b['max'] = NFn('max', lambda *a, **k: self.minmax('>', a, k))
        b['abs'] = NFn('abs', lambda x: I.binop('-', 0, x) if I.compare('<', x, 0) else x)
        b['round'] = NFn('round', lambda x, n=None: T('round', (x, n), float) if isinstance(x, T) else (round(x) if n is None else round(x, n)))
        b['divmod'] = NFn('divmod', lambda x, y: (I.binop('//', x, y), I.binop('%', x, y)))
        b['pow'] = NFn('pow', lambda x, y, *z: T('pow', (x, y), int) if isinstance(x, T) or isinstance(y, T) else pow(x, y, *z))
        b['ord'] = NFn('ord', lambda c: T('ord', (c,), int) if isinstance(c, T) else ord(c))
        b['chr'] = NFn('chr', lambda c: T('chr', (c,), str) if isinstance(c, T) else chr(c))
        for n in ('hex', 'oct', 'bin'):
            b[n] = NFn(n, lambda x, f=getattr(builtins, n), n=n: T('base', (n, x), str) if isinstance(x, T) else f(x))
        b['print'] = NFn('print', self.print_)
        b['vars'] = NFn('vars', lambda o: I.getattr(o, '__dict__'))
        b['dir'] = NFn('dir', self.dir_)
        b['locals'] = FrameFn(lambda fr: fr.vars)
        b['globals'] = FrameFn(lambda fr: fr.mod.ns)
        b['__import__'] = NFn('__import__', self.import_)
        b['open'] = NFn('open', lambda *a, **k: self.ext_call('open', a, k))
        b['input'] = NFn('input', lambda *a: sym('input', str))
        b['compile'] = NFn('compile', self.compile_)
        b['eval'] = FrameFn(self.eval_)
        b['exec'] = FrameFn(self.exec_)
        b['memoryview'] = NFn('memoryview', lambda x: x)
        b['__name__'] = 'builtins'
        b['complex'] = complex
        return b

    def elems(self, x):
        out = list(self.I.each(x))
        for e in out:
            self.I.hashable(e)
        return out

    def super_(self, fr, cls=None, obj=None):
        if cls is None:
            if fr.cell is None or fr.cell[0] is None:
                self.I.throw(RuntimeError('super(): no arguments'))
            f = fr
            while f.selfv is None and f.parent is not None:
                f = f.parent
            return SuperV(fr.cell[0], f.selfv, fr.cell[0])
        if not isinstance(cls, (Cls, type)) and not getattr(cls, 'is_class', False) and (cls is None or isinstance(cls, (bool, int, str, float, Inst, tuple, list, dict))):
            self.I.throw(TypeError('super() argument 1 must be type, not %s' % type(cls).__name__))
        return SuperV(cls, obj, cls)

    def len_(self, x):
        if isinstance(x, T):
            return T('len', (x,), int)
        if isinstance(x, Inst):
            m = self.I.type_attr(x, '__len__')
            if m is None:
                self.I.throw(TypeError('object has no len()'))
            return self.I.call(m, [], {})
        return len(x)

    def isinstance_(self, v, c):
        I = self.I
        if isinstance(c, tuple):
            return any(self.isinstance_(v, x) for x in c)
        if isinstance(c, Cls):
            if isinstance(v, Inst):
                return any(x is c for x in v.cls.mro())
            if isinstance(v, SubV):
                return any(x is c for x in v._cls.mro())
            if isinstance(v, T) and v.ty is None and v.op != 'fmt':
                if v.opt and I.is_none(v):
                    return False
                return I.decide(T('isinst', (v, c.qual)))
            if isinstance(v, Model):
                return any(x == c.name for x in getattr(v, 'ifaces', ()))
            return False
        if isinstance(c, type):
            if c is object:
                return True
            if isinstance(v, T):
                if v.opt and I.is_none(v):
                    return c is type(None)
                if v.op == 'fmt':
                    return issubclass(str, c)
                if v.ty is not None:
                    return issubclass(v.ty, c) and not (v.ty is object)
                if c.__module__ == 'collections.abc' or c in (type(None),):
                    return False
                return I.decide(T('isinst', (v, c.__name__)))
            if isinstance(v, ASet):
                return c is (frozenset if v.frozen else set) or c.__module__ == 'collections.abc' and issubclass(frozenset if v.frozen else set, c)
            if isinstance(v, Inst):
                if any(x is c for x in v.cls.mro()):
                    return True
                if c.__module__ == 'collections.abc':
                    need = {'Callable': ['__call__'], 'Iterable': ['__iter__'], 'Iterator': ['__iter__', '__next__'], 'Hashable': [],
                            'Sized': ['__len__'], 'Container': ['__contains__'], 'Mapping': None, 'Sequence': None, 'Set': None}.get(c.__name__)
                    return need is not None and all(I.type_attr(v, n) is not None for n in need)
                return any(isinstance(x, type) and x is not object and issubclass(x, c) for x in v.cls.mro())
            if isinstance(v, (Fn, Bound, Cls, NFn, Curry)):
                if c is type:
                    return isinstance(v, Cls)
                if c is types.FunctionType:
                    return isinstance(v, Fn)
                if c is types.MethodType:
                    return isinstance(v, Bound)
                if c is functools.partial:
                    return isinstance(v, Curry)
                return c.__module__ == 'collections.abc' and c.__name__ in ('Callable', 'Hashable')
            if isinstance(v, Model) and c in getattr(v, 'pytypes', ()):
                return True
            if isinstance(v, Model) and c.__module__ == 'collections.abc':
                return c.__name__ == 'Callable' and hasattr(type(v), '__call__') or c.__name__ == 'Iterable' and hasattr(type(v), '__iter__')
            return isinstance(v, c)
        if isinstance(c, T):
            if isinstance(v, Inst):
                return any(x == c for x in v.cls.mro() if isinstance(x, T))
            if isinstance(v, T):
                return I.decide(T('isinst', (v, c)))
            return False
        if isinstance(c, (Model, NFn)):
            if isinstance(c, NFn):
                for k, f in self.TYPE_ALIAS.items():
                    if f is c:
                        return self.isinstance_(v, k)
            return False
        I.throw(TypeError('isinstance() arg 2 must be a type or tuple of types'))

    def issubclass_(self, a, b):
        if isinstance(b, tuple):
            return any(self.issubclass_(a, x) for x in b)
        if isinstance(a, Cls):
            return any(x is b for x in a.mro()) or isinstance(b, type) and any(isinstance(x, type) and issubclass(x, b) for x in a.mro())
        if isinstance(a, type) and isinstance(b, type):
            return issubclass(a, b)
        if isinstance(a, type) and isinstance(b, Cls):
            return False
        self.I.throw(TypeError('issubclass() arg 1 must be a class'))

    def getattr_(self, o, name, *default):
        I = self.I
        if default and isinstance(o, T) and o.op != 'ext' and name not in self.STR_METHODS:
            if not self.hasattr_(o, name):
                return default[0]
        try:
            return I.getattr(o, name)
        except RaiseSig as s:
            if default and I.exc_isinstance(s.value, AttributeError):
                return default[0]
            raise

    def hasattr_(self, o, name):
        I = self.I
        if isinstance(o, T) and o.op != 'ext':
            if o.opt and I.is_none(o):
                return False
            if o.ty is not None and o.ty is not object:
                return hasattr(o.ty, name)
            return I.decide(T('hasattr', (o, name)))
        try:
            I.getattr(o, name)
            return True
        except RaiseSig as s:
            if I.exc_isinstance(s.value, AttributeError):
                return False
            raise

    def callable_(self, v):
        I = self.I
        if isinstance(v, (Fn, Bound, Cls, NFn, Curry, FrameFn, type)):
            return True
        if isinstance(v, Inst):
            return I.type_attr(v, '__call__') is not None
        if isinstance(v, T):
            if v.op == 'ext':
                return True
            if v.ty is not None:
                return False
            if v.opt and I.is_none(v):
                return False
            return I.decide(T('callable', (v,)))
        return callable(v)

    def iter_(self, v, sentinel=None):
        I = self.I
        if sentinel is not None:
            def gen():
                while True:
                    x = I.call(v, [], {})
                    if I.eq(x, sentinel):
                        return
                    yield x
            return gen()
        if isinstance(v, Inst):
            m = I.type_attr(v, '__iter__')
            if m is not None:
                return I.call(m, [], {})
        return I.iterate(v)

    def next_(self, it, *default):
        I = self.I
        try:
            if isinstance(it, Inst):
                return I.call_method(it, '__next__', [])
            if isinstance(it, T):
                return T('next', (it, I.uid()))
            return next(it)
        except StopIteration:
            if default:
                return default[0]
            raise
        except RaiseSig as s:
            if default and isinstance(s.value, StopIteration):
                return default[0]
            raise

    def hash_(self, x):
        self.I.hashable(x)
        return T('hash', (x,), int)

    def sum_(self, xs, start=0):
        for x in self.I.each(xs):
            start = self.I.binop('+', start, x)
        return start

    def minmax(self, op, a, k):
        I = self.I
        xs = list(I.each(a[0])) if len(a) == 1 else list(a)
        if not xs:
            if 'default' in k:
                return k['default']
            I.throw(ValueError('arg is an empty sequence'))
        key = k.get('key')
        best = xs[0]
        for x in xs[1:]:
            p, q = (x, best) if key is None else (I.call(key, [x], {}), I.call(key, [best], {}))
            if I.compare(op, p, q):
                best = x
        return best

    def dir_(self, o=None):
        if isinstance(o, Inst):
            r = set(o.attrs)
            for c in o.cls.mro():
                r |= set(c.ns) if isinstance(c, Cls) else set(vars(c)) if isinstance(c, type) else set()
            return sorted(r)
        return sorted(vars(o)) if hasattr(o, '__dict__') else []

    def print_(self, *a, sep=' ', end='\n', file=None, flush=False):
        if file is not None:
            out = []
            for i, x in enumerate(a):
                out += [sep] * bool(i) + [x]
            for x in out + [end]:
                self.I.call_method(file, 'write', [self.str_type(x)])

    def import_(self, name, *a, **k):
        self.I.events.append(('import', name, self.I.loc()))
        if isinstance(name, T):
            h = self.models.get('builtins.__import__') or self.I.ext.get('builtins.__import__')
            if h is not None:
                return h(name)
            return T('ext', ('module',))
        return self.I.import_module(name)

    def find_file(self, name, path=None):
        for d in I_each(self.I, path or ()):
            if self.file_in(d, name):
                return (None, d + '/' + name + '.py', ('.py', 'r', 1))
        self.I.throw(ImportError("No module named '%s'" % name))

    def file_in(self, d, name):
        return d.strip('/') + '/' + name in self.I.src.files or d.startswith('/project/') and d[9:].replace('/', '.') + '.' + name in self.I.project

    def find_spec(self, name, package=None):
        I = self.I
        parent, _, last = name.rpartition('.')
        if not parent:
            found = last in I.src.mods or last in I.project and I.project[last] is not None or not I.ours(last)
        else:
            found = self.has_submodule(I.import_module(parent), last)
        return T('ext', ('spec', name)) if found else None

    def has_submodule(self, package, name):
        from .engine import ModV
        return isinstance(package, ModV) and any(self.file_in(d, name) for d in package.ns.get('__path__') or ())

    def iter_modules(self, path=None, prefix=''):
        I, out = self.I, []
        for d in I_each(I, path or ()):
            for n, info in I.project.items():
                if info is not None and n.rpartition('.')[0] == d[9:].replace('/', '.'):
                    out.append((None, prefix + n.rpartition('.')[2], info.ispkg))
        return out

    def compile_(self, src, filename='<string>', mode='exec', *a, **k):
        if isinstance(src, bytes):
            src = src.decode('utf8')
        if not isinstance(src, str):
            return T('code', (src,), object)
        return Code(src, ast.parse(src, filename, mode), mode)

    def eval_(self, fr, code, g=None, l=None, mode='eval'):
        I = self.I
        I.events.append(('eval', code, g, l, I.loc()))
        h = I.ext.get('builtins.eval')
        if h is not None:
            h(code, g, l)
        if isinstance(code, (str, bytes)):
            code = self.compile_(code.lstrip() if mode == 'eval' else code, '<string>', mode)
        if not isinstance(code, Code):
            return None
        if g is None:
            g, l = fr.mod.ns, (fr.vars if l is None else l)
        elif l is None:
            l = g
        from .engine import ModV
        info = type('Info', (), dict(name='<string>', path='<string>', tree=code.tree, ispkg=False))
        m = ModV('<string>', info)
        m.ns = g
        f = Frame(l, None, m, None, 'class')
        if code.mode == 'eval':
            return I.in_frame(f, lambda: I.eval(code.tree.body, f))
        I.in_frame(f, lambda: I.exec_block(code.tree.body, f))
        return None

    def exec_(self, fr, code, g=None, l=None):
        self.eval_(fr, code, g, l, 'exec')
        return None

    def dict_(self, *a, **k):
        I = self.I
        d = {}
        if a:
            x = a[0]
            if isinstance(x, dict):
                d.update(x)
            elif isinstance(x, Inst) and I.class_find(x.cls.mro(), 'keys')[1] is not None:
                for y in I.each(I.call_method(x, 'keys', [])):
                    d[y] = I.call_method(x, '__getitem__', [y])
            else:
                for p in I.each(x):
                    kk, v = list(I.each(p))
                    I.hashable(kk)
                    d[kk] = v
        d.update(k)
        return d

    def type_(self, o, bases=None, ns=None):
        if bases is not None:
            return self.I.finish_class(Cls(o, ns.get('__module__', '?'), None, [self.base(x) for x in bases], dict(ns), o))
        if isinstance(o, Inst):
            return o.cls
        if isinstance(o, SubV):
            return o._cls
        if isinstance(o, ASet):
            return frozenset if o.frozen else set
        if isinstance(o, T):
            if o.op == 'fmt':
                return str
            return o.ty if o.ty is not None else T('typeof', (o,))
        if isinstance(o, Cls):
            return type
        return type(o)

    def object_(self):
        c = self.models.setdefault('~object', Cls('object', 'builtins', None, [object], {}, 'object'))
        return Inst(c)

    def object_new(self, cls, *a, **k):
        if not isinstance(cls, Cls):
            return self.I.call(cls, list(a), k)
        if type in cls.mro():
            return Cls(a[0], a[2].get('__module__', '?'), None, [self.base(x) for x in a[1]], dict(a[2]), a[0])
        b = self.native_base(cls)
        if b is not None:
            return self.native_new(cls, b, a, k)
        o = Inst(cls)
        if any(isinstance(b, type) and issubclass(b, BaseException) for b in cls.mro()):
            o.attrs['args'] = tuple(a)
        return o

    def singledispatch(self, f):
        I = self.I
        table = {}

        def call(*a, **k):
            t = self.type_(a[0])
            for c in (t.mro() if isinstance(t, Cls) else t.__mro__ if isinstance(t, type) else ()):
                if c in table:
                    return I.call(table[c], list(a), k)
            return I.call(f, list(a), k)

        d = NFn(getattr(f, 'name', 'singledispatch'), call)

        def register(c, g=None):
            if g is None:
                return NFn('register', lambda g: register(c, g))
            table[self.base(c)] = g
            return g

        d.register = NFn('register', register)
        return d

    def total_ordering(self, c):
        I = self.I
        roots = [n for n in ('__lt__', '__le__', '__gt__', '__ge__') if n in c.ns]
        if not roots:
            I.throw(ValueError('must define at least one ordering operation: < > <= >='))
        root = c.ns[roots[0]]
        less, strict = roots[0] in ('__lt__', '__le__'), roots[0] in ('__lt__', '__gt__')

        def derived(want_less, want_strict):
            def f(a, b):
                r = I.call(Bound(root, a), [b], {})
                if r is NotImplemented:
                    return r
                if want_less == less:
                    if want_strict == strict:
                        return r
                    return I.truth(r) or I.eq(a, b) if strict else I.truth(r) and not I.eq(a, b)
                if want_strict == strict:
                    return not I.truth(r) and not I.eq(a, b) if strict else not I.truth(r) or I.eq(a, b)
                return not I.truth(r)
            return f
        for n, l, st in (('__lt__', True, True), ('__le__', True, False), ('__gt__', False, True), ('__ge__', False, False)):
            if n not in c.ns:
                g = NFn(n, derived(l, st))
                g.binds = True
                c.ns[n] = g
        return c

    CONTAINERS = (dict, list, tuple, str, set, frozenset, collections.deque)

    def native_base(self, cls):
        for b in cls.mro():
            if isinstance(b, type) and not issubclass(b, (Model, BaseException)) and b is not object \
                    and b.__module__ not in ('collections.abc', 'abc', 'typing'):
                if not issubclass(b, self.CONTAINERS):
                    raise AnalysisError('class %s inherits from %s' % (cls.qual, b.__name__))
                return b
        return None

    def native_new(self, cls, base, a, k):
        """An instance of an analysed class which inherits from a container: a real subclass of the container."""
        I = self.I
        t = cls.ns.get('~type')
        if t is None:
            real = ASet if base in (set, frozenset) else base
            ns = {'_cls': cls, '_base': real, '__hash__': real.__hash__}

            def special(n, f):
                return _native(lambda o, *x: I.call(Bound(f, o), list(x), {}))
            for c in reversed(cls.mro()):
                if isinstance(c, Cls):
                    for n, f in c.ns.items():
                        if n.startswith('__') and n.endswith('__') and isinstance(f, Fn) and n not in (
                                '__new__', '__init__', '__getattr__', '__setattr__', '__delattr__', '__getattribute__', '__init_subclass__',
                                '__copy__', '__deepcopy__', '__reduce__', '__getstate__', '__setstate__', '__class_getitem__'):
                            ns[n] = special(n, f)
            t = cls.ns['~type'] = type(cls.name, (SubV, real), ns)
        if base in (set, frozenset):
            o = t.__new__(t)
            ASet.__init__(o, self.elems(a[0]) if a and base is frozenset else (), base is frozenset)
            return o
        if issubclass(base, tuple):
            return I.native(base.__new__, [t] + ([tuple(I.each(a[0]))] if a and base is tuple else list(a)), k)
        if base is str:
            v = self.str_type(*a)
            if not isinstance(v, str):
                raise AnalysisError('class %s inherits from str' % cls.qual)
            return str.__new__(t, v)
        return base.__new__(t)

    def native_init(self, o, a, k):
        b = o._base
        if b is ASet:
            if not o.frozen:
                ASet.__init__(o, self.elems(a[0]) if a else (), False)
        elif b is dict:
            dict.update(o, self.dict_(*a, **k))
        elif b is list or b is collections.deque:
            self.I.native(b.__init__, [o] + [list(self.I.each(x)) for x in a[:1]] + list(a[1:]), k)
        elif not issubclass(b, (tuple, str)):
            self.I.native(b.__init__, [o] + list(a), k)

    def sub_getattr(self, o, name):
        I = self.I
        v, c = I.class_find(o._cls.mro(), name)
        if isinstance(c, Cls) and isinstance(v, Prop):
            return I.bind(v, o, o._cls, c)
        if name in o.__dict__:
            return o.__dict__[name]
        if isinstance(c, Cls):
            return I.bind(v, o, o._cls, c)
        if name == '__class__':
            return o._cls
        if name == '__dict__':
            return o.__dict__
        if hasattr(o._base, name) and name not in ('_base', '_cls'):
            return self.sub_native(o, name)
        g, c = I.class_find(o._cls.mro(), '__getattr__')
        if isinstance(g, Fn):
            return I.call(Bound(g, o), [name], {})
        I.throw(AttributeError("'%s' object has no attribute '%s'" % (o._cls.name, name)))

    def sub_native(self, o, name):
        if name == '__init__':
            return NFn(name, lambda *a, **k: self.native_init(o, a, k))
        if name == '__setattr__':
            return NFn(name, lambda n, v: o.__dict__.__setitem__(n, v))
        r = getattr(super(type(o), o), name) if False else self.I.native(lambda: getattr(o._base, name).__get__(o, type(o))
                                                                     if hasattr(getattr(o._base, name), '__get__') else getattr(o._base, name), [], {})
        if isinstance(r, (int, str, tuple, type(None))):
            return r
        if name in ('extend', '__iadd__', 'update', '__ior__'):
            return NFn(name, lambda *a, **k: r(*[list(self.I.each(x)) if not isinstance(x, dict) else x for x in a], **k))
        if name in vars(o._base) and isinstance(vars(o._base)[name], property):
            return vars(o._base)[name].fget(o)
        return NFn(name, r)

    # classes built by decorators and base classes of the library

    def prelude(self, name):
        I = self.I
        if not hasattr(self, '_prelude'):
            path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'prelude.py')
            if 'tree' not in PRELUDE:
                with open(path) as f:
                    PRELUDE['tree'] = ast.parse(f.read(), path)
            self._prelude = I.load_module('~prelude', ModInfo('~prelude', 'prelude.py', PRELUDE['tree'], False))
            for n in ('Mapping', 'MutableMapping'):
                c = self._prelude.ns[n]
                c.bases = [b for b in c.bases if b is not object] + [getattr(collections.abc, n)]
                c._mro = None
            self._prelude.ns['UserDict']._mro = None
        return self._prelude.ns[name]

    def fields_of(self, c):
        """Annotated names of a class body, in order, with their defaults."""
        out = {}
        for b in reversed(c.mro()):
            if isinstance(b, Cls) and b.node is not None:
                for st in b.node.body:
                    if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and 'ClassVar' not in ast.dump(st.annotation):
                        out[st.target.id] = b.ns.get(st.target.id, NODEFAULT)
        return out

    def dataclass(self, c=None, **opts):
        I = self.I
        if c is None:
            return NFn('dataclass', lambda c: self.dataclass(c, **opts))
        fs = self.fields_of(c)
        c.ns['~fields'] = fs
        for n, d in fs.items():
            if isinstance(d, Field):
                if d.default is NODEFAULT:
                    c.ns.pop(n, None)
                else:
                    c.ns[n] = d.default

        def init(o, *a, **k):
            names = [n for n in fs if not (isinstance(fs[n], Field) and not fs[n].init)]
            if len(a) > len(names) or set(k) - set(names[len(a):]):
                I.throw(TypeError('%s.__init__() got unexpected arguments' % c.name))
            vals = dict(zip(names, a), **k)
            for n, d in fs.items():
                if n in vals:
                    v = vals[n]
                elif isinstance(d, Field):
                    if d.factory is not None:
                        v = I.call(d.factory, [], {})
                    elif d.default is NODEFAULT:
                        I.throw(TypeError("missing argument: '%s'" % n))
                    else:
                        v = d.default
                elif d is NODEFAULT:
                    I.throw(TypeError("missing argument: '%s'" % n))
                else:
                    v = d
                o.attrs[n] = v
            if I.type_attr(o, '__post_init__') is not None:
                I.call_method(o, '__post_init__', [])

        def eq(a, b):
            return NotImplemented if not isinstance(b, Inst) or b.cls is not a.cls else \
                I.eq(tuple(a.attrs.get(n) for n in fs), tuple(b.attrs.get(n) for n in fs))

        def order(op):
            return lambda a, b: I.compare(op, tuple(a.attrs.get(n) for n in fs), tuple(b.attrs.get(n) for n in fs))

        def frozen(o, n, v=None):
            I.throw(dataclasses.FrozenInstanceError("cannot assign to field '%s'" % n))
        made = {'__init__': init, '__eq__': eq, '__ne__': lambda a, b: NotImplemented if eq(a, b) is NotImplemented else not eq(a, b),
                '__repr__': lambda o: '%s(%s)' % (c.name, ', '.join('%s=%s' % (n, show(o.attrs.get(n))) for n in fs))}
        if opts.get('order'):
            made.update((n, order(op)) for n, op in (('__lt__', '<'), ('__le__', '<='), ('__gt__', '>'), ('__ge__', '>=')))
        if opts.get('frozen') or opts.get('unsafe_hash'):
            made['__hash__'] = lambda o: hash(tuple(o.attrs.get(n) for n in fs))
        if opts.get('frozen'):
            made['__setattr__'] = frozen
        for n, f in made.items():
            if n not in c.ns:
                c.ns[n] = NFn(n, f, True)
        return c

    def object_method(self, v, owner):
        I = self.I
        n = v.__name__

        def f(selfv, *a, **k):
            if n == '__init__':
                if issubclass(owner, BaseException):
                    selfv.attrs['args'] = tuple(a)
                return None
            if n == '__setattr__':
                return I.setattr_default(selfv, *a)
            if n == '__delattr__':
                return I.delattr_default(selfv, *a)
            if n == '__getattribute__':
                g = I.class_find(selfv.cls.mro(), '__getattr__')
                v2, c2 = I.class_find(selfv.cls.mro(), a[0])
                if isinstance(v2, Prop):
                    return I.bind(v2, selfv, selfv.cls, c2)
                if a[0] in selfv.attrs:
                    return selfv.attrs[a[0]]
                if a[0] == '__dict__':
                    return selfv.attrs
                if a[0] == '__class__':
                    return selfv.cls
                if c2 is not None and c2 is not object:
                    return I.bind(v2, selfv, selfv.cls, c2)
                I.throw(AttributeError(a[0]))
            if n == '__new__':
                return self.object_new(selfv, *a, **k)
            if n == '__eq__':
                return True if selfv is a[0] else NotImplemented
            if n == '__ne__':
                return NotImplemented if selfv is not a[0] else False
            if n == '__hash__':
                return T('hash', (selfv,), int)
            if n in ('__repr__', '__str__'):
                return T('repr', (selfv,), str)
            if n == 'with_traceback':
                return selfv
            if n in ('__init_subclass__', '__subclasshook__'):
                return None
            if n in ('__reduce__', '__reduce_ex__'):
                return (selfv.cls, (), dict(selfv.attrs))
            if n == '__format__':
                return self.format_(selfv, *a)
            if n == '__sizeof__':
                return 64
            if n == '__dir__':
                return self.dir_(selfv)
            if n == '__getstate__':
                return selfv.attrs
            if owner.__module__ == 'collections.abc':
                return I.native(v, [selfv] + list(a), k)
            raise AnalysisError('%s.%s' % (owner.__name__, n))
        f.__name__ = n
        return f

    # ---------------------------------------------------------------- text

    def str_type(self, x='', *enc):
        if enc and (isinstance(x, bytes) or isinstance(x, T) and x.ty is bytes):
            return self.str_method(x, 'decode', enc, {})
        return self.str_(x)

    def bytes_(self, x=b'', *enc):
        if enc:
            return self.str_method(x, 'encode', enc, {})
        return x if isinstance(x, (bytes, T)) else bytes(x)

    def str_(self, x):
        I = self.I
        if isinstance(x, T):
            if x.opt and I.is_none(x):
                return 'None'
            return fmt(x)
        if isinstance(x, Inst):
            m = I.type_attr(x, '__str__') or I.type_attr(x, '__repr__')
            if m is not None and not isinstance(m.fn if hasattr(m, 'fn') else m, types.FunctionType):
                return I.call(m, [], {})
            if 'args' in x.attrs:
                a = x.attrs['args']
                return self.str_(a[0]) if len(a) == 1 else self.str_(a) if a else ''
            return fmt(T('repr', (x.tag,), str))
        if isinstance(x, BaseException):
            a = x.args
            return '' if not a else self.repr_(a[0]) if isinstance(x, KeyError) and len(a) == 1 else self.str_(a[0]) if len(a) == 1 else self.str_(tuple(a))
        if x is None or isinstance(x, (str, int, float, bool, bytes)):
            return str(x)
        if isinstance(x, (tuple, list, dict, ASet)):
            return self.repr_(x)
        return T('repr', (show(x),), str)

    def repr_(self, x):
        if isinstance(x, T):
            return T('repr', (x,), str)
        if isinstance(x, Inst):
            m = self.I.type_attr(x, '__repr__')
            if isinstance(m, Bound):
                return self.I.call(m, [], {})
            return T('repr', (x.tag,), str)
        if isinstance(x, (tuple, list)):
            ps = ['(' if isinstance(x, tuple) else '[']
            for i, y in enumerate(x):
                if i:
                    ps.append(', ')
                ps.append(self.repr_(y))
            if isinstance(x, tuple) and len(x) == 1:
                ps.append(',')
            ps.append(')' if isinstance(x, tuple) else ']')
            return fmt(*ps)
        if isinstance(x, dict):
            ps = ['{']
            for i, (k, v) in enumerate(x.items()):
                ps += [', ' if i else '', self.repr_(k), ': ', self.repr_(v)]
            return fmt(*(ps + ['}']))
        if isinstance(x, ASet):
            return T('repr', (tuple(x),), str)
        if x is None or isinstance(x, (str, int, float, bool, bytes)):
            return repr(x)
        if isinstance(x, BaseException):
            return fmt(type(x).__name__, '(', self.repr_(tuple(x.args))[1:-1].rstrip(',') if all(isinstance(y, (str, int, float, type(None))) for y in x.args) else T('repr', (tuple(x.args),), str), ')')
        return T('repr', (show(x),), str)

    def format_(self, x, spec=''):
        if spec == '' or spec is None:
            if isinstance(x, Inst) and self.I.type_attr(x, '__format__') is not None and isinstance(self.I.type_attr(x, '__format__'), Bound):
                return self.I.call_method(x, '__format__', [''])
            return self.str_(x)
        if isinstance(x, (T, Inst)) or isinstance(spec, T):
            if spec in ('s', 'd'):
                return self.str_(x)
            return T('format', (x if isinstance(x, T) else self.str_(x), spec), str)
        return format(x, spec)

    def percent(self, f, args):
        if isinstance(f, T):
            fl = f.args if f.op == 'fmt' else (f,)
        else:
            fl = (f,)
        mapping = args if isinstance(args, (dict, Inst)) and not isinstance(args, tuple) else None
        rest = list(args) if isinstance(args, tuple) else [args]
        out, used = [], 0
        for piece in fl:
            if not isinstance(piece, str):
                out.append(piece)
                continue
            pos = 0
            for m in re.finditer(r'%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\d+))?([a-zA-Z%])', piece):
                out.append(piece[pos:m.start()])
                pos = m.end()
                conv = m.group(5)
                if conv == '%':
                    out.append('%')
                    continue
                if m.group(1):
                    x = self.I.getitem(mapping, m.group(1))
                    used = len(rest)
                else:
                    if used >= len(rest):
                        self.I.throw(TypeError('not enough arguments for format string'))
                    x = rest[used]
                    used += 1
                if conv == 'r':
                    x = self.repr_(x)
                if conv in 'dif' and isinstance(x, str) or conv in 'dif' and x is None:
                    self.I.throw(TypeError('%d format: a number is required'))
                if m.group(2) or m.group(3) or m.group(4) or conv not in 'srdi':
                    if not isinstance(x, (T, Inst)):
                        x = ('%' + m.group(2) + (m.group(3) or '') + ('.' + m.group(4) if m.group(4) else '') + conv) % x
                    else:
                        x = T('format', (x, m.group(0)), str)
                out.append(self.str_(x))
            out.append(piece[pos:])
        if used < len(rest) and mapping is None:
            self.I.throw(TypeError('not all arguments converted during string formatting'))
        return fmt(*out)

    def str_method(self, s, name, a, k):
        I = self.I
        if name == 'format':
            return self.str_format(s, a, k)
        if name == 'format_map':
            return self.str_format(s, (), a[0])
        if name == 'join':
            items = list(I.each(a[0]))
            out = []
            for i, x in enumerate(items):
                if i:
                    out.append(s)
                if not (isinstance(x, (str, bytes)) or isinstance(x, T) and x.ty in (str, bytes, None)):
                    I.throw(TypeError('sequence item %d: expected str instance, %s found' % (i, type(x).__name__)))
                out.append(x)
            return fmt(*out)
        conc = not isinstance(s, T) and not any(isinstance(x, T) for x in a)
        if conc:
            r = getattr(s, name)(*a, **k)
            return r
        if name == 'encode':
            if isinstance(s, T) and s.op == 'decode':
                return s.args[0]
            enc = str(a[0] if a else k.get('encoding', 'utf8')).lower().replace('-', '').replace('_', '')
            err = a[1] if len(a) > 1 else k.get('errors', 'strict')
            if err not in ('strict', 'surrogatepass', 'backslashreplace', 'xmlcharrefreplace') and not (enc.startswith('utf') and err in ('surrogateescape',)):
                return T('encodelossy', (s, enc, err), bytes)
            return T('encode', (s, enc), bytes)
        if name == 'decode':
            if isinstance(s, T) and s.op == 'encode':
                return s.args[0]
            return T('decode', (s, str(a[0]).lower().replace('-', '') if a else 'utf8'), str)
        if name in ('startswith', 'endswith', 'isdigit', 'isspace'):
            if name in ('startswith', 'endswith') and isinstance(a[0], str):
                ps = s.args if isinstance(s, T) and s.op == 'fmt' else (s,)
                e = ps[0] if name == 'startswith' else ps[-1]
                if isinstance(e, str):
                    if len(e) >= len(a[0]):
                        return getattr(e, name)(a[0])
                    if not (a[0].startswith(e) if name == 'startswith' else a[0].endswith(e)):
                        return False
            return I.decide(T('strtest', (name, s) + tuple(a)))
        if name in ('find', 'index', 'count', 'rfind'):
            return T('strm', (name, s) + tuple(a), int)
        if name in ('split', 'rsplit', 'splitlines', 'partition', 'rpartition'):
            h = I.ext.get('str.' + name)
            if h is not None:
                return h(s, *a)
            return T('strm', (name, s) + tuple(a), list)
        return T('strm', (name, s) + tuple(a), str)

    def str_format(self, s, a, k):
        I = self.I
        out = []
        auto = [0]

        def field(name):
            m = re.match(r'[^.\[]*', name)
            first, rest = m.group(0), name[m.end():]
            if first == '':
                first = str(auto[0])
                auto[0] += 1
            if first.isdigit():
                if int(first) >= len(a):
                    I.throw(IndexError('Replacement index %s out of range for positional args tuple' % first))
                v = a[int(first)]
            else:
                if first not in k:
                    I.throw(KeyError(first))
                v = k[first]
            while rest:
                m = re.match(r'\.(\w+)|\[([^\]]*)\]', rest)
                v = I.getattr(v, m.group(1)) if m.group(1) else I.getitem(v, int(m.group(2)) if m.group(2).isdigit() else m.group(2))
                rest = rest[m.end():]
            return v
        for piece in (s.args if isinstance(s, T) and s.op == 'fmt' else (s,)):
            if not isinstance(piece, str):
                out.append(piece)
                continue
            for lit, fld, spec, conv in string.Formatter().parse(piece):
                out.append(lit)
                if fld is not None:
                    v = field(fld)
                    if conv == 'r':
                        v = self.repr_(v)
                    elif conv == 's':
                        v = self.str_(v)
                    if spec and '{' in spec:
                        spec = self.str_format(spec, a, k)
                    out.append(self.format_(v, spec))
        return fmt(*out)

    def int_(self, x=0, base=None):
        I = self.I
        if isinstance(x, T):
            if x.opt and I.is_none(x):
                I.throw(TypeError('int() argument must not be NoneType'))
            if x.ty in (int,):
                return x
            if x.op == 'ext':
                return x
            if x.op == 'lin' or x.ty is float:
                return T('int', (x,), int)
            if not I.decide(T('intable', (x,))):
                I.throw(ValueError('invalid literal for int()') if I.choose(2, 'int(%s) raises ValueError/TypeError' % show(x)) == 0 else
                        TypeError('int() argument must be a string or a number'))
            return T('int', (x,), int)
        return int(x) if base is None else int(x, base)

    def float_(self, x=0.0):
        if isinstance(x, T):
            return x if x.ty in (int, float) or x.op == 'lin' else T('float', (x,), float)
        return float(x)

    # ---------------------------------------------------------------- terms

    def present(self, v, e):
        """The term is used as an object: None fails, except that what is not modelled is known by nobody and taken for what it is used as."""
        if v.opt and self.I.is_none(v):
            if v.op == 'extres' or v.op == 'attr' and self.of_unknown(v):
                raise Infeasible()
            self.I.throw(e)

    @staticmethod
    def of_unknown(v):
        while isinstance(v, T) and v.op in ('attr', 'res', 'item') and v.args:
            v = v.args[0]
        return isinstance(v, T) and v.op in ('extres', 'ext')

    def iter_term(self, v):
        I = self.I
        h = I.ext.get('iter')
        if h is not None:
            r = h(v)
            if r is not None:
                return iter(r)
        self.present(v, TypeError("'NoneType' object is not iterable"))
        if v.ty in (int, float, bool):
            I.throw(TypeError('not iterable'))
        if v.ty is str:
            return iter([T('char', (v, 0), str), T('char', (v, 1), str)])
        raise AnalysisError('%s: iteration over %r' % (I.loc(), v))

    def unpack_term(self, v, n):
        return [T('unpack', (v, i, n)) for i in range(n)]

    def term_attr(self, o, name):
        I = self.I
        self.present(o, AttributeError("'NoneType' object has no attribute '%s'" % name))
        if o.op == 'ext':
            return self.ext_name('%s.%s' % (o.args[0], name))
        if self.term_attr_hook is not None:
            r = self.term_attr_hook(o, name)
            if r is not None:
                return r[0]
        if name in self.STR_METHODS and o.ty in (str, bytes):
            return NFn(name, lambda *a, **k: self.str_method(o, name, a, k))
        if o.ty in (int, float, str, bytes, bool, tuple):
            if not hasattr(o.ty, name):
                I.throw(AttributeError("'%s' object has no attribute '%s'" % (o.ty.__name__, name)))
        if name == '__class__':
            return self.type_(o)
        if o.op == 'rand' and name == 'hex':
            return fmt(o)
        return T('attr', (o, name))

    def term_setattr(self, o, name, v):
        self.I.events.append(('setattr', o, name, v, self.I.loc()))

    def term_item(self, o, k):
        if isinstance(k, slice):
            return T('slice', (o, k.start, k.stop, k.step), o.ty)
        return T('item', (o, k), o.ty if o.ty is str else None)

    def term_setitem(self, o, k, v):
        self.I.events.append(('setitem', o, k, v, self.I.loc()))

    def call_term(self, f, args, kw):
        I = self.I
        if f.op == 'ext':
            return self.ext_call(f.args[0], args, kw)
        if f.ty in (int, str, float, bool, object, list, tuple):
            I.throw(TypeError("'%s' object is not callable" % f.ty.__name__))
        self.present(f, TypeError("'NoneType' object is not callable"))
        t = T('res', (f, I.uid()), None, True)
        I.events.append(('call', f, tuple(args), dict(kw), t, I.loc()))
        return t

    def ext_call(self, name, args, kw):
        I = self.I
        t = T('extres', (name, I.uid()), None, True)
        I.events.append(('ext', name, tuple(args), dict(kw), t, I.loc()))
        return t

    # ---------------------------------------------------------------- modules

    def path_function(self, n):
        real = getattr(posixpath, n)

        def f(*a):
            if any(isinstance(x, T) for x in a):
                r = path_parts(n, a)
                return T('os.path.' + n, a, tuple if n.startswith('split') else str) if r is None else r
            return real(*a)
        return f

    def mod_attr(self, m, name, imp=False):
        return self.ext_name('%s.%s' % (m.name, name), imp)

    def ext_name(self, dotted, imp=False):
        I = self.I
        if dotted in I.ext:
            return I.ext[dotted]
        if dotted in self.models:
            v = self.models[dotted]
            return self.prelude(v.name) if isinstance(v, PreludeRef) else v
        modname, _, name = dotted.rpartition('.')
        if dotted in ABSENT_MODULES:
            I.throw(ImportError(dotted) if imp else AttributeError(dotted))
        if any(k.startswith(dotted + '.') for k in self.models) or any(k.startswith(dotted + '.') for k in I.ext):
            return ExtMod(dotted)
        top = modname.split('.')[0]
        if top in sys.stdlib_module_names:
            try:
                __import__(modname)
                real = sys.modules[modname]
            except ImportError:
                real = None
            if real is not None:
                if not hasattr(real, name):
                    if modname == 'collections' and hasattr(collections.abc, name):
                        return getattr(collections.abc, name)
                    sub = dotted
                    try:
                        __import__(sub)
                        return ExtMod(sub)
                    except ImportError:
                        I.throw(ImportError(dotted) if imp else AttributeError("module '%s' has no attribute '%s'" % (modname, name)))
                v = getattr(real, name)
                if isinstance(v, types.ModuleType):
                    return ExtMod(dotted)
                if modname in PURE or modname.split('.')[0] == 'collections':
                    return v if isinstance(v, (type, int, str, float, tuple)) else NFn(name, v)
                if isinstance(v, type) and issubclass(v, BaseException):
                    return v
                if modname in SILENT:
                    return NFn(name, lambda *a, **k: Silent())
                if isinstance(v, (int, str, float)) and not isinstance(v, bool) and modname in ('pickle', 'os', 'errno', 'os.path', 'zlib', 'stat', 'sys'):
                    return v
        if name.endswith(('Error', 'Exception', 'DoesNotExist', 'ImproperlyConfigured', 'Warning')):
            if dotted not in self.ext_excs:
                self.ext_excs[dotted] = type(str(name), (Exception,), {'__module__': modname})
            return self.ext_excs[dotted]
        return T('ext', (dotted,))

    def exc_types(self, t):
        if isinstance(t, tuple):
            return tuple(self.exc_types(x) for x in t)
        return t

    def base(self, b):
        for k, f in self.TYPE_ALIAS.items():
            if b is f:
                return k
        if isinstance(b, PreludeRef):
            return self.prelude(b.name)
        if b is collections.abc.Mapping or b is collections.abc.MutableMapping:
            return self.prelude(b.__name__)
        return b

    def ext_inherited(self, o, c, name):
        h = self.I.ext.get('inherited')
        if h is not None:
            r = h(o, c, name)
            if r is not None:
                return r[0]
        dotted = c.args[0] + '.' + name
        return T('ext', (dotted,))

    def ext_init(self, o, c, args, kw):
        self.I.events.append(('ext', c.args[0] + '.__init__', tuple(args), dict(kw), None, self.I.loc()))

    def other_attr(self, o, name):
        I = self.I
        if callable(o) and name == '__name__':
            return getattr(o, '__name__', 'callable')
        if name == '__self__' and hasattr(o, '__self__'):
            return o.__self__
        if name == '__call__' and callable(o):
            return o
        if hasattr(type(o), '__next__') or isinstance(o, (types.BuiltinFunctionType, types.MethodType, types.FunctionType)):
            return I.native(getattr, [o, name], {})
        if name.startswith('__') and name.endswith('__'):
            return I.native(getattr, [o, name], {})
        I.throw(AttributeError("'%s' object has no attribute '%s'" % (type(o).__name__, name)))

    def make_models(self):
        I = self.I
        m = {}

        def fn(name, f):
            m[name] = NFn(name.rpartition('.')[2], f)

        # identity and data the source does not determine
        fn('time.time', lambda: T('time', (I.uid(),), float))
        for n in ('monotonic', 'perf_counter', 'process_time'):
            fn('time.' + n, lambda n=n: T('clock', (n, I.uid()), float))
        fn('time.sleep', lambda x: I.events.append(('sleep', x, I.loc())))
        fn('os.getpid', lambda: T('pid', (I.process,), int))
        for mod in ('threading', '_thread'):
            fn(mod + '.get_ident', lambda: T('ident', (I.thread,), int))
        fn('threading.get_native_id', lambda: T('nid', (I.thread,), int))
        fn('threading.current_thread', lambda: CurThread(I.thread))
        m['threading.currentThread'] = m['threading.current_thread']
        fn('socket.gethostname', lambda: T('host', (I.host,), str))
        fn('platform.node', lambda: T('host', (I.host,), str))
        fn('socket.getfqdn', lambda *a: T('host', (I.host,), str))
        fn('uuid.getnode', lambda: T('host', (I.host,), int))
        fn('uuid.uuid4', lambda: UuidModel(4))
        fn('uuid.uuid1', lambda *a: UuidModel(1))
        fn('os.urandom', lambda n: T('rand', ('range', 0, 256 ** n if isinstance(n, int) else T('pow', (256, n)), I.uid()), bytes))
        fn('secrets.token_hex', lambda n=32: fmt(T('rand', ('range', 0, 256 ** n, I.uid()), int)))
        fn('secrets.randbelow', lambda n: T('rand', ('range', 0, n, I.uid()), int))
        m['random.SystemRandom'] = SysRandModel
        m['random.Random'] = RandModel
        r = RandModel()
        for n in ('randrange', 'randint', 'random', 'getrandbits', 'choice', 'uniform', 'seed'):
            m['random.' + n] = NFn(n, getattr(r, n))
        for alg in ('md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'blake2b', 'blake2s'):
            fn('hashlib.' + alg, lambda data=b'', alg=alg, **k: HashObj(alg, data))
        fn('hashlib.new', lambda alg, data=b'': HashObj(alg, data))

        # threads
        m['threading.local'] = m['_thread._local'] = self.TYPE_ALIAS[LocalBase] = NFn('local', LocalModel)
        m['threading.Lock'] = NFn('Lock', LockModel)
        m['threading.RLock'] = m['_thread.RLock'] = NFn('RLock', lambda: LockModel(True))
        m['threading.Condition'] = NFn('Condition', CondModel)
        m['threading.Event'] = NFn('Event', EventModel)
        for n in ('Semaphore', 'BoundedSemaphore'):
            m['threading.' + n] = NFn(n, lambda value=1, n=n: LockModel(value=value, anyone=n == 'Semaphore'))
        m['_thread.allocate_lock'] = m['threading.Lock']
        m['threading.Thread'] = NFn('Thread', ThreadModel)
        fn('threading.Timer', lambda interval, function, args=None, kwargs=None: ThreadModel(
            target=function, args=tuple(args) if args is not None else (), kwargs=kwargs, delay=interval))
        fn('threading.active_count', lambda: T('threads', (I.uid(),), int))
        m['os.register_at_fork'] = NFn('register_at_fork', lambda **k: I.events.append(('atfork', k)))

        # copying and serialisation
        fn('copy.copy', self.copy_)
        fn('copy.deepcopy', self.deepcopy_)
        fn('pickle.dumps', self.dumps)
        fn('pickle.loads', self.loads)
        fn('pickle.dump', lambda o, f, protocol=None, **k: I.call_method(f, 'write', [T('pickled', (Snap(clone(o)),), bytes)]))
        fn('zlib.compress', lambda x, *a: T('zlib', (x,), bytes))
        fn('zlib.decompress', lambda x, *a: x.args[0] if isinstance(x, T) and x.op == 'zlib' else T('unzlib', (x,), bytes))
        for n in ('standard_b64', 'b64', 'urlsafe_b64'):
            fn('base64.%sencode' % n, lambda x, *a, n=n: getattr(base64, n + 'encode')(x, *a) if isinstance(x, (bytes, str)) and I.concrete else T('b64', (n, x), bytes))
            fn('base64.%sdecode' % n, lambda x, *a, n=n: getattr(base64, n + 'decode')(x, *a) if isinstance(x, (bytes, str)) and I.concrete else self.b64d(n, x))
        m['io.StringIO'] = m['io.BytesIO'] = NFn('StringIO', Buf)

        # functions
        fn('functools.wraps', lambda w, assigned=None, updated=None: NFn('wraps', lambda f: self.wrap(f, w)))
        fn('functools.update_wrapper', lambda f, w, assigned=None, updated=None: self.wrap(f, w))
        fn('functools.partial', lambda f, *a, **k: Curry(f, a, k))
        fn('functools.partialmethod', lambda f, *a, **k: PartialMethod(f, *a, **k))
        fn('functools.reduce', self.reduce_)
        fn('functools.lru_cache', self.lru_cache)
        fn('functools.cache', lambda f: self.lru_cache()(f))
        fn('functools.cmp_to_key', lambda f: functools.cmp_to_key(lambda a, b: I.call(f, [a, b], {})))
        fn('functools.cached_property', lambda f: Cached(f))
        fn('functools.total_ordering', self.total_ordering)
        fn('functools.singledispatch', self.singledispatch)
        fn('operator.attrgetter', lambda *names: NFn('attrgetter', lambda o: self.attrget(o, names)))
        fn('operator.itemgetter', lambda *ks: NFn('itemgetter', lambda o: I.getitem(o, ks[0]) if len(ks) == 1 else tuple(I.getitem(o, k) for k in ks)))
        fn('operator.methodcaller', lambda n, *a, **k: NFn('methodcaller', lambda o: I.call_method(o, n, list(a), k)))
        for n, op in (('add', '+'), ('sub', '-'), ('mul', '*'), ('or_', '|'), ('and_', '&'), ('xor', '^'), ('mod', '%'), ('concat', '+'),
                      ('floordiv', '//'), ('truediv', '/')):
            fn('operator.' + n, lambda a, b, op=op: I.binop(op, a, b))
        for n, op in (('iadd', '+'), ('isub', '-'), ('ior', '|'), ('iand', '&'), ('ixor', '^'), ('iconcat', '+'), ('imul', '*')):
            fn('operator.' + n, lambda a, b, op=op: I.iop(op, a, b))
        for n, op in (('lt', '<'), ('gt', '>'), ('le', '<='), ('ge', '>=')):
            fn('operator.' + n, lambda a, b, op=op: I.compare(op, a, b))
        fn('operator.eq', lambda a, b: I.eq(a, b))
        fn('operator.ne', lambda a, b: not I.eq(a, b))
        fn('operator.not_', lambda a: not I.truth(a))
        fn('operator.truth', lambda a: I.truth(a))
        fn('operator.is_', lambda a, b: I.is_(a, b))
        fn('operator.is_not', lambda a, b: not I.is_(a, b))
        fn('operator.contains', lambda a, b: I.contains(b, a))
        fn('operator.getitem', lambda a, b: I.getitem(a, b))
        fn('operator.setitem', lambda a, b, c: I.setitem(a, b, c))
        fn('operator.delitem', lambda a, b: I.delitem(a, b))
        fn('operator.neg', lambda a: I.binop('-', 0, a))
        fn('contextlib.contextmanager', self.contextmanager)
        for n in ('queue.Queue', 'queue.LifoQueue', 'queue.PriorityQueue', 'queue.SimpleQueue', 'datetime.timedelta', 'datetime.datetime', 'types.MappingProxyType'):
            m[n] = PreludeRef(n.rpartition('.')[2])
        fn('django.utils.timezone.now', lambda: I.call(I.getattr(self.prelude('datetime'), 'now'), [], {}))
        for n in ('isfunction', 'ismethod', 'isclass', 'isgeneratorfunction', 'isroutine', 'signature', 'getfullargspec', 'getargspec', 'unwrap', 'getmro'):
            fn('inspect.' + n, getattr(self, 'inspect_' + n))
        for n in ('crc32', 'adler32'):
            fn('zlib.' + n, lambda x, *a, n=n: getattr(zlib, n)(x, *a) if isinstance(x, bytes) else T(n, (x,) + a, int))
        for n in ('hexlify', 'b2a_hex'):
            fn('binascii.' + n, lambda x: binascii.hexlify(x) if isinstance(x, bytes) else T('hex', (x,), bytes))
        fn('struct.pack', lambda f, *a: struct.pack(f, *a) if not any(isinstance(x, T) for x in a) else T('struct', (f,) + a, bytes))
        fn('struct.unpack', lambda f, x: struct.unpack(f, x) if isinstance(x, bytes) else x.args[1:] if x.op == 'struct' and x.args[0] == f else T('unstruct', (f, x)))
        fn('json.dumps', lambda x, sort_keys=False, separators=(', ', ': '), **k: self.json(x, sort_keys, separators, k.get('default')))
        fn('json.loads', lambda x, **k: self.native_tree(json.loads, x) if isinstance(x, (str, bytes)) else T('unjson', (x,)))
        m['contextlib.closing'], m['contextlib.suppress'] = NFn('closing', Closing), NFn('suppress', Suppress)
        m['contextlib.nullcontext'], m['contextlib.ExitStack'] = NFn('nullcontext', NullCM), NFn('ExitStack', ExitStackM)
        for n in ('contextlib.ContextDecorator', 'contextlib.AbstractContextManager', 'enum.Enum', 'collections.UserDict'):
            m[n] = PreludeRef(n.rpartition('.')[2])
        m['enum.IntEnum'] = m['enum.Enum']
        m['enum.unique'] = NFn('unique', lambda c: c)
        fn('enum.auto', lambda: Auto())
        m['dataclasses.dataclass'] = NFn('dataclass', self.dataclass)
        m['dataclasses.field'] = NFn('field', Field)
        fn('dataclasses.replace', lambda o, **k: I.call(o.cls, [], dict({n: o.attrs[n] for n in o.cls.ns['~fields']}, **k)))
        fn('dataclasses.asdict', lambda o: {n: clone(o.attrs[n]) for n in o.cls.ns['~fields']})
        fn('dataclasses.astuple', lambda o: tuple(clone(o.attrs[n]) for n in o.cls.ns['~fields']))

        fn('warnings.warn', self.warn)
        m['warnings.catch_warnings'] = NFn('catch_warnings', lambda **k: NullCM([]))
        for n in ('simplefilter', 'filterwarnings', 'resetwarnings'):
            fn('warnings.' + n, lambda *a, **k: None)
        fn('sys.exc_info', lambda: (self.type_(I.excs[-1]), I.excs[-1], T('traceback', (0,), object)) if I.excs else (None, None, None))
        for n in ('dirname', 'basename', 'join', 'normpath', 'split', 'splitext', 'isabs'):
            fn('os.path.' + n, self.path_function(n))
        for n in ('realpath', 'abspath'):
            fn('os.path.' + n, self.path_function('normpath'))
        m['sys.version_info'] = (3, 9, 19, 'final', 0)
        m['sys.maxsize'] = 2 ** 63 - 1
        m['sys.modules'] = ModulesModel(I)
        m['types.MethodType'] = NFn('MethodType', lambda f, o: Bound(f, o))
        m['types.FunctionType'] = types.FunctionType
        m['types.SimpleNamespace'] = NFn('SimpleNamespace', NS)
        m['weakref.ref'] = NFn('ref', Weak)
        fn('weakref.proxy', lambda o, cb=None: o)
        for n in ('WeakKeyDictionary', 'WeakValueDictionary'):
            fn('weakref.' + n, lambda *a: WeakDict(*a))
        fn('weakref.WeakSet', lambda x=(): ASet(x))
        fn('abc.abstractmethod', lambda f: f)
        m['abc.ABC'] = object
        fn('itertools.chain.from_iterable', lambda xs: itertools.chain.from_iterable(I.iterate(x) for x in I.each(xs)))
        fn('itertools.starmap', lambda f, xs: (I.call(f, list(I.each(x)), {}) for x in I.each(xs)))
        m['itertools.chain'] = Chain(I)
        fn('itertools.filterfalse', lambda f, xs: (x for x in I.each(xs) if not I.truth(x if f is None else I.call(f, [x], {}))))
        fn('importlib.import_module', lambda name, package=None: self.import_((package + name if not name.startswith('..') else
                                                                             package.rpartition('.')[0] + name[1:])
                                                                            if isinstance(name, str) and name.startswith('.') else name))
        fn('imp.find_module', self.find_file)
        fn('importlib.util.find_spec', self.find_spec)
        fn('importlib.find_loader', lambda name, path=None: self.find_spec(name))
        fn('pkgutil.find_loader', lambda name: self.find_spec(name))
        fn('pkgutil.iter_modules', self.iter_modules)
        fn('django.utils.module_loading.module_has_submodule', self.has_submodule)
        fn('typing.cast', lambda t, v: v)
        for n in ('Any', 'Optional', 'Union', 'List', 'Dict', 'Tuple', 'Callable', 'Iterable', 'Set'):
            m['typing.' + n] = Sub()
        m['typing.NamedTuple'] = T('ext', ('typing.NamedTuple',))
        m['collections.namedtuple'] = NFn('namedtuple', self.namedtuple)
        for n in ('re.compile', 're.sub', 're.match', 're.search', 're.findall', 're.split', 're.finditer', 're.fullmatch', 're.subn', 're.escape'):
            m[n] = NFn(n, lambda *a, n=n.split('.')[1], **k: self.re_(n, a, k))
        return m

    def namedtuple(self, name, fields, **k):
        t = collections.namedtuple(name, list(fields) if not isinstance(fields, str) else fields, **k)
        t.__module__ = 'collections'
        return t

    # inspection of functions

    def inspect_isfunction(self, f):
        return isinstance(f, Fn)

    def inspect_ismethod(self, f):
        return isinstance(f, Bound)

    def inspect_isclass(self, c):
        return isinstance(c, (Cls, type))

    def inspect_isgeneratorfunction(self, f):
        f = f.fn if isinstance(f, Bound) else f
        return isinstance(f, Fn) and self.I.src.scope(f.node)[3]

    def inspect_isroutine(self, f):
        return isinstance(f, (Fn, Bound, NFn, types.BuiltinFunctionType))

    def inspect_getmro(self, c):
        return tuple(c.mro()) if isinstance(c, Cls) else c.__mro__

    def inspect_unwrap(self, f, stop=None):
        while isinstance(f, Fn) and '__wrapped__' in f.attrs:
            f = f.attrs['__wrapped__']
        return f

    def parameters(self, f):
        """(name, kind, default) of the parameters of a function, without the bound first one."""
        skip = 0
        if isinstance(f, Bound):
            f, skip = f.fn, 1
        elif isinstance(f, Cls):
            f, skip = self.I.class_find(f.mro(), '__init__')[0], 1
        elif isinstance(f, Inst):
            f, skip = self.I.class_find(f.cls.mro(), '__call__')[0], 1
        if isinstance(f, Curry):
            ps = self.parameters(f.fn)
            return [p for p in ps[len(f.args):] if p[0] not in f.kw]
        if not isinstance(f, Fn):
            raise AnalysisError('%s: signature of %s' % (self.I.loc(), show(f)))
        a = f.node.args
        pos = a.posonlyargs + a.args
        out = []
        for i, x in enumerate(pos):
            j = i - (len(pos) - len(f.defaults))
            out.append((x.arg, 'POSITIONAL_ONLY' if i < len(a.posonlyargs) else 'POSITIONAL_OR_KEYWORD', f.defaults[j] if j >= 0 else NODEFAULT))
        out = out[skip:]
        if a.vararg:
            out.append((a.vararg.arg, 'VAR_POSITIONAL', NODEFAULT))
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            out.append((x.arg, 'KEYWORD_ONLY', NODEFAULT if d is MISSING else d))
        if a.kwarg:
            out.append((a.kwarg.arg, 'VAR_KEYWORD', NODEFAULT))
        return out

    def inspect_signature(self, f, follow_wrapped=True):
        if follow_wrapped:
            f = self.inspect_unwrap(f)
        ps = self.parameters(f)
        make = self.prelude('Parameter')
        empty = self.I.getattr(make, 'empty')
        return self.I.call(self.prelude('Signature'), [[self.I.call(make, [n, self.I.getattr(make, k), empty if d is NODEFAULT else d], {}) for n, k, d in ps]], {})

    def inspect_getfullargspec(self, f):
        ps = self.parameters(f)
        if isinstance(f, Bound):
            ps = [(f.fn.node.args.args[0].arg, 'POSITIONAL_OR_KEYWORD', NODEFAULT)] + ps
        pos = [p for p in ps if p[1].startswith('POSITIONAL')]
        kwo = [p for p in ps if p[1] == 'KEYWORD_ONLY']
        one = lambda k: ([p[0] for p in ps if p[1] == k] or [None])[0]
        return NS(args=[p[0] for p in pos], varargs=one('VAR_POSITIONAL'), varkw=one('VAR_KEYWORD'), keywords=one('VAR_KEYWORD'),
                  defaults=tuple(p[2] for p in pos if p[2] is not NODEFAULT) or None, kwonlyargs=[p[0] for p in kwo],
                  kwonlydefaults={p[0]: p[2] for p in kwo if p[2] is not NODEFAULT} or None, annotations={})

    inspect_getargspec = inspect_getfullargspec

    def native_tree(self, f, x):
        return f(x)

    def json(self, x, sort, seps, default):
        I = self.I
        item, colon = seps
        if x is None or isinstance(x, (bool, int, float, str)):
            return json.dumps(x)
        if isinstance(x, T):
            if x.opt and I.is_none(x):
                return 'null'
            if x.ty in (int, float):
                return fmt(x)
            if x.ty is str:
                return fmt('"', T('jsonstr', (x,), str), '"')
        elif isinstance(x, (list, tuple)):
            ps = ['[']
            for i, y in enumerate(x):
                ps += [item if i else '', self.json(y, sort, seps, default)]
            return fmt(*(ps + [']']))
        elif isinstance(x, dict):
            ps = ['{']
            for i, k in enumerate(I.call(self.builtin('sorted'), [list(x)], {}) if sort else list(x)):
                ps += [item if i else '', self.json(k if isinstance(k, (str, T)) else json.dumps(k), sort, seps, default), colon, self.json(I.getitem(x, k), sort, seps, default)]
            return fmt(*(ps + ['}']))
        if default is not None:
            return self.json(I.call(default, [x], {}), sort, seps, None)
        if isinstance(x, T):
            return T('json', (x,), str)
        I.throw(TypeError('Object of type %s is not JSON serializable' % show(self.type_(x))))

    def re_(self, n, a, k):
        if any(isinstance(x, T) for x in a):
            h = self.I.ext.get('re.' + n)
            if h is not None:
                return h(*a, **k)
            return self.ext_call('re.' + n, a, k)
        return getattr(re, n)(*a, **k)

    def warn(self, *a, **k):
        self.I.events.append(('warn', a, k, self.I.loc()))

    def copy_(self, x):
        I = self.I
        if isinstance(x, SuperV):
            x = x.selfv
            if isinstance(x, SubV):
                return self.copy_(x)
            r = Inst(x.cls, dict(x.attrs))
            return r
        if isinstance(x, SubV):
            items = [str(x)] if isinstance(x, str) else list(dict.items(x)) if isinstance(x, dict) else list(x._base.__iter__(x))
            return rebuild(x, items, x.__dict__)
        if isinstance(x, Inst):
            m = I.type_attr(x, '__copy__')
            if m is not None:
                return I.call(m, [], {})
            return Inst(x.cls, dict(x.attrs))
        if isinstance(x, ASet):
            return x.copy() if not x.frozen else x
        if isinstance(x, (list, dict, collections.deque)):
            return x.copy()
        if isinstance(x, Model):
            f = getattr(x, '__copy__', None)
            return f() if f is not None else x
        if isinstance(x, LocalModel):
            raise AnalysisError('copy of threading.local')
        return x

    def deepcopy_(self, x, memo=None):
        if isinstance(x, SuperV):
            x = x.selfv
            return Inst(x.cls, {k: clone(v) for k, v in x.attrs.items()})
        return clone(x)

    def dumps(self, o, protocol=None, **k):
        if self.I.concrete:
            self.I.pickles.append(clone(o))
            return ('\x80pickle%d.' % (len(self.I.pickles) - 1)).encode('latin1')
        return T('pickled', (Snap(clone(o)),), bytes)

    def loads(self, x, **k):
        if isinstance(x, bytes):
            m = re.match('^\x80pickle(\\d+)[.]$', x.decode('latin1'))
            if m is None or int(m.group(1)) >= len(self.I.pickles):
                self.I.throw(pickle.UnpicklingError('invalid load key'))
            return clone(self.I.pickles[int(m.group(1))])
        if isinstance(x, str):
            self.I.throw(TypeError('a bytes-like object is required, not str'))
        if isinstance(x, T) and x.op == 'pickled':
            return clone(x.args[0].v)
        return T('unpickled', (x,))

    def b64d(self, n, x):
        if isinstance(x, T) and x.op == 'encode' and isinstance(x.args[0], T) and x.args[0].op == 'decode':
            x = x.args[0].args[0]
        if isinstance(x, T) and x.op == 'b64' and ('url' in x.args[0]) == ('url' in n):
            return x.args[1]
        return T('b64d', (x,), bytes)

    def wrap(self, f, w):
        I = self.I
        if isinstance(f, Fn):
            for n in ('__name__', '__qualname__', '__doc__', '__module__'):
                f.attrs[n] = self.getattr_(w, n, f.attrs.get(n))
            if isinstance(w, Fn):
                f.attrs.update({k: v for k, v in w.attrs.items() if not k.startswith('__')})
            f.attrs['__wrapped__'] = w
        elif isinstance(f, NFn):
            f.__name__ = self.getattr_(w, '__name__', None)
        return f

    def reduce_(self, f, xs, *init):
        I = self.I
        it = iter(list(I.each(xs)))
        if init:
            acc = init[0]
        else:
            try:
                acc = next(it)
            except StopIteration:
                I.throw(TypeError('reduce() of empty sequence with no initial value'))
        for x in it:
            acc = I.call(f, [acc, x], {})
        return acc

    def lru_cache(self, maxsize=128, typed=False):
        I = self.I

        def deco(f):
            memo = {}

            def inner(*a, **k):
                key = (a, tuple(sorted(k.items())))
                I.hashable(key)
                if key not in memo:
                    memo[key] = I.call(f, list(a), k)
                return memo[key]
            r = NFn(getattr(f, 'qual', 'cached'), inner, True)
            r.cache_clear = memo.clear
            r.memo = memo if maxsize is None else None
            r.__wrapped__ = f
            return r
        if callable(maxsize) and not isinstance(maxsize, T):
            f, maxsize = maxsize, 128
            return deco(f)
        return NFn('lru_cache', deco)

    def attrget(self, o, names):
        def one(n):
            v = o
            for p in n.split('.'):
                v = self.I.getattr(v, p)
            return v
        return one(names[0]) if len(names) == 1 else tuple(one(n) for n in names)

    def contextmanager(self, f):
        I = self.I

        def make(*a, **k):
            return CM(I.call(f, list(a), k), lambda: make(*a, **k))
        r = CMFn(f, make)
        return r


class CMFn(NFn):
    """A generator function made a context manager factory; binds like a function."""
    def __init__(self, f, make):
        NFn.__init__(self, f.attrs['__name__'] if isinstance(f, Fn) else 'cm', make, True)


class Chain(Obj):
    def __init__(self, I):
        self.I = I

    def __call__(self, *a):
        return itertools.chain(*[self.I.iterate(x) for x in a])

    def from_iterable(self, xs):
        I = self.I
        return itertools.chain.from_iterable(I.iterate(x) for x in I.each(xs))


class Sub(Obj):
    def __getitem__(self, k):
        return self

    def __call__(self, *a, **k):
        return self


class NS(Model):
    def __init__(self, **k):
        self.__dict__.update(k)


class Silent(Model):
    def __getattr__(self, name):
        return NFn(name, lambda *a, **k: None)

    def __call__(self, *a, **k):
        return None


def I_each(I, x):
    return list(I.each(x))


class ModulesModel(Model):
    def __init__(self, I):
        self.I = I

    def __getitem__(self, name):
        if isinstance(name, T):
            return T('module', (name,))
        if name in self.I.mods:
            return self.I.mods[name]
        if isinstance(name, str) and self.I.ours(name):
            raise KeyError(name)
        return ExtMod(name)

    def __contains__(self, name):
        return not isinstance(name, str) or name in self.I.mods or not self.I.ours(name)

    def get(self, name, d=None):
        return self[name] if name in self else d
