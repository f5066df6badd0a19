"""Sources, interpreted like those of the repository, of library classes which analysed classes inherit from."""
import calendar
import functools
import queue
import time


class Mapping(object):
    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default

    def __contains__(self, key):
        try:
            self[key]
        except KeyError:
            return False
        return True

    def keys(self):
        return [k for k in self]

    def items(self):
        return [(k, self[k]) for k in self]

    def values(self):
        return [self[k] for k in self]

    def __eq__(self, other):
        return dict(self.items()) == dict(other.items())

    def __ne__(self, other):
        return not self == other

    __hash__ = None


_missing = object()


class MutableMapping(Mapping):
    def pop(self, key, default=_missing):
        try:
            value = self[key]
        except KeyError:
            if default is _missing:
                raise
            return default
        del self[key]
        return value

    def popitem(self):
        for key in self:
            value = self[key]
            del self[key]
            return key, value
        raise KeyError

    def clear(self):
        for key in list(self):
            del self[key]

    def update(self, other=(), **kwargs):
        if hasattr(other, 'keys'):
            for key in other.keys():
                self[key] = other[key]
        else:
            for key, value in other:
                self[key] = value
        for key, value in kwargs.items():
            self[key] = value

    def setdefault(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            self[key] = default
        return default


class UserDict(MutableMapping):
    def __init__(self, *args, **kwargs):
        self.data = {}
        self.update(*args, **kwargs)

    def __len__(self):
        return len(self.data)

    def __getitem__(self, key):
        if key in self.data:
            return self.data[key]
        if hasattr(self.__class__, '__missing__'):
            return self.__class__.__missing__(self, key)
        raise KeyError(key)

    def __setitem__(self, key, item):
        self.data[key] = item

    def __delitem__(self, key):
        del self.data[key]

    def __iter__(self):
        return iter(self.data)

    def __contains__(self, key):
        return key in self.data


class ContextDecorator(object):
    def _recreate_cm(self):
        return self

    def __call__(self, func):
        @functools.wraps(func)
        def inner(*args, **kwds):
            with self._recreate_cm():
                return func(*args, **kwds)
        return inner


class AbstractContextManager(object):
    def __enter__(self):
        return self

    def __exit__(self, *args):
        return None


class Enum(object):
    def __init__(self, *args):
        pass

    def __repr__(self):
        return '<%s.%s: %r>' % (self.__class__.__name__, self.name, self.value)

    def __str__(self):
        return '%s.%s' % (self.__class__.__name__, self.name)

    def __hash__(self):
        return hash(self.name)

    def __copy__(self):
        return self


# queue

class Queue(object):
    def __init__(self, maxsize=0):
        self.maxsize = maxsize
        self.queue = []

    def qsize(self):
        return len(self.queue)

    def empty(self):
        return not self.queue

    def full(self):
        return 0 < self.maxsize <= len(self.queue)

    def put(self, item, block=True, timeout=None):
        if self.full():
            raise queue.Full()
        self.queue.append(item)

    def put_nowait(self, item):
        self.put(item, False)

    def _take(self):
        return self.queue.pop(0)

    def get(self, block=True, timeout=None):
        if not self.queue:
            raise queue.Empty()
        return self._take()

    def get_nowait(self):
        return self.get(False)

    def task_done(self):
        pass

    def join(self):
        pass


SimpleQueue = Queue


class LifoQueue(Queue):
    def _take(self):
        return self.queue.pop()


class PriorityQueue(Queue):
    def _take(self):
        self.queue.sort()
        return self.queue.pop(0)


class MappingProxyType(Mapping):
    def __init__(self, mapping):
        self._mapping = mapping

    def __getitem__(self, key):
        return self._mapping[key]

    def __iter__(self):
        return iter(self._mapping)

    def __len__(self):
        return len(self._mapping)

    def __contains__(self, key):
        return key in self._mapping

    def copy(self):
        return self._mapping.copy()


# datetime

class timedelta(object):
    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        total = seconds
        if microseconds or milliseconds:
            total = total + microseconds / 1000000.0 + milliseconds / 1000.0
        if days or minutes or hours or weeks:
            total = total + minutes * 60 + hours * 3600 + days * 86400 + weeks * 604800
        self._total = total

    def total_seconds(self):
        return self._total * 1.0

    @property
    def days(self):
        return self._total // 86400

    @property
    def seconds(self):
        return self._total % 86400 // 1

    @property
    def microseconds(self):
        return int(self._total % 1 * 1000000)

    def __add__(self, other):
        if isinstance(other, timedelta):
            return timedelta(seconds=self._total + other._total)
        return NotImplemented

    def __sub__(self, other):
        if isinstance(other, timedelta):
            return timedelta(seconds=self._total - other._total)
        return NotImplemented

    def __neg__(self):
        return timedelta(seconds=-self._total)

    def __mul__(self, n):
        return timedelta(seconds=self._total * n)

    __rmul__ = __mul__

    def __truediv__(self, n):
        return self._total / n._total if isinstance(n, timedelta) else timedelta(seconds=self._total / n)

    def __bool__(self):
        return self._total != 0

    def __eq__(self, other):
        return isinstance(other, timedelta) and self._total == other._total

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self._total)

    def __lt__(self, other):
        return self._total < other._total

    def __le__(self, other):
        return self._total <= other._total

    def __gt__(self, other):
        return self._total > other._total

    def __ge__(self, other):
        return self._total >= other._total


class datetime(object):
    """A moment, as the seconds since the epoch."""
    def __init__(self, year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None):
        self._at = calendar.timegm((year, month, day, hour, minute, second, 0, 0, 0)) + microsecond / 1000000.0

    @classmethod
    def fromtimestamp(cls, at, tz=None):
        o = cls.__new__(cls)
        o._at = at
        return o

    utcfromtimestamp = fromtimestamp

    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(time.time())

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(time.time())

    @classmethod
    def today(cls):
        return cls.fromtimestamp(time.time())

    def timestamp(self):
        return self._at

    def replace(self, tzinfo=None):
        return self

    def __add__(self, other):
        if isinstance(other, timedelta):
            return datetime.fromtimestamp(self._at + other._total)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, other):
        if isinstance(other, timedelta):
            return datetime.fromtimestamp(self._at - other._total)
        if isinstance(other, datetime):
            return timedelta(seconds=self._at - other._at)
        return NotImplemented

    def __eq__(self, other):
        return isinstance(other, datetime) and self._at == other._at

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self._at)

    def __lt__(self, other):
        return self._at < other._at

    def __le__(self, other):
        return self._at <= other._at

    def __gt__(self, other):
        return self._at > other._at

    def __ge__(self, other):
        return self._at >= other._at


# inspect

class _empty(object):
    pass


class Parameter(object):
    POSITIONAL_ONLY, POSITIONAL_OR_KEYWORD, VAR_POSITIONAL, KEYWORD_ONLY, VAR_KEYWORD = 0, 1, 2, 3, 4
    empty = _empty

    def __init__(self, name, kind, default=_empty):
        self.name, self.kind, self.default = name, kind, default
        self.annotation = _empty


class BoundArguments(object):
    def __init__(self, signature, arguments):
        self.signature, self.arguments = signature, arguments

    def apply_defaults(self):
        new = {}
        for p in self.signature.parameters.values():
            if p.name in self.arguments:
                new[p.name] = self.arguments[p.name]
            elif p.default is not _empty:
                new[p.name] = p.default
            elif p.kind == 2:
                new[p.name] = ()
            elif p.kind == 4:
                new[p.name] = {}
        self.arguments = new

    @property
    def args(self):
        out = []
        for p in self.signature.parameters.values():
            if p.kind in (3, 4) or p.name not in self.arguments:
                break
            if p.kind == 2:
                out.extend(self.arguments[p.name])
            else:
                out.append(self.arguments[p.name])
        return tuple(out)

    @property
    def kwargs(self):
        out = {}
        n = len(self.args)
        for i, p in enumerate(self.signature.parameters.values()):
            if p.name in self.arguments and p.kind == 4:
                out.update(self.arguments[p.name])
            elif p.name in self.arguments and p.kind != 2 and (p.kind == 3 or i >= n):
                out[p.name] = self.arguments[p.name]
        return out


class Signature(object):
    empty = _empty

    def __init__(self, parameters):
        self.parameters = {}
        for p in parameters:
            self.parameters[p.name] = p

    def _bind(self, args, kwargs, partial):
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        for p in self.parameters.values():
            if p.kind == 2:
                if args:
                    out[p.name] = tuple(args)
                    args = []
            elif p.kind == 4:
                if kwargs:
                    out[p.name] = kwargs
                    kwargs = {}
            elif args and p.kind != 3:
                if p.kind == 1 and p.name in kwargs:
                    raise TypeError('multiple values for argument %r' % p.name)
                out[p.name] = args.pop(0)
            elif p.name in kwargs and p.kind != 0:
                out[p.name] = kwargs.pop(p.name)
            elif p.default is _empty and not partial:
                raise TypeError('missing a required argument: %r' % p.name)
        if args:
            raise TypeError('too many positional arguments')
        if kwargs:
            raise TypeError('got an unexpected keyword argument')
        return BoundArguments(self, out)

    def bind(self, *args, **kwargs):
        return self._bind(args, kwargs, False)

    def bind_partial(self, *args, **kwargs):
        return self._bind(args, kwargs, True)
