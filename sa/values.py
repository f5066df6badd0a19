"""Abstract values.

Constants, tuples, lists and dictionaries of the analysed program are represented by Python constants and containers
of abstract values.  Everything the source does not determine is a T: a provenance term over named symbols, which says
where the value comes from.  Instances of analysed classes are Inst objects.
"""

CUR = [None]   # the running interpreter


class AnalysisError(Exception):
    """The analysis cannot be carried out (vanished anchor, unsupported construct): never a verdict."""


class Signal(BaseException):
    pass


class RaiseSig(Signal):
    """An exception of the analysed program; value is a native exception or an Inst."""
    def __init__(self, value, loc=None):
        BaseException.__init__(self, value)
        self.value, self.loc = value, loc


MISSING = object()


class Infeasible(Signal):
    pass


class Diverges(Signal):
    pass


class T(object):
    """op applied to args; ty: type of the value if known; opt: may be None; opened: equality with others is open."""
    __slots__ = ('op', 'args', 'ty', 'opt', 'opened', 'h')

    def __init__(self, op, args=(), ty=None, opt=False, opened=False):
        self.op, self.args, self.ty, self.opt, self.opened = op, tuple(args), ty, opt, opened
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash((self.op, tuple(hkey(a) for a in self.args)))
        return self.h

    def __eq__(self, o):
        if self is o:
            return True
        return type(o) is T and self.op == o.op and len(self.args) == len(o.args) and hash(self) == hash(o) and \
            all(same(a, b) for a, b in zip(self.args, o.args))

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return show(self)

    # natively executed library code works on terms through these
    def __bool__(self):
        return CUR[0].truth(self)

    def __lt__(self, o):
        return CUR[0].compare('<', self, o)

    def __gt__(self, o):
        return CUR[0].compare('>', self, o)

    def __le__(self, o):
        return CUR[0].compare('<=', self, o)

    def __ge__(self, o):
        return CUR[0].compare('>=', self, o)

    def __add__(self, o):
        return CUR[0].binop('+', self, o)

    def __radd__(self, o):
        return CUR[0].binop('+', o, self)

    def __sub__(self, o):
        return CUR[0].binop('-', self, o)

    def __rsub__(self, o):
        return CUR[0].binop('-', o, self)

    def __mul__(self, o):
        return CUR[0].binop('*', self, o)

    def __rmul__(self, o):
        return CUR[0].binop('*', o, self)

    def __neg__(self):
        return CUR[0].binop('-', 0, self)

    def __iter__(self):
        return CUR[0].iterate(self)

    def __call__(self, *a, **k):
        return CUR[0].call(self, list(a), k)


def hkey(a):
    try:
        return (type(a).__name__, hash(a))
    except TypeError:
        return id(a)


def same(a, b):
    """Structural identity of abstract values (1 and True differ)."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (list, dict)):
        return a == b
    return a == b


def sym(name, ty=None, opt=False, opened=False):
    return T('sym', (name,), ty, opt, opened)


def fmt(*parts):
    """Concatenation of strings and of the text forms of terms."""
    out = []
    for p in parts:
        for x in (p.args if isinstance(p, T) and p.op == 'fmt' else (p,)):
            if isinstance(x, (str, bytes)) and out and type(out[-1]) is type(x):
                out[-1] += x
            elif x == '' or x == b'':
                continue
            else:
                out.append(x)
    if not out:
        return b'' if parts and isinstance(parts[0], bytes) else ''
    if len(out) == 1 and isinstance(out[0], (str, bytes)):
        return out[0]
    if len(out) == 1 and isinstance(out[0], T) and out[0].ty in (str, bytes):
        return out[0]
    return T('fmt', out, str)


class ASet(object):
    """A set of the analysed program: iterates in insertion order."""
    def __init__(self, items=(), frozen=False):
        self.d = {}
        self.frozen = frozen
        for i in items:
            self.d[i] = True

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __contains__(self, x):
        return x in self.d

    def __eq__(self, o):
        return isinstance(o, ASet) and self.d.keys() == o.d.keys()

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if not self.frozen:
            raise TypeError("unhashable type: 'set'")
        h = 0
        for x in self.d:
            h ^= hash(x)
        return hash(('fs', h))

    def __repr__(self):
        return '{%s}' % ', '.join(map(show, self.d))

    def _n(self, items):
        return ASet(items, self.frozen)

    def __or__(self, o):
        _need(o)
        return self._n(list(self.d) + list(o))

    def __and__(self, o):
        _need(o)
        o = list(o)
        return self._n([x for x in self.d if x in o])

    def __sub__(self, o):
        _need(o)
        o = list(o)
        return self._n([x for x in self.d if x not in o])

    def __xor__(self, o):
        _need(o)
        o = list(o)
        return self._n([x for x in self.d if x not in o] + [x for x in o if x not in self.d])

    def __rsub__(self, o):
        return ASet([x for x in o if x not in self.d])

    __ror__ = __or__
    __rand__ = __and__

    def __le__(self, o):
        return all(x in o for x in self.d)

    def __ge__(self, o):
        return all(x in self.d for x in o)

    def __lt__(self, o):
        return self <= o and len(self) < len(o)

    def __gt__(self, o):
        return self >= o and len(self) > len(o)

    def _i(self, r):
        if self.frozen:
            return r
        self.d = r.d
        return self

    def __ior__(self, o):
        if self.frozen:
            return self | o
        _need(o)
        self.update(o)
        return self

    def __iand__(self, o):
        return self._i(self & o)

    def __isub__(self, o):
        return self._i(self - o)

    def __ixor__(self, o):
        return self._i(self ^ o)

    def copy(self):
        return self._n(self.d)

    def union(self, *os):
        r = list(self.d)
        for o in os:
            r += list(o)
        return self._n(r)

    def intersection(self, *os):
        r = self
        for o in os:
            r = r & ASet(o)
        return self._n(r)

    def difference(self, *os):
        r = self
        for o in os:
            r = r - ASet(o)
        return self._n(r)

    def symmetric_difference(self, o):
        return self ^ ASet(o)

    def issubset(self, o):
        return self <= ASet(o)

    def issuperset(self, o):
        return self >= ASet(o)

    def isdisjoint(self, o):
        return not any(x in self.d for x in o)

    def _w(self):
        if self.frozen:
            raise AttributeError("'frozenset' object has no such attribute")

    def add(self, x):
        self._w()
        hash(x)
        self.d[x] = True

    def update(self, *os):
        self._w()
        for o in os:
            for x in list(o):
                hash(x)
                self.d[x] = True

    def discard(self, x):
        self._w()
        self.d.pop(x, None)

    def remove(self, x):
        self._w()
        del self.d[x]

    def pop(self):
        self._w()
        if not self.d:
            raise KeyError('pop from an empty set')
        k = next(iter(self.d))
        del self.d[k]
        return k

    def clear(self):
        self._w()
        self.d.clear()

    def difference_update(self, *os):
        for o in os:
            for x in list(o):
                self.discard(x)

    def intersection_update(self, *os):
        self.d = self.intersection(*os).d


def _need(o):
    if not isinstance(o, (ASet, type({}.keys()), type({}.items()))):
        raise TypeError('unsupported operand for a set')


class Frame(object):
    __slots__ = ('vars', 'parent', 'mod', 'fn', 'kind', 'locs', 'globs', 'nonl', 'node', 'cell', 'gen', 'selfv')

    def __init__(self, vars, parent, mod, fn, kind, locs=frozenset(), globs=frozenset(), nonl=frozenset(), cell=None):
        self.vars, self.parent, self.mod, self.fn, self.kind = vars, parent, mod, fn, kind
        self.locs, self.globs, self.nonl, self.cell = locs, globs, nonl, cell
        self.node = None
        self.gen = None
        self.selfv = None


class Fn(object):
    """Function of the analysed program with its defining frame."""
    def __init__(self, node, frame, mod, qual, defaults, kwdefaults, cell):
        self.node, self.frame, self.mod, self.qual = node, frame, mod, qual
        self.defaults, self.kwdefaults, self.cell = defaults, kwdefaults, cell
        self.attrs = {'__name__': getattr(node, 'name', '<lambda>'), '__qualname__': qual, '__doc__': None,
                      '__module__': mod.name}

    def __call__(self, *a, **k):
        return CUR[0].call(self, list(a), k)

    def __repr__(self):
        return '<%s>' % self.qual


class Bound(object):
    __slots__ = ('fn', 'selfv')

    def __init__(self, fn, selfv):
        self.fn, self.selfv = fn, selfv

    def __eq__(self, o):
        return type(o) is Bound and o.fn is self.fn and o.selfv is self.selfv

    def __hash__(self):
        return hash((id(self.fn), id(self.selfv)))

    def __call__(self, *a, **k):
        return CUR[0].call(self, list(a), k)

    def __repr__(self):
        return '<bound %r of %r>' % (self.fn, self.selfv)


class Prop(object):
    def __init__(self, fget=None, fset=None, fdel=None, doc=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel

    def getter(self, f):
        return Prop(f, self.fset, self.fdel)

    def setter(self, f):
        return Prop(self.fget, f, self.fdel)

    def deleter(self, f):
        return Prop(self.fget, self.fset, f)


class Static(object):
    def __init__(self, fn):
        self.fn = fn


class ClsM(object):
    def __init__(self, fn):
        self.fn = fn


class Cls(object):
    """Class of the analysed program."""
    def __init__(self, name, mod, node, bases, ns, qual):
        self.name, self.mod, self.node, self.bases, self.ns, self.qual = name, mod, node, bases, ns, qual
        self._mro = self._slots = None
        self.meta = None

    def slots(self):
        """The names its instances may have as attributes, or None if any."""
        if self._slots is None:
            names = set()
            for c in self.mro():
                if c is object:
                    continue
                d = c.ns.get('__slots__') if isinstance(c, Cls) else None
                if d is None:
                    names = None
                    break
                names |= set([d] if isinstance(d, str) else d)
            self._slots = (names if names is None or '__dict__' not in names else None,)
        return self._slots[0]

    def mro(self):
        if self._mro is None:
            self._mro = c3(self)
        return self._mro

    def __call__(self, *a, **k):
        return CUR[0].call(self, list(a), k)

    def __repr__(self):
        return '<class %s>' % self.name


def mro_of(c):
    if isinstance(c, Cls):
        return c.mro()
    if isinstance(c, type):
        return list(c.__mro__)
    return [c]


def c3(c):
    bases = list(c.bases) or [object]
    lists = [list(mro_of(b)) for b in bases] + [bases]
    out = [c]
    while True:
        lists = [l for l in lists if l]
        if not lists:
            return out
        for l in lists:
            h = l[0]
            if not any(any(h is x for x in m[1:]) for m in lists):
                break
        else:
            raise AnalysisError('inconsistent MRO of %s' % c.name)
        out.append(h)
        lists = [[x for x in m if x is not h] for m in lists]


def _native(f):
    """Special methods called by library code: builtin exceptions are raised natively."""
    def g(*a):
        try:
            return f(*a)
        except RaiseSig as s:
            if isinstance(s.value, Exception):
                raise s.value
            raise
    return g


class Inst(object):
    """Instance of an analysed class."""
    __slots__ = ('cls', 'attrs', 'tag')
    count = [0]

    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = {} if attrs is None else attrs
        Inst.count[0] += 1
        self.tag = Inst.count[0]

    def _m(self, name):
        return CUR[0].type_attr(self, name)

    @_native
    def __hash__(self):
        m = self._m('__hash__')
        return object.__hash__(self) if m is None else hash(CUR[0].call(m, [], {}))

    @_native
    def __eq__(self, o):
        if self is o:
            return True
        m = self._m('__eq__')
        if m is None:
            return False
        r = CUR[0].call(m, [o], {})
        return False if r is NotImplemented else CUR[0].truth(r)

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return '<%s#%d>' % (self.cls.name, self.tag)

    @_native
    def __bool__(self):
        return CUR[0].truth(self)

    @_native
    def __len__(self):
        return CUR[0].call_method(self, '__len__', [])

    @_native
    def __iter__(self):
        return CUR[0].iterate(self)

    @_native
    def __next__(self):
        return CUR[0].call_method(self, '__next__', [])

    @_native
    def __contains__(self, x):
        return CUR[0].contains(x, self)

    @_native
    def __getitem__(self, k):
        return CUR[0].call_method(self, '__getitem__', [k])

    def __call__(self, *a, **k):
        return CUR[0].call(self, list(a), k)

    def __lt__(self, o):
        return CUR[0].compare('<', self, o)

    def __gt__(self, o):
        return CUR[0].compare('>', self, o)

    def __le__(self, o):
        return CUR[0].compare('<=', self, o)

    def __ge__(self, o):
        return CUR[0].compare('>=', self, o)

    def __iadd__(self, o):
        return CUR[0].iop('+', self, o)

    def __add__(self, o):
        return CUR[0].binop('+', self, o)

    def __enter__(self):
        return CUR[0].call_method(self, '__enter__', [])

    def __exit__(self, *a):
        return CUR[0].call_method(self, '__exit__', list(a))


class SuperV(object):
    __slots__ = ('cls', 'selfv', 'start')

    def __init__(self, cls, selfv, start):
        self.cls, self.selfv, self.start = cls, selfv, start


class Model(object):
    """Base of the checker's stand-ins for collaborators the source does not define."""


class ExtMod(object):
    """A module outside of the analysed program."""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<ext %s>' % self.name


def show(v, depth=0):
    if depth > 7:
        return '..'
    d = depth + 1
    if isinstance(v, T):
        a = v.args
        if v.op == 'sym':
            return '<%s>' % a[0]
        if v.op == 'ext':
            return a[0]
        if v.op == 'fmt':
            return 'f"%s"' % ''.join(x if isinstance(x, str) else '{%s}' % show(x, d) for x in a)
        if v.op == 'attr':
            return '%s.%s' % (show(a[0], d), a[1])
        if v.op == 'lin':
            return '(%s)' % ' + '.join(['%s%s' % ('' if c == 1 else '%s*' % c, show(t, d)) for t, c in a[0]] + ([str(a[1])] if a[1] else []))
        return '%s(%s)' % (v.op, ', '.join(show(x, d) for x in a))
    if isinstance(v, tuple):
        return '(%s)' % ', '.join(show(x, d) for x in v)
    if isinstance(v, list):
        return '[%s]' % ', '.join(show(x, d) for x in v)
    if isinstance(v, dict):
        return '{%s}' % ', '.join('%s: %s' % (show(k, d), show(x, d)) for k, x in v.items())
    if isinstance(v, Inst):
        return '%s{%s}' % (v.cls.name, ', '.join('%s=%s' % (k, show(x, d)) for k, x in sorted(v.attrs.items())))
    return repr(v)


def subterms(v, seen=None):
    """All abstract values inside of v, looking into containers and instances."""
    if seen is None:
        seen = set()
    stack = [v]
    while stack:
        x = stack.pop()
        yield x
        if isinstance(x, T):
            stack.extend(x.args)
        elif isinstance(x, (tuple, list, frozenset)):
            stack.extend(x)
        elif isinstance(x, (ASet, dict, Inst)):
            if id(x) in seen:
                continue
            seen.add(id(x))
            if isinstance(x, ASet):
                stack.extend(x.d)
            elif isinstance(x, dict):
                stack.extend(x.keys())
                stack.extend(x.values())
            else:
                stack.extend(x.attrs.values())


def mentions(v, t):
    return any(type(x) is type(t) and x == t for x in subterms(v) if isinstance(x, (T, str)))
