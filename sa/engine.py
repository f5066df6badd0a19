"""Abstract interpretation of the analysed sources.

The interpreter walks the syntax trees of the repository.  It never imports or executes the repository's code.  Where a
condition depends on something the source does not determine, both outcomes are analysed (see explore.py); facts chosen
on a path are remembered, so that one path is consistent with itself.
"""
import ast
import builtins as pyb
import collections
import threading
import types

from .values import *
from .values import hkey
from .program import COMPS, PACKAGES, ModInfo
from . import lib

NATIVE_ITER = (type(iter([])), type(iter({})), type(iter({}.values())), type(iter({}.items())), type(iter(())),
               type(iter('')), type(iter(range(1))), map, filter, zip, enumerate, reversed, types.GeneratorType)
NATIVE = (str, bytes, int, float, tuple, list, dict, ASet, collections.deque, type({}.keys()), type({}.values()),
          type({}.items()), BaseException, range, slice, Model, type(NotImplemented)) + NATIVE_ITER
MAX_STEPS = 1000000
MAX_DEPTH = 950     # as the interpreter does by default (1000), with the frames of the caller


class ReturnSig(Signal):
    def __init__(self, value):
        self.value = value


class BreakSig(Signal):
    pass


class ContinueSig(Signal):
    pass


class Interp(object):
    def __init__(self, src, script=()):
        self.src = src
        self.script, self.pos, self.taken, self.pending = list(script), 0, [], []
        self.facts = {}
        self.order = []
        self.mods = {}
        self.stack = []
        self.excs = []
        self.events = []
        self.steps, self.max_steps = 0, MAX_STEPS
        self.counter = 0
        self.visited = set()
        self.reached = set()
        self.project = {}       # modules of the applications that use the library: name -> ModInfo; no other modules exist below their names
        self.left = collections.deque(maxlen=60)
        self.thread, self.process, self.host = 'T0', 'P0', 'H0'
        self.gens = []
        self.causes = {}
        self.ext = {}          # dotted name -> value: stand-ins for things outside of the repository
        self.hook = None       # decides an atom: hook(atom) -> bool or None
        self.timers = []
        self.problems = []
        self.obligations = 0
        self.rules = {}
        self.concrete, self.pickles = False, []
        self.lib = lib.Lib(self)
        CUR[0] = self

    # ------------------------------------------------------------------ choices and facts

    def choose(self, n, what=None):
        if self.pos < len(self.script):
            c = self.script[self.pos]
        else:
            c = 0
            for alt in range(1, n):
                self.pending.append(self.taken + [alt])
        self.pos += 1
        self.taken.append(c)
        if what is not None:
            self.order.append((what, c))
        return c

    def pick(self, what, options):
        c = self.choose(len(options))
        o = options[c]
        plain = o is None or isinstance(o, (bool, str, int, float, T)) or isinstance(o, (tuple, list, dict)) and len(repr(o)) < 60
        self.order.append((what, (show(o) if isinstance(o, T) else repr(o)) if plain else 'choice %d' % c))
        return o

    def assume(self, atom, val=True):
        self.facts[atom] = val

    def decide(self, atom):
        k = self.known(atom)
        if k is None and self.hook is not None:
            k = self.hook(atom)
        if k is not None:
            return k
        b = self.choose(2) == 0
        self.facts[atom] = b
        self.order.append((atom, b))
        return b

    def known(self, a):
        if a in self.facts:
            return self.facts[a]
        if a.op == 'none':
            x = a.args[0]
            if self.facts.get(T('truthy', (x,))):
                return False
        elif a.op == 'truthy':
            x = a.args[0]
            if self.facts.get(T('none', (x,))):
                return False
        elif a.op == 'eq':
            x, y = a.args
            for p, q in ((x, y), (y, x)):
                if isinstance(p, T) and not isinstance(q, T):
                    if q is not None and self.facts.get(T('none', (p,))):
                        return False
                    t = self.facts.get(T('truthy', (p,)))
                    if t is not None and t != bool(q):
                        return False
                    for f, v in self.facts.items():
                        if v and f.op == 'eq' and any(same(p, z) for z in f.args):
                            o = f.args[1] if same(f.args[0], p) else f.args[0]
                            if not isinstance(o, T):
                                return o == q
        elif a.op == 'ltz':
            ts, c = a.args[0].args
            neg = tuple(sorted(((t, -k) for t, k in ts), key=lambda p: show(p[0])))
            for f, v in self.facts.items():
                if f.op != 'ltz':
                    continue
                ts2, c2 = f.args[0].args
                if ts2 == ts and (c <= c2 if v else c >= c2):
                    return v
                if ts2 == neg:
                    if v and c + c2 >= 0:
                        return False
                    if not v and c + c2 < 0:
                        return True
        return None

    def uid(self):
        self.counter += 1
        return self.counter

    # ------------------------------------------------------------------ reporting

    def loc(self):
        for fr in reversed(self.stack):
            if fr.node is not None and fr.mod is not None:
                return '%s:%s in %s' % (fr.mod.path, getattr(fr.node, 'lineno', '?'), fr.fn.qual if fr.fn is not None else '<module>')
        return '<scenario>'

    def where(self):
        """Call chain of the current point."""
        out = []
        for fr in self.stack:
            if fr.node is not None:
                s = '%s:%s in %s' % (fr.mod.path, getattr(fr.node, 'lineno', '?'), fr.fn.qual if fr.fn is not None else '<module>')
                if not out or out[-1] != s:
                    out.append(s)
        return out

    def require(self, cond, rule, message, loc=None):
        self.obligations += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if not cond:
            loc = loc or self.loc()
            if loc == '<scenario>':
                out = [x for x in self.left if x[1] in self.src.paths]
                if out:
                    d = min(x[0] for x in out)
                    x = [x for x in out if x[0] == d][-1]
                    loc = '%s:%s in %s (entry point of the path)' % x[1:]
            self.problems.append((rule, message, loc, self.trail()))
        return bool(cond)

    def trail(self):
        """Functions of the sources left most recently on this path, with the line they were left at."""
        return ['%s%s:%s in %s' % ('  ' * min(x[0], 12), x[1], x[2], x[3]) for x in self.left if x[1] in self.src.paths][-30:]

    def conditions(self):
        return ['%s%s' % ('' if v else 'not ', show(a)) if isinstance(v, bool) else '%s = %s' % (a, v) for a, v in self.order]

    # ------------------------------------------------------------------ raising

    def throw(self, exc):
        raise RaiseSig(exc, self.loc())

    def exc_isinstance(self, exc, h):
        if isinstance(h, tuple):
            return any(self.exc_isinstance(exc, x) for x in h)
        if isinstance(exc, Inst):
            return any(h is c for c in exc.cls.mro())
        if isinstance(h, type):
            if hasattr(type(exc), 'is_a'):
                return exc.is_a(self, h)
            return isinstance(exc, h)
        return False

    def native(self, f, args, kw):
        """Calls library code on abstract values; its exceptions are exceptions of the analysed program."""
        try:
            return f(*args, **kw)
        except (AnalysisError, RecursionError):
            raise
        except Exception as e:
            raise RaiseSig(e, self.loc())

    # ------------------------------------------------------------------ truth, comparison, arithmetic

    def truth(self, v):
        if v is None or v is True or v is False:
            return bool(v)
        if isinstance(v, T):
            if v.op == 'fmt':
                if any(isinstance(p, (str, bytes)) and p for p in v.args):
                    return True
            if v.op == 'lin' or v.ty in (int, float):
                return not self.eq(v, 0)
            if v.op == 'ext':
                return True
            if v.ty is object and v.op not in ('found', 'sym'):
                return not (v.opt and self.is_none(v))     # an object; data of users may be false as well
            if v.opt and self.is_none(v):
                return False
            return self.decide(T('truthy', (v,)))
        if isinstance(v, Inst):
            m = self.type_attr(v, '__bool__')
            if m is not None:
                r = self.call(m, [], {})
                if not isinstance(r, (bool, T)):
                    self.throw(TypeError('__bool__ should return bool, returned %s' % type(r).__name__))
                return self.truth(r)
            m = self.type_attr(v, '__len__')
            if m is not None:
                return self.truth(self.call(m, [], {}))
            return True
        if isinstance(v, (str, bytes, int, float, tuple, list, dict, ASet, range, collections.deque)):
            return bool(v)
        if isinstance(v, (type({}.keys()), type({}.values()), type({}.items()))):
            return len(v) > 0
        if isinstance(v, Model):
            return self.native(bool, [v], {})
        return True

    def is_none(self, v):
        if isinstance(v, T):
            return v.opt and self.decide(T('none', (v,)))
        return v is None

    def is_(self, a, b):
        if a is None:
            return self.is_none(b)
        if b is None:
            return self.is_none(a)
        if isinstance(a, T) or isinstance(b, T):
            if isinstance(a, T) and isinstance(b, T) and a == b:
                return True
            if isinstance(a, T) and isinstance(b, bool) and a.ty is None or isinstance(b, T) and isinstance(a, bool) and b.ty is None:
                return self.decide(T('eq', (a, b)))
            return False
        if isinstance(a, Bound) and isinstance(b, Bound):
            return False
        if isinstance(a, (str, int, float, tuple)) and type(a) is type(b):
            return a == b
        return a is b

    def eq(self, a, b):
        if a is b:
            return True
        if isinstance(a, T) or isinstance(b, T):
            if not isinstance(a, T):
                a, b = b, a
            if isinstance(b, T) and a == b:
                return True
            if b is None:
                return self.is_none(a)
            if isinstance(b, (list, dict, ASet, Inst, Fn, Cls, Bound)) and a.ty is not None:
                return False
            if isinstance(b, T) and a.op == b.op and a.op in ('ident', 'pid', 'host', 'nid'):
                return False    # named apart: alive at the same time
            if self._numeric(a) and self._numeric(b):
                l = self.lin(self.binop('-', a, b))
                if not l[0]:
                    return l[1] == 0
                at = T('ltz', (self._lin_t(l),))
                neg = ({t: -k for t, k in l[0].items()}, -l[1])
                at2 = T('ltz', (self._lin_t(neg),))
                k1, k2 = self.known(at), self.known(at2)
                if k1 or k2:
                    return False
                if k1 is False and k2 is False:
                    return True
                t = self._lin_t(l)
                t2 = self._lin_t(neg)
                return self.decide(T('zero', (t if show(t) < show(t2) else t2,)))
            if clash(a, b):
                return False
            if isinstance(a, T) and isinstance(b, T):
                if a.opt and a.op == 'sym' and not b.opt and self.known(T('none', (a,))):
                    return False
                if (a.op == 'sym' and not a.opened or b.op == 'sym' and not b.opened) and not (mentions(a, b) or mentions(b, a)):
                    return False     # generic symbols differ from everything else
                if fresh(a) != fresh(b):
                    return False     # independent random numbers of full range
                if show(b) < show(a):
                    a, b = b, a
                return self.decide(T('eq', (a, b)))
            if a.op == 'sym' and not a.opened:
                return False
            if a.opt and self.is_none(a):
                return b is None
            return self.decide(T('eq', (a, b)))
        if isinstance(a, (list, tuple)) and type(a) is type(b):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            return len(a) == len(b) and all(k in b and self.eq(x, b[k]) for k, x in a.items())
        if isinstance(a, (type({}.keys()),)) or isinstance(b, (type({}.keys()),)):
            return ASet(a) == ASet(b)
        if isinstance(b, Inst) and not isinstance(a, Inst):
            a, b = b, a
        return self.native(lambda: a == b, [], {})

    @staticmethod
    def _numeric(v):
        return isinstance(v, (int, float)) and not isinstance(v, bool) or isinstance(v, T) and (v.ty in (int, float) or v.op == 'lin')

    def lin(self, v):
        if isinstance(v, T):
            if v.op == 'lin':
                return dict(v.args[0]), v.args[1]
            return {v: 1}, 0
        return {}, v

    @staticmethod
    def _lin_t(l):
        d = tuple(sorted(((t, k) for t, k in l[0].items() if k), key=lambda p: show(p[0])))
        return T('lin', (d, l[1]), float)

    def compare(self, op, a, b):
        if isinstance(a, Inst) or isinstance(b, Inst):
            names = {'<': ('__lt__', '__gt__'), '>': ('__gt__', '__lt__'), '<=': ('__le__', '__ge__'), '>=': ('__ge__', '__le__')}[op]
            for x, y, n in ((a, b, names[0]), (b, a, names[1])):
                if isinstance(x, Inst):
                    m = self.type_attr(x, n)
                    if m is not None:
                        r = self.call(m, [y], {})
                        if r is not NotImplemented:
                            return self.truth(r)
            self.throw(TypeError('not supported between instances'))
        if isinstance(a, T) or isinstance(b, T):
            if a is None or b is None:
                self.throw(TypeError('not supported between NoneType'))
            for x in (a, b):
                if isinstance(x, T) and x.opt and self.is_none(x):
                    self.throw(TypeError('not supported between NoneType'))
            num = [isinstance(x, T) and x.ty in (None, int, float) or self._numeric(x) for x in (a, b)]
            if not all(num):
                ka, kb = show(a), show(b)     # arbitrary but fixed order of strings
                return {'<': ka < kb, '>': ka > kb, '<=': ka <= kb, '>=': ka >= kb}[op]
            if op in ('>', '<='):
                l = self.lin(self.binop('-', b, a))
            else:
                l = self.lin(self.binop('-', a, b))
            neg = op in ('<=', '>=')
            if not any(l[0].values()):
                return (l[1] < 0) != neg
            at = T('ltz', (self._lin_t(l),))
            k = self.known(at)
            if k is None:
                for z in (self._lin_t(l), self._lin_t(({t: -c for t, c in l[0].items()}, -l[1]))):
                    if self.facts.get(T('zero', (z,))):
                        k = False
            return (self.decide(at) if k is None else k) != neg
        return self.native({'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b}[op], [], {})

    BINM = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '**': 'pow', '|': 'or',
            '&': 'and', '^': 'xor', '<<': 'lshift', '>>': 'rshift', '@': 'matmul'}

    def binop(self, op, a, b):
        if isinstance(a, Inst) or isinstance(b, Inst):
            n = self.BINM[op]
            for x, y, m in ((a, b, '__%s__' % n), (b, a, '__r%s__' % n)):
                if isinstance(x, Inst):
                    f = self.type_attr(x, m)
                    if f is not None:
                        r = self.call(f, [y], {})
                        if r is not NotImplemented:
                            return r
            self.throw(TypeError('unsupported operand type(s) for %s' % op))
        if op == '%' and (isinstance(a, str) or isinstance(a, T) and a.ty is str):
            return self.lib.percent(a, b)
        if isinstance(a, T) or isinstance(b, T):
            for x in (a, b):
                if isinstance(x, T) and x.opt and self.is_none(x) or x is None:
                    self.throw(TypeError('unsupported operand NoneType for %s' % op))
            ta, tb = _ty(a), _ty(b)
            if str in (ta, tb) or bytes in (ta, tb):
                if op == '+':
                    if ta is not tb and None not in (ta, tb):
                        self.throw(TypeError('cannot concatenate'))
                    return fmt(a, b)
                return T('op' + op, (a, b), ta)
            if op in '+-' and (ta in (int, float, None)) and tb in (int, float, None):
                la, lb = self.lin(a), self.lin(b)
                k = 1 if op == '+' else -1
                d = dict(la[0])
                for t, c in lb[0].items():
                    d[t] = d.get(t, 0) + k * c
                d = {t: c for t, c in d.items() if c}
                c = la[1] + k * lb[1]
                if not d:
                    return c
                if c == 0 and len(d) == 1 and list(d.values()) == [1]:
                    return list(d)[0]
                r = self._lin_t((d, c))
                r.ty = int if ta is int and tb is int else float
                return r
            if op == '*' and (isinstance(a, (int, float)) or isinstance(b, (int, float))):
                c, t = (a, b) if isinstance(a, (int, float)) else (b, a)
                l = self.lin(t)
                d = {x: k * c for x, k in l[0].items() if k * c}
                if not d:
                    return l[1] * c
                r = self._lin_t((d, l[1] * c))
                r.ty = t.ty
                return r
            return T('op' + op, (a, b), ta or tb)
        f = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '//': lambda: a // b,
             '%': lambda: a % b, '**': lambda: a ** b, '|': lambda: a | b, '&': lambda: a & b, '^': lambda: a ^ b,
             '<<': lambda: a << b, '>>': lambda: a >> b}[op]
        return self.native(f, [], {})

    def iop(self, op, a, b):
        if isinstance(a, Inst):
            f = self.type_attr(a, '__i%s__' % self.BINM[op])
            if f is not None:
                r = self.call(f, [b], {})
                if r is not NotImplemented:
                    return r
        elif isinstance(a, (list, ASet, dict, collections.deque)):
            if isinstance(a, list) and op == '+':
                a.extend(self.iterate(b))
                return a
            return self.native({'+': lambda: a.__iadd__(b), '|': lambda: a.__ior__(b), '&': lambda: a.__iand__(b),
                                '-': lambda: a.__isub__(b), '^': lambda: a.__ixor__(b), '*': lambda: a.__imul__(b)}[op], [], {})
        return self.binop(op, a, b)

    def contains(self, x, c):
        if isinstance(c, Inst):
            m = self.type_attr(c, '__contains__')
            if m is not None:
                return self.truth(self.call(m, [x], {}))
            return any(self.eq(x, y) for y in self.iterate(c))
        if isinstance(c, (list, tuple, collections.deque)):
            return any(y is x or self.eq(x, y) for y in c)
        if isinstance(c, T):
            if c.opt and self.is_none(c):
                self.throw(TypeError("argument of type 'NoneType' is not iterable"))
            return self.decide(T('in', (x, c)))
        if isinstance(c, str) and isinstance(x, T):
            return self.decide(T('in', (x, c)))
        if isinstance(c, (dict, ASet, str, bytes, Model) + NATIVE):
            if isinstance(c, (dict, ASet, type({}.keys()))):
                self.hashable(x)
            return self.native(lambda: x in c, [], {})
        self.throw(TypeError('argument is not iterable'))

    def hashable(self, x):
        if isinstance(x, (list, dict)) or isinstance(x, ASet) and not x.frozen:
            self.throw(TypeError('unhashable type'))
        if isinstance(x, tuple):
            for y in x:
                self.hashable(y)

    # ------------------------------------------------------------------ iteration

    def iterate(self, v):
        """A native iterator over v."""
        if isinstance(v, (list, tuple, dict, ASet, str, bytes, range, collections.deque, type({}.keys()), type({}.values()),
                          type({}.items()))):
            return iter(v)
        if isinstance(v, NATIVE_ITER) or isinstance(v, GenObj):
            return v
        if isinstance(v, Inst):
            m = self.type_attr(v, '__iter__')
            if m is not None:
                r = self.call(m, [], {})
                return NativeNext(r) if isinstance(r, Inst) else self.iterate(r)
            m = self.type_attr(v, '__getitem__')
            if m is not None:
                return self._seq_iter(v)
            self.throw(TypeError("'%s' object is not iterable" % v.cls.name))
        if isinstance(v, T):
            return self.lib.iter_term(v)
        if isinstance(v, Cls):
            if '~members' in v.ns:
                return iter([o for k, o in v.ns['~members'].items() if o.attrs['name'] == k])
            if v.meta is not None and isinstance(self.class_find(v.meta.mro(), '__iter__')[0], Fn):
                return self.iterate(self.call(self.class_find(v.meta.mro(), '__iter__')[0], [v], {}))
        if hasattr(type(v), '__iter__') and not isinstance(v, (Fn, Cls, Bound)):
            return self.native(iter, [v], {})
        self.throw(TypeError("'%s' object is not iterable" % type(v).__name__))

    def _seq_iter(self, v):
        i = 0
        while True:
            try:
                x = self.call_method(v, '__getitem__', [i])
            except RaiseSig as s:
                if isinstance(s.value, IndexError):
                    return
                raise
            yield x
            i += 1

    def each(self, v):
        it = self.iterate(v)
        while True:
            self.tick()
            try:
                x = next(it)
            except StopIteration:
                return
            except (Signal, AnalysisError):
                raise
            except Exception as e:
                raise RaiseSig(e, self.loc())
            yield x

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Diverges(self.loc())

    # ------------------------------------------------------------------ attributes

    def class_find(self, mro, name):
        for c in mro:
            if isinstance(c, Cls):
                if name in c.ns:
                    return c.ns[name], c
            elif isinstance(c, type):
                if name in vars(c):
                    return vars(c)[name], c
            elif isinstance(c, T):
                return T('attr', (c, name)), c
        return None, None

    def type_attr(self, inst, name):
        """Special method lookup: on the class only; None if absent or inherited from object."""
        v, c = self.class_find(inst.cls.mro(), name)
        if c is None or c is object or v is None:
            return None
        if isinstance(c, type) and not issubclass(c, Model) and name in ('__hash__', '__eq__', '__setattr__', '__getattribute__', '__delattr__'):
            return None
        return self.bind(v, inst, inst.cls, c)

    def bind(self, v, inst, cls, owner):
        if isinstance(v, Fn) or isinstance(v, lib.NFn) and v.binds:
            return Bound(v, inst)
        if isinstance(v, (staticmethod, classmethod)):
            return v.__func__ if isinstance(v, staticmethod) else NBound(v.__func__, cls)
        if isinstance(v, Static):
            return v.fn
        if isinstance(v, ClsM):
            return Bound(v.fn, cls) if isinstance(v.fn, Fn) else NBound(v.fn, cls)
        if isinstance(v, Prop):
            if v.fget is None:
                self.throw(AttributeError('unreadable attribute'))
            return self.call(v.fget, [inst], {})
        if isinstance(v, property):
            return self.native(v.fget, [inst], {})
        if isinstance(v, Inst) and self.type_attr(v, '__get__') is not None:
            return self.call_method(v, '__get__', [inst, cls])
        if isinstance(v, lib.Cached):
            r = self.call(v.fn, [inst], {})
            if isinstance(inst, Inst):
                inst.attrs[v.name or v.fn.attrs['__name__']] = r
            return r
        if isinstance(owner, type) and isinstance(v, (types.FunctionType, types.BuiltinFunctionType, types.WrapperDescriptorType,
                                                      types.MethodDescriptorType)):
            return NBound(self.lib.object_method(v, owner), inst)
        if isinstance(owner, type) and isinstance(v, types.GetSetDescriptorType):
            return getattr_default(inst, v)
        if isinstance(v, lib.PartialMethod):
            return lib.Curry(v.fn, (inst,) + v.args, v.kw)
        return v

    def getattr(self, o, name):
        if name == '__cause__' and isinstance(o, (Inst, BaseException)) and (isinstance(o, BaseException) or BaseException in o.cls.mro()):
            return self.causes.get(id(o), (None, None))[1]
        if name in ('__traceback__', 'with_traceback', '__context__', '__suppress_context__') and (
                isinstance(o, BaseException) or isinstance(o, Inst) and BaseException in o.cls.mro()):
            return {'__traceback__': T('traceback', (0,), object), 'with_traceback': lib.NFn(name, lambda tb: o), '__context__': None,
                    '__suppress_context__': False}[name]
        if isinstance(o, lib.SubV):
            return self.lib.sub_getattr(o, name)
        if isinstance(o, Inst):
            v, c = self.class_find(o.cls.mro(), name)
            if isinstance(v, Inst) and isinstance(c, Cls) and self.type_attr(v, '__set__') is not None and self.type_attr(v, '__get__') is not None:
                return self.bind(v, o, o.cls, c)
            if c is not None and c is not object and isinstance(v, (Prop, property)):
                try:
                    return self.bind(v, o, o.cls, c)
                except RaiseSig as s:
                    if self.exc_isinstance(s.value, AttributeError):
                        g, gc = self.class_find(o.cls.mro(), '__getattr__')
                        if isinstance(g, Fn):
                            return self.call(Bound(g, o), [name], {})
                    raise
            if name in o.attrs:
                return o.attrs[name]
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return o.attrs
            if c is not None and not (c is object and name in ('__eq__',)):
                if isinstance(v, T) and isinstance(c, T):
                    return T('attr', (o, name)) if False else self.lib.ext_inherited(o, c, name)
                return self.bind(v, o, o.cls, c)
            g, c = self.class_find(o.cls.mro(), '__getattr__')
            if c is not None and isinstance(g, Fn):
                return self.call(Bound(g, o), [name], {})
            if c is not None and isinstance(g, types.FunctionType):
                return self.native(g, [o, name], {})
            if name == 'args' and any(isinstance(x, type) and issubclass(x, BaseException) for x in o.cls.mro()):
                return ()
            self.throw(AttributeError("'%s' object has no attribute '%s'" % (o.cls.name, name)))
        if isinstance(o, Cls):
            if name == '__name__':
                return o.name
            if name == '__qualname__':
                return o.qual
            if name == '__mro__':
                return tuple(o.mro())
            if name == '__bases__':
                return tuple(o.bases) or (object,)
            if name == '__dict__':
                return o.ns
            if name == '__class__':
                return type
            if name == '__doc__':
                return None
            v, c = self.class_find(o.mro(), name)
            if c is None and o.meta is not None:
                v, c = self.class_find(o.meta.mro(), name)
                if isinstance(c, Cls):
                    return self.bind(v, o, o.meta, c)
                c = None
            if c is None and name == '__members__' and '~members' in o.ns:
                return o.ns['~members']
            if c is None:
                self.throw(AttributeError("type object '%s' has no attribute '%s'" % (o.name, name)))
            if isinstance(v, Static):
                return v.fn
            if isinstance(v, staticmethod):
                return v.__func__
            if isinstance(v, ClsM):
                return Bound(v.fn, o) if isinstance(v.fn, Fn) else NBound(v.fn, o)
            if isinstance(c, type) and c is not object and not issubclass(c, Model) or c is object:
                if isinstance(v, (types.WrapperDescriptorType, types.BuiltinFunctionType, types.MethodDescriptorType)):
                    return self.lib.object_method(v, c)
            return v
        if isinstance(o, SuperV):
            if isinstance(o.selfv, lib.SubV):
                return self.super_sub(o, name)
            mro = (o.selfv.cls if isinstance(o.selfv, Inst) else o.selfv).mro() if isinstance(o.selfv, (Inst, Cls)) else []
            i = [k for k, x in enumerate(mro) if x is o.start]
            if not i:
                self.throw(TypeError('super(type, obj): obj must be an instance or subtype of type'))
            v, c = self.class_find(mro[i[0] + 1:], name)
            if c is None:
                self.throw(AttributeError("'super' object has no attribute '%s'" % name))
            if isinstance(o.selfv, Cls):
                if isinstance(v, ClsM):
                    return Bound(v.fn, o.selfv)
                if isinstance(v, Static):
                    return v.fn
                if name == '__new__':
                    return self.lib.object_new
                return v
            if name == '__new__':
                return self.lib.object_new
            if isinstance(v, T) and isinstance(c, T):
                return self.lib.ext_inherited(o.selfv, c, name)
            return self.bind(v, o.selfv, o.selfv.cls, c)
        if isinstance(o, ModV):
            if name in o.ns:
                return o.ns[name]
            sub = o.name + '.' + name
            if sub in self.mods:
                return self.mods[sub]
            if name == '__dict__':
                return o.ns
            self.throw(AttributeError("module '%s' has no attribute '%s'" % (o.name, name)))
        if isinstance(o, ExtMod):
            return self.lib.mod_attr(o, name)
        if isinstance(o, Fn):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__dict__':
                return {k: v for k, v in o.attrs.items() if not k.startswith('__')}
            if name == '__call__':
                return o
            if name == '__get__':
                return lib.NFn('__get__', lambda inst, cls=None: o if inst is None else Bound(o, inst))
            self.throw(AttributeError("'function' object has no attribute '%s'" % name))
        if isinstance(o, Bound):
            if name == '__self__':
                return o.selfv
            if name == '__func__':
                return o.fn
            if name == '__call__':
                return o
            return self.getattr(o.fn, name)
        if isinstance(o, T):
            return self.lib.term_attr(o, name)
        if isinstance(o, Prop) and name in ('setter', 'getter', 'deleter', 'fget', 'fset', 'fdel'):
            return getattr(o, name)
        if isinstance(o, (lib.NFn, lib.Curry)):
            return self.native(getattr, [o, name], {})
        if isinstance(o, type):
            if o in self.lib.TYPE_ALIAS and isinstance(self.lib.TYPE_ALIAS[o], type):
                o = self.lib.TYPE_ALIAS[o]
            if name in ('__name__', '__mro__', '__module__', '__qualname__', '__doc__', '__bases__', '__dict__'):
                return self.native(getattr, [o, name], {})
            if o is type and name == '__new__':
                return self.lib.object_new
            if o is type and name == '__call__':
                return lib.NFn('__call__', lambda c, *a, **k: self.instantiate(c, list(a), k))
            if o is object or issubclass(o, BaseException) and name in ('__init__', '__new__', '__setattr__', '__str__'):
                v, c = self.class_find(o.__mro__, name)
                if c is None:
                    self.throw(AttributeError(name))
                return self.lib.object_method(v, c)
            r = self.native(getattr, [o, name], {})
            return lib.NFn(name, r) if callable(r) and not isinstance(r, type) else r
        if o is None or isinstance(o, NATIVE) or type(o).__module__ in ('collections', 're', '_io', 'functools', 'sa.lib', 'types') \
                or isinstance(o, (GenObj, lib.Obj)) or isinstance(o, tuple):
            if name == '__class__':
                return type(o)
            if isinstance(o, (str, bytes)) and name in self.lib.STR_METHODS:
                return lib.NFn(name, lambda *a, **k: self.lib.str_method(o, name, a, k))
            if isinstance(o, Model) and name == '__dict__':
                return o._ns() if isinstance(o, lib.LocalModel) else vars(o)
            return self.native(getattr, [o, name], {})
        return self.lib.other_attr(o, name)

    def super_sub(self, o, name):
        mro = o.selfv._cls.mro()
        i = [k for k, x in enumerate(mro) if x is o.start]
        v, c = self.class_find(mro[i[0] + 1:], name)
        if isinstance(c, Cls):
            return self.bind(v, o.selfv, o.selfv._cls, c)
        if name == '__new__':
            return self.lib.object_new
        if hasattr(o.selfv._base, name):
            return self.lib.sub_native(o.selfv, name)
        self.throw(AttributeError("'super' object has no attribute '%s'" % name))

    def setattr(self, o, name, v):
        if isinstance(o, Inst):
            d, c = self.class_find(o.cls.mro(), name)
            sa, sc = self.class_find(o.cls.mro(), '__setattr__')
            if isinstance(sa, Fn):
                self.call(Bound(sa, o), [name, v], {})
                return
            if isinstance(sa, lib.NFn):
                sa.fn(o, name, v)
                return
            self.setattr_default(o, name, v)
        elif isinstance(o, lib.SubV):
            d, c = self.class_find(o._cls.mro(), name)
            sa, sc = self.class_find(o._cls.mro(), '__setattr__')
            if isinstance(sa, Fn):
                self.call(Bound(sa, o), [name, v], {})
            elif isinstance(d, Prop):
                self.call(d.fset, [o, v], {})
            else:
                o.__dict__[name] = v
        elif isinstance(o, Cls):
            o.ns[name] = v
        elif isinstance(o, ModV):
            o.ns[name] = v
        elif isinstance(o, Fn):
            o.attrs[name] = v
        elif isinstance(o, (Model, lib.Obj, lib.Curry, BaseException)):
            self.native(setattr, [o, name, v], {})
        elif isinstance(o, T):
            self.lib.term_setattr(o, name, v)
        elif isinstance(o, SuperV):
            self.setattr_default(o.selfv, name, v)
        else:
            self.throw(AttributeError("cannot set attribute '%s' of %s" % (name, type(o).__name__)))

    def setattr_default(self, o, name, v):
        d, c = self.class_find(o.cls.mro(), name)
        if isinstance(d, Prop):
            if d.fset is None:
                self.throw(AttributeError("can't set attribute '%s'" % name))
            self.call(d.fset, [o, v], {})
        elif isinstance(d, property):
            if d.fset is None:
                self.throw(AttributeError("can't set attribute '%s'" % name))
            self.native(d.fset, [o, v], {})
        elif isinstance(d, Inst) and isinstance(c, Cls) and self.type_attr(d, '__set__') is not None:
            self.call_method(d, '__set__', [o, v])
        else:
            slots = o.cls.slots()
            if slots is not None and name not in slots and not (name.startswith('__') and name.endswith('__')):
                self.throw(AttributeError("'%s' object has no attribute '%s'" % (o.cls.name, name)))
            if name == '__class__':
                o.cls = v
            elif name == '__dict__':
                o.attrs = v
            else:
                o.attrs[name] = v

    def delattr(self, o, name):
        if isinstance(o, Inst):
            da, dc = self.class_find(o.cls.mro(), '__delattr__')
            if isinstance(da, Fn):
                self.call(Bound(da, o), [name], {})
                return
            self.delattr_default(o, name)
        elif isinstance(o, (Cls, ModV)):
            if name not in o.ns:
                self.throw(AttributeError(name))
            del o.ns[name]
        elif isinstance(o, (Model, lib.Obj)):
            self.native(delattr, [o, name], {})
        else:
            self.throw(AttributeError(name))

    def delattr_default(self, o, name):
        d, c = self.class_find(o.cls.mro(), name)
        if isinstance(d, Prop):
            if d.fdel is None:
                self.throw(AttributeError("can't delete attribute"))
            self.call(d.fdel, [o], {})
        elif isinstance(d, Inst) and self.type_attr(d, '__delete__') is not None:
            self.call_method(d, '__delete__', [o])
        elif name in o.attrs:
            del o.attrs[name]
        else:
            self.throw(AttributeError(name))

    # ------------------------------------------------------------------ calls

    def call_method(self, o, name, args, kw=None):
        if isinstance(o, Inst) and name.startswith('__'):
            m = self.type_attr(o, name)
            if m is None:
                self.throw(TypeError("'%s' object does not support %s" % (o.cls.name, name)))
            return self.call(m, args, kw or {})
        return self.call(self.getattr(o, name), args, kw or {})

    def call(self, f, args, kw):
        self.tick()
        if isinstance(f, Bound):
            return self.call(f.fn, [f.selfv] + list(args), kw)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw)
        if isinstance(f, Cls):
            if f.meta is not None:
                m, c = self.class_find(f.meta.mro(), '__call__')
                if isinstance(m, Fn) and not any(x.fn is m for x in self.stack):
                    return self.call(m, [f] + list(args), kw)
            return self.instantiate(f, args, kw)
        if isinstance(f, Inst):
            m = self.type_attr(f, '__call__')
            if m is None:
                self.throw(TypeError("'%s' object is not callable" % f.cls.name))
            return self.call(m, args, kw)
        if isinstance(f, T):
            return self.lib.call_term(f, args, kw)
        if isinstance(f, NBound):
            return self.native(f.fn, [f.selfv] + list(args), kw)
        if isinstance(f, type) and f in self.lib.TYPE_ALIAS:
            return self.native(self.lib.TYPE_ALIAS[f], args, kw)
        if isinstance(f, (ClsM, Static, Prop)) or not callable(f):
            self.throw(TypeError("'%s' object is not callable" % type(f).__name__))
        if isinstance(f, (types.BuiltinFunctionType, types.MethodType, types.FunctionType)):
            s = getattr(f, '__self__', None)
            if isinstance(s, (dict, ASet)) and args:
                if f.__name__ in ('get', 'pop', 'setdefault', 'add', 'discard', 'remove', '__getitem__', '__contains__'):
                    self.hashable(args[0])
                args = [self._plain(a) for a in args]
            elif isinstance(s, (list, collections.deque)) and f.__name__ in ('extend', 'extendleft'):
                args = [list(self.each(args[0]))]
        return self.native(f, args, kw)

    def _plain(self, a):
        """Iterators of the analysed program handed to native containers."""
        return list(self.each(a)) if isinstance(a, Inst) and self.type_attr(a, '__iter__') is not None and \
            self.type_attr(a, '__hash__') is None and False else a

    def instantiate(self, cls, args, kw):
        n, c = self.class_find(cls.mro(), '__new__')
        if isinstance(n, (Fn, Static)):
            o = self.call(n.fn if isinstance(n, Static) else n, [cls] + list(args), kw)
            if isinstance(o, lib.SubV) and any(x is cls for x in o._cls.mro()):
                return self.init_sub(cls, o, args, kw)
            if not (isinstance(o, Inst) and any(x is cls for x in o.cls.mro())):
                return o
        else:
            if cls.ns.get('~members') is not None:
                for o in cls.ns['~members'].values():
                    if self.eq(o.attrs['value'], args[0]):
                        return o
                self.throw(ValueError('%s is not a valid %s' % (show(args[0]), cls.name)))
            b = self.lib.native_base(cls)
            if b is not None:
                o = self.lib.native_new(cls, b, args, kw)
                return self.init_sub(cls, o, args, kw)
            o = lib.LocalInst(cls, args, kw) if lib.LocalBase in cls.mro() else Inst(cls)
            if any(isinstance(b, type) and issubclass(b, BaseException) for b in cls.mro()):
                o.attrs['args'] = tuple(args)
        i, c = self.class_find(cls.mro(), '__init__')
        if isinstance(i, Fn) or isinstance(i, lib.NFn) and i.binds or isinstance(c, type) and issubclass(c, Model):
            self.call(self.bind(i, o, cls, c), args, kw)
        elif c is object and (args or kw) and not isinstance(n, (Fn, Static)):
            self.throw(TypeError('%s() takes no arguments' % cls.name))
        elif isinstance(c, T):
            self.lib.ext_init(o, c, args, kw)
        return o

    def init_sub(self, cls, o, args, kw):
        i, c = self.class_find(cls.mro(), '__init__')
        if isinstance(i, Fn):
            self.call(Bound(i, o), args, kw)
        else:
            self.lib.native_init(o, args, kw)
        return o

    def bind_args(self, f, args, kw):
        a = f.node.args
        pos = a.posonlyargs + a.args
        names = [x.arg for x in pos]
        nm = f.attrs['__name__']
        vars = {}
        kw = dict(kw)
        if len(args) > len(names):
            if a.vararg is None:
                self.throw(TypeError('%s() takes %d positional arguments but %d were given' % (nm, len(names), len(args))))
        for n, v in zip(names, args):
            vars[n] = v
        if a.vararg is not None:
            vars[a.vararg.arg] = tuple(args[len(names):])
        po = set(x.arg for x in a.posonlyargs)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw and n not in po:
                if n in vars:
                    self.throw(TypeError("%s() got multiple values for argument '%s'" % (nm, n)))
                vars[n] = kw.pop(n)
        if a.kwarg is not None:
            vars[a.kwarg.arg] = kw
        elif kw:
            self.throw(TypeError("%s() got an unexpected keyword argument '%s'" % (nm, sorted(kw)[0])))
        for n, d in zip(reversed(names), reversed(f.defaults)):
            if n not in vars:
                vars[n] = d
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg not in vars and d is not MISSING:
                vars[x.arg] = d
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in vars:
                self.throw(TypeError("%s() missing required argument: '%s'" % (nm, n)))
        return vars

    def call_fn(self, f, args, kw):
        vars = self.bind_args(f, args, kw)
        loc, glob, nonl, isgen = self.src.scope(f.node)
        fr = Frame(vars, f.frame, f.mod, f, 'fn', loc, glob, nonl, f.cell)
        pos = f.node.args.posonlyargs + f.node.args.args
        if pos:
            fr.selfv = vars[pos[0].arg]
        self.visited.add(f.node)
        if isgen:
            return GenObj(self, fr, f)
        if len(self.stack) > MAX_DEPTH:
            self.throw(RecursionError('maximum recursion depth exceeded'))
        if isinstance(f.node, ast.Lambda):
            return self.in_frame(fr, lambda: self.eval(f.node.body, fr))
        return self.in_frame(fr, lambda: self.run_body(f.node.body, fr))

    def run_body(self, body, fr):
        try:
            self.exec_block(body, fr)
        except ReturnSig as r:
            return r.value
        return None

    def in_frame(self, fr, run):
        n = len(self.stack)
        self.stack.append(fr)
        try:
            return run()
        finally:
            if fr.fn is not None and fr.node is not None:
                self.left.append((n, fr.mod.path, fr.node.lineno, fr.fn.qual))
            del self.stack[n:]

    # ------------------------------------------------------------------ modules

    def import_module(self, name):
        """Loads a module of the repository (with its parents) or gives an external one."""
        if name in self.mods:
            return self.mods[name]
        parent, _, last = name.rpartition('.')
        p = None
        if parent and name not in self.ext and self.ours(parent):
            p = self.import_module(parent)
            if name in self.mods:
                return self.mods[name]
        info = self.find_module(p, last, name) if isinstance(p, ModV) else self.src.mods.get(name) or self.project.get(name)
        if info is None:
            if self.ours(name) and name not in self.ext:
                self.throw(ImportError("No module named '%s'" % name))
            if name in lib.ABSENT_MODULES and not any(k.startswith(name + '.') for k in self.ext):
                self.throw(ImportError("No module named '%s'" % name))
            return ExtMod(name)
        m = self.load_module(name, info)
        if parent and isinstance(p, ModV):
            p.ns[name.rpartition('.')[2]] = m
        return m

    def ours(self, name):
        top = name.split('.')[0]
        return top in PACKAGES or top in self.project

    def load_module(self, name, info):
        m = ModV(name, info)
        self.mods[name] = m
        fr = Frame(m.ns, None, m, None, 'module')
        m.frame = fr
        try:
            self.in_frame(fr, lambda: self.exec_block(info.tree.body, fr))
        except RaiseSig:
            self.mods.pop(name, None)
            raise
        return m

    def find_module(self, p, last, name):
        """The file that the import system finds in the directories of a package."""
        for d in p.ns.get('__path__') or ():
            if not isinstance(d, str):
                raise AnalysisError('directory %s of package %s' % (show(d), p.name))
            info = self.src.files.get(d.strip('/') + '/' + last)
            if info is None and d.startswith('/project/'):
                info = self.project.get(d[9:].replace('/', '.') + '.' + last)
            if info is not None:
                return info if info.name == name else ModInfo(name, info.path, info.tree, info.ispkg)
        return None

    def import_from(self, m, name):
        if isinstance(m, ModV):
            if name in m.ns:
                return m.ns[name]
            sub = m.name + '.' + name
            if self.find_module(m, name, sub) is not None:
                return self.import_module(sub)
            self.throw(ImportError("cannot import name '%s' from '%s'" % (name, m.name)))
        v = self.lib.mod_attr(m, name, True)
        return v

    def resolve_relative(self, fr, level, module):
        if not level:
            return module
        m = fr.mod
        base = m.name if m.info.ispkg else m.name.rpartition('.')[0]
        for _ in range(level - 1):
            base = base.rpartition('.')[0]
        return base + ('.' + module if module else '')

    # ------------------------------------------------------------------ names

    def load(self, name, fr):
        f = fr
        while f is not None:
            if f.kind == 'class' and f is not fr:
                f = f.parent
                continue
            if f.kind == 'fn' and name in f.globs:
                break
            if f.kind == 'fn' and name in f.nonl and f is fr:
                f = f.parent
                continue
            if name in f.vars:
                return f.vars[name]
            if f.kind == 'fn' and name in f.locs:
                self.throw(UnboundLocalError("local variable '%s' referenced before assignment" % name) if f is fr else
                           NameError("free variable '%s' referenced before assignment" % name))
            f = f.parent
        if name in fr.mod.ns:
            return fr.mod.ns[name]
        if name == '__class__' and fr.cell is not None:
            return fr.cell[0]
        return self.lib.builtin(name)

    def store(self, name, v, fr):
        if fr.kind == 'fn':
            if name in fr.globs:
                fr.mod.ns[name] = v
                return
            if name in fr.nonl:
                f = fr.parent
                while f is not None:
                    if f.kind == 'fn' and name in f.locs:
                        f.vars[name] = v
                        return
                    f = f.parent
                raise AnalysisError('nonlocal %s' % name)
        fr.vars[name] = v

    # ------------------------------------------------------------------ expressions

    def eval(self, n, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise AnalysisError('%s: unsupported expression %s' % (self.loc(), type(n).__name__))
        return m(n, fr)

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        return self.load(n.id, fr)

    def e_Attribute(self, n, fr):
        o = self.eval(n.value, fr)
        fr.node = n
        return self.getattr(o, mangle(n.attr, fr))

    def e_Call(self, n, fr):
        f = self.eval(n.func, fr)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.each(self.eval(a.value, fr)))
            else:
                args.append(self.eval(a, fr))
        for k in n.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                if isinstance(v, T):
                    raise AnalysisError('%s: ** of %r' % (self.loc(), v))
                items = self.native(dict, [v], {}) if not isinstance(v, Inst) else \
                    {x: self.call_method(v, '__getitem__', [x]) for x in self.each(self.call_method(v, 'keys', []))}
                for x, y in items.items():
                    if x in kw:
                        self.throw(TypeError("got multiple values for keyword argument '%s'" % x))
                    kw[x] = y
            else:
                if k.arg in kw:
                    self.throw(TypeError("got multiple values for keyword argument '%s'" % k.arg))
                kw[k.arg] = v
        fr.node = n
        if isinstance(f, lib.FrameFn):
            return self.native(f.fn, [fr] + args, kw)
        return self.call(f, args, kw)

    def e_BinOp(self, n, fr):
        a, b = self.eval(n.left, fr), self.eval(n.right, fr)
        fr.node = n
        return self.binop(OPS[type(n.op)], a, b)

    def e_UnaryOp(self, n, fr):
        v = self.eval(n.operand, fr)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, T):
            return self.binop('-', 0, v) if isinstance(n.op, ast.USub) else v if isinstance(n.op, ast.UAdd) else T('inv', (v,), int)
        if isinstance(v, Inst):
            return self.call_method(v, {ast.USub: '__neg__', ast.UAdd: '__pos__', ast.Invert: '__invert__'}[type(n.op)], [])
        return self.native({ast.USub: lambda: -v, ast.UAdd: lambda: +v, ast.Invert: lambda: ~v}[type(n.op)], [], {})

    def e_BoolOp(self, n, fr):
        v = None
        for x in n.values:
            v = self.eval(x, fr)
            if x is n.values[-1]:
                return v
            if self.truth(v) != isinstance(n.op, ast.And):
                return v
        return v

    def e_Compare(self, n, fr):
        a = self.eval(n.left, fr)
        r = True
        for op, c in zip(n.ops, n.comparators):
            b = self.eval(c, fr)
            fr.node = n
            if isinstance(op, ast.Eq):
                r = self.eq(a, b) if not isinstance(a, Inst) else self.rich(a, '__eq__', b)
            elif isinstance(op, ast.NotEq):
                if isinstance(a, Inst) and self.type_attr(a, '__ne__') is not None:
                    r = self.call(self.type_attr(a, '__ne__'), [b], {})
                else:
                    r = not self.eq(a, b)
            elif isinstance(op, ast.Is):
                r = self.is_(a, b)
            elif isinstance(op, ast.IsNot):
                r = not self.is_(a, b)
            elif isinstance(op, ast.In):
                r = self.contains(a, b)
            elif isinstance(op, ast.NotIn):
                r = not self.contains(a, b)
            else:
                r = self.compare({ast.Lt: '<', ast.Gt: '>', ast.LtE: '<=', ast.GtE: '>='}[type(op)], a, b)
            if c is n.comparators[-1] or not self.truth(r):
                return r
            a = b
        return r

    def rich(self, a, name, b):
        m = self.type_attr(a, name)
        if m is not None:
            r = self.call(m, [b], {})
            if r is not NotImplemented:
                return r
        return self.eq(a, b)

    def e_IfExp(self, n, fr):
        return self.eval(n.body if self.truth(self.eval(n.test, fr)) else n.orelse, fr)

    def e_Tuple(self, n, fr):
        return tuple(self._elts(n, fr))

    def e_List(self, n, fr):
        return self._elts(n, fr)

    def e_Set(self, n, fr):
        e = self._elts(n, fr)
        for x in e:
            self.hashable(x)
        return ASet(e)

    def _elts(self, n, fr):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.each(self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, n, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.eval(v, fr)
                d.update(o if isinstance(o, dict) else self.lib.dict_(o))
            else:
                kk = self.eval(k, fr)
                self.hashable(kk)
                d[kk] = self.eval(v, fr)
        return d

    def e_Lambda(self, n, fr):
        return self.make_fn(n, fr)

    def e_JoinedStr(self, n, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, fr)
                spec = self.eval(v.format_spec, fr) if v.format_spec is not None else ''
                if v.conversion == ord('r'):
                    x = self.lib.repr_(x)
                elif v.conversion == ord('s'):
                    x = self.lib.str_(x)
                parts.append(self.lib.format_(x, spec))
        return fmt(*parts)

    def e_FormattedValue(self, n, fr):
        return self.lib.format_(self.eval(n.value, fr), '')

    def e_Subscript(self, n, fr):
        o = self.eval(n.value, fr)
        k = self.eval(n.slice, fr)
        fr.node = n
        return self.getitem(o, k)

    def e_Slice(self, n, fr):
        return slice(*[self.eval(x, fr) if x is not None else None for x in (n.lower, n.upper, n.step)])

    def e_Index(self, n, fr):
        return self.eval(n.value, fr)

    def e_NamedExpr(self, n, fr):
        v = self.eval(n.value, fr)
        f = fr
        while f.gen == 'comp' and f.parent is not None:
            f = f.parent
        self.assign(n.target, v, f)
        return v

    def e_Starred(self, n, fr):
        raise AnalysisError('starred')

    def e_Yield(self, n, fr):
        f = fr
        while f.gen == 'comp':
            f = f.parent
        v = self.eval(n.value, fr) if n.value is not None else None
        return f.gen.yield_(v)

    def e_YieldFrom(self, n, fr):
        f = fr
        while f.gen == 'comp':
            f = f.parent
        it = self.iterate(self.eval(n.value, fr))
        sub = isinstance(it, GenObj)
        step = lambda: next(it)
        while True:
            self.tick()
            try:
                x = step()
            except StopIteration as s:
                return s.value
            except (Signal, AnalysisError):
                raise
            except Exception as e:
                raise RaiseSig(e, self.loc())
            try:
                v = f.gen.yield_(x)
                step = (lambda v=v: it.send(v)) if sub else lambda: next(it)
            except RaiseSig as s:
                if not sub:
                    raise
                if isinstance(s.value, GeneratorExit):
                    it.close()
                    raise
                step = lambda e=s.value: it.throw(e)

    def getitem(self, o, k):
        if isinstance(o, (dict,)):
            self.hashable(k)
            if isinstance(k, T) or True:
                try:
                    return o[k]
                except KeyError as e:
                    self.throw(e)
                except TypeError as e:
                    self.throw(e)
        if isinstance(o, T):
            return self.lib.term_item(o, k)
        if isinstance(o, Inst):
            return self.call_method(o, '__getitem__', [k])
        if isinstance(o, (list, tuple, str, bytes)) and isinstance(k, T):
            return T('item', (tuple(o) if isinstance(o, list) else o, k))
        if isinstance(o, Cls) and '~members' in o.ns:
            return self.getitem(o.ns['~members'], k)
        if isinstance(o, (Cls, type)):
            return o
        return self.native(lambda: o[k], [], {})

    def setitem(self, o, k, v):
        if isinstance(o, Inst):
            self.call_method(o, '__setitem__', [k, v])
        elif isinstance(o, T):
            self.lib.term_setitem(o, k, v)
        else:
            if isinstance(o, dict):
                self.hashable(k)
            elif isinstance(k, slice):
                v = list(self.each(v))

            def f():
                o[k] = v
            self.native(f, [], {})

    def delitem(self, o, k):
        if isinstance(o, Inst):
            self.call_method(o, '__delitem__', [k])
        else:
            def f():
                del o[k]
            self.native(f, [], {})

    # comprehensions

    def e_ListComp(self, n, fr):
        return list(self._comp(n, fr, lambda f: self.eval(n.elt, f)))

    def e_SetComp(self, n, fr):
        return ASet(self._comp(n, fr, lambda f: self.eval(n.elt, f)))

    def e_DictComp(self, n, fr):
        d = {}
        for k, v in self._comp(n, fr, lambda f: (self.eval(n.key, f), self.eval(n.value, f))):
            self.hashable(k)
            d[k] = v
        return d

    def e_GeneratorExp(self, n, fr):
        return self._comp(n, fr, lambda f: self.eval(n.elt, f))

    def _comp(self, n, fr, elt):
        first = self.eval(n.generators[0].iter, fr)
        it = self.iterate(first)
        f = Frame({}, fr, fr.mod, fr.fn, 'fn', self.src.scope(n)[0], cell=fr.cell)
        f.node = n
        f.gen = 'comp'
        f.selfv = fr.selfv

        def run(i, it):
            g = n.generators[i]
            while True:
                self.tick()
                try:
                    x = next(it)
                except StopIteration:
                    return
                except (Signal, AnalysisError):
                    raise
                except Exception as e:
                    raise RaiseSig(e, self.loc())
                self.stack.append(f)
                try:
                    self.assign(g.target, x, f)
                    ok = all(self.truth(self.eval(c, f)) for c in g.ifs)
                    if ok:
                        if i + 1 < len(n.generators):
                            sub = self.iterate(self.eval(n.generators[i + 1].iter, f))
                        else:
                            v = elt(f)
                finally:
                    if self.stack and self.stack[-1] is f:
                        self.stack.pop()
                if not ok:
                    continue
                if i + 1 < len(n.generators):
                    for y in run(i + 1, sub):
                        yield y
                else:
                    yield v
        return run(0, it)

    # ------------------------------------------------------------------ statements

    def exec_block(self, body, fr):
        for s in body:
            self.tick()
            self.reached.add(s)
            fr.node = s
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                raise AnalysisError('%s: unsupported statement %s' % (self.loc(), type(s).__name__))
            m(s, fr)

    def s_Expr(self, n, fr):
        self.eval(n.value, fr)

    def s_Pass(self, n, fr):
        pass

    def s_Return(self, n, fr):
        raise ReturnSig(self.eval(n.value, fr) if n.value is not None else None)

    def s_Break(self, n, fr):
        raise BreakSig()

    def s_Continue(self, n, fr):
        raise ContinueSig()

    def s_Global(self, n, fr):
        pass

    s_Nonlocal = s_Global

    def s_Assign(self, n, fr):
        v = self.eval(n.value, fr)
        for t in n.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, n, fr):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, fr), fr)

    def s_AugAssign(self, n, fr):
        t = n.target
        op = OPS[type(n.op)]
        if isinstance(t, ast.Name):
            self.store(t.id, self.iop(op, self.load(t.id, fr), self.eval(n.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            nm = mangle(t.attr, fr)
            self.setattr(o, nm, self.iop(op, self.getattr(o, nm), self.eval(n.value, fr)))
        else:
            o, k = self.eval(t.value, fr), self.eval(t.slice, fr)
            self.setitem(o, k, self.iop(op, self.getitem(o, k), self.eval(n.value, fr)))

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.setitem(o, self.eval(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.lib.unpack_term(v, len(t.elts)) if isinstance(v, T) else list(self.each(v))
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                k = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1:
                    self.throw(ValueError('not enough values to unpack'))
                vs = vs[:i] + [vs[i:len(vs) - k]] + vs[len(vs) - k:]
            if len(vs) != len(t.elts):
                self.throw(ValueError('%s values to unpack' % ('too many' if len(vs) > len(t.elts) else 'not enough')))
            for x, y in zip(t.elts, vs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, list(self.each(v)), fr)
        else:
            raise AnalysisError('assignment to %s' % type(t).__name__)

    def s_Delete(self, n, fr):
        for t in n.targets:
            self.delete(t, fr)

    def delete(self, t, fr):
        if isinstance(t, ast.Name):
            d = fr.mod.ns if t.id in fr.globs else fr.vars
            if t.id not in d:
                self.throw(NameError("name '%s' is not defined" % t.id))
            del d[t.id]
        elif isinstance(t, ast.Attribute):
            self.delattr(self.eval(t.value, fr), mangle(t.attr, fr))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.delitem(o, self.eval(t.slice, fr))
        else:
            for x in t.elts:
                self.delete(x, fr)

    def s_If(self, n, fr):
        self.exec_block(n.body if self.truth(self.eval(n.test, fr)) else n.orelse, fr)

    def s_While(self, n, fr):
        while True:
            self.tick()
            fr.node = n
            if not self.truth(self.eval(n.test, fr)):
                break
            try:
                self.exec_block(n.body, fr)
            except BreakSig:
                return
            except ContinueSig:
                continue
        self.exec_block(n.orelse, fr)

    def s_For(self, n, fr):
        for x in self.each(self.eval(n.iter, fr)):
            self.assign(n.target, x, fr)
            try:
                self.exec_block(n.body, fr)
            except BreakSig:
                return
            except ContinueSig:
                pass
            fr.node = n
        self.exec_block(n.orelse, fr)

    def s_Assert(self, n, fr):
        if not self.truth(self.eval(n.test, fr)):
            self.throw(AssertionError(self.eval(n.msg, fr) if n.msg is not None else ''))

    def s_Raise(self, n, fr):
        if n.exc is None:
            if not self.excs:
                self.throw(RuntimeError('No active exception to reraise'))
            raise RaiseSig(self.excs[-1], self.loc())
        v = self.eval(n.exc, fr)
        fr.node = n
        if isinstance(v, Cls) or isinstance(v, type) and issubclass(v, BaseException):
            v = self.call(v, [], {})
        if n.cause is not None:
            self.causes[id(v)] = (v, self.eval(n.cause, fr))
        if not (isinstance(v, BaseException) or isinstance(v, Inst) and any(x is BaseException for x in v.cls.mro())):
            self.throw(TypeError('exceptions must derive from BaseException'))
        raise RaiseSig(v, self.loc())

    def s_Try(self, n, fr):
        if n.finalbody:
            try:
                self._try(n, fr)
            except (AnalysisError, Infeasible, Diverges, GenKill):
                raise
            except Signal:
                self.exec_block(n.finalbody, fr)
                raise
            self.exec_block(n.finalbody, fr)
        else:
            self._try(n, fr)

    def _try(self, n, fr):
        if not n.handlers:
            self.exec_block(n.body, fr)
            self.exec_block(n.orelse, fr)
            return
        depth = len(self.stack)
        try:
            self.exec_block(n.body, fr)
        except RaiseSig as s:
            del self.stack[depth:]
            for h in n.handlers:
                if h.type is not None:
                    t = self.eval(h.type, fr)
                    if not self.exc_isinstance(s.value, self.lib.exc_types(t)):
                        continue
                self.excs.append(s.value)
                k = len(self.excs)
                try:
                    if h.name:
                        self.store(h.name, s.value, fr)
                    self.exec_block(h.body, fr)
                finally:
                    del self.excs[k - 1:]
                    if h.name:
                        fr.vars.pop(h.name, None)
                return
            raise
        self.exec_block(n.orelse, fr)

    def s_With(self, n, fr):
        self._with(n, 0, fr)

    def _with(self, n, i, fr):
        if i == len(n.items):
            self.exec_block(n.body, fr)
            return
        item = n.items[i]
        cm = self.eval(item.context_expr, fr)
        fr.node = n

        def special(name):
            if isinstance(cm, Inst):
                m = self.type_attr(cm, name)
                if m is None:
                    self.throw(AttributeError(name))
                return m
            return self.getattr(cm, name)
        ex = special('__exit__')
        v = self.call(special('__enter__'), [], {})
        depth = len(self.stack)
        try:
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, fr)
            self._with(n, i + 1, fr)
        except RaiseSig as s:
            del self.stack[depth:]
            self.excs.append(s.value)
            k = len(self.excs)
            try:
                r = self.call(ex, [s.value.cls if isinstance(s.value, Inst) else type(s.value), s.value, T('traceback', (self.uid(),), object)], {})
            finally:
                del self.excs[k - 1:]
            if not self.truth(r):
                raise
        except (ReturnSig, BreakSig, ContinueSig):
            self.call(ex, [None, None, None], {})
            raise
        else:
            fr.node = n
            self.call(ex, [None, None, None], {})

    def make_fn(self, n, fr):
        a = n.args
        defaults = [self.eval(d, fr) for d in a.defaults]
        kwd = [self.eval(d, fr) if d is not None else MISSING for d in a.kw_defaults]
        qual = getattr(n, 'name', '<lambda>')
        if fr.kind == 'class':
            qual = '%s.%s' % (fr.vars.get('__qualname__', ''), qual)
        elif fr.fn is not None:
            qual = '%s.<locals>.%s' % (fr.fn.qual, qual)
        parent = fr if fr.kind != 'module' else None
        return Fn(n, parent, fr.mod, qual, defaults, kwd, fr.cell)

    def s_FunctionDef(self, n, fr):
        decs = [self.eval(d, fr) for d in n.decorator_list]
        f = self.make_fn(n, fr)
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            f.attrs['__doc__'] = n.body[0].value.value
        for d in reversed(decs):
            f = self.call(d, [f], {})
        self.store(n.name, f, fr)

    def s_ClassDef(self, n, fr):
        decs = [self.eval(d, fr) for d in n.decorator_list]
        bases = [self.lib.base(self.eval(b, fr)) for b in n.bases]
        bases = [b for b in bases if b is not None]
        qual = n.name if fr.kind == 'module' else '%s.<locals>.%s' % (fr.fn.qual if fr.fn is not None else '', n.name)
        ns = {'__module__': fr.mod.name, '__qualname__': qual}
        cell = [None]
        cf = Frame(ns, fr if fr.kind != 'module' else None, fr.mod, fr.fn, 'class', cell=cell)
        self.in_frame(cf, lambda: self.exec_block(n.body, cf))
        kws = {k.arg: self.eval(k.value, fr) for k in n.keywords}
        meta = kws.pop('metaclass', None)
        for b in bases:
            if meta is None and isinstance(b, Cls):
                meta = b.meta
        if any(isinstance(b, T) and b == T('ext', ('typing.NamedTuple',)) for b in bases):
            fields = [s.target.id for s in n.body if isinstance(s, ast.AnnAssign)]
            t = self.lib.namedtuple(n.name, fields, defaults=[ns.pop(f) for f in fields if f in ns])
            bases = [t]
        c = None
        if isinstance(meta, Cls) and isinstance(self.class_find(meta.mro(), '__new__')[0], (Fn, Static)):
            f = self.class_find(meta.mro(), '__new__')[0]
            c = self.call(f.fn if isinstance(f, Static) else f, [meta, n.name, tuple(bases), ns], kws)
            if isinstance(c, Cls):
                c.node, c.mod, c.qual = n, fr.mod.name, qual
        else:
            c = Cls(n.name, fr.mod.name, n, bases, ns, qual)
        cell[0] = c
        if isinstance(c, Cls):
            c.meta = meta if isinstance(meta, Cls) else None
            self.finish_class(c, kws)
            if c.meta is not None:
                i, _ = self.class_find(meta.mro(), '__init__')
                if isinstance(i, Fn):
                    self.call(i, [c, n.name, tuple(bases), ns], kws)
        for d in reversed(decs):
            c = self.call(d, [c], {})
        self.store(n.name, c, fr)

    def finish_class(self, c, kws=None):
        c.mro()
        for k, v in list(c.ns.items()):
            if isinstance(v, lib.Cached) and v.name is None:
                v.name = k
            elif isinstance(v, Inst) and self.type_attr(v, '__set_name__') is not None:
                self.call_method(v, '__set_name__', [c, k])
        f, o = self.class_find(c.mro()[1:], '__init_subclass__')
        if isinstance(f, (Fn, ClsM)) and isinstance(o, Cls):
            self.call(f.fn if isinstance(f, ClsM) else f, [c], kws or {})
        if c.node is not None and any(isinstance(b, Cls) and b.name == 'Enum' and b.mod == '~prelude' for b in c.mro()[1:]):
            members = {}
            for k, v in list(c.ns.items()):
                if not k.startswith('_') and not isinstance(v, (Fn, Prop, Static, ClsM)):
                    o = next((x for x in members.values() if self.eq(x.attrs['value'], v)), None)
                    if o is None:
                        o = Inst(c)
                        o.attrs.update(name=k, value=len(members) + 1 if isinstance(v, lib.Auto) else v, _enum=c)
                    members[k] = c.ns[k] = o
            c.ns['~members'] = members
        return c

    def s_Import(self, n, fr):
        for a in n.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store(a.asname, m, fr)
            else:
                top = a.name.split('.')[0]
                self.store(top, self.import_module(top) if top != a.name else m, fr)

    def s_ImportFrom(self, n, fr):
        if n.module == '__future__':
            return
        name = self.resolve_relative(fr, n.level, n.module)
        m = self.import_module(name)
        for a in n.names:
            if a.name == '*':
                if not isinstance(m, ModV):
                    raise AnalysisError('import * from %s' % name)
                for k, v in m.ns.items():
                    if not k.startswith('_'):
                        self.store(k, v, fr)
                continue
            self.store(a.asname or a.name, self.import_from(m, a.name), fr)

    def finish(self):
        for g in self.gens:
            g.kill()


class ModV(object):
    """A loaded module of the repository."""
    def __init__(self, name, info):
        self.name, self.info, self.path = name, info, info.path
        self.ns = {'__name__': name, '__file__': '/' + info.path, '__doc__': None, '__package__': name if info.ispkg else name.rpartition('.')[0]}
        if info.ispkg:
            self.ns['__path__'] = ['/' + info.path.rpartition('/')[0]]
        self.frame = None

    def __repr__(self):
        return '<module %s>' % self.name


class NBound(object):
    """Native function of a stand-in bound to an instance."""
    __slots__ = ('fn', 'selfv')

    def __init__(self, fn, selfv):
        self.fn, self.selfv = fn, selfv

    def __call__(self, *a, **k):
        return self.fn(self.selfv, *a, **k)

    def __eq__(self, o):
        return type(o) is NBound and o.fn == self.fn and o.selfv is self.selfv

    def __hash__(self):
        return hash((self.fn, id(self.selfv)))


class NativeNext(object):
    def __init__(self, inst):
        self.inst = inst

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.inst) if not isinstance(self.inst, Inst) else Inst.__next__(self.inst)


class GenKill(Signal):
    pass


class GenObj(object):
    """Generator of the analysed program: its body is interpreted in a helper thread, strictly alternating."""
    def __init__(self, I, fr, fn):
        self.I, self.fr, self.fn = I, fr, fn
        fr.gen = self
        self.state = 'new'
        self.thread = None
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.msg = self.out = None
        self.seg = []
        I.gens.append(self)

    def __iter__(self):
        return self

    def __next__(self):
        return self._resume(('next', None))

    def send(self, v):
        return self._resume(('next', v))

    def throw(self, typ, value=None, tb=None):
        v = value if value is not None else typ
        if isinstance(v, (Cls, type)):
            v = self.I.call(v, [], {})
        return self._resume(('throw', v))

    def close(self):
        if self.state == 'suspended':
            try:
                self._resume(('throw', GeneratorExit()))
            except StopIteration:
                pass
            except RaiseSig as s:
                if not isinstance(s.value, GeneratorExit):
                    raise
        self.state = 'done'

    def _resume(self, msg):
        I = self.I
        if self.state == 'done':
            if msg[0] == 'throw':
                raise RaiseSig(msg[1], I.loc())
            raise StopIteration
        if self.state == 'running':
            raise RaiseSig(ValueError('generator already executing'), I.loc())
        if self.state == 'new' and msg[0] == 'throw':
            self.state = 'done'
            raise RaiseSig(msg[1], I.loc())
        new = self.state == 'new'
        self.state = 'running'
        self.msg = msg
        base = len(I.stack)
        I.stack.extend(self.seg if not new else [self.fr])
        if new:
            self.thread = threading.Thread(target=self._run, daemon=True)
            self.thread.start()
        else:
            self.go.release()
        self.back.acquire()
        self.seg = I.stack[base:]
        del I.stack[base:]
        kind, v = self.out
        if kind == 'yield':
            self.state = 'suspended'
            return v
        self.state = 'done'
        if kind == 'raise':
            if isinstance(v, RaiseSig) and isinstance(v.value, StopIteration):
                e = RuntimeError('generator raised StopIteration')
                e.__cause__ = v.value
                raise RaiseSig(e, v.loc)
            raise v
        raise StopIteration(v)

    def _run(self):
        CUR[0] = self.I
        try:
            r = self.I.run_body(self.fn.node.body, self.fr)
            self.out = ('return', r)
        except GenKill:
            return
        except BaseException as e:
            self.out = ('raise', e)
        self.back.release()

    def yield_(self, v):
        self.out = ('yield', v)
        self.back.release()
        self.go.acquire()
        if self.msg[0] == 'kill':
            raise GenKill()
        if self.msg[0] == 'throw':
            raise RaiseSig(self.msg[1], self.I.loc())
        return self.msg[1]

    def kill(self):
        if self.state == 'suspended':
            self.state = 'done'
            self.msg = ('kill', None)
            self.go.release()


OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}


def mangle(name, fr):
    if name.startswith('__') and not name.endswith('__'):
        f = fr
        while f is not None:
            if f.cell is not None and f.cell[0] is not None:
                return '_%s%s' % (f.cell[0].name.lstrip('_'), name)
            f = f.parent
    return name


def getattr_default(inst, v):
    return v.__get__(inst)


def _ty(v):
    if isinstance(v, T):
        return v.ty
    return type(v)


def clash(a, b):
    """True if the two values cannot be equal: literal texts differ at a place both determine."""
    pa = a.args if isinstance(a, T) and a.op == 'fmt' else (a,)
    pb = b.args if isinstance(b, T) and b.op == 'fmt' else (b,)
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op and a.op in INJ and len(a.args) == len(b.args):
        return any(clash(x, y) if isinstance(x, T) or isinstance(y, T) else x != y for x, y in zip(a.args, b.args))
    if isinstance(a, T) and a.op == 'sym' and isinstance(b, T) and b.op == 'sym':
        return a != b and not (a.opened and b.opened)
    if not (isinstance(a, T) and a.op == 'fmt' or isinstance(b, T) and b.op == 'fmt'):
        return False
    for x, y in ((pa, pb), (tuple(reversed(pa)), tuple(reversed(pb)))):
        x, y = x[0], y[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if (x[:n] != y[:n]) if pa[0] is x else (x[len(x) - n:] != y[len(y) - n:]):
                return True
    if len(pa) == len(pb) and all(isinstance(x, str) == isinstance(y, str) for x, y in zip(pa, pb)):
        if all(x == y for x, y in zip(pa, pb) if isinstance(x, str)):
            d = [(x, y) for x, y in zip(pa, pb) if not isinstance(x, str) and x != y]
            if len(d) == 1:
                return clash(*d[0])
    for back in (True, False):
        x, y = (pa[::-1], pb[::-1]) if back else (pa, pb)
        while x and y:
            if isinstance(x[0], str) or isinstance(y[0], str):
                if x[0] != y[0]:
                    break
            elif number(x, back) and number(y, back) or len(x) == len(y) == 1:
                if clash(x[0], y[0]):
                    return True
            elif x[0] != y[0]:
                break
            x, y = x[1:], y[1:]
    return False


def number(parts, back):
    """The first of the parts is a whole number which ends where its term ends."""
    x = parts[0]
    if not (isinstance(x, T) and x.ty is int):
        return False
    if len(parts) == 1:
        return True
    n = parts[1]
    return isinstance(n, str) and not (n[-1] if back else n[0]).isdigit() and (n[-1] if back else n[0]) not in '-'


def fresh(v):
    """The random numbers inside of a value."""
    return set(x for x in subterms(v) if isinstance(x, T) and x.op == 'rand')


INJ = frozenset(('md5', 'hex', 'encode', 'time', 'ident', 'pid', 'host', 'b64', 'pickled', 'zlib', 'rand', 'hash', 'path', 'jsonstr', 'json', 'struct'))
