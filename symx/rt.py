"""Loading of the code under test, and symbolic replacements for the builtins
and library functions at its boundary (only in symbolic runs)."""
import builtins
import collections.abc
import functools
import os
import sys
import types

import z3

from . import engine as E

REPO_SRC = os.environ.get('SYMX_REPO_SRC', '/repo/src')

_real_set = builtins.set


def load():
    """import graph_scheduler from /repo's working tree"""
    sys.dont_write_bytecode = True
    if sys.path[:1] != [REPO_SRC]:
        sys.path.insert(0, REPO_SRC)
    import graph_scheduler
    assert os.path.realpath(graph_scheduler.__file__).startswith(os.path.realpath(REPO_SRC)), graph_scheduler.__file__
    return graph_scheduler


# ---------------------------------------------------------------------------
# sets whose membership is symbolic
# ---------------------------------------------------------------------------

class SymSet(collections.abc.MutableSet):
    """A set over a finite universe; membership of each element is a z3 term.

    Union, intersection etc. build terms; asking for membership, iterating or
    taking the length forks."""

    def __init__(self, members=()):
        # element -> z3 Bool term
        self.m = dict(members)

    @classmethod
    def lift(cls, other):
        if isinstance(other, SymSet):
            return other
        return cls({x: z3.BoolVal(True) for x in other})

    def term(self, x):
        try:
            return self.m.get(x, z3.BoolVal(False))
        except TypeError:
            raise

    def __contains__(self, x):
        t = self.m.get(x)
        return False if t is None else E.current().fork(t)

    def __iter__(self):
        for x in list(self.m):
            t = self.m.get(x)
            if t is not None and E.current().fork(t):
                yield x

    def __len__(self):
        return sum(1 for _ in self)

    def __bool__(self):
        return any(True for _ in self)

    def __repr__(self):
        return '<symset>'

    __str__ = __repr__

    def __format__(self, spec):
        return '<symset>'

    def __copy__(self):
        return SymSet(self.m)

    def __deepcopy__(self, memo):
        return SymSet(self.m)

    copy = __copy__

    def add(self, x):
        self.m[x] = z3.BoolVal(True)

    def discard(self, x):
        self.m.pop(x, None)

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.m.pop(x)

    def clear(self):
        self.m = {}

    def _combine(self, other, f):
        o = SymSet.lift(other)
        r = {}
        for x in list(self.m) + [y for y in o.m if y not in self.m]:
            t = z3.simplify(f(self.term(x), o.term(x)))
            if not z3.is_false(t):
                r[x] = t
        return SymSet(r)

    def _fold(self, others, f):
        r = SymSet(self.m)
        for o in others:
            r = r._combine(o, f)
        return r

    def union(self, *others):
        return self._fold(others, z3.Or)

    def intersection(self, *others):
        return self._fold(others, z3.And)

    def difference(self, *others):
        return self._fold(others, lambda a, b: z3.And(a, z3.Not(b)))

    def symmetric_difference(self, other):
        return self._combine(other, z3.Xor)

    def update(self, *others):
        self.m = self.union(*others).m

    def intersection_update(self, *others):
        self.m = self.intersection(*others).m

    def difference_update(self, *others):
        self.m = self.difference(*others).m

    def symmetric_difference_update(self, other):
        self.m = self.symmetric_difference(other).m

    def __or__(self, o):
        return self.union(o) if isinstance(o, collections.abc.Set) else NotImplemented

    __ror__ = __or__

    def __and__(self, o):
        return self.intersection(o) if isinstance(o, collections.abc.Set) else NotImplemented

    __rand__ = __and__

    def __sub__(self, o):
        return self.difference(o) if isinstance(o, collections.abc.Set) else NotImplemented

    def __rsub__(self, o):
        return SymSet.lift(o).difference(self) if isinstance(o, collections.abc.Set) else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o) if isinstance(o, collections.abc.Set) else NotImplemented

    __rxor__ = __xor__

    def eq_term(self, o):
        o = SymSet.lift(o)
        return z3.And(*[self.term(x) == o.term(x) for x in {**self.m, **o.m}]) if (self.m or o.m) else z3.BoolVal(True)

    def __eq__(self, o):
        if not isinstance(o, collections.abc.Set):
            return NotImplemented
        return E.current().fork(self.eq_term(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def issubset(self, o):
        o = SymSet.lift(o)
        return E.current().fork(z3.And(*[z3.Implies(self.term(x), o.term(x)) for x in self.m] or [z3.BoolVal(True)]))

    def issuperset(self, o):
        return SymSet.lift(o).issubset(self)

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return self.issubset(o) and not self.__eq__(o)

    def __gt__(self, o):
        return self.issuperset(o) and not self.__eq__(o)

    def isdisjoint(self, o):
        o = SymSet.lift(o)
        return E.current().fork(z3.Not(z3.Or(*[z3.And(self.term(x), o.term(x)) for x in self.m] or [z3.BoolVal(False)])))


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_real_set, SymSet))

    def __subclasscheck__(cls, c):
        return issubclass(c, (_real_set, SymSet))

    def __eq__(cls, other):
        return other is cls or other is _real_set

    def __hash__(cls):
        return hash(_real_set)


def _unbound(name):
    real = getattr(_real_set, name)

    def method(first, *others):
        if isinstance(first, SymSet):
            return getattr(first, name)(*others)
        if any(isinstance(o, SymSet) for o in others):
            return getattr(SymSet.lift(first), name)(*others)
        return real(first, *others)
    method.__name__ = name
    return staticmethod(method)


class Set(metaclass=_SetMeta):
    """stands for the builtin set in the code under test"""

    def __new__(cls, it=()):
        if isinstance(it, SymSet):
            return SymSet(it.m)
        return _real_set_with_sym(it)

    for _n in ('union', 'intersection', 'difference', 'symmetric_difference', 'issubset',
               'issuperset', 'isdisjoint', 'copy', 'add', 'remove', 'discard', 'update',
               'intersection_update', 'difference_update', 'symmetric_difference_update', 'clear'):
        locals()[_n] = _unbound(_n)
    del _n


class _RealSetWithSym(_real_set):
    """a real set whose (non in-place) operations accept symbolic sets"""
    __slots__ = ()

    def union(self, *o):
        return Set.union(_real_set(self), *o)

    def intersection(self, *o):
        return Set.intersection(_real_set(self), *o)

    def difference(self, *o):
        return Set.difference(_real_set(self), *o)

    def symmetric_difference(self, *o):
        return Set.symmetric_difference(_real_set(self), *o)


def _real_set_with_sym(it=()):
    return _RealSetWithSym(it)


# ---------------------------------------------------------------------------
# numbers at the boundary
# ---------------------------------------------------------------------------

class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)


class Float(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, E.SymInt):
            return E.SymReal(z3.ToReal(x.t))
        if isinstance(x, E.SymReal):
            return x
        return float(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, E.SymInt))


class Int(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, E.SymInt):
            return x
        if isinstance(x, E.SymReal):
            return x.__int__()
        return int(x, *a)


class NpShim:
    """numpy with a symbolic isclose (documented contract:
    |a - b| <= atol + rtol * |b|)"""

    def __init__(self, np):
        self._np = np

    def __getattr__(self, name):
        return getattr(self._np, name)

    def isclose(self, a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        if any(E.is_sym(x) for x in (a, b, rtol, atol)):
            return abs(a - b) <= atol + rtol * abs(b)
        return self._np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)


def inject(gs, what):
    """Put symbolic stand-ins into the globals of the modules under test."""
    import sys as _sys
    mods = [m for n, m in list(_sys.modules.items())
            if n.split('.')[0] == 'graph_scheduler' and isinstance(m, types.ModuleType)]
    for m in mods:
        d = m.__dict__
        if 'set' in what:
            d['set'] = Set
            _replace_partials(d)
        if 'float' in what:
            d['float'] = Float
        if 'int' in what:
            d['int'] = Int
        if 'np' in what and 'np' in d:
            d['np'] = NpShim(d['np'])


def _replace_partials(d):
    """functools.partial(set.union) etc. in enum members were built at import
    time with the builtin set: rebuild them over the symbolic one"""
    import enum
    for v in list(d.values()):
        if isinstance(v, type) and issubclass(v, enum.Enum):
            for m in v:
                val = m.value
                f = val.func if isinstance(val, functools.partial) else val
                if type(f).__name__ == 'method_descriptor' and getattr(f, '__objclass__', None) is _real_set:
                    new = getattr(Set, f.__name__)
                    m._value_ = functools.partial(new) if isinstance(val, functools.partial) else new


def clear_caches():
    for n, m in list(sys.modules.items()):
        if n.split('.')[0] == 'graph_scheduler':
            for v in list(getattr(m, '__dict__', {}).values()):
                cc = getattr(v, 'cache_clear', None)
                if callable(cc):
                    cc()
