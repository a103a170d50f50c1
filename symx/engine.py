"""Bounded symbolic execution of CPython code with z3.

The code under test runs in the ordinary interpreter.  Symbolic inputs are
proxy objects (SymInt, SymReal, SymBool) whose operators build z3 terms.  When
the program needs the truth value of a symbolic condition (``if``, ``while``,
``not``, ``and``, set membership...) the engine *forks*: the solver decides
which outcomes are feasible under the current path condition, one is followed
now and the other one later.  The whole tree of feasible paths is explored by
deterministic re-execution (depth first).  Assertions (``eng.check``) are
decided by the solver for all values that satisfy the path condition.

Exploration is complete within the bounds stated by a harness when the tree is
exhausted; any ``unknown`` or exceeded limit makes the run inconclusive.
"""
import os
import time
import traceback

import z3


def _is_real(t):
    return z3.is_real(t)


class PathAbort(BaseException):
    """The path condition became unsatisfiable (assumption not met)."""


class EngineLimit(BaseException):
    """A limit was hit or the solver answered unknown: inconclusive."""


class Violation(BaseException):
    """The property does not hold on the current path."""

    def __init__(self, msg, model=None, detail=None):
        super().__init__(msg)
        self.msg = msg
        self.model = model
        self.detail = detail


_current = None  # the engine that is running


def current():
    return _current


# ---------------------------------------------------------------------------
# proxies
# ---------------------------------------------------------------------------

class Sym:
    __slots__ = ('t',)

    def __init__(self, t):
        object.__setattr__(self, 't', t)

    # constant textual form: formatting must not fork
    def __repr__(self):
        return '<sym>'

    __str__ = __repr__

    def __format__(self, spec):
        return '<sym>'

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise TypeError('symbolic values cannot be pickled')


def is_sym(x):
    return isinstance(x, Sym)


def _frac(v):
    import fractions
    if isinstance(v, float):
        # the decimal that the literal denotes, not its binary expansion
        return fractions.Fraction(repr(v))
    return fractions.Fraction(v)


def num_term(v):
    """z3 arithmetic term of a python or symbolic number, or None"""
    if isinstance(v, (SymInt, SymReal)):
        return v.t
    if isinstance(v, SymBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return None
        f = _frac(v)
        return z3.RealVal(f'{f.numerator}/{f.denominator}')
    import fractions
    if isinstance(v, fractions.Fraction):
        return z3.RealVal(f'{v.numerator}/{v.denominator}')
    try:
        import numpy as np
        if isinstance(v, np.integer):
            return z3.IntVal(int(v))
        if isinstance(v, np.floating):
            return num_term(float(v))
        if isinstance(v, np.bool_):
            return z3.IntVal(int(v))
    except ImportError:
        pass
    return None


def wrap_num(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    if _is_real(t):
        return SymReal(t)
    return SymInt(t)


def wrap_bool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def _coerce(a, b):
    ra, rb = _is_real(a), _is_real(b)
    if ra and not rb:
        b = z3.ToReal(b)
    elif rb and not ra:
        a = z3.ToReal(a)
    return a, b


def _arith(op):
    def method(self, other):
        o = num_term(other)
        if o is None:
            return NotImplemented
        a, b = _coerce(num_term(self), o)
        return wrap_num(op(a, b))
    return method


def _rarith(op):
    def method(self, other):
        o = num_term(other)
        if o is None:
            return NotImplemented
        a, b = _coerce(o, num_term(self))
        return wrap_num(op(a, b))
    return method


def _cmp(op):
    def method(self, other):
        o = num_term(other)
        if o is None:
            return NotImplemented
        a, b = _coerce(num_term(self), o)
        return wrap_bool(op(a, b))
    return method


def _floordiv_terms(a, b):
    """python floor division; forks on the divisor sign and zero"""
    eng = _current
    if eng.fork(b == 0):
        raise ZeroDivisionError('integer division or modulo by zero')
    if not _is_real(a) and not _is_real(b):
        if eng.fork(b > 0):
            return a / b          # z3 div floors for positive divisors
        return (-a) / (-b)
    a, b = _coerce(a, b)
    return z3.ToReal(z3.ToInt(a / b))


def _floordiv(a, b):
    q = _floordiv_terms(a, b)
    return q


def _mod(a, b):
    q = _floordiv_terms(a, b)
    if not _is_real(a) and not _is_real(b):
        return a - b * q
    a, b = _coerce(a, b)
    return a - b * q


def _truediv(a, b):
    eng = _current
    if eng.fork(b == 0):
        raise ZeroDivisionError('division by zero')
    if not _is_real(a):
        a = z3.ToReal(a)
    if not _is_real(b):
        b = z3.ToReal(b)
    return a / b


class _SymNum(Sym):
    __slots__ = ()
    __add__ = _arith(lambda a, b: a + b)
    __radd__ = _rarith(lambda a, b: a + b)
    __sub__ = _arith(lambda a, b: a - b)
    __rsub__ = _rarith(lambda a, b: a - b)
    __mul__ = _arith(lambda a, b: a * b)
    __rmul__ = _rarith(lambda a, b: a * b)
    __mod__ = _arith(_mod)
    __rmod__ = _rarith(_mod)
    __floordiv__ = _arith(_floordiv)
    __rfloordiv__ = _rarith(_floordiv)
    __truediv__ = _arith(_truediv)
    __rtruediv__ = _rarith(_truediv)
    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)

    def __eq__(self, other):
        o = num_term(other)
        if o is None:
            return False
        a, b = _coerce(num_term(self), o)
        return wrap_bool(a == b)

    def __ne__(self, other):
        o = num_term(other)
        if o is None:
            return True
        a, b = _coerce(num_term(self), o)
        return wrap_bool(a != b)

    def __neg__(self):
        return wrap_num(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap_num(z3.If(self.t < 0, -self.t, self.t))

    def __bool__(self):
        return _current.fork(self.t != 0)

    def __divmod__(self, other):
        return self // other, self % other


class SymInt(_SymNum):
    __slots__ = ()

    def __hash__(self):
        return hash(_current.concretize(self))

    def __index__(self):
        return _current.concretize(self)

    def __int__(self):
        return _current.concretize(self)

    def __float__(self):
        return float(_current.concretize(self))

    def __round__(self, ndigits=None):
        return self

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __pow__(self, k, mod=None):
        if isinstance(k, int) and 0 <= k <= 4:
            r = 1
            for _ in range(k):
                r = self * r
            return r
        return _current.concretize(self) ** k

    def __rpow__(self, base):
        return base ** _current.concretize(self)

    def is_integer(self):
        return True


class SymReal(_SymNum):
    __slots__ = ()

    def __hash__(self):
        return hash(_current.concretize(self))

    def __float__(self):
        return float(_current.concretize(self))

    def __int__(self):
        return wrap_num(z3.If(self.t >= 0, z3.ToInt(self.t), -z3.ToInt(-self.t)))

    __trunc__ = __int__

    def __floor__(self):
        return wrap_num(z3.ToInt(self.t))

    def __ceil__(self):
        return wrap_num(-z3.ToInt(-self.t))

    def __round__(self, ndigits=None):
        # round-to-precision is the identity on the exactly represented
        # rationals of bounded precision that harnesses use
        if ndigits is None:
            return wrap_num(z3.ToInt(self.t + z3.Q(1, 2)))
        return self


class SymBool(Sym):
    __slots__ = ()

    def __bool__(self):
        return _current.fork(self.t)

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, other):
        o = bool_term(other)
        return NotImplemented if o is None else wrap_bool(z3.And(self.t, o))

    __rand__ = __and__

    def __or__(self, other):
        o = bool_term(other)
        return NotImplemented if o is None else wrap_bool(z3.Or(self.t, o))

    __ror__ = __or__

    def __xor__(self, other):
        o = bool_term(other)
        return NotImplemented if o is None else wrap_bool(z3.Xor(self.t, o))

    __rxor__ = __xor__

    def __invert__(self):
        return wrap_bool(z3.Not(self.t))

    def __eq__(self, other):
        o = bool_term(other)
        if o is None:
            o = num_term(other)
            if o is None:
                return False
            return wrap_num(num_term(self)) == wrap_num(o)
        return wrap_bool(self.t == o)

    def __ne__(self, other):
        r = self.__eq__(other)
        return NOT(r)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, other):
        return wrap_num(num_term(self)) + other

    __radd__ = __add__

    def __sub__(self, other):
        return wrap_num(num_term(self)) - other

    def __rsub__(self, other):
        return other - wrap_num(num_term(self))

    def __lt__(self, other):
        return wrap_num(num_term(self)) < other

    def __le__(self, other):
        return wrap_num(num_term(self)) <= other

    def __gt__(self, other):
        return wrap_num(num_term(self)) > other

    def __ge__(self, other):
        return wrap_num(num_term(self)) >= other


def bool_term(v):
    if isinstance(v, SymBool):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if type(v).__name__ in ('bool_', 'bool'):
        return z3.BoolVal(bool(v))
    return None


# --- logical connectives that do not fork; also work on plain values --------

def NOT(a):
    if is_sym(a):
        t = bool_term(a)
        return SymBool(t.arg(0)) if z3.is_not(t) else SymBool(z3.Not(t))
    return not a


def _nary(xs, unit, mk):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    ts = []
    for x in xs:
        if is_sym(x):
            ts.append(bool_term(x))
        elif bool(x) != unit:
            return not unit
    if not ts:
        return unit
    return SymBool(ts[0] if len(ts) == 1 else mk(*ts))


def AND(*xs):
    return _nary(xs, True, z3.And)


def OR(*xs):
    return _nary(xs, False, z3.Or)


def IMPLIES(a, b):
    return OR(NOT(a), b)


def IFF(a, b):
    if is_sym(a) or is_sym(b):
        ta = bool_term(a) if is_sym(a) else z3.BoolVal(bool(a))
        tb = bool_term(b) if is_sym(b) else z3.BoolVal(bool(b))
        return wrap_bool(ta == tb)
    return bool(a) == bool(b)


def ITE(c, a, b):
    if is_sym(c):
        ta, tb = _coerce(num_term(a), num_term(b))
        return wrap_num(z3.If(c.t, ta, tb))
    return a if c else b


def SUM(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


# ---------------------------------------------------------------------------
# engine
# ---------------------------------------------------------------------------

def _value(t):
    if z3.is_int_value(t):
        return t.as_long()
    import fractions
    f = fractions.Fraction(t.numerator_as_long(), t.denominator_as_long())
    # grid values are dyadic, hence exact as floats
    return float(f)


class _Entry:
    __slots__ = ('kind', 'key', 'choice', 'alts', 'pushed', 'model', 'split')

    def __init__(self, kind, key, choice, alts=None, pushed=False, model=None):
        self.kind = kind          # 'B' branch, 'V' value, 'A' assumption
        self.key = key            # term (replay consistency)
        self.choice = choice
        self.alts = alts          # 'B': True if the other side is pending; 'V': excluded values or None
        self.pushed = pushed      # whether a solver level belongs to it
        self.model = model        # model of the pending side ('B')
        self.split = False        # one side is explored by another process


class Stats:
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.branches = 0
        self.queries = 0
        self.solver_s = 0.0
        self.checks = 0
        self.checks_solver = 0
        self.reach = {}
        self.max_depth = 0
        self.vars = {}

    def as_dict(self):
        return dict(self.__dict__)


class Engine:
    """Symbolic exploration of one harness."""

    symbolic = True

    def __init__(self, solver_timeout_ms=60000, max_values=64, max_decisions=20000,
                 deadline=None, concrete_inputs=False, split=(), rnd=None):
        # rnd: take feasible paths in random order, until the time is over
        # (never a complete exploration)
        self.rnd = rnd
        self.bounds = {}
        # bits that fix the first genuine branches of every path: the tree is
        # partitioned over 2**len(split) processes
        self.split = tuple(split)
        self.concrete_inputs = concrete_inputs
        self.solver = z3.Solver()
        self.solver.set('timeout', solver_timeout_ms)
        self.max_values = max_values
        self.max_decisions = max_decisions
        self.deadline = deadline
        self.stats = Stats()
        self.trail = []
        self.pos = 0
        self.model = None
        self.vars = {}
        self.order = []
        self.cache = {}
        self.implied = {}
        self.implied_stack = []

    # --- solver ----------------------------------------------------------
    def _check(self, *assumptions):
        t0 = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.stats.solver_s += time.perf_counter() - t0
        self.stats.queries += 1
        if r == z3.unknown:
            raise EngineLimit(f'solver: unknown ({self.solver.reason_unknown()})')
        return r == z3.sat

    def _get_model(self):
        if self.model is None:
            if not self._check():
                raise PathAbort()
            self.model = self.solver.model()
        return self.model

    def _eval(self, t, model=None):
        return (model or self._get_model()).eval(t, model_completion=True)

    # --- inputs ------------------------------------------------------------
    def _var(self, name, mk, sort):
        if name in self.vars:
            return self.vars[name][0], False
        v = mk(name)
        self.vars[name] = (v, sort)
        self.order.append(name)
        return v, True

    def int(self, name, lo, hi, small=None):
        """small: the range to use when values have to be enumerated"""
        if self.concrete_inputs and small is not None:
            lo, hi = small
        if lo == hi:
            return lo
        v, new = self._var(name, z3.Int, 'int')
        if new:
            self.bounds[v.get_id()] = (lo, hi)
            self.assume(wrap_bool(z3.And(v >= lo, v <= hi)))
        return self.concretize(SymInt(v)) if self.concrete_inputs else SymInt(v)

    def real(self, name, lo, hi, denom=4):
        """a number k/denom (denom a power of two, so exact as a float)"""
        k = self.int(name, int(lo * denom), int(hi * denom))
        return k / denom

    def bool(self, name):
        v, new = self._var(name, z3.Bool, 'bool')
        return bool(SymBool(v)) if self.concrete_inputs else SymBool(v)

    @property
    def replaying(self):
        """the current point was already explored, with the same decisions"""
        return self.pos < len(self.trail)

    def section(self, fn, *args):
        """run fn, an observation without effects on what follows; left out in
        replays of a prefix in which it made no decisions"""
        self.nsec += 1
        key = ('S', self.nsec)
        if key in self.implied:
            return
        p0 = self.pos
        fn(*args)
        if self.pos == p0:
            self.implied[key] = True
            self.implied_stack.append((len(self.trail), key))

    def known(self, x):
        """the value of x if this path already decided it, else x"""
        if isinstance(x, SymBool):
            hit = self.cache.get(x.t.get_id())
            if hit is not None:
                return hit[1]
        return x

    def flag(self, name):
        """a boolean input that is decided (forked) immediately"""
        return bool(self.bool(name))

    def choose(self, name, options):
        """one of the given options; the solver drives the enumeration"""
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.concretize(self.int(name, 0, len(options) - 1))
        return options[i]

    def cint(self, name, lo, hi):
        """an integer input that is concretised immediately"""
        v = self.int(name, lo, hi)
        return v if isinstance(v, int) else self.concretize(v)

    # --- constraints -------------------------------------------------------
    def _tick(self):
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise EngineLimit('time limit of the exploration')
        if self.pos > self.max_decisions:
            raise EngineLimit('too many decisions on one path (unbounded loop?)')

    def assume(self, cond):
        if not is_sym(cond):
            if not cond:
                raise PathAbort()
            return
        t = bool_term(cond)
        self._tick()
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind != 'A' or not e.key.eq(t):
                raise EngineLimit('non-deterministic replay (assumption)')
            self.pos += 1
            self.cache[t.get_id()] = (t, True)
            return
        self.solver.push()
        self.solver.add(t)
        self.trail.append(_Entry('A', t, None, pushed=True))
        self.pos += 1
        self.cache[t.get_id()] = (t, True)
        if self.model is not None and not z3.is_true(self._eval(t)):
            self.model = None
        self._get_model()

    def fork(self, t):
        """truth value of the term on this path"""
        hit = self.cache.get(t.get_id())
        if hit is not None:
            return hit[1]
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        neg = False
        if z3.is_not(t):
            t, neg = t.arg(0), True
        r = self._fork(t)
        return r != neg

    def _fork(self, t):
        hit = self.cache.get(t.get_id())
        if hit is not None:
            return hit[1]
        self._tick()
        if self.pos < len(self.trail):
            imp = self.implied.get(t.get_id())
            if imp is not None:
                self.cache[t.get_id()] = imp
                return imp[1]
            e = self.trail[self.pos]
            if e.kind != 'B' or not e.key.eq(t):
                raise EngineLimit('non-deterministic replay (branch)')
            self.pos += 1
            self.cache[t.get_id()] = (t, e.choice)
            return e.choice
        imp = self.implied.get(t.get_id())
        if imp is not None:
            self.cache[t.get_id()] = imp
            return imp[1]
        m = self._get_model()
        val = z3.is_true(m.eval(t, model_completion=True))
        other = z3.Not(t) if val else t
        other_sat = self._check(other)
        if not other_sat:
            # decided by the path condition: remembered for replays, as long
            # as this prefix of the trail is kept
            self.implied[t.get_id()] = (t, val)
            self.implied_stack.append((len(self.trail), t.get_id()))
            self.cache[t.get_id()] = (t, val)
            return val
        other_model = self.solver.model() if other_sat else None
        e = _Entry('B', t, val, alts=other_sat, pushed=other_sat, model=other_model)
        if other_sat and self.split:
            nsplit = sum(1 for x in self.trail if x.split)
            if nsplit < len(self.split):
                e.split = True
                e.alts = False
                if val != self.split[nsplit]:
                    val = e.choice = not val
                    self.model = other_model
        if other_sat and self.rnd and not e.split and self.rnd.random() < 0.5:
            val = e.choice = not val
            self.model = other_model
        if other_sat:
            self.stats.branches += 1
            self.solver.push()
            self.solver.add(t if val else z3.Not(t))
        self.trail.append(e)
        self.pos += 1
        self.cache[t.get_id()] = (t, val)
        return val

    def concretize(self, x):
        """a concrete value of the symbolic integer; other values are explored later"""
        if isinstance(x, SymBool):
            return bool(x)
        if not isinstance(x, (SymInt, SymReal)):
            return x
        t = z3.simplify(x.t)
        if z3.is_int_value(t) or z3.is_rational_value(t):
            return _value(t)
        key = ('V', t.get_id())
        hit = self.cache.get(key)
        if hit is not None:
            return hit[1]
        self._tick()
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind != 'V' or not e.key.eq(t):
                raise EngineLimit('non-deterministic replay (value)')
            self.pos += 1
            self.cache[key] = (t, e.choice)
            return e.choice
        v = _value(self._eval(t))
        if self.rnd:
            v = self._random_value(t, v)
        self.solver.push()
        self.solver.add(t == num_term(v))
        self.trail.append(_Entry('V', t, v, alts=[v], pushed=True))
        self.pos += 1
        self.stats.branches += 1
        self.cache[key] = (t, v)
        return v

    def _random_value(self, t, v):
        lo, hi = self.bounds.get(t.get_id(), (None, None))
        if lo is not None:
            r = self.rnd.randint(lo, hi)
            if hi - lo > 64 and self.rnd.random() < 0.8:
                r = max(lo, min(hi, self.rnd.randint(-3, 20)))
            other = t == num_term(r)
        else:
            other = t != num_term(v)
            if self.rnd.random() < 0.5:
                return v
        if self._check(other):
            self.model = self.solver.model()
            return _value(self.model.eval(t, model_completion=True))
        return v

    # --- assertions --------------------------------------------------------
    def check(self, cond, msg, **detail):
        self.stats.checks += 1
        if not is_sym(cond):
            if isinstance(cond, bool) or cond in (0, 1) or type(cond).__name__ in ('bool_', 'bool'):
                if not cond:
                    raise Violation(msg, self._get_model(), detail)
                return
            raise TypeError(f'check() of {type(cond)}')
        if self.pos < len(self.trail):
            # replaying a prefix: this assertion was already decided there,
            # under a weaker path condition
            return
        t = bool_term(cond)
        self.stats.checks_solver += 1
        if self._check(z3.Not(t)):
            raise Violation(msg, self.solver.model(), detail)

    def check_all(self, items, **detail):
        """items: (condition, message); decided with a single query"""
        syms = []
        for c, msg in items:
            if is_sym(c):
                syms.append((c, msg))
            else:
                self.check(c, msg, **detail)
        if not syms:
            return
        self.stats.checks += len(syms)
        if self.pos < len(self.trail):
            return
        self.stats.checks_solver += len(syms)
        if self._check(z3.Not(z3.And(*[bool_term(c) for c, _ in syms]))):
            m = self.solver.model()
            for c, msg in syms:
                if not z3.is_true(m.eval(bool_term(c), model_completion=True)):
                    raise Violation(msg, m, detail)
            raise Violation(syms[0][1], m, detail)

    def fail(self, msg, **detail):
        raise Violation(msg, self._get_model(), detail)

    def reach(self, label):
        self.stats.reach[label] = self.stats.reach.get(label, 0) + 1

    # --- results -----------------------------------------------------------
    def assignment(self, model):
        out = {}
        for name in self.order:
            v, sort = self.vars[name]
            val = model.eval(v, model_completion=True)
            if sort == 'int':
                out[name] = val.as_long()
            else:
                out[name] = z3.is_true(val)
        return out

    # --- exploration -------------------------------------------------------
    def _forget(self):
        """drop what was implied by the trail before its last entry changed"""
        st = self.implied_stack
        while st and st[-1][0] >= len(self.trail):
            self.implied.pop(st.pop()[1], None)

    def _backtrack(self):
        """prepare the next path; False when the tree is exhausted"""
        while self.trail:
            e = self.trail[-1]
            if e.pushed:
                self.solver.pop()
            if e.kind == 'B' and e.alts:
                e.alts = False
                e.choice = not e.choice
                e.pushed = True
                self.solver.push()
                self.solver.add(e.key if e.choice else z3.Not(e.key))
                self.model = e.model
                e.model = None
                self._forget()
                return True
            if e.kind == 'V' and e.alts is not None:
                excl = z3.And(*[e.key != num_term(v) for v in e.alts])
                if self._check(excl):
                    m = self.solver.model()
                    v = _value(m.eval(e.key, model_completion=True))
                    if len(e.alts) >= self.max_values:
                        raise EngineLimit(f'more than {self.max_values} values of a concretised integer')
                    e.choice = v
                    e.alts = e.alts + [v]
                    self.solver.push()
                    self.solver.add(e.key == num_term(v))
                    e.pushed = True
                    self.model = m
                    self._forget()
                    return True
            self.trail.pop()
        return False

    def explore(self, harness, on_path=None, on_violation=None, max_paths=None,
                known_exceptions=()):
        """Run harness(self) on every feasible path.

        on_path(assignment) is called for completed paths, on_violation(msg,
        assignment, detail) -> bool (continue?) for failed ones.
        Returns True if the tree was exhausted."""
        global _current
        prev, _current = _current, self
        try:
            while True:
                self.pos = 0
                self.nsec = 0
                self.cache = {}
                self.vars = {}
                self.order = []
                if not self.trail:
                    self.model = None
                try:
                    harness(self)
                    self.stats.paths += 1
                    self.stats.max_depth = max(self.stats.max_depth, len(self.trail))
                    if on_path is not None:
                        on_path(self)
                except PathAbort:
                    self.stats.aborted += 1
                except Violation as v:
                    self.stats.paths += 1
                    a = self.assignment(v.model)
                    if on_violation is None or not on_violation(v.msg, a, v.detail):
                        return False
                except Exception as e:
                    self.stats.paths += 1
                    tb = traceback.format_exc(limit=-6)
                    a = self.assignment(self._get_model())
                    if on_violation is None or not on_violation(
                        f'unexpected {type(e).__name__}: {e}', a, {'traceback': tb}
                    ):
                        return False
                if max_paths is not None and self.stats.paths >= max_paths:
                    raise EngineLimit(f'more than {max_paths} paths')
                if self.rnd:
                    while self.trail:
                        if self.trail.pop().pushed:
                            self.solver.pop()
                    self.implied.clear()
                    self.implied_stack.clear()
                    if self.deadline is not None and time.monotonic() > self.deadline:
                        raise EngineLimit('time limit of the exploration')
                elif not self._backtrack():
                    return True
        finally:
            _current = prev


class ConcreteEngine:
    """Runs the same harness on plain values (replay of a solver model)."""

    symbolic = False

    def __init__(self, assignment):
        self.assignment_ = dict(assignment)
        self.reached = set()
        self.checks = 0
        self.used = {}

    def _get(self, name, default):
        v = self.assignment_.get(name, default)
        self.used[name] = v
        return v

    def int(self, name, lo, hi, small=None):
        if lo == hi:
            return lo
        v = self._get(name, lo)
        if not lo <= v <= hi:
            raise PathAbort()
        return v

    cint = int

    def real(self, name, lo, hi, denom=4):
        return self.int(name, int(lo * denom), int(hi * denom)) / denom

    def bool(self, name):
        return bool(self._get(name, False))

    flag = bool

    replaying = False

    def section(self, fn, *args):
        fn(*args)

    def known(self, x):
        return x

    def choose(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.int(name, 0, len(options) - 1)]

    def concretize(self, x):
        return x

    def assume(self, cond):
        if not cond:
            raise PathAbort()

    def check(self, cond, msg, **detail):
        self.checks += 1
        if not cond:
            raise Violation(msg, None, detail)

    def check_all(self, items, **detail):
        for c, msg in items:
            self.check(c, msg, **detail)

    def fail(self, msg, **detail):
        raise Violation(msg, None, detail)

    def reach(self, label):
        self.reached.add(label)
