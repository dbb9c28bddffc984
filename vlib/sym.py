"""
Symbolic values and the path explorer.

The code under test runs *natively* (the real functions from /repo) on the
proxy values defined here.  Every proxy holds a z3 term.  Whenever the program
needs a concrete truth value (`if`, `and`, `while`, comparisons made by numpy
or C code) the engine asks the solver which outcomes are possible under the
current path condition, follows one of them and queues the other, so that a
harness is executed once per feasible path.  Assertions are discharged by the
solver for *all* values on the path.
"""
import builtins
import math
import numbers
import time
from fractions import Fraction

import z3

_int = builtins.int
_float = builtins.float
_bool = builtins.bool
_isinstance = builtins.isinstance

_orig_math = {k: getattr(math, k) for k in dir(math) if not k.startswith('__')}


class EngineSignal(BaseException):
    """Control-flow signals of the engine (never caught by the code under test)."""


class PathEnd(EngineSignal):
    """The current path is infeasible or finished."""


class Budget(EngineSignal):
    """Out of budget for this task."""


class Unsupported(EngineSignal):
    """The engine cannot follow this operation symbolically."""


class Stats(dict):
    def inc(self, key, n=1):
        self[key] = self.get(key, 0) + n


CUR = None   # the active Path (one per harness execution)


def cur():
    if CUR is None:
        raise Unsupported('symbolic value used outside of an exploration')
    return CUR


# ---------------------------------------------------------------------------
# term helpers


def _frac(x):
    return Fraction(x)


_IV = {}


def IV(n):
    r = _IV.get(n)
    if r is None:
        r = _IV[n] = z3.IntVal(n)
    return r


def RV(fr):
    fr = Fraction(fr)
    r = _IV.get(('r', fr))
    if r is None:
        r = _IV[('r', fr)] = z3.RealVal(str(fr.numerator) + '/' + str(fr.denominator))
    return r


def is_sym(x):
    return _isinstance(x, (SymNum, SymBool, SymLog2))


def any_sym(*xs):
    for x in xs:
        if _isinstance(x, (SymNum, SymBool, SymLog2)):
            return True
    return False


class _Special:
    """Marker returned by lift() for values with no exact rational meaning."""
    def __init__(self, v):
        self.v = v


def lift(x):
    """python/numpy number -> z3 arithmetic term (or None, or _Special)"""
    if _isinstance(x, SymNum):
        return x.e
    if _isinstance(x, SymBool):
        return z3.If(x.e, IV(1), IV(0))
    if _isinstance(x, _bool):
        return IV(1 if x else 0)
    if _isinstance(x, _int):
        return IV(_int(x))
    if _isinstance(x, _float):
        if x != x or x in (_float('inf'), _float('-inf')):
            return _Special(_float(x))
        return RV(Fraction(x))
    if _isinstance(x, Fraction):
        return RV(x)
    t = type(x)
    if t.__module__ == 'numpy' and hasattr(x, 'item') and not hasattr(x, '__len__'):
        if getattr(x, 'ndim', 0) == 0:
            v = x.item()
            if v is not x:
                return lift(v)
    return None


def wrap(e):
    """z3 arith term -> python number if literal, else a proxy"""
    e = z3.simplify(e, som=False)
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        fr = Fraction(e.numerator_as_long(), e.denominator_as_long())
        f = fr.numerator / fr.denominator
        if Fraction(f) == fr:
            return _float(f)
        return SymReal(e)
    if e.sort().kind() == z3.Z3_INT_SORT:
        return SymInt(e)
    return SymReal(e)


def wrapb(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def as_bool_term(c):
    if _isinstance(c, SymBool):
        return c.e
    if _isinstance(c, z3.BoolRef):
        return c
    if _isinstance(c, SymNum):
        return c.e != 0
    if type(c).__module__ == 'numpy' and hasattr(c, 'all'):
        import numpy as np
        arr = np.asarray(c)
        if arr.dtype == object:
            return z3.And([as_bool_term(v) for v in arr.ravel()]) if arr.size else z3.BoolVal(True)
        return z3.BoolVal(_bool(arr.all()))
    return z3.BoolVal(_bool(c))


def to_real(e):
    return z3.ToReal(e) if e.sort().kind() == z3.Z3_INT_SORT else e


def _coerce2(a, b):
    if a.sort().kind() != b.sort().kind():
        return to_real(a), to_real(b)
    return a, b


# ---------------------------------------------------------------------------


class SymBool:
    __slots__ = ('e',)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return cur().branch(self.e)

    def __and__(self, o):
        t = _blift(o)
        return NotImplemented if t is None else wrapb(z3.And(self.e, t))
    __rand__ = __and__

    def __or__(self, o):
        t = _blift(o)
        return NotImplemented if t is None else wrapb(z3.Or(self.e, t))
    __ror__ = __or__

    def __xor__(self, o):
        t = _blift(o)
        return NotImplemented if t is None else wrapb(z3.Xor(self.e, t))
    __rxor__ = __xor__

    def __invert__(self):
        return wrapb(z3.Not(self.e))

    logical_not = __invert__

    def __eq__(self, o):
        t = _blift(o)
        if t is None:
            n = lift(o)
            if n is None or _isinstance(n, _Special):
                return False
            a, b = _coerce2(lift(self), n)
            return wrapb(a == b)
        return wrapb(self.e == t)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if _isinstance(r, _bool) else ~r

    def __hash__(self):
        return hash(_bool(self))

    def __index__(self):
        return 1 if _bool(self) else 0
    __int__ = __index__

    def __float__(self):
        return _float(_bool(self))

    def _num(self):
        return SymInt(lift(self))

    def __add__(self, o):
        return self._num() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __mul__(self, o):
        return self._num() * o
    __rmul__ = __mul__

    def __repr__(self):
        return '<symbool>'

    def all(self):
        return self

    def any(self):
        return self

    def item(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _blift(o):
    if _isinstance(o, SymBool):
        return o.e
    if _isinstance(o, _bool):
        return z3.BoolVal(o)
    if type(o).__name__ == 'bool_' or type(o).__name__ == 'bool':
        return z3.BoolVal(_bool(o))
    return None


def _arith(name, rev=False):
    def op(self, other):
        o = lift(other)
        if o is None:
            if _plain_array(other):
                return _over_array(self, other, op)
            if _isinstance(other, SymLog2):
                raise Unsupported('arithmetic on log2')
            return NotImplemented
        if _isinstance(o, _Special):
            return _special_arith(name, self, o.v, rev)
        a, b = self.e, o
        if name == 'truediv':
            a, b = to_real(a), to_real(b)
        else:
            a, b = _coerce2(a, b)
        if rev:
            a, b = b, a
        if name == 'add':
            r = a + b
        elif name == 'sub':
            r = a - b
        elif name == 'mul':
            r = a * b
        elif name == 'truediv':
            bs = z3.simplify(b)
            if not z3.is_rational_value(bs):
                if cur().branch(bs == 0):
                    raise ZeroDivisionError('symbolic division by zero')
            elif bs.numerator_as_long() == 0:
                raise ZeroDivisionError('division by zero')
            r = a / b
        return wrap(r)
    return op


def _special_arith(name, s, v, rev):
    if v != v:
        return v
    if name == 'add':
        return v
    if name == 'sub':
        return v if rev else -v
    if name == 'mul':
        if _bool(s == 0):
            return _float('nan')
        return v if _bool(s > 0) else -v
    if name == 'truediv':
        if rev:
            if _bool(s == 0):
                raise ZeroDivisionError
            return v if _bool(s > 0) else -v
        return 0.0
    raise Unsupported('arithmetic with %r' % v)


def _floordiv_terms(a, b):
    """python floor division of two terms, result Int sort"""
    if a.sort().kind() == z3.Z3_INT_SORT and b.sort().kind() == z3.Z3_INT_SORT:
        bs = z3.simplify(b)
        if z3.is_int_value(bs):
            bv = bs.as_long()
            if bv == 0:
                raise ZeroDivisionError
            if bv > 0:
                return a / bs
            return (-a) / IV(-bv)
        if cur().branch(bs == 0):
            raise ZeroDivisionError
        return z3.If(b > 0, a / b, (-a) / (-b))
    bs = z3.simplify(b)
    if z3.is_rational_value(bs):
        if bs.numerator_as_long() == 0:
            raise ZeroDivisionError
    elif cur().branch(bs == 0):
        raise ZeroDivisionError
    return z3.ToInt(to_real(a) / to_real(b))


def _over_array(self, arr, op):
    """a plain array combined with one symbolic number"""
    import numpy as np
    out = np.empty(arr.shape, dtype=object)
    for i in np.ndindex(*arr.shape):
        v = arr[i]
        out[i] = op(self, v.item() if _isinstance(v, np.generic) else v)
    if out.ndim == 0:
        return out[()]
    return out


def _plain_array(v):
    import numpy as np
    return type(v) is np.ndarray


def _cmp(name):
    def op(self, other):
        o = lift(other)
        if o is None:
            if _plain_array(other):
                return _over_array(self, other, op)
            if _isinstance(other, SymLog2):
                return NotImplemented
            if name == 'eq':
                if hasattr(other, '__array__') or hasattr(other, 'shape'):
                    return NotImplemented
                return False
            if name == 'ne':
                if hasattr(other, '__array__') or hasattr(other, 'shape'):
                    return NotImplemented
                return True
            return NotImplemented
        if _isinstance(o, _Special):
            v = o.v
            if v != v:
                return name == 'ne'
            return {'lt': v > 0, 'le': v > 0, 'gt': v < 0, 'ge': v < 0, 'eq': False, 'ne': True}[name]
        a, b = _coerce2(self.e, o)
        r = {'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b,
             'ge': lambda: a >= b, 'eq': lambda: a == b, 'ne': lambda: a != b}[name]()
        return wrapb(r)
    return op


class SymNum:
    __slots__ = ('e',)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    __add__ = _arith('add')
    __radd__ = _arith('add', True)
    __sub__ = _arith('sub')
    __rsub__ = _arith('sub', True)
    __mul__ = _arith('mul')
    __rmul__ = _arith('mul', True)
    __truediv__ = _arith('truediv')
    __rtruediv__ = _arith('truediv', True)
    __lt__ = _cmp('lt')
    __le__ = _cmp('le')
    __gt__ = _cmp('gt')
    __ge__ = _cmp('ge')
    __eq__ = _cmp('eq')
    __ne__ = _cmp('ne')

    def __floordiv__(self, other):
        if _plain_array(other):
            return _over_array(self, other, lambda a, b: a // b)
        o = lift(other)
        if o is None or _isinstance(o, _Special):
            return NotImplemented
        r = _floordiv_terms(self.e, o)
        w = wrap(r)
        if _isinstance(self, SymReal) or _isinstance(other, (_float, SymReal)):
            return w * 1.0
        return w

    def __rfloordiv__(self, other):
        if _plain_array(other):
            return _over_array(self, other, lambda a, b: b // a)
        o = lift(other)
        if o is None or _isinstance(o, _Special):
            return NotImplemented
        return wrap(_floordiv_terms(o, self.e))

    def __mod__(self, other):
        if _plain_array(other):
            return _over_array(self, other, lambda a, b: a % b)
        o = lift(other)
        if o is None or _isinstance(o, _Special):
            return NotImplemented
        q = _floordiv_terms(self.e, o)
        a, b = _coerce2(self.e, o)
        if a.sort().kind() == z3.Z3_REAL_SORT:
            q = z3.ToReal(q)
        return wrap(a - b * q)

    def __rmod__(self, other):
        if _plain_array(other):
            return _over_array(self, other, lambda a, b: b % a)
        o = lift(other)
        if o is None or _isinstance(o, _Special):
            return NotImplemented
        q = _floordiv_terms(o, self.e)
        a, b = _coerce2(o, self.e)
        if a.sort().kind() == z3.Z3_REAL_SORT:
            q = z3.ToReal(q)
        return wrap(a - b * q)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __lshift__(self, o):
        return self * (2 ** o)

    def __rshift__(self, o):
        return self // (2 ** o)

    def __rlshift__(self, o):
        return o * (2 ** self)

    def __rrshift__(self, o):
        return o // (2 ** self)

    def __pow__(self, other, mod=None):
        if is_sym(other):
            other = cur().concretize(other)
        if _isinstance(other, _float) and other == 0.5:
            return self.sqrt()
        k = _int(other)
        if k != other:
            raise Unsupported('non-integral power')
        r = 1
        for _ in range(abs(k)):
            r = r * self
        return r if k >= 0 else 1 / r

    def __rpow__(self, other):
        k = cur().concretize(self)
        return other ** k

    def __neg__(self):
        return wrap(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(z3.If(self.e >= 0, self.e, -self.e))

    fabs = __abs__
    absolute = __abs__

    def __bool__(self):
        return cur().branch(self.e != 0)

    def __int__(self):
        return _int(cur().concretize(self.__trunc__()))

    def __float__(self):
        return _float(cur().concretize(self))

    def __complex__(self):
        return complex(_float(self))

    def __hash__(self):
        return hash(cur().concretize(self))

    def __floor__(self):
        if self.e.sort().kind() == z3.Z3_INT_SORT:
            return self
        return wrap(z3.ToInt(self.e))

    def __ceil__(self):
        if self.e.sort().kind() == z3.Z3_INT_SORT:
            return self
        return wrap(-z3.ToInt(-self.e))

    def __trunc__(self):
        if self.e.sort().kind() == z3.Z3_INT_SORT:
            return self
        return wrap(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def __round__(self, nd=None):
        if self.e.sort().kind() == z3.Z3_INT_SORT:
            if nd is None or nd >= 0:
                return self
        if nd:
            s = 10 ** nd
            return round(self * s) / s
        fl = z3.ToInt(self.e)
        d = self.e - z3.ToReal(fl)
        r = z3.If(d < RV(Fraction(1, 2)), fl,
                  z3.If(d > RV(Fraction(1, 2)), fl + 1,
                        z3.If(fl % 2 == 0, fl, fl + 1)))
        return wrap(r)

    def rint(self):
        return round(self) * 1.0

    # numpy object-array ufuncs look these methods up by name
    def floor(self):
        return self.__floor__()

    def ceil(self):
        return self.__ceil__()

    def trunc(self):
        return self.__trunc__()

    def sqrt(self):
        return sym_sqrt(self)

    def log2(self):
        return SymLog2(self)

    def isfinite(self):
        return True

    def isnan(self):
        return False

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def is_integer(self):
        if self.e.sort().kind() == z3.Z3_INT_SORT:
            return True
        return wrapb(z3.IsInt(self.e))

    def item(self):
        return self

    def tolist(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported('pickle of a symbolic value')

    def __repr__(self):
        return '<sym>'

    def __str__(self):
        return cur().format_sym(self)

    def __format__(self, spec):
        return cur().format_sym(self)


class SymInt(SymNum):
    __slots__ = ()

    def __index__(self):
        return _int(cur().concretize(self))

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def bit_length(self):
        return _int(cur().concretize(self)).bit_length()

    def __and__(self, o):
        return _int(self) & o
    __rand__ = __and__

    def __or__(self, o):
        return _int(self) | o
    __ror__ = __or__

    def __xor__(self, o):
        return _int(self) ^ o
    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def astype(self, dt):
        return _astype(self, dt)


class SymReal(SymNum):
    __slots__ = ()

    def as_integer_ratio(self):
        return _float(self).as_integer_ratio()

    def astype(self, dt):
        return _astype(self, dt)


def _astype(x, dt):
    import numpy as np
    dt = np.dtype(dt)
    if dt.kind in 'iu':
        return x.__trunc__()
    if dt.kind == 'f':
        return wrap(to_real(x.e))
    if dt.kind == 'O':
        return x
    raise Unsupported('astype %r' % (dt,))


numbers.Integral.register(SymInt)
numbers.Real.register(SymReal)
numbers.Real.register(SymNum)


class SymLog2:
    """log2 of a positive symbolic value; only roundings and comparisons with
    integers are meaningful, and those are exact."""
    __slots__ = ('x',)
    __array_priority__ = 1000

    def __init__(self, x):
        self.x = x

    def _floor(self):
        x = self.x
        if not _bool(x > 0):
            raise ValueError('math domain error')
        if _bool(x >= 1):
            for k in range(0, 41):
                if _bool(x < 2.0 ** (k + 1)):
                    return k
        else:
            for k in range(0, 41):
                if _bool(x >= 2.0 ** -(k + 1)):
                    return -(k + 1)
        raise Unsupported('log2 out of range')

    def __floor__(self):
        return self._floor()

    def floor(self):
        return self._floor()

    def _exact(self, k):
        return _bool(self.x == (2.0 ** k))

    def __ceil__(self):
        k = self._floor()
        return k if self._exact(k) else k + 1
    ceil = __ceil__

    def __trunc__(self):
        k = self._floor()
        if k < 0 and not self._exact(k):
            return k + 1
        return k
    trunc = __trunc__

    def __int__(self):
        return self.__trunc__()

    def __neg__(self):
        return SymLog2(1 / self.x)

    def __float__(self):
        return math.log2(_float(self.x))

    def _c(self, o, f):
        if _isinstance(o, SymLog2):
            return f(self.x, o.x)
        return f(self.x, 2.0 ** o)

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._c(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._c(o, lambda a, b: a != b)

    def __hash__(self):
        return id(self)

    def __round__(self, nd=None):
        raise Unsupported('round log2')


def RVnum(fr):
    f = Fraction(fr)
    v = f.numerator / f.denominator
    return v


def sym_sqrt(x):
    """square root: x*x is recognised, otherwise an algebraic variable"""
    p = cur()
    e = z3.simplify(to_real(lift(x)))
    key = ('sqrt', e.get_id())
    r = p.memo.get(key)
    if r is None:
        if _bool(wrapb(e < 0)):
            raise ValueError('math domain error')
        v = z3.Real('sqrt!%d' % len(p.memo))
        p.add(z3.And(v >= 0, v * v == e))
        r = p.memo[key] = (SymReal(v), e)
    return r[0]


# ---------------------------------------------------------------------------
# the explorer


def _holds(m, t):
    try:
        return z3.is_true(m.eval(t, model_completion=True))
    except z3.Z3Exception:
        return False


class _Facts:
    """the path condition"""

    def __init__(self):
        self.facts = []

    def add(self, t):
        self.facts.append(t)

    def assertions(self):
        return self.facts


_TOKEN = [0]


class Path:
    """one execution of the harness along a decision prefix"""

    def __init__(self, prefix, ex, models=()):
        self.prefix = prefix
        self.models = list(models)   # assignments that satisfy the path condition
        self.settled = {}            # conditions whose value is known on this path
        self.ex = ex
        self.trace = []
        self.pos = 0
        self.solver = _Facts()
        self.vars = {}
        self.var_order = []
        self.memo = {}
        self.keep = []        # keep terms alive (ids are used as keys)
        self.pending = []
        self.tokens = {}
        self.never = []         # boolean images that have no true element
        self.rendered = []
        self.symtext = False
        self.text_consts = []
        self.notes = []
        self.unknowns = 0
        self.reached = set()
        self.checks = 0

    # -- solver access
    def add(self, t):
        self.solver.add(t)
        if self.models and self.pos >= len(self.prefix):
            self.models = [m for m in self.models if _holds(m, t)]

    def keep_models(self, cond):
        if self.pos >= len(self.prefix):
            self.models = [m for m in self.models if _holds(m, cond)]

    def check_sat(self, extra=None):
        st = self.ex.stats
        if time.monotonic() > self.ex.deadline:
            raise Budget('time')
        for m in self.models:
            if extra is None or _holds(m, extra):
                st.inc('answered_by_known_model')
                return z3.sat, m
        t0 = time.monotonic()
        # a fresh solver per query: z3's incremental mode is orders of
        # magnitude slower on these mixed integer / real problems
        for attempt in range(3):
            if attempt == 0:
                # cheap first try without preprocessing
                s = z3.SimpleSolver()
                s.set('timeout', min(250, self.ex.query_ms))
            else:
                s = z3.Solver()
                s.set('timeout', self.ex.query_ms)
                if attempt == 2:
                    s.set('random_seed', 17)
                    st.inc('requeried')
            s.add(self.solver.facts)
            if extra is not None:
                s.add(extra)
            r = s.check()
            if r != z3.unknown:
                break
        m = s.model() if r == z3.sat else None
        st.inc('queries')
        st['solver_s'] = st.get('solver_s', 0.0) + (time.monotonic() - t0)
        if r == z3.unknown:
            st.inc('unknown')
        elif m is not None:
            self.models.append(m)
            if len(self.models) > 10:
                del self.models[1]
        return r, m

    def get_model(self):
        if not self.models:
            r, m = self.check_sat()
            if r == z3.unsat:
                raise PathEnd('infeasible')
            if r == z3.unknown:
                raise Unsupported('solver unknown on path condition')
        return self.models[-1]

    # -- branching
    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.keep.append(cond)
        key = cond.get_id()
        v = self.settled.get(key)
        if v is not None:
            return v
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            if d[0] != 'b':
                raise Unsupported('non-deterministic replay of the path prefix')
            self.trace.append(d)
            if len(d) == 2:
                self.solver.add(cond if d[1] else z3.Not(cond))
            self.settled[key] = d[1]
            return d[1]
        side = not z3.is_false(self.get_model().eval(cond, model_completion=True))
        other = z3.Not(cond) if side else cond
        r, m2 = self.check_sat(other)
        forced = r == z3.unsat
        if r == z3.sat:
            self.ex.push(self.trace + [('b', not side)], [m for m in self.models if _holds(m, other)])
        elif r == z3.unknown:
            self.ex.push(self.trace + [('b', not side)])
            self.unknowns += 1
        self.trace.append(('b', side, 'forced') if forced else ('b', side))
        self.pos += 1
        self.prefix = self.trace[:]
        self.settled[key] = side
        if not forced:
            self.add(cond if side else z3.Not(cond))
        if len(self.trace) > self.ex.max_depth:
            raise Budget('depth')
        return side

    def decide(self, cond):
        """True / False when the path condition settles cond, else None;
        never forks"""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.keep.append(cond)
        key = cond.get_id()
        v = self.settled.get(key)
        if v is not None:
            return v
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            if d[0] != 'd':
                raise Unsupported('non-deterministic replay of the path prefix')
            self.trace.append(d)
            if d[1] is not None:
                self.settled[key] = d[1]
            return d[1]
        side = not z3.is_false(self.get_model().eval(cond, model_completion=True))
        r, m2 = self.check_sat(z3.Not(cond) if side else cond)
        res = side if r == z3.unsat else None
        if res is not None:
            self.settled[key] = res
        self.trace.append(('d', res))
        self.pos += 1
        self.prefix = self.trace[:]
        return res

    def forced_value(self, e):
        """the only value an integer term can have on this path, else None"""
        self.keep.append(e)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            if d[0] != 'v':
                raise Unsupported('non-deterministic replay of the path prefix')
            self.trace.append(d)
            return d[1]
        v = self.get_model().eval(e, model_completion=True)
        res = None
        if z3.is_int_value(v):
            r, _ = self.check_sat(e != v)
            if r == z3.unsat:
                res = v.as_long()
        self.trace.append(('v', res))
        self.pos += 1
        self.prefix = self.trace[:]
        return res

    def concretize(self, x):
        """a concrete value of x, exploring every feasible one"""
        e = lift(x)
        if e is None or _isinstance(e, _Special):
            return x
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_rational_value(e):
            fr = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return fr.numerator / fr.denominator
        self.keep.append(e)
        n = 0
        while True:
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                if d[0] != 'c':
                    raise Unsupported('non-deterministic replay of the path prefix')
                _, val, side = d
            else:
                m = self.get_model()
                mv = m.eval(e, model_completion=True)
                if z3.is_int_value(mv):
                    val = mv.as_long()
                elif z3.is_rational_value(mv):
                    val = Fraction(mv.numerator_as_long(), mv.denominator_as_long())
                else:
                    raise Unsupported('irrational value')
                side = None
            t = (e == (IV(val) if _isinstance(val, _int) else RV(val)))
            if side is None:
                r, m2 = self.check_sat(z3.Not(t))
                if r != z3.unsat:
                    nt = z3.Not(t)
                    self.ex.push(self.trace + [('c', val, False)], [m for m in self.models if _holds(m, nt)])
                side = True
                self.trace.append(('c', val, side))
                self.pos += 1
                self.prefix = self.trace[:]
            else:
                self.trace.append(d)
                self.pos += 1
            self.solver.add(t if side else z3.Not(t))
            self.keep_models(t if side else z3.Not(t))
            if side:
                self.ex.stats.inc('concretizations')
                if _isinstance(val, Fraction):
                    f = val.numerator / val.denominator
                    if Fraction(f) != val:
                        self.notes.append('a real value was rounded to a float')
                    return f
                return val
            n += 1
            if n > self.ex.max_concretize:
                raise Budget('concretization fan-out')

    def format_sym(self, x):
        """text of a number: by default one case per value; with symbolic text
        switched on, a digit string that stands for the (non-negative) number.
        In mode 'exact' it is the same text for equal numbers (a case split
        decides which texts are equal), so that code may compare the texts."""
        e = lift(x)
        if not self.symtext or e is None or _isinstance(e, _Special) or not z3.is_int(e):
            return str(self.concretize(x))
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return str(e.as_long())
        for t, text in self.rendered:
            if z3.eq(t, e):
                return text
        if self.symtext == 'exact':
            for t, text in self.rendered:
                if self.branch(e == t):
                    return text
            for v in self.text_consts:
                if self.branch(e == v):
                    return str(v)
            v = self.forced_value(e)
            if v is not None:
                return str(v)
        _TOKEN[0] += 1
        text = '7%09d3' % _TOKEN[0]
        self.keep.append(e)
        self.rendered.append((e, text))
        self.tokens[text] = wrap(e)
        return text

    def other_models(self, cond, m, n=3):
        """
        Inputs of further models of cond: a first model may sit on a boundary
        where floating point rounds the violation away in the replay.
        """
        out = []
        last = m
        for _ in range(n):
            differ = []
            for name in self.var_order:
                t = self.vars[name]
                if z3.is_int(t):
                    differ.append(t != last.eval(t, model_completion=True))
            s = z3.Solver()
            s.set('timeout', 2000)
            s.add(self.solver.facts)
            s.add(cond)
            r = s.check(*differ)
            if r == z3.unsat and differ:
                # not every input can change: change as many as possible, one by one
                s.add(z3.Or(differ))
                for d in differ:
                    s.push()
                    s.add(d)
                    if s.check() != z3.sat:
                        s.pop()
                r = s.check()
            if r != z3.sat:
                break
            last = s.model()
            try:
                out.append(self.model_inputs(last))
            except Unsupported:
                break
        return out

    def model_inputs(self, m):
        out = {}
        for name in self.var_order:
            t = self.vars[name]
            v = m.eval(t, model_completion=True)
            if z3.is_int_value(v):
                out[name] = v.as_long()
            elif z3.is_true(v) or z3.is_false(v):
                out[name] = z3.is_true(v)
            elif z3.is_fp_value(v):
                from vlib import symfp
                out[name] = symfp.value(v)
            elif z3.is_rational_value(v):
                out[name] = str(Fraction(v.numerator_as_long(), v.denominator_as_long()))
            else:
                raise Unsupported('irrational model value')
        return out


def safe_str(ex):
    try:
        return str(ex)
    except Exception:
        return '(message not available)'


class Explorer:
    """explores every path of one harness configuration"""

    def __init__(self, fn, kwargs, query_ms=20000, max_paths=4000, max_depth=4000,
                 time_s=120, max_concretize=64, max_cex=6, deadline=None):
        self.fn = fn
        self.kwargs = kwargs
        self.query_ms = query_ms
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.max_concretize = max_concretize
        self.max_cex = max_cex
        self.deadline = time.monotonic() + time_s
        if deadline is not None:
            self.deadline = min(self.deadline, deadline)
        self.work = [([], ())]
        self.stats = Stats()
        self.cexs = []          # {'label','inputs','detail'}
        self.errors = []        # exceptions on symbolic paths {'exc','inputs','tb'}
        self.incomplete = []    # reasons
        self.labels = {}        # label -> discharged count
        self.reached = {}
        self.undecided = []
        self.samples = []

    def push(self, prefix, models=()):
        self.work.append((prefix, models))

    def run(self):
        global CUR
        from vlib.ctx import SymCtx
        t0 = time.monotonic()
        while self.work:
            if self.stats.get('paths', 0) >= self.max_paths:
                self.incomplete.append('path limit: %d prefixes left' % len(self.work))
                break
            if time.monotonic() > self.deadline:
                self.incomplete.append('time limit: %d prefixes left' % len(self.work))
                break
            if sum(not c.get('known') for c in self.cexs) >= self.max_cex:
                self.incomplete.append('stopped after %d counterexamples' % len(self.cexs))
                break
            prefix, models = self.work.pop()
            p = Path(prefix, self, models)
            CUR = p
            ctx = SymCtx(p, self)
            try:
                self.fn(ctx, **self.kwargs)
                if not self.samples or len(self.samples) < 2:
                    try:
                        self.samples.append(p.model_inputs(p.get_model()))
                    except (EngineSignal, z3.Z3Exception):
                        pass
                self.stats.inc('paths')
                self.stats.inc('paths_completed')
            except PathEnd:
                self.stats.inc('paths')
                self.stats.inc('paths_pruned')
            except Budget as ex:
                self.stats.inc('paths')
                self.incomplete.append('budget: %s' % (ex,))
            except Unsupported as ex:
                self.stats.inc('paths')
                self._note_error(p, ex, 'unsupported')
            except EngineSignal:
                raise
            except Exception as ex:
                self.stats.inc('paths')
                self._note_error(p, ex, 'exception')
            except RecursionError as ex:
                self.stats.inc('paths')
                self._note_error(p, ex, 'exception')
            finally:
                CUR = None
            self.stats.inc('decisions', len(p.trace))
            for r in p.reached:
                self.reached[r] = self.reached.get(r, 0) + 1
            if p.unknowns:
                self.incomplete.append('solver unknown at %d branches (both sides followed)' % p.unknowns)
            for n in p.notes:
                if n not in self.incomplete:
                    self.incomplete.append(n)
        self.stats['wall_s'] = time.monotonic() - t0
        return self

    def _note_error(self, p, ex, kind):
        import traceback
        tb = traceback.format_exc(limit=-6)
        try:
            m = p.get_model()
            inputs = p.model_inputs(m)
        except BaseException as ex2:
            inputs = None
        if len(self.errors) < 12:
            self.errors.append({'kind': kind, 'exc': '%s: %s' % (type(ex).__name__, safe_str(ex)[:300]),
                                'inputs': inputs, 'tb': tb[-1500:]})
        self.stats.inc('paths_aborted')
