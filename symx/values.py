"""Symbolic integers, booleans and rationals."""
import math

import z3

from . import core
from .core import Unsupported


def reset_path():
    pass


def is_sym(x):
    return isinstance(x, (SInt, SBool, SReal))


def as_bool_expr(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, SInt):
        return x.e != 0
    return z3.BoolVal(bool(x))


def as_int_expr(x):
    if isinstance(x, SInt):
        return x.e
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, z3.ArithRef):
        return x
    raise TypeError(type(x))


def mk_int(e):
    """SInt or a plain int when the term is a constant."""
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)


def mk_bool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


class SBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return core.ctx().branch(self.e)

    def __and__(self, o):
        if isinstance(o, (SBool, bool)):
            return mk_bool(z3.And(self.e, as_bool_expr(o)))
        return mk_int(as_int_expr(self)) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SBool, bool)):
            return mk_bool(z3.Or(self.e, as_bool_expr(o)))
        return mk_int(as_int_expr(self)) | o

    __ror__ = __or__

    def __xor__(self, o):
        return mk_bool(z3.Xor(self.e, as_bool_expr(o)))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return mk_bool(self.e == as_bool_expr(o))
        if isinstance(o, (int, SInt)):
            return mk_int(as_int_expr(self)) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else mk_bool(z3.Not(r.e))

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def _i(self):
        return mk_int(as_int_expr(self))

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._i() < o

    def __le__(self, o):
        return self._i() <= o

    def __gt__(self, o):
        return self._i() > o

    def __ge__(self, o):
        return self._i() >= o

    def __repr__(self):
        return f'SBool({self.e})'

    def __format__(self, spec):
        return format(bool(self), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _bit_runs(mask):
    runs = []
    i = 0
    while mask >> i:
        if (mask >> i) & 1:
            j = i
            while (mask >> j) & 1:
                j += 1
            runs.append((i, j - i))
            i = j
        else:
            i += 1
    return runs


def _and_const(e, c):
    if c == 0:
        return z3.IntVal(0)
    if c < 0:
        # x & c == x - (x & ~c)
        return e - _and_const(e, ~c)
    parts = []
    for start, length in _bit_runs(c):
        t = e if start == 0 else e / (1 << start)
        parts.append((t % (1 << length)) * (1 << start))
    return z3.Sum(parts) if len(parts) > 1 else parts[0]


def _and_terms(a, b):
    """The bitwise and of two non-negative integer terms of few bits, or None if they are not known to be such."""
    if a.eq(b):
        return a
    c = core.ctx()
    for width in (1, 9, 12, 16):
        if c.entails(z3.And(a >= 0, a < 1 << width, b >= 0, b < 1 << width)):
            return z3.Sum([z3.If(z3.And((a / (1 << k)) % 2 == 1, (b / (1 << k)) % 2 == 1), 1 << k, 0) for k in range(width)])
    return None


class SInt:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    # conversions
    def __bool__(self):
        return core.ctx().branch(self.e != 0)

    def __index__(self):
        return core.ctx().concretize(self.e)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def __repr__(self):
        return f'SInt({self.e})'

    def __str__(self):
        return str(self.__index__())

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic int")

    # arithmetic
    def _bin(self, o, f, rf=None):
        if isinstance(o, (int, SInt, SBool)):
            return mk_int(f(self.e, as_int_expr(o)))
        if isinstance(o, (float, SReal)):
            return None
        return NotImplemented

    def __add__(self, o):
        r = self._bin(o, lambda a, b: a + b)
        return SReal.of(self) + o if r is None else r

    def __radd__(self, o):
        r = self._bin(o, lambda a, b: b + a)
        return SReal.of(self) + o if r is None else r

    def __sub__(self, o):
        r = self._bin(o, lambda a, b: a - b)
        return SReal.of(self) - o if r is None else r

    def __rsub__(self, o):
        r = self._bin(o, lambda a, b: b - a)
        return SReal.of(o) - self if r is None else r

    def __mul__(self, o):
        if isinstance(o, (int, SInt, SBool)):
            return mk_int(self.e * as_int_expr(o))
        if isinstance(o, (float, SReal)):
            return SReal.of(self) * o
        if isinstance(o, (bytes, bytearray)):
            from .data import repeat_bytes

            return repeat_bytes(bytes(o), self)
        if isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        if hasattr(o, '__symx_repeat__'):
            return o.__symx_repeat__(self)
        return NotImplemented

    __rmul__ = __mul__

    @staticmethod
    def _divmod(a, b):
        """a, b: int/SInt; Python floor semantics; returns (q, r) exprs."""
        if isinstance(b, SBool):
            b = b._i()
        if isinstance(b, SInt):
            c = core.ctx()
            if c.branch(b.e == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            pos = c.branch(b.e > 0)
        else:
            if b == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            pos = b > 0
        ae, be = as_int_expr(a), as_int_expr(b)
        if pos:
            return ae / be, ae % be
        return (-ae) / (-be), -((-ae) % (-be))

    def __floordiv__(self, o):
        if isinstance(o, (int, SInt, SBool)):
            return mk_int(self._divmod(self, o)[0])
        if isinstance(o, (float, SReal)):
            return SReal.of(self) // o
        return NotImplemented

    def __rfloordiv__(self, o):
        if isinstance(o, (int, SInt)):
            return mk_int(self._divmod(o, self)[0])
        return NotImplemented

    def __mod__(self, o):
        if isinstance(o, (int, SInt, SBool)):
            return mk_int(self._divmod(self, o)[1])
        return NotImplemented

    def __rmod__(self, o):
        if isinstance(o, (int, SInt)):
            return mk_int(self._divmod(o, self)[1])
        return NotImplemented

    def __divmod__(self, o):
        q, r = self._divmod(self, o)
        return mk_int(q), mk_int(r)

    def __rdivmod__(self, o):
        q, r = self._divmod(o, self)
        return mk_int(q), mk_int(r)

    def __truediv__(self, o):
        return SReal.of(self) / o

    def __rtruediv__(self, o):
        return SReal.of(o) / self

    def __pow__(self, o, mod=None):
        if isinstance(o, int) and 0 <= o <= 4 and mod is None:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return pow(self.__index__(), o, mod)

    def __rpow__(self, o):
        return o ** self.__index__()

    def __neg__(self):
        return mk_int(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk_int(z3.If(self.e >= 0, self.e, -self.e))

    def __invert__(self):
        return mk_int(-self.e - 1)

    # bits
    def __and__(self, o):
        if isinstance(o, (bool, int)):
            return mk_int(_and_const(self.e, int(o)))
        if isinstance(o, SInt):
            t = _and_terms(self.e, o.e)
            return self & as_concrete(o) if t is None else mk_int(t)
        if isinstance(o, SBool):
            return self & as_concrete(o)
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, int)):
            o = int(o)
            return mk_int(self.e + o - _and_const(self.e, o))
        if isinstance(o, SInt):
            t = _and_terms(self.e, o.e)
            return self | as_concrete(o) if t is None else mk_int(self.e + o.e - t)
        if isinstance(o, SBool):
            return self | as_concrete(o)
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, int)):
            o = int(o)
            return mk_int(self.e + o - 2 * _and_const(self.e, o))
        if isinstance(o, SInt):
            t = _and_terms(self.e, o.e)
            return self ^ as_concrete(o) if t is None else mk_int(self.e + o.e - 2 * t)
        if isinstance(o, SBool):
            return self ^ as_concrete(o)
        return NotImplemented

    __rxor__ = __xor__

    def __lshift__(self, o):
        return mk_int(self.e * (1 << as_concrete(o)))

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        return mk_int(self.e / (1 << as_concrete(o)))

    def __rrshift__(self, o):
        return o >> self.__index__()

    # comparisons
    def _cmp(self, o, f):
        if isinstance(o, (int, SInt, SBool)):
            return mk_bool(f(self.e, as_int_expr(o)))
        if isinstance(o, float):
            if math.isinf(o):
                return mk_bool(z3.simplify(f(z3.RealVal(0), z3.RealVal(1 if o > 0 else -1))))
            return mk_bool(f(z3.ToReal(self.e), _real_val(o)))
        if isinstance(o, SReal):
            return mk_bool(f(z3.ToReal(self.e), o.e))
        return NotImplemented

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented and not hasattr(o, '__symx__') else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented and not hasattr(o, '__symx__') else r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    # rounding protocol, used by math.ceil and friends
    def __ceil__(self):
        return self

    def __floor__(self):
        return self

    def __trunc__(self):
        return self

    def __round__(self, n=None):
        return self

    def bit_length(self):
        return self.__index__().bit_length()

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        from .data import SBytes

        n = as_concrete(length)
        if core.ctx().branch(z3.Or(self.e < 0, self.e >= 256**n)):
            raise OverflowError("int too big to convert")
        parts = [mk_int(self.e / (256**i) % 256) for i in range(n)]
        if byteorder == 'big':
            parts.reverse()
        return SBytes.from_ints(parts)

    @property
    def real(self):
        return self

    def is_integer(self):
        return True


def _real_val(x):
    if isinstance(x, int):
        return z3.RealVal(x)
    n, d = float(x).as_integer_ratio()
    return z3.Q(n, d) if d != 1 else z3.RealVal(n)


class SReal:
    """Exact rational stand-in for a float; the difference to IEEE rounding is outside every claim."""

    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def of(x):
        if isinstance(x, SReal):
            return x
        if isinstance(x, (SInt, SBool)):
            return SReal(z3.ToReal(as_int_expr(x)))
        return SReal(_real_val(x))

    @staticmethod
    def _ok(o):
        return isinstance(o, (int, float, SInt, SBool, SReal))

    def _b(self, o, f):
        if not self._ok(o):
            return NotImplemented
        return SReal(z3.simplify(f(self.e, SReal.of(o).e)))

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        d = SReal.of(o)
        if core.ctx().branch(d.e == 0):
            raise ZeroDivisionError("division by zero")
        return self._b(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return SReal.of(o).__truediv__(self)

    def __floordiv__(self, o):
        return SReal.of(self.__truediv__(o).__floor__())

    def __neg__(self):
        return SReal(-self.e)

    def __abs__(self):
        return SReal(z3.If(self.e >= 0, self.e, -self.e))

    def _c(self, o, f):
        if not self._ok(o):
            return NotImplemented
        if isinstance(o, float) and math.isinf(o):
            return mk_bool(z3.simplify(f(z3.RealVal(0), z3.RealVal(1 if o > 0 else -1))))
        return mk_bool(f(self.e, SReal.of(o).e))

    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._c(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __bool__(self):
        return core.ctx().branch(self.e != 0)

    def __hash__(self):
        raise Unsupported("hash of a symbolic float")

    def __floor__(self):
        return mk_int(z3.ToInt(self.e))

    def __ceil__(self):
        return mk_int(-z3.ToInt(-self.e))

    def __trunc__(self):
        return mk_int(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def __int__(self):
        return as_concrete(self.__trunc__())

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported("round(x, n)")
        f = z3.ToInt(self.e)
        d = self.e - z3.ToReal(f)
        half = z3.Q(1, 2)
        return mk_int(z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))))

    def __repr__(self):
        return f'SReal({self.e})'

    def __format__(self, spec):
        return '<real>'

    def is_integer(self):
        return mk_bool(z3.IsInt(self.e))

    def __deepcopy__(self, memo):
        return self


def as_concrete(x):
    """Python int for an int or SInt (forking over the feasible values)."""
    if isinstance(x, (SInt, SBool)):
        return x.__index__()
    return x


def ite(c, a, b):
    """If-then-else without forking, for ints."""
    if isinstance(c, bool):
        return a if c else b
    return mk_int(z3.If(as_bool_expr(c), as_int_expr(a), as_int_expr(b)))


def s_and(*xs):
    if all(isinstance(x, bool) for x in xs):
        return all(xs)
    return mk_bool(z3.And(*[as_bool_expr(x) for x in xs]))


def s_or(*xs):
    if all(isinstance(x, bool) for x in xs):
        return any(xs)
    return mk_bool(z3.Or(*[as_bool_expr(x) for x in xs]))


def s_not(x):
    if isinstance(x, bool):
        return not x
    return mk_bool(z3.Not(as_bool_expr(x)))


def s_implies(a, b):
    return s_or(s_not(a), b)


def s_min(a, b):
    return ite(a <= b, a, b)


def s_max(a, b):
    return ite(a >= b, a, b)
