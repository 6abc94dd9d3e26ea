"""Symbolic values that flow through the real code.

SInt / SReal / SBool stand for Python int / float / bool.  Floats are modelled
as mathematical reals, except SFP which is an IEEE double (comparisons and
negation, used for the comparison kernels).  Truth tests ask the engine.
"""
import math
import numbers
from fractions import Fraction

import numpy as np
import z3

from . import core

INF = float("inf")


class Mismatch(Exception):
    pass


def is_sym(x):
    return type(x) in (SInt, SReal, SBool, SFP)


def real_expr(x):
    t = type(x)
    if t is SReal:
        return x.e
    if t is SInt:
        return z3.ToReal(x.e)
    if t is SBool:
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, np.ndarray) and x.shape == ():
        return real_expr(x.item())
    if isinstance(x, (bool, np.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, (float, np.floating)):
        f = Fraction(float(x))
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    if isinstance(x, Fraction):
        return z3.RealVal(f"{x.numerator}/{x.denominator}")
    raise Mismatch()


def int_expr(x):
    t = type(x)
    if t is SInt:
        return x.e
    if t is SBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, np.bool_, int, np.integer)):
        return z3.IntVal(int(x))
    raise Mismatch()


def to_z3bool(c):
    """bool | z3 Bool of a condition (never forks)."""
    if type(c) is SBool:
        e = z3.simplify(c.e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return e
    if isinstance(c, (bool, np.bool_)):
        return bool(c)
    if isinstance(c, z3.BoolRef):
        return to_z3bool(SBool(c))
    if type(c) in (SInt, SReal):
        return to_z3bool(c != 0)
    if isinstance(c, np.ndarray) and c.shape == ():
        return to_z3bool(c.item())
    return bool(c)


def _kind(x):
    """'i' / 'r' / 'inf' / None for an operand."""
    t = type(x)
    if t in (SInt, SBool):
        return "i"
    if t is SReal:
        return "r"
    if isinstance(x, (bool, int, np.integer, np.bool_)):
        return "i"
    if isinstance(x, (float, np.floating)):
        if x != x:
            return "nan"
        if x in (INF, -INF):
            return "inf"
        return "r"
    if isinstance(x, Fraction):
        return "r"
    return None


def _wrap(e):
    return SInt(e) if z3.is_int(e) else SReal(e)


class _Num:
    __slots__ = ("e",)

    def __init__(self, e):
        object.__setattr__(self, "e", e)

    # copies keep identity: the value is immutable
    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce_ex__(self, proto):
        return _unpickle, (_register(self),)

    def __repr__(self):
        return f"<{self.e}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __bool__(self):
        return core.cur().branch(self.e != 0)

    # ---- arithmetic
    def _bin(self, o, f, swap=False):
        k = _kind(o)
        if k is None:
            return NotImplemented
        if k in ("inf", "nan"):
            return _inf_arith(self, o, f, swap)
        if type(self) is SInt and k == "i":
            a, b = self.e, int_expr(o)
        else:
            a, b = real_expr(self), real_expr(o)
        if swap:
            a, b = b, a
        return _wrap(f(a, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (list, str, tuple, bytes)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (list, str, tuple, bytes)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b, True)

    def __neg__(self):
        return _wrap(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return _wrap(z3.If(self.e >= 0, self.e, -self.e))

    def _div(self, a, b):
        """a / b over the reals (z3 terms)."""
        ctx = core.cur()
        if ctx is None:
            return SReal(a / b)
        if z3.is_rational_value(z3.simplify(b)):
            if z3.simplify(b).as_fraction() == 0:
                return self._zero_div()
            return SReal(a / b)
        if ctx.branch(b == 0):
            return self._zero_div()
        return SReal(a / b)

    def _zero_div(self):
        ctx = core.cur()
        if ctx.flags.get("div0") == "numpy":
            # numpy yields inf/nan here: an arbitrary value
            return ctx.real("div0")
        raise ZeroDivisionError("division by zero")

    def __truediv__(self, o):
        k = _kind(o)
        if k is None:
            return NotImplemented
        if k == "inf":
            return 0.0
        if k == "nan":
            return o
        return self._div(real_expr(self), real_expr(o))

    def __rtruediv__(self, o):
        k = _kind(o)
        if k is None:
            return NotImplemented
        if k in ("inf", "nan"):
            return o
        return self._div(real_expr(o), real_expr(self))

    def _floordiv(self, a, b):
        ctx = core.cur()
        if ctx.branch(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if z3.is_int(a) and z3.is_int(b):
            # z3 div rounds so that the remainder is non-negative
            q = z3.If(b > 0, a / b, (-a) / (-b))
            return q
        return z3.ToInt(z3.ToReal(a) / b if z3.is_int(a) else a / (
            z3.ToReal(b) if z3.is_int(b) else b))

    def _fd(self, o, swap, mod):
        k = _kind(o)
        if k is None or k in ("inf", "nan"):
            return NotImplemented
        ii = type(self) is SInt and k == "i"
        a, b = (self.e, int_expr(o)) if ii else (real_expr(self),
                                                 real_expr(o))
        if swap:
            a, b = b, a
        q = self._floordiv(a, b)
        if mod:
            return _wrap(a - b * (q if ii else z3.ToReal(q)))
        return SInt(q) if ii else SReal(z3.ToReal(q))

    def __floordiv__(self, o):
        return self._fd(o, False, False)

    def __rfloordiv__(self, o):
        return self._fd(o, True, False)

    def __mod__(self, o):
        return self._fd(o, False, True)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return self._fd(o, True, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        if isinstance(o, (int, np.integer)) and 0 <= o <= 6:
            r = 1
            for _ in range(int(o)):
                r = self * r
            return r
        if isinstance(o, float) and o == 2.0:
            return self * self
        if isinstance(o, float) and o == 0.5:
            return self.sqrt()
        return SReal(_uf("pow", 2)(real_expr(self), real_expr(o)))

    def __rpow__(self, o):
        return SReal(_uf("pow", 2)(real_expr(o), real_expr(self)))

    # ---- comparisons
    def _cmp(self, o, f, inf):
        k = _kind(o)
        if k is None:
            return NotImplemented
        if k == "nan":
            return False
        if k == "inf":
            return inf(0.0, o)
        if type(self) is SInt and k == "i":
            return SBool(f(self.e, int_expr(o)))
        return SBool(f(real_expr(self), real_expr(o)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __eq__(self, o):
        if self is o:
            return True
        r = self._cmp(o, lambda a, b: a == b, lambda a, b: False)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        if self is o:
            return False
        r = self._cmp(o, lambda a, b: a != b, lambda a, b: True)
        return True if r is NotImplemented else r

    # ---- conversions
    def __floor__(self):
        return self if type(self) is SInt else SInt(z3.ToInt(self.e))

    def __ceil__(self):
        return self if type(self) is SInt else SInt(-z3.ToInt(-self.e))

    def __trunc__(self):
        if type(self) is SInt:
            return self
        return SInt(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def __round__(self, nd=None):
        if type(self) is SInt:
            return self
        if nd is not None:
            s = 10 ** nd
            return SReal(z3.ToReal(round(self * s).e) / s)
        f = z3.ToInt(self.e)
        frac = self.e - z3.ToReal(f)
        half = z3.RealVal("1/2")
        return SInt(z3.If(frac < half, f, z3.If(
            frac > half, f + 1, z3.If(f % 2 == 0, f, f + 1))))

    def __int__(self):
        t = self.__trunc__()
        return core.cur().concretize(t.e)

    def __float__(self):
        return core.cur().realise(real_expr(self))

    def __complex__(self):
        return complex(float(self))

    # ---- numpy scalar / object-array protocol
    def item(self):
        return self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def shape(self):
        return ()

    ndim = 0

    def astype(self, t):
        return self

    def is_integer(self):
        return True if type(self) is SInt else SBool(z3.IsInt(self.e))

    def sqrt(self):
        ctx = core.cur()
        r = _uf("sqrt", 1)(real_expr(self))
        ctx.add(z3.Implies(real_expr(self) >= 0,
                           z3.And(r >= 0, r * r == real_expr(self))))
        return SReal(r)

    def log(self):
        return SReal(_uf("log", 1)(real_expr(self)))

    def exp(self):
        r = _uf("exp", 1)(real_expr(self))
        core.cur().add(r > 0)
        return SReal(r)

    def sin(self):
        return SReal(_uf("sin", 1)(real_expr(self)))

    def cos(self):
        return SReal(_uf("cos", 1)(real_expr(self)))

    def tan(self):
        return SReal(_uf("tan", 1)(real_expr(self)))

    def logical_not(self):
        return lnot(self != 0)

    def rint(self):
        return round(self)

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def isinf(self):
        return False


_UF = {}


def _uf(name, n):
    if (name, n) not in _UF:
        _UF[name, n] = z3.Function("uf_" + name,
                                   *([z3.RealSort()] * (n + 1)))
    return _UF[name, n]


def _inf_arith(x, o, f, swap):
    a, b = (o, 1.0) if swap else (1.0, o)
    try:
        return f(a, b)
    except Exception:
        return float("nan")


class SInt(_Num):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def __hash__(self):
        return 99991

    def __index__(self):
        return core.cur().concretize(self.e)

    def bit_length(self):
        return self.__index__().bit_length()

    def __and__(self, o):
        if type(o) is SBool:
            return SBool(z3.And(self.e != 0, o.e))
        if type(o) is SInt or isinstance(o, int):
            return SInt(_bitop(self.e, int_expr(o), "and"))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if type(o) is SInt or isinstance(o, int):
            return SInt(_bitop(self.e, int_expr(o), "or"))
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if type(o) is SInt or isinstance(o, int):
            return SInt(_bitop(self.e, int_expr(o), "xor"))
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return SInt(-self.e - 1)

    def __lshift__(self, n):
        return self * (2 ** n)

    def __rshift__(self, n):
        return self // (2 ** n)


def _bitop(a, b, op, w=16):
    """Bitwise operation on values known to fit w bits, two's complement."""
    ctx = core.cur()
    x, y = z3.Int2BV(a, w), z3.Int2BV(b, w)
    lim = 2 ** (w - 1)
    ctx.assume(z3.And(a >= -lim, a < lim, b >= -lim, b < lim))
    r = {"and": x & y, "or": x | y, "xor": x ^ y}[op]
    return z3.BV2Int(r, is_signed=True)


class SReal(_Num):
    __slots__ = ()

    @property
    def __class__(self):
        return float

    def __hash__(self):
        return 99989

    def as_integer_ratio(self):
        return float(self).as_integer_ratio()


class SBool(_Num):
    __slots__ = ()

    @property
    def __class__(self):
        return bool

    def __hash__(self):
        return hash(bool(self))

    def __bool__(self):
        return core.cur().branch(self.e)

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def _n(self):
        return SInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def _bin(self, o, f, swap=False):
        return self._n()._bin(o._n() if type(o) is SBool else o, f, swap)

    def _cmp(self, o, f, inf):
        return self._n()._cmp(o._n() if type(o) is SBool else o, f, inf)

    def __eq__(self, o):
        if type(o) is SBool:
            return SBool(self.e == o.e)
        if isinstance(o, (bool, np.bool_)):
            return SBool(self.e) if o else SBool(z3.Not(self.e))
        return self._n() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return SBool(z3.Not(r.e)) if type(r) is SBool else not r

    def __and__(self, o):
        if type(o) is SBool or isinstance(o, (bool, np.bool_)):
            return land(self, o)
        return self._n() & o

    __rand__ = __and__

    def __or__(self, o):
        if type(o) is SBool or isinstance(o, (bool, np.bool_)):
            return lor(self, o)
        return self._n() | o

    __ror__ = __or__

    def __xor__(self, o):
        if type(o) is SBool or isinstance(o, (bool, np.bool_)):
            return self != o
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        # numpy's bool semantics (~True == False), the only ones used here
        return lnot(self)

    def __neg__(self):
        return -self._n()

    def __abs__(self):
        return self._n()

    def __trunc__(self):
        return self._n()

    __floor__ = __ceil__ = __trunc__

    def __round__(self, nd=None):
        return self._n()

    def logical_not(self):
        return lnot(self)

    def astype(self, t):
        return self._n() if t in (int, float) else self


class SFP:
    """An IEEE double: comparisons, negation, abs, + - * (RNE)."""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return float

    def __hash__(self):
        return 99971

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return f"<fp {self.e}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    @staticmethod
    def _co(o):
        if type(o) is SFP:
            return o.e
        if isinstance(o, (bool, int, float, np.floating, np.integer)):
            return z3.FPVal(float(o), z3.Float64())
        return None

    def _b(self, o, f):
        x = self._co(o)
        return NotImplemented if x is None else f(self.e, x)

    def __lt__(self, o):
        return self._b(o, lambda a, b: SBool(z3.fpLT(a, b)))

    def __le__(self, o):
        return self._b(o, lambda a, b: SBool(z3.fpLEQ(a, b)))

    def __gt__(self, o):
        return self._b(o, lambda a, b: SBool(z3.fpGT(a, b)))

    def __ge__(self, o):
        return self._b(o, lambda a, b: SBool(z3.fpGEQ(a, b)))

    def __eq__(self, o):
        r = self._b(o, lambda a, b: SBool(z3.fpEQ(a, b)))
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self.__eq__(o)
        return lnot(r)

    def __bool__(self):
        return core.cur().branch(z3.Not(z3.fpIsZero(self.e)))

    def __neg__(self):
        return SFP(z3.fpNeg(self.e))

    def __abs__(self):
        return SFP(z3.fpAbs(self.e))

    def __add__(self, o):
        return self._b(o, lambda a, b: SFP(z3.fpAdd(z3.RNE(), a, b)))

    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: SFP(z3.fpSub(z3.RNE(), a, b)))

    def __rsub__(self, o):
        return self._b(o, lambda a, b: SFP(z3.fpSub(z3.RNE(), b, a)))

    def __mul__(self, o):
        return self._b(o, lambda a, b: SFP(z3.fpMul(z3.RNE(), a, b)))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._b(o, lambda a, b: SFP(z3.fpDiv(z3.RNE(), a, b)))

    def __rtruediv__(self, o):
        return self._b(o, lambda a, b: SFP(z3.fpDiv(z3.RNE(), b, a)))

    def __float__(self):
        ctx = core.cur()
        ctx.note_incomplete("double concretised")
        m = ctx._ensure_model()
        v = core._fp(m.eval(self.e, model_completion=True))
        return float(v) if v in ("inf", "-inf", "nan") else float.fromhex(v)

    def isnan(self):
        return SBool(z3.fpIsNaN(self.e))

    def sqrt(self):
        return SFP(z3.fpSqrt(z3.RNE(), self.e))

    def square(self):
        return self * self

    def item(self):
        return self

    def astype(self, t):
        return self

    @property
    def shape(self):
        return ()

    ndim = 0


for _c in (SInt, SReal, SBool, SFP):
    numbers.Number.register(_c)
numbers.Integral.register(SInt)
numbers.Real.register(SReal)


# ------------------------------------------------- pickling of proxies
_REG = {}


def _register(x):
    _REG[id(x)] = x
    return id(x)


def _unpickle(k):
    return _REG[k]


# ------------------------------------------------- logic without forking
def land(*xs):
    es = []
    for x in xs:
        c = to_z3bool(x)
        if c is False:
            return False
        if c is not True:
            es.append(c)
    if es:
        return SBool(z3.And(es))
    # keep "decided by the simplifier" apart from "never was symbolic"
    return SBool(z3.BoolVal(True)) if any(map(is_sym, xs)) else True


def lor(*xs):
    es = []
    for x in xs:
        c = to_z3bool(x)
        if c is True:
            return True
        if c is not False:
            es.append(c)
    return SBool(z3.Or(es)) if es else False


def lnot(x):
    c = to_z3bool(x)
    return (not c) if isinstance(c, bool) else SBool(z3.Not(c))


def ite(c, a, b):
    c = to_z3bool(c)
    if c is True:
        return a
    if c is False:
        return b
    if _kind(a) == "i" and _kind(b) == "i":
        return SInt(z3.If(c, int_expr(a), int_expr(b)))
    if type(a) is SFP or type(b) is SFP:
        return SFP(z3.If(c, SFP._co(a), SFP._co(b)))
    return SReal(z3.If(c, real_expr(a), real_expr(b)))
