"""Condition helpers that work on symbolic and on native values alike and
never fork the path."""
import math

from . import core

try:
    from . import proxies as P
except ImportError:
    P = None


def _sym(*xs):
    return P is not None and any(P.is_sym(x) for x in xs)


def is_sym(x):
    return _sym(x)


def is_sbool(x):
    return P is not None and isinstance(x, P.SBool)


def land(*xs):
    if _sym(*xs):
        return P.land(*xs)
    return all(bool(x) for x in xs)


def lor(*xs):
    if _sym(*xs):
        return P.lor(*xs)
    return any(bool(x) for x in xs)


def lnot(x):
    return P.lnot(x) if _sym(x) else not bool(x)


def implies(a, b):
    return lor(lnot(a), b)


def iff(a, b):
    return land(implies(a, b), implies(b, a))


def ite(c, a, b):
    return P.ite(c, a, b) if _sym(c) else (a if c else b)


def eq(a, b):
    """Structural equality."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return land(*[eq(x, y) for x, y in zip(a, b)])
    if a is b:
        return True
    return a == b


def close(a, b, tol=1e-9):
    """Exact over the reals; up to rounding on native floats."""
    if _sym(a, b):
        return a == b
    a, b = float(a), float(b)
    if a == b:
        return True
    return math.isclose(a, b, rel_tol=tol, abs_tol=tol)


def count(conds):
    """Number of true conditions, as a (symbolic) integer."""
    tot = 0
    for c in conds:
        tot = tot + ite(c, 1, 0)
    return tot


def between(lo, x, hi):
    return land(lo <= x, x <= hi)


def better(a, b, higher):
    return a > b if higher else a < b


def no_worse(a, b, higher):
    return a >= b if higher else a <= b
