"""The math module seen by the instrumented code.

Concrete arguments go to the real module.  Symbolic arguments: floor, ceil,
trunc, fabs and radians are exact; sqrt is the non-negative root; cos, sin and
atan2 are uninterpreted functions with the axioms stated below (listed as
assumptions of the checks that use them)."""
import math
import z3

from . import core
from .sym import SymNum, SymBool, Opaque, num, toreal, wrap

pi, tau, e, inf, nan = math.pi, math.tau, math.e, math.inf, math.nan
_cos = z3.Function("cos", z3.RealSort(), z3.RealSort())
_sin = z3.Function("sin", z3.RealSort(), z3.RealSort())
_atan2 = z3.Function("atan2", z3.RealSort(), z3.RealSort(), z3.RealSort())


def _sym(*a):
    return any(isinstance(v, (SymNum, SymBool)) for v in a)


def _canon(x):
    return z3.simplify(toreal(num(x)), som=True)


def _trig(x):
    c = core.CTX
    k = _canon(x)
    key = ("trig", k.get_id())
    if key not in c.memo:
        c.keep.append(k)
        c.memo[key] = 1
        s, t = _sin(k), _cos(k)
        # axioms: the point is on the unit circle, hence within -1..1
        c.assume(z3.And(s >= -1, s <= 1, t >= -1, t <= 1))
        if c.x.nonlinear:
            c.assume(s * s + t * t == 1)
        # zero angle
        c.assume(z3.Implies(k == 0, z3.And(s == 0, t == 1)))
    return k


def cos(x):
    if not _sym(x):
        return x if isinstance(x, Opaque) else math.cos(x)
    return wrap(_cos(_trig(x)))


def sin(x):
    if not _sym(x):
        return x if isinstance(x, Opaque) else math.sin(x)
    return wrap(_sin(_trig(x)))


def atan2(y, x):
    if not _sym(x, y):
        return math.atan2(y, x)
    return wrap(_atan2(_canon(y), _canon(x)))


def radians(x):
    if not _sym(x):
        return math.radians(x)
    return x * (math.pi / 180)


def sqrt(x):
    if not _sym(x):
        return x if isinstance(x, Opaque) else math.sqrt(x)
    c = core.CTX
    k = _canon(x)
    if c.branch(k < 0):
        raise ValueError("math domain error")
    key = ("sqrt", k.get_id())
    if key not in c.memo:
        c.keep.append(k)
        r = c.fresh("sqrt", z3.RealSort())
        c.memo[key] = r
        c.assume(r >= 0)
        if c.x.nonlinear:
            c.assume(r * r == k)
        c.assume(z3.Implies(k == 0, r == 0))
    return wrap(c.memo[key])


def hypot(x, y):
    if not _sym(x, y):
        return math.hypot(x, y)
    return sqrt(x * x + y * y)


def ceil(x):
    return x.__ceil__() if isinstance(x, SymNum) else (x if isinstance(x, (Opaque, SymBool)) else math.ceil(x))


def floor(x):
    return x.__floor__() if isinstance(x, SymNum) else (x if isinstance(x, (Opaque, SymBool)) else math.floor(x))


def trunc(x):
    return x.__trunc__() if isinstance(x, SymNum) else (x if isinstance(x, (Opaque, SymBool)) else math.trunc(x))


def fabs(x):
    return abs(x) if _sym(x) else math.fabs(x)


def __getattr__(n):
    f = getattr(math, n)

    def g(*a):
        if _sym(*a):
            raise core.Unsupported("math." + n)
        return f(*a)

    return g


def adopt(module):
    """replace the math module and its functions in an instrumented module"""
    import sys

    me = sys.modules[__name__]
    for k, v in list(module.__dict__.items()):
        if v is math:
            module.__dict__[k] = me
        elif getattr(v, "__module__", None) == "math" and callable(v) and getattr(math, getattr(v, "__name__", ""), None) is v:
            module.__dict__[k] = getattr(me, v.__name__)
