"""Symbolic values.

SymNum wraps a z3 Int or Real term, SymBool a z3 Bool.  Python integers are
mathematical integers (exact); Python floats are modelled as reals (listed as
an assumption in the evidence).  Truth tests of symbolic booleans ask the
current execution context, which explores both outcomes.
"""
import math
from fractions import Fraction
import z3

from . import core


def ctx():
    return core.CTX


def is_sym(v):
    return isinstance(v, (SymNum, SymBool))


_INTS = {}  # the terms of small numbers


def num(v):
    """z3 term of a python number / SymNum / bool, or None."""
    if isinstance(v, SymNum):
        return v.e
    if isinstance(v, SymBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        e = _INTS.get(v)
        if e is None:
            e = z3.IntVal(v)
            if -4096 <= v <= 4096:
                _INTS[v] = e
        return e
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            return None
        f = Fraction(v)
        # decimal literal view: 0.33 means 33/100 when repr round trips
        return z3.RealVal(str(f.numerator) + "/" + str(f.denominator))
    if isinstance(v, Fraction):
        return z3.RealVal(str(v.numerator) + "/" + str(v.denominator))
    if isinstance(v, z3.ArithRef):
        return v
    return None


def wrap(e):
    """Wrap a z3 term, folding constants back to Python values."""
    e = z3.simplify(e)
    s = e.sort()
    if s == z3.BoolSort():
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SymBool(e)
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        try:
            g = float(f)
        except OverflowError:
            return SymNum(e)
        if Fraction(g) == f:
            return g
        return SymNum(e)
    return SymNum(e)


def toreal(e):
    return z3.ToReal(e) if e.sort() == z3.IntSort() else e


def pair(a, b):
    ea, eb = num(a), num(b)
    if ea is None or eb is None:
        return None
    if ea.sort() != eb.sort():
        ea, eb = toreal(ea), toreal(eb)
    return ea, eb


def lit(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    return None


class SymBool(object):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().branch(self.e)

    def asnum(self):
        return SymNum(num(self))

    def __repr__(self):
        return "SymBool(%s)" % self.e

    def __hash__(self):
        return hash(bool(self))

    def __invert__(self):
        return ~self.asnum()

    def __index__(self):
        return int(bool(self))

    def __and__(self, o):
        if isinstance(o, bool):
            return self if o else False
        if isinstance(o, SymBool):
            return wrap(z3.And(self.e, o.e))
        return self.asnum() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return True if o else self
        if isinstance(o, SymBool):
            return wrap(z3.Or(self.e, o.e))
        return self.asnum() | o

    __ror__ = __or__

    def __eq__(self, o):
        if isinstance(o, bool):
            return self if o else wrap(z3.Not(self.e))
        if isinstance(o, SymBool):
            return wrap(self.e == o.e)
        return self.asnum() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else wrap(z3.Not(r.e))


def _sb(name, rname=None):
    def f(self, o):
        return getattr(self.asnum(), name)(o)

    return f


for _n in (
    "__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __truediv__ __rtruediv__ "
    "__floordiv__ __rfloordiv__ __mod__ __lt__ __le__ __gt__ __ge__ __lshift__ __rshift__ __xor__"
).split():
    setattr(SymBool, _n, _sb(_n))


class SymNum(object):
    __slots__ = ("e", "tz")

    def __init__(self, e, tz=0):
        self.e = e
        self.tz = tz  # known number of trailing zero bits (ints)

    # -- kind
    def is_int(self):
        return self.e.sort() == z3.IntSort()

    def __repr__(self):
        return "Sym(%s)" % self.e

    def __hash__(self):
        v = ctx().unique_value(self.e)
        if v is None:
            raise core.Unsupported("hash of a symbolic number")
        return hash(v)

    def __bool__(self):
        return ctx().branch(self.e != 0)

    def __index__(self):
        if not self.is_int():
            raise TypeError("'float' object cannot be interpreted as an integer")
        return ctx().enumerate_value(self.e)

    def __int__(self):
        return ctx().enumerate_value(num(to_int(self)))

    def __float__(self):
        raise core.Unsupported("concrete float() of a symbolic number")

    def __format__(self, spec):
        return ctx().placeholder(self, spec)

    def __str__(self):
        return ctx().placeholder(self, "")

    # -- arithmetic
    def _bin(self, o, f):
        p = pair(self, o)
        if p is None:
            return None
        return wrap(f(*p))

    def __add__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return o
        r = self._bin(o, lambda a, b: a + b)
        return NotImplemented if r is None else r

    def __radd__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return o
        r = self._bin(o, lambda a, b: b + a)
        return NotImplemented if r is None else r

    def __sub__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return -o
        r = self._bin(o, lambda a, b: a - b)
        return NotImplemented if r is None else r

    def __rsub__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return o
        r = self._bin(o, lambda a, b: b - a)
        return NotImplemented if r is None else r

    def __mul__(self, o):
        if isinstance(o, list):
            from .runtime import list_times

            return list_times(o, self)
        if not isinstance(o, (int, float, SymNum, SymBool)):
            return NotImplemented
        r = self._bin(o, lambda a, b: a * b)
        if r is None:
            raise core.Unsupported("multiplication by inf")
        return r

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return 0.0
        p = pair(self, o)
        if p is None:
            return NotImplemented
        if (wrap(p[1] == 0) is True) or (
            wrap(p[1] == 0) is not False and ctx().branch(p[1] == 0)
        ):
            raise ZeroDivisionError("division by zero")
        return quotient(p[0], p[1])

    def __rtruediv__(self, o):
        p = pair(o, self)
        if p is None:
            return NotImplemented
        if ctx().branch(p[1] == 0):
            raise ZeroDivisionError("division by zero")
        return quotient(p[0], p[1])

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        return mod(self, o)

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return NotImplemented
        return mod(o, self)

    def __divmod__(self, o):
        return floordiv(self, o), mod(self, o)

    def __neg__(self):
        return wrap(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, o, m=None):
        if isinstance(o, int) and 0 <= o <= 6:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        raise core.Unsupported("power")

    def __round__(self, nd=None):
        return round_(self, nd)

    def __floor__(self):
        if self.is_int():
            return self
        return wrap(z3.ToInt(self.e))

    def __ceil__(self):
        if self.is_int():
            return self
        return wrap(-z3.ToInt(-self.e))

    def __trunc__(self):
        return to_int(self)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def is_integer(self):
        if self.is_int():
            return True
        return wrap(z3.IsInt(self.e))

    # -- comparison
    def _cmp(self, o, f, inf):
        if isinstance(o, float) and math.isinf(o):
            return inf(0.0, o)
        p = pair(self, o)
        if p is None:
            return None
        return wrap(f(*p))

    def __lt__(self, o):
        r = self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)
        return NotImplemented if r is None else r

    def __le__(self, o):
        r = self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)
        return NotImplemented if r is None else r

    def __gt__(self, o):
        r = self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)
        return NotImplemented if r is None else r

    def __ge__(self, o):
        r = self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)
        return NotImplemented if r is None else r

    def __eq__(self, o):
        if isinstance(o, Opaque):
            return Opaque("cmp")
        r = self._cmp(o, lambda a, b: a == b, lambda a, b: False)
        return False if r is None else r

    def __ne__(self, o):
        if isinstance(o, Opaque):
            return Opaque("cmp")
        r = self._cmp(o, lambda a, b: a != b, lambda a, b: True)
        return True if r is None else r

    # -- bits
    def _need_int(self):
        if not self.is_int():
            raise TypeError("unsupported operand type(s) for bit operation: 'float'")

    def __and__(self, o):
        self._need_int()
        c = lit(o)
        if c is not None:
            return and_const(self.e, c)
        if isinstance(o, (SymNum, SymBool)):
            return bitop(self, o, "and")
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        self._need_int()
        c = lit(o)
        if c is not None:
            a = and_const(self.e, c)
            return wrap(self.e + c - num(a))
        if isinstance(o, (SymNum, SymBool)):
            return bitop(self, o, "or")
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        self._need_int()
        c = lit(o)
        if c is not None:
            a = and_const(self.e, c)
            return wrap(self.e + c - 2 * num(a))
        if isinstance(o, (SymNum, SymBool)):
            return bitop(self, o, "xor")
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        self._need_int()
        return wrap(-self.e - 1)

    def __lshift__(self, o):
        self._need_int()
        c = lit(o)
        if c is None:
            c = o.__index__()
        r = wrap(self.e * (1 << c))
        if isinstance(r, SymNum):
            r.tz = self.tz + c
        return r

    def __rshift__(self, o):
        self._need_int()
        c = lit(o)
        if c is None:
            c = o.__index__()
        return wrap(self.e / z3.IntVal(1 << c))

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rrshift__(self, o):
        return o >> self.__index__()


def and_const(e, c):
    """e & c for an arbitrary-precision two's complement integer e."""
    if c == 0:
        return 0
    if c == -1:
        return wrap(e)
    if c < 0:
        # e & c == e - (e & ~c)
        r = and_const(e, ~c)
        return wrap(e - num(r))
    total = None
    k = 0
    while c >> k:
        if (c >> k) & 1:
            j = k
            while (c >> j) & 1:
                j += 1
            part = (e / z3.IntVal(1 << k)) if k else e
            part = (part % z3.IntVal(1 << (j - k))) * (1 << k)
            total = part if total is None else total + part
            k = j
        else:
            k += 1
    return wrap(total)


def bitop(a, b, op):
    ea, eb = num(a), num(b)
    ta = a.tz if isinstance(a, SymNum) else 0
    tb = b.tz if isinstance(b, SymNum) else 0
    if op in ("or", "xor"):
        for x, t, y in ((ea, ta, eb), (eb, tb, ea)):
            if t > 0 and ctx().valid(z3.And(y >= 0, y < (1 << t))):
                return wrap(x + y)
    if op == "and":
        for x, t, y in ((ea, ta, eb), (eb, tb, ea)):
            if t > 0 and ctx().valid(z3.And(y >= 0, y < (1 << t))):
                return 0
    for bits in (8, 16, 32):
        if ctx().valid(z3.And(ea >= 0, ea < (1 << bits), eb >= 0, eb < (1 << bits))):
            total = z3.IntVal(0)
            for k in range(bits):
                p = ((ea / z3.IntVal(1 << k)) % 2) == 1
                q = ((eb / z3.IntVal(1 << k)) % 2) == 1
                c = z3.And(p, q) if op == "and" else (z3.Or(p, q) if op == "or" else z3.Xor(p, q))
                total = total + z3.If(c, z3.IntVal(1 << k), z3.IntVal(0))
            return wrap(total)
    raise core.Unsupported("bit operation on unbounded symbolic integers")


def floordiv(a, b):
    p = pair(a, b)
    if p is None:
        raise core.Unsupported("floordiv")
    x, y = p
    if ctx().branch(y == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    if x.sort() == z3.IntSort():
        c = lit(b)
        if c is not None:
            return wrap(x / y if c > 0 else (-x) / (-y))
        return wrap(z3.If(y > 0, x / y, (-x) / (-y)))
    return wrap(z3.ToReal(z3.ToInt(x / y)))


def mod(a, b):
    if isinstance(b, Opaque) or isinstance(a, Opaque):
        return Opaque("mod")
    p = pair(a, b)
    if p is None:
        raise core.Unsupported("mod")
    x, y = p
    if ctx().branch(y == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    if x.sort() == z3.IntSort():
        c = lit(b)
        if c is not None and c > 0:
            return wrap(z3.simplify(x % y))
        return wrap(z3.If(y > 0, x % y, -((-x) % (-y))))
    return wrap(x - y * z3.ToReal(z3.ToInt(x / y)))


def quotient(a, b):
    """a / b for b != 0: linear when b is a literal, else named q with q*b == a"""
    a, b = z3.simplify(toreal(a)), z3.simplify(toreal(b))
    if z3.is_rational_value(b):
        return wrap(a / b)
    c = ctx()
    key = ("quot", a.get_id(), b.get_id())
    q = c.memo.get(key)
    if q is None:
        q = c.memo[key] = c.fresh("quot", z3.RealSort())
        c.keep.append((a, b))
        c.assume(q * b == a)
    return wrap(q)


def floor_linear(e):
    """floor of a simplified real term; constants are split off integral terms"""
    const, whole = Fraction(0), []
    for t in e.children() if z3.is_add(e) else [e]:
        if z3.is_rational_value(t):
            const += Fraction(t.numerator_as_long(), t.denominator_as_long())
        elif t.decl().kind() == z3.Z3_OP_TO_REAL:
            whole.append(t.arg(0))
        elif z3.is_mul(t) and t.num_args() == 2 and z3.is_rational_value(t.arg(0)) and t.arg(0).denominator_as_long() == 1 and t.arg(1).decl().kind() == z3.Z3_OP_TO_REAL:
            whole.append(t.arg(0).numerator_as_long() * t.arg(1).arg(0))
        else:
            return z3.ToInt(e)
    return z3.simplify(z3.Sum(whole + [z3.IntVal(const.numerator // const.denominator)]))


def to_int(v):
    if isinstance(v, SymBool):
        return v.asnum()
    if v.is_int():
        return v
    e = z3.simplify(v.e)
    c = ctx()
    if not c.merge_depth and c.valid(e >= 0):
        return wrap(floor_linear(e))
    return wrap(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))


def round_(v, nd=None):
    if isinstance(v, SymBool):
        v = v.asnum()
    if v.is_int():
        return v
    if nd is not None:
        raise core.Unsupported("round to digits")
    e = v.e
    key = ("round", e.get_id())
    c = ctx()
    r = c.memo.get(key)
    if r is None:
        r = c.fresh("rnd", z3.IntSort())
        c.memo[key] = r
        c.keep.append(e)
        d = e - z3.ToReal(r)
        h = z3.RealVal("1/2")
        c.assume(z3.And(d <= h, d >= -h, z3.Implies(z3.Or(d == h, d == -h), r % 2 == 0)))
    return SymNum(r)


def ite(c, a, b):
    """merge two python values under z3 bool c; None if impossible."""
    if a is b:
        return a
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        ea = a.e if isinstance(a, SymBool) else z3.BoolVal(a)
        eb = b.e if isinstance(b, SymBool) else z3.BoolVal(b)
        return wrap(z3.If(c, ea, eb))
    if isinstance(a, (int, float, SymNum)) and isinstance(b, (int, float, SymNum)) and not isinstance(a, bool) and not isinstance(b, bool):
        ra = isinstance(a, float) or (isinstance(a, SymNum) and not a.is_int())
        rb = isinstance(b, float) or (isinstance(b, SymNum) and not b.is_int())
        if ra != rb:
            return None
        p = pair(a, b)
        if p is None:
            return None
        return wrap(z3.If(c, p[0], p[1]))
    return None


class Opaque(object):
    """A value about which nothing is known (an over-approximation).  Every
    operation on it gives another opaque value; truth tests fork."""

    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return "Opaque(%s)" % self.why

    def __bool__(self):
        c = ctx()
        return c.branch(c.fresh("opq", z3.BoolSort()))

    def __hash__(self):
        return 7

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return Opaque(self.why + "." + n)

    def __call__(self, *a, **k):
        return Opaque(self.why + "()")

    def __getitem__(self, i):
        return Opaque(self.why + "[]")

    def __setitem__(self, i, v):
        pass

    def __iter__(self):
        raise core.Unsupported("iteration over opaque value " + self.why)

    def __format__(self, spec):
        return ctx().placeholder(self, spec)

    def __str__(self):
        return ctx().placeholder(self, "")

    def __int__(self):
        raise core.Unsupported("int of opaque")

    def __index__(self):
        raise core.Unsupported("index of opaque")

    def __contains__(self, x):
        return bool(self)

    def __eq__(self, o):
        if o is self:
            return True
        return Opaque("cmp")

    def __ne__(self, o):
        if o is self:
            return False
        return Opaque("cmp")


def _op(self, *a):
    return Opaque(self.why)


for _n in (
    "add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod and rand or ror xor rxor "
    "lshift rlshift rshift rrshift neg pos invert abs round lt le gt ge pow rpow divmod"
).split():
    setattr(Opaque, "__%s__" % _n, _op)
