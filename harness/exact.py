"""Exact numbers for numerical code: the field of P elements.  -1 has no root in it, so that the squares can stand for the
positive numbers (products and roots of them are positive); what has no value stays without one, like NaN."""
import contextlib
from fractions import Fraction
from unittest import mock

import numpy as np

from vlib import ds_modules

P = 46199          # (small primes are squares modulo it)


def number(x):
    if isinstance(x, Exact):
        return x.v
    if isinstance(x, (bool, np.bool_, int, np.integer)):
        return int(x) % P
    if isinstance(x, (float, np.floating)):
        if x != x or x in (float("inf"), -float("inf")):
            return None
        f = Fraction(float(x)).limit_denominator(5000)
        return f.numerator * pow(f.denominator, -1, P) % P
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return number(x.item())
    raise TypeError(f"not a number: {x!r}")


def positive(v):
    return pow(v, (P - 1) // 2, P) == 1


def op(f, partial=False):
    def method(self, other):
        if isinstance(other, np.ndarray) and other.ndim:
            return np.frompyfunc(lambda y: method(self, y), 1, 1)(other)
        try:
            o = number(other)
        except TypeError:
            return NotImplemented
        if self.v is None or o is None:
            return Exact(None)
        return Exact(f(self.v, o))
    return method


def over(a, b):
    return None if b % P == 0 else a * pow(b, -1, P)


def compare(want):
    def method(self, other):
        if isinstance(other, np.ndarray) and other.ndim:
            return np.array([method(self, y) for y in other.flat], dtype=bool).reshape(other.shape)
        if ANY_ORDER:
            return True
        o = number(other)
        if self.v is None or o is None:
            return False
        d = (self.v - o) % P
        return want(0 if d == 0 else 1 if positive(d) else -1)
    return method


ANY_ORDER = False
DEGREES = 11         # in a unit of angle
HALVES = {}          # tangents of the half angles


class Exact:
    __slots__ = ("v",)
    __array_priority__ = 1000

    def __init__(self, v):
        self.v = None if v is None else v % P

    __add__ = __radd__ = op(lambda a, b: a + b)
    __sub__ = op(lambda a, b: a - b)
    __rsub__ = op(lambda a, b: b - a)
    __mul__ = __rmul__ = op(lambda a, b: a * b)
    __truediv__ = op(over)
    __rtruediv__ = op(lambda a, b: over(b, a))
    __lt__ = compare(lambda s: s < 0)
    __le__ = compare(lambda s: s <= 0)
    __gt__ = compare(lambda s: s > 0)
    __ge__ = compare(lambda s: s >= 0)

    def __pow__(self, n):
        if isinstance(n, Exact):
            return NotImplemented
        if self.v is None:
            return Exact(None)
        n = Fraction(n).limit_denominator(100)
        if n.denominator == 1:
            n = int(n)
            return Exact(pow(self.v, n, P) if n >= 0 or self.v else None)
        if n.denominator == 2:
            return self.sqrt() ** n.numerator
        return NotImplemented

    def __neg__(self):
        return Exact(None if self.v is None else -self.v)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    def __eq__(self, other):
        try:
            return self.v is not None and self.v == number(other)
        except TypeError:
            return NotImplemented

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.v)

    def __bool__(self):
        return self.v != 0

    def __repr__(self):
        return f"<{self.v}>"

    def sqrt(self):
        if not self.v:
            return Exact(self.v)
        return Exact(pow(self.v, (P + 1) // 4, P) if positive(self.v) else None)

    def square(self):
        return self * self

    def reciprocal(self):
        return 1 / self

    def hypot(self, other):
        return (self * self + other * other).sqrt()

    def conjugate(self):
        return self

    def half(self):
        if self.v is None:
            return Exact(None)
        if self.v == 0:
            return Exact(0)
        if self.v in HALVES:
            return Exact(HALVES[self.v])
        if P - self.v in HALVES:
            return Exact(-HALVES[P - self.v])
        u = 2 + self.v * 7 % (P // 2)          # (an angle nobody asked about)
        return Exact(u if self.v <= P // 2 else -(2 + (P - self.v) * 7 % (P // 2)))

    def tan(self):
        u = self.half()
        return 2 * u / (1 - u * u)

    def sin(self):
        u = self.half()
        return 2 * u / (1 + u * u)

    def cos(self):
        u = self.half()
        return (1 - u * u) / (1 + u * u)

    def same(self):
        return self

    def degrees(self):
        return self * DEGREES

    def radians(self):
        return self / DEGREES

    rad2deg, deg2rad, copy = degrees, radians, same


def value(x):
    """What is recorded of a number."""
    v = number(x)
    return -1 if v is None else v


def known(x):
    return not isinstance(x, Exact) or x.v is not None


@contextlib.contextmanager
def exact_arrays():
    """Arrays created by the code under test hold exact numbers."""
    def filled(f, fill):
        def make(shape, *args, **kwargs):
            if kwargs.get("dtype") in (bool, int):
                return f(shape, *args, **kwargs)
            if fill is None:
                shape, fill_value, *args = (shape, *args) if args else (shape, kwargs["fill_value"])
            else:
                fill_value = fill
            x = np.ndarray(shape, dtype=object)
            x[...] = Exact(fill_value) if isinstance(fill_value, int) else fill_value
            return x
        return make

    def like(f, fill):
        def make(other, *args, **kwargs):
            x = np.ndarray(np.shape(other), dtype=object)
            x[...] = Exact(fill)
            return x
        return make

    def keeping(f):
        def make(x, *args, **kwargs):
            r = f(x)
            return r if r.dtype == object else f(x, *args, **kwargs)
        return make

    def asking(f, of):
        def ask(x, *args, **kwargs):
            a = np.asarray(x)
            if a.dtype != object:
                return f(x, *args, **kwargs)
            r = np.array([of(y) for y in a.flat], dtype=bool).reshape(a.shape)
            return r if a.ndim else bool(r)
        return ask

    subst = {"zeros": filled(np.zeros, 0), "empty": filled(np.empty, 0), "ones": filled(np.ones, 1), "full": filled(np.full, None),
             "zeros_like": like(np.zeros_like, 0), "empty_like": like(np.empty_like, 0), "ones_like": like(np.ones_like, 1),
             "array": keeping(np.array), "asarray": keeping(np.asarray),
             "isnan": asking(np.isnan, lambda y: not known(y)), "isfinite": asking(np.isfinite, known)}
    undo = []
    with contextlib.ExitStack() as stack:
        real = {k: getattr(np, k) for k in subst}
        for m in ds_modules():
            for k, v in list(vars(m).items()):
                for name, f in real.items():
                    if v is f:
                        stack.enter_context(mock.patch.object(m, k, subst[name]))
        for k, f in subst.items():
            stack.enter_context(mock.patch.object(np, k, f))
        yield


def array(rows):
    """An array of exact numbers (np.array may be replaced)."""
    def shape(x):
        return (len(x), *shape(x[0])) if isinstance(x, list) else ()
    a = np.ndarray(shape(rows), dtype=object)
    for i in np.ndindex(*a.shape):
        x = rows
        for j in i:
            x = x[j]
        a[i] = x if isinstance(x, Exact) else Exact(x)
    return a
