"""One arbitrary element of a numpy array under elementwise arithmetic.

Integer elements have numpy's fixed width (wrap-around modelled, Python
operands outside the width refused as numpy does); float64 elements are kept
as coefficient * 16**exponent, every step either exact in binary64 (and shown
to be) or an application of the uninterpreted rounding function rn53.
Anything else is Unsupported."""
import numpy as np

from .core import z3, Ctx, Unsupported
from .values import SymObj, SInt, SReal, SBool, int_expr, real_expr, mkbool

rn53 = z3.Function("rn53", z3.IntSort(), z3.RealSort())


def _rng(dt):
    i = np.iinfo(dt)
    return int(i.min), int(i.max)


def _must(e):
    return Ctx.cur.must(e)


def rounded(e):
    """the integer e converted to binary64"""
    if _must(z3.And(e >= -2 ** 53, e <= 2 ** 53)):
        return z3.ToReal(e)
    Ctx.cur.assumed.add("integer-to-binary64 conversion rounds to nearest "
                        "(uninterpreted function rn53 in code and contract)")
    return rn53(e)


class EArr(SymObj):
    pytype = np.ndarray
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, dtype, e, exp=None):
        self.dtype, self.e, self.exp = np.dtype(dtype), e, exp

    # --- helpers
    def _int(self):
        return self.dtype.kind in "iu"

    def _scalar(self, k):
        if type(k) is bool or not isinstance(k, (int, np.integer)):
            raise Unsupported(f"EArr with {type(k).__name__}")
        k = int(k)
        lo, hi = _rng(self.dtype)
        if not lo <= k <= hi:
            raise OverflowError(f"Python integer {k} out of bounds for "
                                f"{self.dtype}")
        return k

    def _fit(self, e, dt=None):
        dt = np.dtype(dt or self.dtype)
        lo, hi = _rng(dt)
        if not _must(z3.And(e >= lo, e <= hi)):
            e = (e - lo) % (hi - lo + 1) + lo
        return EArr(dt, z3.simplify(e))

    # --- integers
    def __rshift__(self, k):
        if not self._int():
            raise TypeError("ufunc 'right_shift' not supported for the input "
                            "types")
        return EArr(self.dtype, self.e / 2 ** self._scalar(k))

    def __lshift__(self, k):
        if not self._int():
            raise TypeError("ufunc 'left_shift' not supported")
        return self._fit(self.e * 2 ** self._scalar(k))

    def __and__(self, k):
        if not self._int():
            raise TypeError("ufunc 'bitwise_and' not supported")
        k = self._scalar(k)
        if k < 0 or k & (k + 1):
            # contiguous run of mask bits
            low = (k & -k).bit_length() - 1 if k > 0 else -1
            top = k >> low if low >= 0 else 0
            if low < 0 or top & (top + 1):
                raise Unsupported(f"mask {k:#x}")
            return EArr(self.dtype, (self.e / 2 ** low) % (top + 1) * 2 ** low)
        return EArr(self.dtype, self.e % (k + 1))

    __rand__ = __and__

    def astype(self, t, *a, **k):
        t = np.dtype(t)
        if self._int() and t.kind in "iu":
            return self._fit(self.e, t)
        if self._int() and t == np.dtype("f8"):
            return EArr(t, rounded(self.e))
        if t == self.dtype:
            return self
        raise Unsupported(f"EArr {self.dtype} to {t}")

    def view(self, t):
        t = np.dtype(t)
        if self._int() and t.kind in "iu" and t.itemsize == \
                self.dtype.itemsize:
            return self._fit(self.e, t)
        raise Unsupported("view")

    # --- arithmetic
    def _lin(self, k, f):
        if self._int():
            if isinstance(k, EArr):
                raise Unsupported("EArr with EArr")
            return self._fit(f(self.e, self._scalar(k)))
        if self.exp is not None:
            raise Unsupported("sum with a power")
        if not isinstance(k, (int, float)) or int(k) != k or abs(k) > 2 ** 40:
            raise Unsupported("float operand")
        e = f(self.e, int(k))
        x = z3.Int(Ctx.cur.fresh("whole"))
        if not _must(z3.And(z3.IsInt(self.e), self.e < 2 ** 50,
                            self.e > -2 ** 50)):
            raise Unsupported("inexact float sum")
        return EArr("f8", e)

    def __add__(self, k):
        return self._lin(k, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, k):
        return self._lin(k, lambda a, b: a - b)

    def __rsub__(self, k):
        return self._lin(k, lambda a, b: b - a)

    def __neg__(self):
        if self._int():
            return self._fit(-self.e)
        return EArr("f8", -self.e, self.exp)

    def __truediv__(self, k):
        if not isinstance(k, (int, float)) or k <= 0 or \
                k != 2.0 ** int(np.log2(float(k))):
            raise Unsupported("division by a non-power of two")
        if self._int():
            self._scalar(int(k))
            return EArr("f8", rounded(self.e) / int(k))
        return EArr("f8", self.e / z3.RealVal(str(
            __import__("fractions").Fraction(k))), self.exp)

    def __rpow__(self, b):
        if b not in (16, 16.0) or self._int() or self.exp is not None:
            raise Unsupported("power")
        if not _must(z3.And(z3.IsInt(self.e), self.e >= -200, self.e <= 200)):
            raise Unsupported("power beyond binary64")
        Ctx.cur.assumed.add("numpy's 16.0 ** x is exact for integral "
                            "-200 <= x <= 200")
        return EArr("f8", z3.RealVal(1), self.e)

    def _unit(self):
        e = self.e
        return _must(z3.Or(e == 1, e == -1))

    def __mul__(self, o):
        if not isinstance(o, EArr):
            if self._int():
                return self._fit(self.e * self._scalar(o))
            if o in (1, -1, 1.0, -1.0):
                return EArr("f8", self.e * int(o), self.exp)
            raise Unsupported("float product")
        if self._int() and o._int():
            raise Unsupported("integer product")
        r = lambda x: z3.ToReal(x.e) if x._int() else x.e
        if not (self._unit() or o._unit()):
            raise Unsupported("inexact product")
        if self.exp is not None and o.exp is not None:
            raise Unsupported("product of powers")
        return EArr("f8", r(self) * r(o),
                    self.exp if self.exp is not None else o.exp)

    __rmul__ = __mul__

    def __getattr__(self, k):
        raise Unsupported(f"EArr.{k}")
