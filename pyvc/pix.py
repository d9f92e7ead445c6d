"""An array of any shape, seen at one arbitrary valid pixel.

Integer pixels have numpy's fixed width (wrap-around modelled; a Python operand
outside the width is refused, as numpy does).  Floating-point pixels are real
numbers: rounding and overflow of floating-point arithmetic are not modelled
(recorded as an assumption), except that comparing a 32-bit pixel with a
constant compares it with the constant rounded to 32 bits (uninterpreted
function rn24)."""
import numpy as np

from .core import z3, Ctx, Unsupported
from .values import (SymObj, Sym, SInt, SReal, SBool, int_expr, real_expr,
                     mkbool, mkint, mkreal, And, Or, Not, is_intlike,
                     is_reallike, to_bool_expr)
from . import hooks as H

rn24 = z3.Function("rn24", z3.RealSort(), z3.RealSort())


def _rng(dt):
    i = np.iinfo(dt)
    return int(i.min), int(i.max)


class PixBool(SymObj):
    """a boolean array at the pixel"""
    pytype = np.ndarray
    __array_ufunc__ = None

    def __init__(self, b):
        self.b = b

    def _of(self, o):
        if isinstance(o, PixBool):
            return o.b
        if isinstance(o, (bool, SBool, np.bool_)):
            return o
        raise Unsupported("boolean array operand")

    def __or__(self, o):
        return PixBool(Or(self.b, self._of(o)))

    def __and__(self, o):
        return PixBool(And(self.b, self._of(o)))

    __ror__, __rand__ = __or__, __and__

    def __ior__(self, o):
        self.b = Or(self.b, self._of(o))
        return self

    def __iand__(self, o):
        self.b = And(self.b, self._of(o))
        return self

    def __invert__(self):
        return PixBool(Not(self.b))

    def copy(self):
        return PixBool(self.b)


class Shape(SymObj):
    pytype = tuple

    def __init__(self, of):
        self.of = of


class ndarray(SymObj):
    pytype = np.ndarray
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, dtype, v, lo=None, hi=None, finite=True, n=None,
                 owner=None):
        self.dtype = np.dtype(dtype)
        # views of one buffer share the pixel
        self.cell = [v] if owner is None else owner.cell
        self.finite = finite
        self.lo, self.hi, self.n = lo, hi, n
        self.masked = False
        self.touched = []            # in-place operations on this buffer
        if owner is not None:
            self.touched = owner.touched

    @property
    def v(self):
        return self.cell[0]

    @v.setter
    def v(self, v):
        self.cell[0] = v

    pct = None          # percentiles of the valid pixels (Percentiles)

    # --- library surface
    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def size(self):
        return self.n

    @property
    def shape(self):
        return Shape(self) if self.dims is None else self.dims

    dims = None

    @property
    def data(self):
        return self

    def length(self):
        return self.n

    def min(self):
        return self.lo

    def max(self):
        return self.hi

    def like(self, dtype, v):
        r = type(self)(dtype, v, n=self.n)
        r.masked, r.dims = self.masked, self.dims
        r.pct = self.pct
        r.finite = self.finite
        return r

    def astype(self, t, *a, **k):
        t = np.dtype(t)
        if self.dtype.kind in "iu" and t.kind in "iu":
            r = self.like(t, _wrap(int_expr(self.v), t))
            r.lo, r.hi = self.lo, self.hi
            return r
        if self.dtype.kind in "iu" and t.kind == "f":
            c = Ctx.cur
            c.assumed.add("integers become floating point exactly")
            return self.like(t, mkreal(z3.ToReal(int_expr(self.v))))
        if self.dtype.kind == t.kind == "f":
            r = self.like(t, self.v)
            r.lo, r.hi = self.lo, self.hi
            return r
        if self.dtype.kind == "f" and t.kind in "iu":
            lo, hi = _rng(t)
            e = _real(self.v)
            e = z3.simplify(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))
            c = Ctx.cur
            if self.finite is True and c.must(z3.And(e >= lo, e <= hi)):
                return self.like(t, mkint(e))
            # out of range (or no number): any value of the type
            r = z3.Int(c.fresh("cast"))
            c.assume(z3.And(r >= lo, r <= hi))
            if self.finite is True:
                c.assume(z3.Implies(z3.And(e >= lo, e <= hi), r == e))
            return self.like(t, mkint(r))
        raise Unsupported(f"pixel {self.dtype} to {t}")

    def copy(self):
        r = self.like(self.dtype, self.v)
        r.lo, r.hi = self.lo, self.hi
        return r

    def ravel(self):
        return self

    # --- arithmetic with a number
    def _operand(self, k):
        """the dtype of the result and the operand"""
        if isinstance(k, bool) or not (is_intlike(k) or is_reallike(k)):
            if isinstance(k, (np.integer, np.floating)):
                k = k.item()
            else:
                raise Unsupported(f"pixel with {type(k).__name__}")
        if self.dtype.kind in "iu":
            if is_intlike(k):
                lo, hi = _rng(self.dtype)
                if not bool(And(k >= lo, k <= hi)):
                    raise OverflowError("Python integer out of bounds for "
                                        f"{self.dtype}")
                return self.dtype, k
            return np.dtype("f8"), k
        return self.dtype, k

    def _bin(self, k, f):
        dt, k = self._operand(k)
        if dt.kind in "iu":
            return self.like(dt, _wrap(f(int_expr(self.v), int_expr(k)), dt))
        Ctx.cur.assumed.add("floating-point arithmetic treated as real "
                            "arithmetic")
        return self.like(dt, mkreal(f(_real(self.v), _real(k))))

    def __mul__(self, k):
        return self._bin(k, lambda a, b: a * b)

    def __add__(self, k):
        return self._bin(k, lambda a, b: a + b)

    __rmul__, __radd__ = __mul__, __add__

    def __sub__(self, k):
        return self._bin(k, lambda a, b: a - b)

    def __truediv__(self, k):
        return self._divide(k, "/")

    def __floordiv__(self, k):
        return self._divide(k, "//")

    def _divide(self, k, op):
        dt, k = self._operand(k)
        zero = bool(k == 0)
        c = Ctx.cur
        if zero:
            # numpy: 0 for integers, inf or nan otherwise
            if op == "//" and dt.kind in "iu":
                r = self.like(dt, 0)
            else:
                r = self.like(dt if dt.kind == "f" else np.dtype("f8"),
                              mkreal(z3.Real(c.fresh("undefined"))))
                r.finite = False
        elif op == "//" and dt.kind in "iu":
            q = int_expr(c_div(int_expr(self.v), int_expr(k)))
            r = self.like(dt, _wrap(q, dt))
        elif op == "/":
            c.assumed.add("floating-point arithmetic treated as real "
                          "arithmetic")
            r = self.like(dt if dt.kind == "f" else np.dtype("f8"),
                          mkreal(_real(self.v) / _real(k)))
        else:
            raise Unsupported("floor of a floating-point quotient")
        if isinstance(self, MaskedArray) and zero:
            r.masked = True     # numpy.ma masks what it divides by zero
        return r

    def _in(self, k, f, name):
        r = f(self, k)
        if r.dtype != self.dtype:
            raise TypeError("Cannot cast ufunc output")
        self.v, self.finite = r.v, r.finite
        if isinstance(self, MaskedArray):
            self.masked = r.masked
        self.lo = self.hi = None
        self.touched.append(name)
        return self

    def __imul__(self, k):
        return self._in(k, type(self).__mul__, "*=")

    def __iadd__(self, k):
        return self._in(k, type(self).__add__, "+=")

    def __isub__(self, k):
        return self._in(k, type(self).__sub__, "-=")

    def __itruediv__(self, k):
        return self._in(k, type(self).__truediv__, "/=")

    def __ifloordiv__(self, k):
        return self._in(k, type(self).__floordiv__, "//=")

    def clip(self, a, b, out=None):
        for k in (a, b):
            self._operand(k)
        if out is not None and out is not self:
            raise Unsupported("clip into another array")
        v = self.v
        v = _ite(v < a, a, v)
        v = _ite(v > b, b, v)
        if out is not None:
            self.v = v
            self.lo = self.hi = None
            self.touched.append("clip")
            return self
        return self.like(self.dtype, v)

    def __getitem__(self, k):
        """image[valid pixels]"""
        if isinstance(k, PixBool) or isinstance(k, (bool, np.bool_, SBool)):
            k = k.b if isinstance(k, PixBool) else k
            r = self.like(self.dtype, self.v)
            r.n = self.valid
            if Ctx.cur.must(to_bool_expr(Or(And(k, Not(self.masked)),
                                            And(Not(k), self.masked)))):
                r.lo, r.hi = self.lo, self.hi
            else:
                r.pct = None
            return r
        raise Unsupported("part of an array")

    valid = None         # number of valid pixels

    # --- comparison with a number, as numpy compares
    def __eq__(self, k):
        if isinstance(k, (str, dict)) or k is None:
            return False             # numpy: no element equals it
        if isinstance(k, float) and k != k:
            return PixBool(False)
        if self.dtype.kind in "iu":
            return PixBool(mkbool(_real(self.v) == _real(k))
                           if not is_intlike(k) else
                           mkbool(int_expr(self.v) == int_expr(k)))
        e = _real(k)
        if self.dtype.itemsize == 4:
            e = rn24(e)
        return PixBool(And(self.finite, mkbool(_real(self.v) == e)))

    def __ne__(self, k):
        return ~(self == k)

    def contains(self, k):
        """k in array: some pixel equals it -- true at least when this one
        does"""
        b = self.__eq__(k)
        here = b.b if isinstance(b, PixBool) else b
        other = self.elsewhere
        if other is None:
            other = mkbool(z3.Bool(Ctx.cur.fresh("elsewhere")))
        return Or(here, other)

    elsewhere = None


class MaskedArray(ndarray):
    pytype = np.ma.MaskedArray

    @property
    def data(self):
        """the array beneath; its limits include the masked pixels"""
        r = ndarray(self.dtype, self.v, self.lo, self.hi, self.finite, self.n,
                    owner=self)
        r.pct = self.pct
        if self.masked is not False and self.lo is not None:
            c = Ctx.cur
            sort = z3.Int if self.dtype.kind in "iu" else z3.Real
            mk = mkint if self.dtype.kind in "iu" else mkreal
            r.lo, r.hi = (mk(sort(c.fresh(k))) for k in ("all.lo", "all.hi"))
            c.assume(to_bool_expr(And(r.lo <= self.lo, self.hi <= r.hi)))
            if self.pct is not None:
                r.pct = Percentiles(r.lo, r.hi)
        return r

    @property
    def mask(self):
        return np.False_ if self.masked is False else PixBool(self.masked)

    @mask.setter
    def mask(self, m):
        self.masked = m.b if isinstance(m, PixBool) else m

    def filled(self, value=None):
        if value is None:
            raise Unsupported("default fill value")
        if not is_intlike(value) or self.dtype.kind not in "iu":
            raise Unsupported("fill value")
        lo, hi = _rng(self.dtype)
        if not bool(And(value >= lo, value <= hi)):
            raise TypeError("Cannot convert fill_value")
        return ndarray(self.dtype, _ite(self.masked, value, self.v), n=self.n)


def _ite(b, x, y):
    """x if b else y, without splitting"""
    if isinstance(b, bool):
        return x if b else y
    if is_intlike(x) and is_intlike(y):
        return mkint(z3.If(to_bool_expr(b), int_expr(x), int_expr(y)))
    return mkreal(z3.If(to_bool_expr(b), real_expr(x), real_expr(y)))


def c_div(a, b):
    """floor of a quotient of integers"""
    from .values import floordiv
    return floordiv(mkint(a), mkint(b))


class Percentiles:
    """the percentiles of the valid pixels: some monotone function between
    the least and the greatest"""

    def __init__(self, lo, hi):
        c = Ctx.cur
        self.f = z3.Function(c.fresh("percentile"), z3.RealSort(),
                             z3.RealSort())
        self.lo, self.hi, self.seen = lo, hi, []

    def __call__(self, q):
        c = Ctx.cur
        e = real_expr(q)
        p = self.f(e)
        c.assume(z3.Implies(z3.And(e >= 0, e <= 100), z3.And(
            _real(self.lo) <= p, p <= _real(self.hi))))
        for o in self.seen:
            c.assume(z3.Implies(e <= o, p <= self.f(o)))
            c.assume(z3.Implies(o <= e, self.f(o) <= p))
        self.seen.append(e)
        return mkreal(p)


class Scalars(SymObj):
    """a few numbers of one dtype (the result of np.percentile)"""
    pytype = np.ndarray
    __array_ufunc__ = None

    def __init__(self, vals, single):
        self.vals, self.single = vals, single

    def vc_star(self):
        return self.vals

    def __iter__(self):
        if self.single:
            raise TypeError("iteration over a 0-d array")
        return iter(self.vals)

    def astype(self, t):
        t = np.dtype(t)
        if t.kind == "f":
            Ctx.cur.assumed.add("floating-point arithmetic treated as real "
                                "arithmetic")
            out = self.vals
        else:
            out = []
            for v in self.vals:
                e = real_expr(v)
                e = z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))
                out.append(_wrap(z3.simplify(e), t))
        return out[0] if self.single else Scalars(out, False)


def _real(v):
    if isinstance(v, (SInt, SReal, int, float)):
        e = real_expr(v)
        return e
    raise Unsupported(f"number {type(v).__name__}")


def _wrap(e, dt):
    lo, hi = _rng(dt)
    if Ctx.cur.must(z3.And(e >= lo, e <= hi)):
        return mkint(e)
    return mkint((e - lo) % (hi - lo + 1) + lo)


# ------------------------------------------------------------------- models
def _pix(x):
    return isinstance(x, ndarray)


def models(c, vc):
    """numpy functions on such arrays, for one exploration"""
    import numpy as np

    def masked_array(obj, mask=False, **k):
        if not _pix(obj) or k:
            raise Unsupported("masked_array")
        r = MaskedArray(obj.dtype, obj.v, obj.lo, obj.hi, obj.finite, obj.n,
                        owner=obj)
        r.mask = obj.masked if mask is False else mask
        return r

    def isin(obj, specials, **k):
        if not _pix(obj):
            raise Unsupported("isin")
        # both sides in one common type: exact for every pixel type here
        out = False
        for s in (list(specials) if not isinstance(specials, list)
                  else specials):
            if isinstance(s, str):
                raise Unsupported("isin with text")
            if isinstance(s, float) and s != s:
                continue
            if not (is_intlike(s) or is_reallike(s)):
                continue
            out = Or(out, And(obj.finite, mkbool(_real(obj.v) == _real(s))))
        return PixBool(out)

    def isfinite(obj):
        if not _pix(obj):
            raise Unsupported("isfinite")
        return PixBool(obj.finite)

    def any_(b, *a, **k):
        if not isinstance(b, PixBool):
            raise Unsupported("any")
        return Or(b.b, mkbool(z3.Bool(c.fresh("elsewhere"))))

    def filled(value):
        def make(shape, dtype=None, *a, **k):
            if dtype not in (bool, np.bool_):
                raise Unsupported("array of other type")
            return PixBool(value)
        return make

    def mask_or(a, b, **k):
        return PixBool(Or(a.b, b.b))

    def count(arr, *a, **k):
        n = vc.int(c.fresh("valid"), 0)
        # the pixel looked at is valid if it is not masked
        m = arr.masked
        c.assume(to_bool_expr(Or(m, n >= 1)))
        return n

    def astype_of(t):
        def conv(x=0):
            if is_intlike(x):
                if t.kind in "iu":
                    lo, hi = _rng(t)
                    if not bool(And(x >= lo, x <= hi)):
                        raise OverflowError("Python integer out of bounds")
                    return x
                return mkreal(z3.ToReal(int_expr(x))) if isinstance(
                    x, Sym) else float(x)
            if is_reallike(x) and t.kind == "f":
                c.assumed.add("floating-point arithmetic treated as real "
                              "arithmetic")
                return x
            raise Unsupported("conversion of a scalar")
        return conv
    def percentile(arr, q, overwrite_input=False, **k):
        if not _pix(arr) or arr.pct is None or k:
            raise Unsupported("percentile")
        if overwrite_input:
            arr.touched.append("percentile")
        if arr.dtype.kind in "iu" and not c.must(to_bool_expr(
                arr.hi - arr.lo <= _rng(arr.dtype)[1])):
            # numpy interpolates integers in their own type
            return Scalars([mkreal(z3.Real(c.fresh("wrapped")))
                            for _ in (q if isinstance(q, (list, tuple))
                                      else [q])],
                           not isinstance(q, (list, tuple)))
        if isinstance(q, (list, tuple)):
            return Scalars([arr.pct(x) for x in q], False)
        return Scalars([arr.pct(q)], True)

    def clip(arr, a, b, out=None):
        if not _pix(arr):
            raise Unsupported("clip")
        return arr.clip(a, b, out)

    def round_(arr, *a, **k):
        if not _pix(arr) or a or k:
            raise Unsupported("round")
        if arr.dtype.kind in "iu":
            return arr.copy()
        e = _real(arr.v)
        # halves go to the even neighbour
        n = z3.ToInt(e + z3.Q(1, 2))
        half = z3.ToReal(n) == e + z3.Q(1, 2)
        return arr.like(arr.dtype, mkreal(z3.ToReal(z3.If(z3.And(
            half, n % 2 != 0), n - 1, n))))

    def getdata(arr, *a):
        if not _pix(arr):
            raise Unsupported("getdata")
        return arr.data if isinstance(arr, MaskedArray) else arr
    out = {np.percentile: percentile, np.clip: clip, np.round: round_,
           np.around: round_, np.ma.getdata: getdata,
           np.ma.masked_array: masked_array, np.isin: isin,
           np.isfinite: isfinite, np.any: any_, np.zeros: filled(False),
           np.ones: filled(True), np.ma.mask_or: mask_or, np.ma.count: count,
           np.zeros_like: lambda a, dtype=None: filled(False)(None, dtype)}
    for t in ("i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8"):
        out[np.dtype(t).type] = astype_of(np.dtype(t))
    c.stubs.update(out)
    c.assumed.add("numpy elementwise semantics: *, +, astype, ==, isfinite, "
                  "masked_array, count, min, max (modelled at one pixel)")
