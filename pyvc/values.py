"""Symbolic values."""
from fractions import Fraction
import math

from .core import z3, Ctx, Unsupported, PathKill
from . import poly as P


class Sym:
    """Base of all symbolic values."""
    __slots__ = ()

    def __hash__(self):
        raise Unsupported(f"hash of symbolic {type(self).__name__}")

    def __index__(self):
        raise Unsupported(f"__index__ of symbolic {type(self).__name__}")

    def __repr__(self):
        return f"<{type(self).__name__}>"

    __str__ = __repr__

    def __getattr__(self, name):
        from . import hooks
        if not name.startswith("__") and hasattr(hooks.pytype(self), name):
            raise Unsupported(f"attribute {name} of symbolic "
                              f"{hooks.pytype(self).__name__}")
        raise AttributeError(
            f"'{hooks.pytype(self).__name__}' object has no attribute "
            f"'{name}'")

    def __format__(self, spec):
        return repr(self)

    def __reduce__(self):
        raise Unsupported("pickle/deepcopy of symbolic value")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


# ---------------------------------------------------------------- booleans
class SBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return Ctx.cur.branch(self.e)

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(self.e == to_bool_expr(o))
        if isinstance(o, (int, SInt, float, SReal)):
            return self.as_int() == o
        return False

    def __ne__(self, o):
        return bnot(self == o)

    __hash__ = Sym.__hash__

    def as_int(self):
        return mkint(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __and__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(z3.And(self.e, to_bool_expr(o)))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(z3.Or(self.e, to_bool_expr(o)))
        return NotImplemented

    __ror__ = __or__

    def __add__(self, o):
        return self.as_int() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self.as_int() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self.as_int() - o

    def __rsub__(self, o):
        return o - self.as_int()


def mkbool(e):
    if isinstance(e, bool):
        return e
    s = z3.simplify(e)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return SBool(s)


def bnot(b):
    if isinstance(b, SBool):
        return mkbool(z3.Not(b.e))
    return not b


def to_bool_expr(b):
    if isinstance(b, SBool):
        return b.e
    if z3.is_expr(b) and z3.is_bool(b):
        return b
    if isinstance(b, Sym):
        t = truth(b)
        return to_bool_expr(t)
    return z3.BoolVal(bool(b))


def And(*bs):
    if not any(isinstance(b, Sym) for b in bs):
        return all(bool(b) for b in bs)
    return mkbool(z3.And(*[to_bool_expr(b) for b in bs])) if bs else True


def Or(*bs):
    if not any(isinstance(b, Sym) for b in bs):
        return any(bool(b) for b in bs)
    return mkbool(z3.Or(*[to_bool_expr(b) for b in bs])) if bs else False


def Implies(a, b):
    return mkbool(z3.Implies(to_bool_expr(a), to_bool_expr(b)))


def truth(v):
    """Truth value without forking when possible."""
    if isinstance(v, SBool):
        return v
    if isinstance(v, SInt):
        return mkbool(v.e != 0)
    if isinstance(v, SReal):
        return mkbool(v.e != 0)
    if isinstance(v, SStr):
        return mkbool(z3.Length(v.e) > 0)
    if hasattr(type(v), "nonempty"):
        return v.nonempty()
    if hasattr(type(v), "isnone"):
        return v.cond
    return bool(v)


def Not(v):
    return bnot(truth(v))


def Ite(c, a, b):
    """Spec-level conditional on ints/reals/bools."""
    if not isinstance(c, Sym):
        return a if c else b
    ce = to_bool_expr(c)
    if isinstance(a, (SReal, float)) or isinstance(b, (SReal, float)):
        return mkreal(z3.If(ce, real_expr(a), real_expr(b)))
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mkbool(z3.If(ce, to_bool_expr(a), to_bool_expr(b)))
    if isinstance(a, (str, SStr)):
        return SStr(z3.If(ce, str_expr(a), str_expr(b)))
    return mkint(z3.If(ce, int_expr(a), int_expr(b)))


# ---------------------------------------------------------------- integers
def int_expr(v):
    if isinstance(v, SInt):
        return v.e
    if isinstance(v, SBool):
        return v.as_int().e if isinstance(v.as_int(), SInt) else z3.IntVal(
            int(v.as_int()))
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if hasattr(v, "__index__") and not isinstance(v, Sym):
        return z3.IntVal(v.__index__())
    raise Unsupported(f"int_expr of {type(v).__name__}")


def mkint(e):
    if isinstance(e, int):
        return e
    s = z3.simplify(e)
    if z3.is_int_value(s):
        return s.as_long()
    return SInt(s)


def is_intlike(v):
    import numpy as np
    return isinstance(v, (int, SInt, SBool, np.integer))


def is_reallike(v):
    import numpy as np
    return isinstance(v, (float, SReal, Fraction, np.floating))


class _Num(Sym):
    __slots__ = ()

    def __pos__(self):
        return self

    def __bool__(self):
        return Ctx.cur.branch(self.e != 0)

    def __float__(self):
        raise Unsupported("float() of symbolic number by native code")

    def __int__(self):
        raise Unsupported("int() of symbolic number by native code")

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")


class SInt(_Num):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    __hash__ = Sym.__hash__

    def _bin(self, o, f, rf=None):
        if is_intlike(o):
            return mkint(f(self.e, int_expr(o)))
        if is_reallike(o):
            if isinstance(o, float) and o != o:
                return o
            return mkreal(f(z3.ToReal(self.e), real_expr(o)))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple, SStr)):
            return seq_repeat(o, self)
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.e)

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def __invert__(self):
        return mkint(-self.e - 1)

    def __truediv__(self, o):
        return truediv(self, o)

    def __rtruediv__(self, o):
        return truediv(o, self)

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        return pymod(self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            raise Unsupported("% formatting of symbolic value")
        return pymod(o, self)

    def __divmod__(self, o):
        return floordiv(self, o), pymod(self, o)

    def __rdivmod__(self, o):
        return floordiv(o, self), pymod(o, self)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 8:
            out = 1
            for _ in range(o):
                out = self * out
            return out
        raise Unsupported("symbolic power")

    def __lshift__(self, o):
        if isinstance(o, int):
            return self * (1 << o)
        raise Unsupported("symbolic shift")

    def __rshift__(self, o):
        if isinstance(o, int):
            return floordiv(self, 1 << o)
        raise Unsupported("symbolic shift")

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return pymod(self, o + 1)
        raise Unsupported("symbolic &")

    __rand__ = __and__

    def _cmp(self, o, f):
        if is_intlike(o):
            return mkbool(f(self.e, int_expr(o)))
        if is_reallike(o):
            if isinstance(o, float) and not math.isfinite(o):
                return f(0, o)
            return mkbool(f(z3.ToReal(self.e), real_expr(o)))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return bnot(self == o)

    # attributes of int that code may use
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def bit_length(self):
        raise Unsupported("bit_length of symbolic int")

    def is_integer(self):
        return True


def _divcheck(d):
    if isinstance(d, Sym):
        if d == 0:
            raise ZeroDivisionError("division by zero")
    elif d == 0:
        raise ZeroDivisionError("division by zero")


def floordiv(a, b):
    if not (is_intlike(a) and is_intlike(b)):
        if (is_intlike(a) or is_reallike(a)) and (
                is_intlike(b) or is_reallike(b)):
            _divcheck(b)
            return mkreal(z3.ToReal(z3.ToInt(real_expr(a) / real_expr(b))))
        return NotImplemented
    _divcheck(b)
    ae, be = int_expr(a), int_expr(b)
    q = P.exact_div(P.poly(z3.simplify(ae)), P.poly(z3.simplify(be)))
    if q is not None:
        return mkint(P.to_expr(q))
    if isinstance(b, int) and b > 0:
        return mkint(ae / be)
    if Ctx.cur.must(be > 0):
        return mkint(ae / be)
    # floor for any sign of divisor
    return mkint(z3.If(be > 0, ae / be, (-ae) / (-be)))


def pymod(a, b):
    if not (is_intlike(a) and is_intlike(b)):
        return NotImplemented
    q = floordiv(a, b)
    ae, be = int_expr(a), int_expr(b)
    if (isinstance(b, int) and b > 0):
        return mkint(ae % be)
    return mkint(ae - int_expr(q) * be)


def truediv(a, b):
    if not ((is_intlike(a) or is_reallike(a))
            and (is_intlike(b) or is_reallike(b))):
        return NotImplemented
    _divcheck(b)
    if is_intlike(a) and is_intlike(b):
        ae, be = z3.simplify(int_expr(a)), z3.simplify(int_expr(b))
        q = P.exact_div(P.poly(ae), P.poly(be))
        if q is not None:
            qe = z3.simplify(P.to_expr(q))
            return SReal(z3.ToReal(qe), num=qe, den=z3.IntVal(1))
        return SReal(z3.ToReal(ae) / z3.ToReal(be), num=ae, den=be)
    return mkreal(real_expr(a) / real_expr(b))


# ------------------------------------------------------------------- reals
def real_expr(v):
    if isinstance(v, SReal):
        return v.e
    if isinstance(v, SInt):
        return z3.ToReal(v.e)
    if isinstance(v, SBool):
        return z3.If(v.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, float) or is_reallike(v):
        f = v if isinstance(v, Fraction) else float(v)
        if isinstance(f, float) and not math.isfinite(f):
            raise Unsupported("non-finite float with symbolic operand")
        f = Fraction(f)
        return z3.Q(f.numerator, f.denominator)
    import numpy as np
    if isinstance(v, np.integer):
        return z3.RealVal(int(v))
    raise Unsupported(f"real_expr of {type(v).__name__}")


def mkreal(e):
    s = z3.simplify(e)
    return SReal(s)


class SReal(_Num):
    """A float, idealised as a real number."""
    __slots__ = ("e", "num", "den")

    def __init__(self, e, num=None, den=None):
        self.e, self.num, self.den = e, num, den

    __hash__ = Sym.__hash__

    def _bin(self, o, f):
        if is_intlike(o) or is_reallike(o):
            if isinstance(o, float) and o != o:
                return o
            return mkreal(f(self.e, real_expr(o)))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mkreal(-self.e)

    def __abs__(self):
        return mkreal(z3.If(self.e >= 0, self.e, -self.e))

    def __truediv__(self, o):
        return truediv(self, o)

    def __rtruediv__(self, o):
        return truediv(o, self)

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return self - floordiv(self, o) * o
        raise Unsupported("real modulo")

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            out = 1
            for _ in range(o):
                out = self * out
            return out
        raise Unsupported("symbolic power")

    def _cmp(self, o, f):
        if is_intlike(o) or is_reallike(o):
            if isinstance(o, float) and not math.isfinite(o):
                return f(0, o)
            return mkbool(f(self.e, real_expr(o)))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return bnot(self == o)

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))

    def trunc(self):
        if self.num is not None:
            n, d = self.num, self.den
            if z3.is_int_value(d) and d.as_long() == 1:
                return mkint(n)
            if Ctx.cur.must(z3.And(n >= 0, d > 0)):
                return mkint(n / d)
        if Ctx.cur.must(self.e >= 0):
            return mkint(z3.ToInt(self.e))
        return mkint(z3.If(self.e >= 0, z3.ToInt(self.e),
                           -z3.ToInt(-self.e)))

    def floor(self):
        return mkint(z3.ToInt(self.e))

    def ceil(self):
        return mkint(-z3.ToInt(-self.e))

    def __round__(self, nd=None):
        raise Unsupported("round of symbolic float")


# ----------------------------------------------------------------- strings
_UF = {}


def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _UF:
        _UF[k] = z3.Function(name, *sorts)
    return _UF[k]


def str_expr(v):
    if isinstance(v, SStr):
        return v.e
    if isinstance(v, str):
        return z3.StringVal(v)
    raise Unsupported(f"str_expr of {type(v).__name__}")


def int_to_str(v):
    if isinstance(v, SInt):
        e = v.e
        if Ctx.cur is not None and Ctx.cur.must(e >= 0):
            return SStr(z3.IntToStr(e), parts=[v])
        return SStr(z3.If(e >= 0, z3.IntToStr(e),
                          z3.Concat(z3.StringVal("-"), z3.IntToStr(-e))),
                    parts=[v])
    return str(v)


def mkstr(e, parts=None):
    s = z3.simplify(e)
    if z3.is_string_value(s):
        from .core import _unescape
        return _unescape(s.as_string())
    return SStr(s, parts)


def concat(*vs):
    parts = []
    for v in vs:
        if isinstance(v, str):
            if not v:
                continue
            if parts and isinstance(parts[-1], str):
                parts[-1] += v
            else:
                parts.append(v)
        else:
            for p in (v.parts if v.parts is not None else [v]):
                if isinstance(p, str) and parts and isinstance(parts[-1], str):
                    parts[-1] += p
                else:
                    parts.append(p)
    if not parts:
        return ""
    if len(parts) == 1:
        if isinstance(parts[0], str):
            return parts[0]
    es = []
    for p in parts:
        if isinstance(p, str):
            es.append(z3.StringVal(p))
        elif isinstance(p, SInt):
            es.append(int_to_str(p).e)
        else:
            es.append(p.e)
    e = z3.Concat(*es) if len(es) > 1 else es[0]
    return SStr(e, parts)


class SStr(Sym):
    """Symbolic str.  parts: optional list of str | SInt | SStr pieces."""
    __slots__ = ("e", "parts", "tag")

    def __init__(self, e, parts=None, tag=None):
        self.e = e
        self.parts = parts
        self.tag = tag

    __hash__ = Sym.__hash__

    def __bool__(self):
        return Ctx.cur.branch(z3.Length(self.e) > 0)

    def __len__(self):
        raise Unsupported("native len() of symbolic str")

    def __iter__(self):
        raise Unsupported("iteration over symbolic str")

    def __eq__(self, o):
        if isinstance(o, (str, SStr)):
            return mkbool(self.e == str_expr(o))
        return False

    def __ne__(self, o):
        return bnot(self == o)

    def _ord(self, o, f):
        if isinstance(o, (str, SStr)):
            return mkbool(f(self.e, str_expr(o)))
        return NotImplemented

    def __lt__(self, o):
        return self._ord(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._ord(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._ord(o, lambda a, b: b < a)

    def __ge__(self, o):
        return self._ord(o, lambda a, b: b <= a)

    def __add__(self, o):
        if isinstance(o, (str, SStr)):
            return concat(self, o)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (str, SStr)):
            return concat(o, self)
        return NotImplemented

    def __mul__(self, n):
        return seq_repeat(self, n)

    def __mod__(self, o):
        raise Unsupported("% formatting with symbolic str")

    # membership / search
    def contains(self, item):
        if not isinstance(item, (str, SStr)):
            raise TypeError("'in <string>' requires string as left operand, "
                            f"not {type(item).__name__}")
        return mkbool(z3.Contains(self.e, str_expr(item)))

    def startswith(self, p, *a):
        if a:
            raise Unsupported("startswith with bounds")
        if isinstance(p, tuple):
            return Or(*[self.startswith(q) for q in p])
        if self.parts and isinstance(p, str) and isinstance(
                self.parts[0], str) and len(self.parts[0]) >= len(p):
            return self.parts[0].startswith(p)
        return mkbool(z3.PrefixOf(str_expr(p), self.e))

    def endswith(self, p, *a):
        if a:
            raise Unsupported("endswith with bounds")
        if isinstance(p, tuple):
            return Or(*[self.endswith(q) for q in p])
        return mkbool(z3.SuffixOf(str_expr(p), self.e))

    def length(self):
        return mkint(z3.Length(self.e))

    def find(self, sub, *a):
        if a:
            raise Unsupported("find with bounds")
        return mkint(z3.IndexOf(self.e, str_expr(sub), 0))

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r == -1:
            raise ValueError("substring not found")
        return r

    def replace(self, old, new, *a):
        if a:
            raise Unsupported("replace with count")
        if isinstance(old, str) and old == "":
            raise Unsupported("replace of empty string")
        if not Ctx.cur.branch(z3.Contains(self.e, str_expr(old))):
            return self
        f = getattr(z3, "ReplaceAll", None)
        if f is None:
            e = z3.SeqRef(z3.Z3_mk_seq_replace_all(
                z3.main_ctx().ref(), self.e.as_ast(),
                str_expr(old).as_ast(), str_expr(new).as_ast()), z3.main_ctx())
        else:
            e = f(self.e, str_expr(old), str_expr(new))
        return mkstr(e)

    def _uf(self, name):
        return mkstr(uf("str_" + name, z3.StringSort(), z3.StringSort())(
            self.e))

    def upper(self):
        return _case(self, "upper")

    def lower(self):
        return _case(self, "lower")

    def strip(self, chars=None):
        return _strip(self, chars, True, True)

    def lstrip(self, chars=None):
        return _strip(self, chars, True, False)

    def rstrip(self, chars=None):
        return _strip(self, chars, False, True)

    def encode(self, *a):
        raise Unsupported("encode of symbolic str")

    def isnumeric(self):
        return mkbool(z3.InRe(self.e, z3.Plus(z3.Range("0", "9"))))

    isdigit = isdecimal = isnumeric

    def split(self, sep=None, maxsplit=-1):
        from . import hooks
        return hooks.str_split(self, sep, maxsplit)

    def partition(self, sep):
        from . import hooks
        r = hooks.str_cut(self, sep)
        return (self, "", "") if r is None else (r[0], sep, r[1])

    def join(self, it):
        from . import hooks
        return hooks.str_join(self, it)

    def getitem(self, i):
        if isinstance(i, slice):
            return self._slice(i)
        if self.parts is not None and isinstance(i, int):
            p = self.parts
            if 0 <= i and isinstance(p[0], str) and i < len(p[0]):
                return p[0][i]
            if i < 0 and isinstance(p[-1], str) and -i <= len(p[-1]):
                return p[-1][i]
        n = z3.Length(self.e)
        ie = int_expr(i)
        if isinstance(i, int):
            ok = (n > i) if i >= 0 else (n >= -i)
            pos = ie if i >= 0 else n + ie
        else:
            ok = z3.And(ie < n, ie >= -n)
            pos = z3.If(ie >= 0, ie, n + ie)
        if not Ctx.cur.branch(ok):
            raise IndexError("string index out of range")
        return mkstr(z3.SubString(self.e, pos, 1))

    def _slice(self, s):
        if s.step not in (None, 1):
            raise Unsupported("strided slice of symbolic str")
        if self.parts is not None and isinstance(self.parts[0], str):
            if isinstance(s.start, int) and s.stop is None and \
                    0 <= s.start <= len(self.parts[0]):
                return concat(self.parts[0][s.start:], *[
                    int_to_str(p) if isinstance(p, SInt) else p
                    for p in self.parts[1:]])
            if isinstance(s.start, int) and isinstance(s.stop, int) and \
                    0 <= s.start <= len(self.parts[0]) and s.stop < 0 and \
                    len(self.parts) > 1 and isinstance(self.parts[-1], str) \
                    and -s.stop <= len(self.parts[-1]):
                return concat(self.parts[0][s.start:], *[
                    int_to_str(p) if isinstance(p, SInt) else p
                    for p in self.parts[1:-1]], self.parts[-1][:s.stop])
        n = mkint(z3.Length(self.e))
        a, b = slice_bounds(s, n)
        ln = mkint(int_expr(b) - int_expr(a))
        r = mkstr(z3.SubString(self.e, int_expr(a), int_expr(ln)))
        if isinstance(r, SStr):
            r.tag = ("sub", self)
        return r


def slice_bounds(s, n):
    """Python slice (step 1) normalised to 0 <= a, b <= n (a may exceed b)."""
    def norm(x, default):
        if x is None:
            return default
        if isinstance(x, (int, SInt, SBool)) or hasattr(x, "__index__"):
            if isinstance(x, int) and isinstance(n, int):
                return max(0, min(n, x + n if x < 0 else x))
            if x < 0:       # forks when symbolic
                y = n + x
                if y < 0:
                    return 0
                return y
            if x > n:
                return n
            return x
        raise TypeError("slice indices must be integers or None or have an "
                        "__index__ method")
    a = norm(s.start, 0)
    b = norm(s.stop, n)
    return a, b


_ASCII_UP = None


def _case(s, which):
    """upper/lower: uninterpreted, with the axioms that are true of str.upper
    and str.lower on ASCII (stated as an assumption)."""
    if _unchanged_by(s, which):
        return s
    Ctx.cur.abstract.add("str." + which)
    f = uf("str_" + which, z3.StringSort(), z3.StringSort())
    e = f(s.e)
    c = Ctx.cur
    if c is not None:
        c.assumed.add(f"str.{which}: uninterpreted, idempotent, "
                      "length-preserving on ASCII")
        c.add(z3.Length(e) == z3.Length(s.e))
        c.add(f(e) == e)
    if s.parts is not None and any(isinstance(p, str) for p in s.parts):
        return concat(*[getattr(p, which)() if isinstance(p, (str, SStr))
                        else int_to_str(p) for p in s.parts])
    r = SStr(e)
    return r


def _unchanged_by(s, which):
    """Are all characters of s ASCII, and none of the other case?"""
    if isinstance(s, SInt):
        return True
    if isinstance(s, str):
        return s.isascii() and getattr(s, which)() == s
    if s.parts is not None and not (len(s.parts) == 1 and s.parts[0] is s):
        return all(_unchanged_by(p, which) for p in s.parts)
    if s.tag is not None and s.tag[0] == "sub":
        return _unchanged_by(s.tag[1], which)
    a, b = ("\x60", "\x7b") if which == "upper" else ("\x40", "\x5b")
    return Ctx.cur.must_about(z3.InRe(s.e, z3.Star(z3.Union(
        z3.Range("\x00", a), z3.Range(b, "\x7f")))), s.e)


def _strip_parts(s, cs, left, right):
    """Strip a text made of pieces whose ends are known; None if unknown."""
    parts = list(s.parts if s.parts is not None else [s])
    c = Ctx.cur
    cls = z3.Union(*[z3.Re(x) for x in cs]) if len(cs) > 1 else z3.Re(cs)
    full = z3.Full(z3.ReSort(z3.StringSort()))
    for on, i in ((left, 0), (right, -1)):
        while on and parts:
            p = parts[i]
            if isinstance(p, str):
                q = p.lstrip(cs) if i == 0 else p.rstrip(cs)
                if q:
                    parts[i] = q
                    break
                del parts[i]
            elif isinstance(p, SInt):
                if set(cs) & set("-0123456789"):
                    return None
                break
            else:
                if not c.must_about(z3.Not(z3.InRe(p.e, z3.Concat(
                        *((cls, full) if i == 0 else (full, cls))))), p.e):
                    return None
                if len(parts) > 1 and c.branch(p.e == z3.StringVal("")):
                    del parts[i]
                    continue
                break
    return concat(*[int_to_str(q) if isinstance(q, SInt) else q
                    for q in parts])


def _strip(s, chars, left, right):
    cs = " \t\n\r\x0b\x0c" if chars is None else chars
    r = _strip_parts(s, cs, left, right)
    if r is not None:
        return r
    tagname = "strip_%s%s_%s" % ("l" if left else "", "r" if right else "",
                                 "ws" if chars is None else
                                 "".join("%02x" % ord(c) for c in chars))
    f = uf("str_" + tagname, z3.StringSort(), z3.StringSort())
    e = f(s.e)
    c = Ctx.cur
    c.assumed.add("str.strip: result is the maximal substring without the "
                  "stripped characters at the ends (ASCII whitespace)")
    cls = z3.Union(*[z3.Re(x) for x in cs]) if len(cs) > 1 else z3.Re(cs)
    pre = z3.String(c.fresh("pre")) if left else z3.StringVal("")
    post = z3.String(c.fresh("post")) if right else z3.StringVal("")
    c.add(s.e == z3.Concat(pre, e, post))
    if left:
        c.add(z3.InRe(pre, z3.Star(cls)))
        for x in cs:
            c.add(z3.Not(z3.PrefixOf(z3.StringVal(x), e)))
    if right:
        c.add(z3.InRe(post, z3.Star(cls)))
        for x in cs:
            c.add(z3.Not(z3.SuffixOf(z3.StringVal(x), e)))
    return SStr(e)


def seq_repeat(o, n):
    if isinstance(n, SInt):
        if isinstance(o, (str, bytes)) and len(o) == 0:
            return o
        if isinstance(o, (list, tuple)) and len(o) == 1:
            return SSeq(max0(n), lambda i, x=o[0]: x)
        raise Unsupported("symbolic repetition")
    if isinstance(o, SStr):
        return concat(*([o] * n))
    return o * n


def max0(n):
    if Ctx.cur.must(n.e >= 0):
        return n
    return mkint(z3.If(n.e >= 0, n.e, z3.IntVal(0)))


# ------------------------------------------- sequences of symbolic length
class SSeq(Sym):
    """Immutable sequence: symbolic length n and elem(i) -> value."""
    __slots__ = ("n", "elem", "kind", "name")

    def __init__(self, n, elem, kind=list, name="seq"):
        self.n, self.elem, self.kind, self.name = n, elem, kind, name

    __hash__ = Sym.__hash__

    def length(self):
        return self.n

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        raise Unsupported("native len of symbolic sequence")

    def __bool__(self):
        return bool(self.n > 0)

    def getitem(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("strided symbolic slice")
            a, b = slice_bounds(i, self.n)
            ln = b - a
            if isinstance(ln, SInt):
                ln = ln if ln >= 0 else 0
            else:
                ln = max(0, ln)
            return SSeq(ln, lambda k, f=self.elem, a=a: f(k + a), self.kind,
                        self.name)
        if not is_intlike(i):
            raise TypeError("list indices must be integers or slices")
        if i < 0:
            i = i + self.n
            if i < 0:
                raise IndexError("list index out of range")
        if not (i < self.n):
            raise IndexError("list index out of range")
        return self.elem(i)

    def __iter__(self):
        # bounded enumeration is not a proof: only concrete lengths iterate
        if isinstance(self.n, int):
            return iter([self.elem(i) for i in range(self.n)])
        raise Unsupported("native iteration over symbolic sequence "
                          f"({self.name})")

    def __eq__(self, o):
        raise Unsupported("== of symbolic sequences")

    def index(self, x):
        raise Unsupported("index in symbolic sequence")


def contains_sym(v, depth=4):
    if isinstance(v, Sym) or isinstance(v, SymObj):
        return True
    if depth <= 0:
        return False
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(contains_sym(x, depth - 1) for x in v)
    if isinstance(v, dict):
        return any(contains_sym(x, depth - 1) for x in v.values())
    if type(v).__name__ == "MultiDict":
        return any(contains_sym(x, depth - 1) for x in v.values())
    return False


class SymObj:
    """Base for engine-side stand-ins of mutable library objects (files,
    arrays, mappings with symbolic content)."""

    def __getattr__(self, name):
        t = getattr(type(self), "pytype", None)
        if t is not None and not name.startswith("__") and hasattr(t, name):
            raise Unsupported(f"attribute {name} of symbolic {t.__name__}")
        raise AttributeError(f"'{type(self).__name__}' object has no "
                             f"attribute '{name}'")


class SymSet(SymObj):
    """A set whose members may be symbolic; membership forks."""

    def __init__(self, it=()):
        self.items = []
        for x in it:
            self.add(x)

    def add(self, x):
        for y in self.items:
            if x is y:
                return
            if x == y:
                return
        self.items.append(x)

    def length(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)

    def __bool__(self):
        return bool(self.items)

    def contains(self, x):
        return any(x is y or bool(x == y) for y in self.items)

    def union(self, *os):
        s = SymSet(self.items)
        for o in os:
            for x in o:
                s.add(x)
        return s

    __or__ = union
