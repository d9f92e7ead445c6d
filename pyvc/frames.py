"""pandas objects with symbolic elements.

Frames and series of object dtype are computed on by the real pandas: its
elementwise arithmetic, comparisons, maxima and null tests apply the Python
operator (or a truth test, which forks the path) to each element.  Whatever
would need the concrete value of a symbolic element (hashing, conversion to a
machine number, formatting) raises Unsupported from the element itself.
"""
import itertools

import numpy as np
import pandas as pd

from . import hooks as H
from .core import Unsupported
from .values import Sym, SInt, SReal, contains_sym


def is_pandas(o):
    return type(o).__module__.startswith("pandas") or (
        isinstance(o, type) and o.__module__.startswith("pandas"))


def has_sym(o):
    if isinstance(o, pd.Series):
        return o.dtype == object and any(contains_sym(x) for x in o.values)
    if isinstance(o, pd.DataFrame):
        return any(has_sym(o.iloc[:, i]) for i in range(o.shape[1]))
    return False


def _as_int(x):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SReal):
        return x.trunc()
    if isinstance(x, float) and x != x:
        raise pd.errors.IntCastingNaNError(
            "Cannot convert non-finite values (NA or inf) to integer")
    return int(x)


def astype(s, dtype, *a, **k):
    if dtype in (object, "object"):
        return s
    if dtype in (int, "int", "int64", np.int64):
        out = s.map(_as_int) if isinstance(s, pd.Series) else s
        return out.astype(object)
    raise Unsupported(f"astype({dtype}) of symbolic elements")


OVERRIDE = {"astype": astype}
OK = {pd.concat, pd.isnull, pd.isna, pd.notna, pd.notnull, pd.DataFrame,
      pd.Series, itertools.groupby, itertools.chain}


def method(f, self_, name, a, k):
    if isinstance(self_, pd.Series) and name in OVERRIDE and has_sym(self_):
        return OVERRIDE[name](self_, *a, **k)
    return f(*a, **k)


H.SAFE.update(x for x in OK)


def _isnan(x, *a, **k):
    if isinstance(x, (SInt, SReal)):
        return False
    raise Unsupported("np.isnan of a symbolic value")


H.MODELS[np.isnan] = _isnan


def _loc_setitem(self, key, value):
    """a column of machine numbers takes symbolic ones as numbers, too"""
    if has_sym(value) or isinstance(value, (SInt, SReal)):
        if isinstance(key, tuple) and len(key) == 2 and isinstance(
                key[1], str) and isinstance(self.obj, pd.DataFrame):
            c = key[1]
            if c in self.obj.columns and self.obj[c].dtype.kind in "iuf":
                self.obj[c] = self.obj[c].astype(object)
        elif isinstance(self.obj, pd.Series) and self.obj.dtype.kind in "iuf":
            raise Unsupported("symbolic elements put in a numeric series")
    return _LOC_SET(self, key, value)


_LOC = type(pd.Series([0]).loc)
_LOC_SET = _LOC.__setitem__
_LOC.__setitem__ = _loc_setitem
