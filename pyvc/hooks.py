"""Run-time hooks called by instrumented code."""
import builtins
import collections
import functools
import itertools

from multidict import MultiDict
import math
import operator
import re
import types
import warnings
from collections.abc import Mapping
from pathlib import PurePath

from .core import z3, Ctx, Control, PathKill, Speculation, Unsupported
from .values import (
    Sym, SymObj, SBool, SInt, SReal, SStr, SSeq, SymSet, And, Or, bnot, mkbool,
    mkint, mkreal, mkstr, int_expr, real_expr, str_expr, int_to_str, concat,
    contains_sym, truth, to_bool_expr, uf, slice_bounds, is_intlike,
    is_reallike, bnot, seq_repeat,
)
from .aname import Name, Maybe

_slice = builtins.slice
MODELS = {}        # callable -> model (used when symbolic arguments occur)
ALWAYS = set()     # callables whose model is always used
SAFE = set()       # natives that never inspect element values
METHODS = {}       # (type, method name) -> model(self, *a, **k)
SAFE_METHODS = {
    (list, n) for n in ("append", "extend", "insert", "copy", "clear",
                        "reverse")
} | {(dict, n) for n in ("items", "keys", "values", "copy", "update",
                         "setdefault", "clear")} \
  | {(set, n) for n in ("copy", "clear")}


def slice(a, b, c):
    return _slice(a, b, c)


def pytype(v):
    if isinstance(v, SBool):
        return bool
    if isinstance(v, SInt):
        return int
    if isinstance(v, SReal):
        return float
    if isinstance(v, SStr):
        return str
    if isinstance(v, SSeq):
        return v.kind
    if isinstance(v, SymSet):
        return set
    if isinstance(v, (SymObj, Name)):
        return getattr(v, "pytype", type(v))
    return type(v)


def model(*fs, always=False):
    def deco(m):
        for f in fs:
            MODELS[f] = m
            if always:
                ALWAYS.add(f)
        return m
    return deco


def not_(a):
    return bnot(truth(a)) if isinstance(a, (Sym, Maybe)) else (not a)


def boolop(conj, *fs):
    """`a and b` / `a or b` given as thunks.  Where the contract asks for it
    (vc.merge()) and the operands are plain conditions that can be evaluated
    without deciding anything or raising, the result is one condition instead
    of a fork per operand."""
    c = Ctx.cur
    n = len(fs)
    for i, f in enumerate(fs):
        v = f()
        if i == n - 1:
            return v
        if c is not None and c.merge and isinstance(v, (SBool, Maybe)):
            out = _speculate(c, fs[i + 1:])
            if out is not None:
                return (And if conj else Or)(truth(v), *out)
        if isinstance(v, Maybe) or isinstance(v, Sym):
            t = bool(truth(v))
        else:
            t = bool(v)
        if t != conj:
            return v
    return v


def _speculate(c, fs):
    held, c.nofork = c.nofork, True
    try:
        out = [f() for f in fs]
        if not all(isinstance(v, (bool, SBool, Maybe)) for v in out):
            return None
        return [truth(v) for v in out]
    except (Exception, Speculation):
        return None
    finally:
        c.nofork = held


def star(x):
    """*x: a symbolic collection is handed on whole (callee models know)"""
    if Ctx.cur is not None and isinstance(x, SymObj) and hasattr(
            type(x), "vc_star"):
        return x.vc_star()
    return x


def dstar(x):
    if Ctx.cur is not None and isinstance(x, SymObj) and hasattr(
            type(x), "vc_dstar"):
        return x.vc_dstar()
    return x


def is_(a, b):
    if type(a) is Unset or type(b) is Unset:
        (a if type(a) is Unset else b)._no()
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Maybe):
            return x.isnone() if y is None else x is y
        if isinstance(x, SBool):
            if isinstance(y, (bool, SBool)):
                return x == y
            return False
        if isinstance(x, Sym) and x is not y:
            if y is None or isinstance(y, (bool, type)):
                return False
            if isinstance(y, (Sym, str, int, float)):
                raise Unsupported("identity of symbolic values")
            return False
    return a is b


def fstr(*parts):
    if Ctx.cur is None or not any(
            isinstance(p, tuple) and (isinstance(p[0], (Sym, SymObj))
                                      or contains_sym(p[0])) for p in parts):
        out = []
        for p in parts:
            out.append(p if isinstance(p, str) else _fmt(*p))
        return "".join(out)
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if isinstance(v, (SStr, SInt)) and spec == "" and conv in (-1, 115):
            out.append(v if isinstance(v, SStr) else int_to_str(v))
        elif isinstance(v, (Sym, SymObj)) or contains_sym(v):
            # opaque text (messages)
            out.append(SStr(z3.String(Ctx.cur.fresh("fmt"))))
        else:
            out.append(_fmt(*p))
    return concat(*out)


def _fmt(v, conv, spec):
    if conv == 114:
        v = repr(v)
    elif conv == 115:
        v = str(v)
    elif conv == 97:
        v = ascii(v)
    return format(v, spec)


# ------------------------------------------------------------ containment
def eq(a, b):
    """a == b without forking where possible."""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        return And(*[eq(x, y) for x, y in zip(a, b)])
    r = a == b
    return r


def contains(container, item):
    if Ctx.cur is None:
        return item in container
    if isinstance(container, (SStr, SymSet)) or (
            isinstance(container, (SymObj, Sym))
            and hasattr(type(container), "contains")):
        return container.contains(item)
    if isinstance(container, SSeq):
        raise Unsupported("membership in symbolic sequence")
    if isinstance(container, str):
        if isinstance(item, SStr):
            return mkbool(z3.Contains(z3.StringVal(container), item.e))
        if isinstance(item, Name):
            return item.test("part", container)
        return item in container
    if isinstance(container, (Sym, SymObj)):
        raise Unsupported(f"membership in {type(container).__name__}")
    if contains_sym(item) or (
            isinstance(container, (list, tuple, set, frozenset))
            and contains_sym(container)):
        if type(container).__name__ == "MultiDict":
            container = list(container.keys())
        return Or(*[x is item or eq(x, item) for x in container])
    return item in container


# ------------------------------------------------------------- subscripting
def getitem(o, i):
    if Ctx.cur is None:
        return o[i]
    if isinstance(o, (Sym, SymObj)):
        if hasattr(type(o), "getitem"):
            return o.getitem(i)
        return o[i]
    if isinstance(i, _slice):
        if contains_sym((i.start, i.stop, i.step)):
            if not isinstance(o, (list, tuple, str, bytes)):
                raise Unsupported(f"symbolic slice of {type(o).__name__}")
            if i.step not in (None, 1):
                raise Unsupported("symbolic strided slice")
            n = len(o)
            a, b = slice_bounds(i, n)
            return o[_concretize(a, n + 1):_concretize(b, n + 1)]
        return o[i]
    if isinstance(i, Sym) or contains_sym(i):
        if isinstance(o, (Mapping,)) or type(o).__name__ == "MultiDict" or \
                isinstance(o, types.MappingProxyType):
            for k in o.keys():
                if truth_fork(eq(k, i)):
                    return o[k]
            raise KeyError(i)
        if isinstance(o, (list, tuple, str, range, bytes)):
            if not is_intlike(i):
                raise TypeError("indices must be integers or slices")
            if i < 0:
                i = i + len(o)
            if i < 0 or i >= len(o):
                raise IndexError("index out of range")
            return o[_concretize(i, len(o))]
        raise Unsupported(f"symbolic index into {type(o).__name__}")
    return o[i]


def truth_fork(b):
    return bool(b)


def _concretize(i, n):
    if not isinstance(i, Sym):
        return i
    for j in range(n):
        if i == j:
            return j
    raise PathKill("concretize")


# -------------------------------------------------------------------- loops
def loop(it, qual, k, sets=()):
    c = Ctx.cur
    if c is None:
        return it
    if isinstance(it, SymObj) and hasattr(type(it), "vc_loop"):
        it = it.vc_loop()
    if isinstance(it, SymObj) and hasattr(type(it), "vc_seq"):
        it = it.vc_seq()
    if isinstance(it, (SSeq, SymObj)) and not isinstance(it, SymSet):
        inv = c.invariants.get((qual, k))
        n = it.length() if hasattr(type(it), "length") else None
        if isinstance(n, int):
            return iter([it.getitem(j) for j in range(n)])
        if inv is None and hasattr(type(it), "vc_iter"):
            return it.vc_iter()
        if inv is None:
            auto = c.invariants.get((qual.split(".")[-1], "*"))
            if auto is None:
                raise Unsupported(
                    f"loop {k} of {qual} over a sequence of symbolic length "
                    "without invariant")
            inv = auto
        import sys
        return inv.run(it, sys._getframe(1), f"{qual}#{k}", sets)
    return it


def whiles(qual, k, sets=()):
    """for _ in whiles(...): if not test: break; ..."""
    c = Ctx.cur
    inv = c.invariants.get((qual, f"w{k}")) if c is not None else None
    if inv is None:
        return itertools.repeat(None)
    import sys
    return inv.run(sys._getframe(1), f"{qual}#w{k}", sets)


def comp(it):
    if isinstance(it, (SSeq, SymObj)) and not isinstance(it, SymSet) \
            and Ctx.cur is not None:
        n = it.length() if hasattr(type(it), "length") else None
        if isinstance(n, int):
            return iter([it.getitem(j) for j in range(n)])
        if hasattr(it, "vc_iter"):
            return it.vc_iter()
        raise Unsupported("comprehension over a sequence of symbolic length")
    return it


def listcomp(it, f, unpack):
    """[f(x) for x in it]; a sequence of symbolic length maps lazily."""
    if unpack is not None:
        g = f

        def f(x):
            x = tuple(x)
            if len(x) != unpack:
                raise ValueError("cannot unpack")
            return g(*x)
    if isinstance(it, SymObj) and hasattr(type(it), "vc_seq"):
        return it.vc_seq().vc_map(f)
    if Ctx.cur is not None and isinstance(it, SSeq) and not isinstance(
            it.length(), int):
        return SSeq(it.n, lambda i: f(it.elem(i)), list, "listcomp")
    if Ctx.cur is not None and isinstance(it, SymList) and not isinstance(
            it.length(), int):
        return SSeq(it.n, lambda i: f(it.elem(i)), list, "listcomp")
    return [f(x) for x in comp(it)]


class SymList(SymObj):
    """Mutable list of symbolic length (n, elem)."""
    pytype = list

    def __init__(self, n=0, elem=None):
        self.n, self.elem = n, elem

    def length(self):
        return self.n

    def append(self, x):
        n, f = self.n, self.elem
        if isinstance(n, int) and n == 0:
            self.n, self.elem = 1, lambda i: x
            return
        self.elem = lambda i: V_ite(i == n, x, lambda: f(i))
        self.n = n + 1

    def extend(self, xs):
        if isinstance(xs, (SSeq, SymList)):
            n, f, m, g = self.n, self.elem, xs.length(), xs.elem
            self.elem = lambda i: V_ite(i < n, lambda: f(i),
                                        lambda: g(i - n))
            self.n = n + m
        else:
            for x in xs:
                self.append(x)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __add__(self, xs):
        r = SymList(self.n, self.elem)
        r.extend(xs)
        return r

    def getitem(self, i):
        return SSeq(self.n, self.elem).getitem(i)

    def vc_same(self, o):
        if isinstance(o, (list, tuple)):
            if not isinstance(self.n, int):
                c = self.n == len(o)
                if not bool(c):
                    return False
            elif self.n != len(o):
                return False
            return And(*[vc_same(self.elem(i), x) for i, x in enumerate(o)])
        if not isinstance(o, (SSeq, SymList)):
            return False
        j = mkint(z3.Int(Ctx.cur.fresh("j")))
        Ctx.cur.assume(to_bool_expr(And(j >= 0)))
        inr = And(j < self.n, j < o.length())
        same_n = self.n == o.length()
        if not isinstance(inr, bool) and bool(inr):
            return And(same_n, vc_same(self.elem(j), o.elem(j)))
        return same_n


def V_ite(c, a, b):
    """a/b may be thunks; forks when the branches are not mergeable."""
    t = (lambda x: x() if callable(x) and not isinstance(x, (Sym, SymObj))
         else x)
    if isinstance(c, bool):
        return t(a) if c else t(b)
    return t(a) if bool(c) else t(b)


class Unset(SymObj):
    """a local about which the invariant of a loop says nothing"""

    def __init__(self, loop, name):
        object.__setattr__(self, "what", f"loop {loop}: carries {name!r}, on "
                           "which the invariant is silent")

    def _no(self, *a, **k):
        raise Unsupported(object.__getattribute__(self, "what"))

    def __getattr__(self, k):
        self._no()

    pytype = property(_no)
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = _no
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _no
    __iadd__ = __isub__ = __imul__ = __neg__ = __invert__ = _no
    __truediv__ = __rtruediv__ = __floordiv__ = __rfloordiv__ = _no
    __mod__ = __rmod__ = __and__ = __or__ = __rand__ = __ror__ = _no
    __getitem__ = __setitem__ = __len__ = __iter__ = __contains__ = _no
    __call__ = __hash__ = __str__ = __repr__ = __index__ = _no


class Invariant:
    """Functional loop invariant: state(entry_locals, i, seq) -> {var: value}
    gives the value of every modified local at the start of iteration i.
    Establishment, preservation are obligations; after the loop the state at n
    holds."""

    def __init__(self, state, same=None, requires=None):
        self.state = state
        self.same = same or vc_same
        self.requires = requires

    def run(self, seq, frame, name, sets=()):
        c = Ctx.cur
        c.assumed.add(f"loop {name}: inductive invariant (checked)")
        entry = dict(frame.f_locals)
        n = seq.length()

        def check(i, what):
            want = self.state(entry, i, seq)
            have = frame.f_locals
            for k, v in want.items():
                if k not in have:
                    raise Unsupported(f"loop {name}: no local {k!r}")
                c.obligation(f"inv-{what}:{name}:{k}", self.same(have[k], v))

        check(0, "init")
        if c.branch(z3.Bool(c.fresh("loopiter"))):
            i = mkint(z3.Int(c.fresh("i")))
            c.assume(to_bool_expr(And(i >= 0, i < n)))
            new = self.state(entry, i, seq)
            # what the body assigns and the invariant is silent on has no
            # known value at the start of an iteration
            hidden = {k: Unset(name, k) for k in sets if k not in new
                      and k in frame.f_code.co_varnames}
            self.enter(frame, {**hidden, **new})
            keep = _frame_state({k: v for k, v in entry.items()
                                 if k not in hidden}, new)
            yield seq.elem(i) if isinstance(seq, SSeq) else seq.getitem(i)
            _frame_check(frame, {k: v for k, v in entry.items()
                                 if k not in hidden}, new, keep, name)
            check(i + 1, "step")
            raise PathKill("inductive step done")
        new = self.state(entry, n, seq)
        self.enter(frame, {**{k: Unset(name, k) for k in sets if k not in new
                              and k in frame.f_code.co_varnames}, **new})

    def enter(self, frame, new):
        _set_locals(frame, new)


_MUTABLE = (list, set, dict)


def _frame_state(entry, new):
    out = {}
    for k, v in entry.items():
        if k not in new and isinstance(v, _MUTABLE):
            out[k] = list(v.items()) if isinstance(v, dict) else list(v)
    return out


def _frame_check(frame, entry, new, keep, name):
    """The invariant must speak about every local that the loop carries from
    one iteration to the next."""
    have = frame.f_locals
    for k, v in entry.items():
        if k in new:
            continue
        if k in have and have[k] is not v:
            raise Unsupported(f"loop {name}: carries {k!r}, on which the "
                              "invariant is silent")
        if k in keep:
            now = list(v.items()) if isinstance(v, dict) else list(v)
            if len(now) != len(keep[k]) or any(
                    x is not y and not (isinstance(x, tuple) and all(
                        p is q for p, q in zip(x, y)))
                    for x, y in zip(now, keep[k])):
                raise Unsupported(f"loop {name}: changes {k!r}, on which the "
                                  "invariant is silent")


def vc_same(a, b):
    if hasattr(type(a), "vc_same"):
        return a.vc_same(b)
    if hasattr(type(b), "vc_same"):
        return b.vc_same(a)
    return eq(a, b)


def _set_locals(frame, new):
    import ctypes
    loc = frame.f_locals
    loc.update(new)
    ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(frame),
                                          ctypes.c_int(0))


# -------------------------------------------------------------------- calls
_GEN = (types.GeneratorType, map, filter, zip, enumerate, itertools.chain)


def call(f, /, *a, **k):
    c = Ctx.cur
    if c is None:
        return f(*a, **k)
    if type(f) is functools.partial:
        return call(f.func, *f.args, *a, **{**f.keywords, **k})
    if type(f) is types.MethodWrapperType and f.__name__ == \
            "__getattribute__":
        return f(*a, **k)       # super().__getattribute__: as it is
    try:
        stub = c.stubs.get(f)
    except TypeError:
        stub = None
    if stub is not None:
        return stub(*a, **k)
    if isinstance(f, types.MethodType):
        s = f.__self__
        try:
            st = c.stubs.get(f.__func__)
        except TypeError:
            st = None
        if st is not None:
            return st(s, *a, **k)
        if isinstance(s, (Sym, SymObj)):
            return f(*a, **k)
        if _trusted_py(f.__func__):
            return f(*a, **k)
    elif isinstance(f, types.FunctionType):
        if f in ALWAYS:
            return MODELS[f](*a, **k)
        if _trusted_py(f):
            return f(*a, **k)
    try:
        always = f in ALWAYS
    except TypeError:
        always = False
    if always:
        return MODELS[f](*a, **k)
    if any(isinstance(x, types.GeneratorType) for x in a):
        a = tuple(list(x) if isinstance(x, types.GeneratorType) else x
                  for x in a)
        if isinstance(f, type) and issubclass(f, _GEN):
            return f(*a, **k)
        # re-wrap: natives that need an iterator accept lists
    symargs = contains_sym(a) or contains_sym(k)
    m = None
    try:
        m = MODELS.get(f)
    except TypeError:
        pass
    if m is not None and symargs:
        return m(*a, **k)
    self_ = getattr(f, "__self__", None)
    name = getattr(f, "__name__", None)
    if isinstance(self_, (Sym, SymObj)):
        return f(*a, **k)
    if self_ is itertools.chain:
        if name == "from_iterable" and isinstance(a[0], SSeq) and \
                not isinstance(a[0].n, int):
            return flatten(a[0])
        return f(*a, **k)       # from_iterable: as lazy as the real one
    if self_ is not None and _is_pandas(self_):
        from . import frames
        return frames.method(f, self_, name, a, k)
    if self_ is not None and not isinstance(self_, types.ModuleType):
        selfsym = isinstance(self_, (list, tuple, set, dict)) and \
            contains_sym(self_)
        for t in type(self_).__mro__:
            mm = METHODS.get((t, name))
            if mm is not None and (symargs or selfsym):
                return mm(self_, *a, **k)
            if (t, name) in SAFE_METHODS and not _symkey(t, name, a):
                return f(*a, **k)
        if type(self_).__name__ in ("MultiDict", "MultiDictProxy"):
            return multidict_method(f, self_, name, a, k)
        if symargs or (selfsym and name in ("index", "count", "remove",
                                            "sort", "pop", "get")):
            if name == "pop" and not symargs or name == "get" and not symargs:
                return f(*a, **k)
            raise Unsupported(f"{type(self_).__name__}.{name} with symbolic "
                              "arguments")
        return f(*a, **k)
    if not symargs:
        return f(*a, **k)
    if isinstance(f, type):
        if issubclass(f, BaseException):
            return f(*a, **k)
        if f.__module__ in _instrumented() or f.__module__.startswith(
                ("pyvc", "contracts")):
            return f(*a, **k)
        if f is MultiDict and len(a) == 1 and not k and isinstance(
                a[0], (list, tuple)) and all(
                    isinstance(p, (list, tuple)) and len(p) == 2 and
                    isinstance(p[0], str) for p in a[0]):
            return f(*a)        # pairs of plain keys and any values
    if f in SAFE:
        return f(*a, **k)
    if type(f) is types.MethodDescriptorType and a:
        # str.strip(x), list.append(l, x): the method on its receiver
        from .values import SStr
        if isinstance(a[0], f.__objclass__) or f.__objclass__ is str and \
                isinstance(a[0], SStr):
            return call(getattr(a[0], name), *a[1:], **k)
    raise Unsupported(f"call of {getattr(f, '__module__', '')}."
                      f"{getattr(f, '__qualname__', f)} with symbolic "
                      "arguments")


def flatten(s):
    """The elements of the elements of a sequence of any length, all of which
    are one and the same list."""
    c = Ctx.cur
    old = c.limits
    c.limits = dict(old, depth=-1)      # must not depend on the index
    try:
        x, y = (s.elem(mkint(z3.Int(c.fresh("j")))) for _ in range(2))
    finally:
        c.limits = old
    if x is not y or not isinstance(x, (list, tuple)):
        raise Unsupported("elements of a sequence of any length of lists")
    m = len(x)
    if m == 0:
        return SSeq(0, None, list, "flat")
    if m == 1:
        return SSeq(s.n, lambda i: x[0], list, "flat")

    def elem(i):
        r = i % m
        for j in range(m - 1):
            if truth_fork(r == j):
                return x[j]
        return x[m - 1]
    return SSeq(s.n * m, elem, list, "flat")


def _is_pandas(o):
    t = o if isinstance(o, type) else type(o)
    return (t.__module__ + ".").startswith("pandas.")


def _symkey(t, name, a):
    return t is dict and name == "setdefault" and a and contains_sym(a[0])


def _instrumented():
    from .loader import LOADED
    return LOADED


_PYMODS = ("pyvc.", "contracts.", "contracts", "__main__")


def _trusted_py(f):
    g = getattr(f, "__globals__", None)
    if g is None:
        return False
    if "__vc__" in g:
        return True
    mod = g.get("__name__", "")
    return mod.startswith(("pyvc", "contracts"))


def multidict_method(f, self_, name, a, k):
    if name in ("add", "items", "keys", "values", "copy", "clear"):
        return f(*a, **k)
    if name in ("extend", "update") and not contains_sym(
            [x for x in (a[0].keys() if hasattr(a[0], "keys") else
                         [p[0] for p in a[0]])]):
        return f(*a, **k)
    if a and isinstance(a[0], Sym):
        key = a[0]
        if name in ("get", "getone"):
            for kk in self_.keys():
                if truth_fork(eq(kk, key)):
                    return self_[kk]
            if name == "get":
                return a[1] if len(a) > 1 else k.get("default")
            raise KeyError(key)
        raise Unsupported(f"MultiDict.{name} with symbolic key")
    return f(*a, **k)


# ------------------------------------------------------------ builtin models
@model(isinstance)
def m_isinstance(v, t):
    ts = t if isinstance(t, tuple) else (t,)
    ty = pytype(v)
    out = False
    for x in ts:
        if isinstance(x, tuple):
            out = out or m_isinstance(v, x)
        elif isinstance(x, types.UnionType):
            out = out or m_isinstance(v, x.__args__)
        else:
            out = out or issubclass(ty, x)
    return out


@model(type)
def m_type(v):
    return pytype(v)


@model(len)
def m_len(v):
    if isinstance(v, (Sym, SymObj)):
        if hasattr(type(v), "length"):
            return v.length()
        raise TypeError(f"object of type '{pytype(v).__name__}' has no len()")
    return len(v)


@model(bool)
def m_bool(v=False):
    return truth(v) if isinstance(v, Sym) else bool(v)


@model(int)
def m_int(v=0, base=None, **k):
    if base is not None or k:
        raise Unsupported("int with base")
    if isinstance(v, SInt):
        return v
    if isinstance(v, SBool):
        return v.as_int()
    if isinstance(v, SReal):
        return v.trunc()
    if isinstance(v, SStr):
        c = Ctx.cur
        c.assumed.add("int(str): ValueError unless the text is an integer "
                      "literal; decimal digits give their value")
        S = z3.StringSort()
        p = uf("str_isint", S, z3.BoolSort())(v.e)
        val = uf("str_intval", S, z3.IntSort())(v.e)
        dig = z3.InRe(v.e, z3.Plus(z3.Range("0", "9")))
        c.add(z3.Implies(dig, z3.And(p, val == z3.StrToInt(v.e))))
        c.add(z3.Implies(z3.Length(v.e) == 0, z3.Not(p)))
        if c.branch(p):
            return mkint(val)
        raise ValueError("invalid literal for int()")
    if v is None or isinstance(v, (SSeq, SymObj, list, tuple, dict)):
        raise TypeError("int() argument must be a string, a bytes-like object "
                        "or a real number")
    raise Unsupported("int() of " + type(v).__name__)


@model(float)
def m_float(v=0.0):
    if isinstance(v, SReal):
        return v
    if isinstance(v, (SInt, SBool)):
        return mkreal(real_expr(v))
    if isinstance(v, SStr):
        c = Ctx.cur
        c.assumed.add("float(str): ValueError unless the text is a float "
                      "literal")
        S = z3.StringSort()
        p = uf("str_isfloat", S, z3.BoolSort())(v.e)
        val = uf("str_floatval", S, z3.RealSort())(v.e)
        if c.branch(p):
            return mkreal(val)
        raise ValueError("could not convert string to float")
    if isinstance(v, Name):
        c = Ctx.cur
        if c.branch(z3.Bool(f"{v.label}|isfloat")):
            return mkreal(z3.Real(f"{v.label}|float"))
        raise ValueError("could not convert string to float")
    if v is None or isinstance(v, (SSeq, SymObj, list, tuple, dict)):
        raise TypeError("float() argument")
    raise Unsupported("float() of " + type(v).__name__)


@model(str)
def m_str(v=""):
    if isinstance(v, (SStr, Name)):
        return v
    if isinstance(v, SInt):
        return int_to_str(v)
    if isinstance(v, SymObj) and hasattr(v, "vc_str"):
        return v.vc_str()
    if isinstance(v, SReal):
        return SStr(uf("float_str", z3.RealSort(), z3.StringSort())(v.e))
    return SStr(z3.String(Ctx.cur.fresh("str")))


@model(repr)
def m_repr(v):
    return SStr(z3.String(Ctx.cur.fresh("repr")))


@model(abs)
def m_abs(v):
    return abs(v)


def _minmax(args, k, is_max):
    key = k.pop("key", None)
    has_default = "default" in k
    default = k.pop("default", None)
    if len(args) == 1:
        it = args[0]
        if isinstance(it, SSeq) and not isinstance(it.n, int):
            raise Unsupported("min/max of symbolic sequence")
        args = list(it)
    if not args:
        if has_default:
            return default
        raise ValueError("arg is an empty sequence")
    best = args[0]
    for x in args[1:]:
        kx, kb = (x, best) if key is None else (call(key, x), call(key, best))
        c = kx > kb if is_max else kx < kb
        if key is None and isinstance(c, SBool) and (
                is_intlike(x) or is_reallike(x)) and (
                is_intlike(best) or is_reallike(best)) and not isinstance(
                x, SBool) and not isinstance(best, SBool):
            if is_intlike(x) and is_intlike(best):
                best = mkint(z3.If(c.e, int_expr(x), int_expr(best)))
            else:
                best = mkreal(z3.If(c.e, real_expr(x), real_expr(best)))
        elif c:
            best = x
    return best


model(max)(lambda *a, **k: _minmax(a, k, True))
model(min)(lambda *a, **k: _minmax(a, k, False))


@model(sum, always=True)
def m_sum(it, start=0):
    if isinstance(it, SSeq) and not isinstance(it.n, int):
        raise Unsupported("sum of symbolic sequence")
    out = start
    for x in it:
        out = out + x
    return out


def _merged(conj, it):
    """any/all without a fork per element; an element that raises does so
    only where the elements before it leave the matter open"""
    conds, it = [], iter(_iterof(it))
    while True:
        try:
            x = truth(next(it))
        except StopIteration:
            break
        except (Exception, Unsupported):
            if bool((And if conj else Or)(*conds)) == conj:
                raise
            return not conj
        if isinstance(x, bool):
            if x != conj:
                return not conj
            continue
        conds.append(x)
    return (And if conj else Or)(*conds)


@model(any, always=True)
def m_any(it):
    if isinstance(it, SSeq) and not isinstance(it.n, int):
        raise Unsupported("any over symbolic sequence")
    if isinstance(it, (list, tuple)) and all(
            isinstance(x, (bool, SBool)) for x in it):
        return Or(*it)
    if Ctx.cur is not None and Ctx.cur.merge:
        return _merged(False, it)
    for x in it:
        if x:
            return True
    return False


@model(all, always=True)
def m_all(it):
    if isinstance(it, SSeq) and not isinstance(it.n, int):
        raise Unsupported("all over symbolic sequence")
    if isinstance(it, (list, tuple)) and all(
            isinstance(x, (bool, SBool)) for x in it):
        return And(*it)
    if Ctx.cur is not None and Ctx.cur.merge:
        return _merged(True, it)
    for x in it:
        if not x:
            return False
    return True


def _iterof(x):
    if isinstance(x, SSeq):
        if isinstance(x.n, int):
            return [x.elem(i) for i in range(x.n)]
        raise Unsupported("native iteration over symbolic sequence")
    if isinstance(x, SymObj) and hasattr(x, "vc_iter"):
        return x.vc_iter()
    return x


@model(map, always=True)
def m_map(f, *its):
    if len(its) == 1 and isinstance(its[0], SSeq) and not isinstance(
            its[0].n, int):
        s = its[0]
        return SSeq(s.n, lambda i: call(f, s.elem(i)), list, "map")
    return (call(f, *xs) for xs in zip(*map(_iterof, its)))


@model(filter, always=True)
def m_filter(f, it):
    it = _iterof(it)
    if f is None:
        return (x for x in it if x)
    return (x for x in it if call(f, x))


@model(functools.reduce, always=True)
def m_reduce(f, it, *init):
    it = iter(_iterof(it))
    if init:
        acc = init[0]
    else:
        try:
            acc = next(it)
        except StopIteration:
            raise TypeError("reduce() of empty iterable with no initial value")
    for x in it:
        acc = call(f, acc, x)
    return acc


@model(sorted, always=True)
def m_sorted(it, *, key=None, reverse=False):
    xs = list(_iterof(it))
    if not contains_sym(xs) and not (key is not None and contains_sym(
            [call(key, x) for x in xs])):
        return sorted(xs, key=(None if key is None else
                               (lambda x: call(key, x))), reverse=reverse)
    out = []
    for x in xs:
        kx = x if key is None else call(key, x)
        pos = len(out)
        # stable insertion: place after all elements with key <= kx
        for j in range(len(out)):
            ky = out[j] if key is None else call(key, out[j])
            if (kx > ky) if reverse else (kx < ky):
                pos = j
                break
        out.insert(pos, x)
    return out


@model(range)
def m_range(*a):
    if len(a) == 1:
        lo, hi = 0, a[0]
    elif len(a) == 2 or a[2] == 1:
        lo, hi = a[0], a[1]
    else:
        raise Unsupported("symbolic strided range")
    for x in (lo, hi):
        if not is_intlike(x):
            raise TypeError("'%s' object cannot be interpreted as an integer"
                            % pytype(x).__name__)
    n = hi - lo
    if isinstance(n, SInt):
        n = n if n >= 0 else 0
    else:
        n = max(0, n)
    return SSeq(n, lambda i: lo + i, range, "range")


@model(list)
def m_list(it=()):
    if isinstance(it, SymObj) and hasattr(type(it), "vc_seq"):
        return it.vc_seq().vc_list()
    if isinstance(it, SSeq) and not isinstance(it.n, int):
        return SSeq(it.n, it.elem, list, it.name)
    return list(_iterof(it))


@model(tuple)
def m_tuple(it=()):
    if isinstance(it, SSeq) and not isinstance(it.n, int):
        return SSeq(it.n, it.elem, tuple, it.name)
    return tuple(_iterof(it))


@model(set)
def m_set(it=()):
    if isinstance(it, SymObj) and hasattr(type(it), "vc_set"):
        return it.vc_set()
    return SymSet(_iterof(it))


@model(frozenset)
def m_fset(it=()):
    return SymSet(_iterof(it))


@model(dict)
def m_dict(*a, **k):
    if a and isinstance(a[0], SymObj):
        if hasattr(a[0], "copy"):
            d = a[0].copy()
            if k:
                d.update(k)
            return d
        raise Unsupported("dict() of symbolic object")
    return dict(*a, **k)


@model(zip)
def m_zip(*its, **k):
    if all(isinstance(i, (SSeq, SymList)) for i in its) and not k and any(
            not isinstance(i.length(), int) for i in its):
        n = _minmax([i.length() for i in its], {}, False) if len(its) > 1 \
            else its[0].length()
        return SSeq(n, lambda j: tuple(i.elem(j) for i in its), list, "zip")
    return zip(*map(_iterof, its), **k)


@model(enumerate)
def m_enum(it, start=0):
    if isinstance(it, SSeq) and not isinstance(it.n, int):
        return SSeq(it.n, lambda i: (i + start, it.elem(i)), list, "enumerate")
    return enumerate(_iterof(it), start)


@model(reversed)
def m_reversed(it):
    if isinstance(it, SymObj) and hasattr(type(it), "vc_seq"):
        return it.vc_seq().vc_reversed()
    if isinstance(it, SSeq):
        if not isinstance(it.n, int):
            return SSeq(it.n, lambda i: it.elem(it.n - 1 - i), list,
                        "reversed")
        it = [it.elem(i) for i in range(it.n)]
    return reversed(it)


@model(iter)
def m_iter(it):
    if isinstance(it, (list, tuple, dict)):
        return iter(it)
    if isinstance(it, SymSet):
        return iter(it)
    if isinstance(it, SymObj) and hasattr(it, "vc_iter"):
        return it.vc_iter()
    raise Unsupported("iter() of symbolic")


@model(round)
def m_round(v, nd=None):
    if isinstance(v, SInt):
        return v
    if isinstance(v, SReal) and nd is None:
        n = z3.ToInt(v.e + z3.Q(1, 2))      # halves to the even neighbour
        return mkint(z3.If(z3.And(z3.ToReal(n) == v.e + z3.Q(1, 2),
                                  n % 2 != 0), n - 1, n))
    raise Unsupported("round of symbolic")


@model(divmod)
def m_divmod(a, b):
    return a // b, a % b


@model(hasattr)
def m_hasattr(o, n):
    return hasattr(o, n)


@model(getattr)
def m_getattr(o, n, *d):
    return getattr(o, n, *d)


SAFE |= {print, id, warnings.warn, setattr, next, itertools.chain,
         itertools.product, itertools.zip_longest, itertools.islice,
         itertools.repeat, itertools.accumulate, functools.partial,
         callable, operator.add, operator.mul, operator.sub, operator.eq,
         operator.truediv, operator.floordiv, operator.lt, operator.gt,
         collections.deque, _slice}


@model(operator.contains, always=True)
def m_op_contains(a, b):
    return contains(a, b)


@model(operator.getitem, always=True)
def m_op_getitem(a, b):
    return getitem(a, b)


@model(math.floor)
def m_floor(v):
    return v.floor() if isinstance(v, SReal) else v


@model(math.ceil)
def m_ceil(v):
    return v.ceil() if isinstance(v, SReal) else v


@model(math.prod)
def m_prod(it, start=1):
    out = start
    for x in it:
        out = out * x
    return out


@model(math.isnan, math.isinf)
def m_isnan(v):
    return False


@model(warnings.warn, always=True)
def m_warn(*a, **k):
    return None


# ------------------------------------------------------- builtin methods
def _m(t, n):
    def deco(f):
        METHODS[(t, n)] = f
        return f
    return deco


def str_join(sep, it):
    if isinstance(it, SSeq) and not isinstance(it.n, int):
        Ctx.cur.abstract.add("str.join")
        return SStr(z3.String(Ctx.cur.fresh("joined")))
    out = []
    for i, x in enumerate(_iterof(it)):
        if not isinstance(x, (str, SStr)):
            raise TypeError("sequence item %d: expected str instance" % i)
        if i:
            out.append(sep)
        out.append(x)
    return concat(*out)


METHODS[(str, "join")] = str_join


def str_cut(s, sep):
    """(text before, text after) the first occurrence of sep, or None."""
    if not isinstance(sep, str) or not sep:
        raise Unsupported("symbolic separator")
    c = Ctx.cur
    parts = s.parts if s.parts is not None else [s]
    before = []
    for k, p in enumerate(parts):
        if isinstance(p, SInt):
            if set(sep) & set("-0123456789"):
                break
            before.append(int_to_str(p))
            continue
        if isinstance(p, str):
            if sep in p:
                a, b = p.split(sep, 1)
                return (concat(*before, a), concat(b, *[
                    int_to_str(q) if isinstance(q, SInt) else q
                    for q in parts[k + 1:]]))
        elif not c.must_about(z3.Not(z3.Contains(
                p.e, z3.StringVal(sep))), p.e) and c.branch(
                z3.Contains(p.e, z3.StringVal(sep))):
            i = z3.IndexOf(p.e, z3.StringVal(sep), 0)
            n = z3.Length(p.e)
            a = SStr(z3.SubString(p.e, 0, i))
            b = SStr(z3.SubString(p.e, i + len(sep), n - i - len(sep)))
            c.add(p.e == z3.Concat(a.e, z3.StringVal(sep), b.e))
            return (concat(*before, a), concat(b, *[
                int_to_str(q) if isinstance(q, SInt) else q
                for q in parts[k + 1:]]))
        before.append(p)
    else:
        if len(sep) == 1 or len(parts) == 1:
            return None
    if c.branch(z3.Contains(s.e, z3.StringVal(sep))):
        raise Unsupported("separator across pieces of text")
    return None


def str_split(s, sep=None, maxsplit=-1):
    if sep is None:
        raise Unsupported("split of symbolic str at whitespace")
    out = []
    while maxsplit < 0 or len(out) < maxsplit:
        if not isinstance(s, SStr):
            return out + s.split(sep, maxsplit - len(out)
                                 if maxsplit >= 0 else -1)
        r = str_cut(s, sep)
        if r is None:
            break
        if len(out) > 8:
            raise Unsupported("split of symbolic str")
        out.append(r[0])
        s = r[1]
    return out + [s]


@_m(str, "startswith")
def _(s, p, *a):
    if a:
        raise Unsupported("startswith bounds")
    if isinstance(p, tuple):
        return Or(*[_sw(s, q) for q in p])
    return _sw(s, p)


def _sw(s, p):
    return mkbool(z3.PrefixOf(str_expr(p), str_expr(s)))


@_m(str, "endswith")
def _(s, p, *a):
    if isinstance(p, tuple):
        return Or(*[mkbool(z3.SuffixOf(str_expr(q), str_expr(s))) for q in p])
    return mkbool(z3.SuffixOf(str_expr(p), str_expr(s)))


@_m(str, "replace")
def _(s, a, b, *c):
    return SStr(z3.StringVal(s)).replace(a, b, *c)


@_m(str, "format")
def _(s, *a, **k):
    return SStr(z3.String(Ctx.cur.fresh("fmt")))


@_m(str, "find")
def _(s, a, *b):
    return SStr(z3.StringVal(s)).find(a, *b)


@_m(dict, "get")
def _(d, key, default=None):
    if isinstance(key, Sym) or contains_sym(key):
        for k in d:
            if truth_fork(eq(k, key)):
                return d[k]
        return default
    return d.get(key, default)


@_m(dict, "pop")
def _(d, key, *default):
    if isinstance(key, Sym):
        raise Unsupported("dict.pop symbolic key")
    return d.pop(key, *default)


@_m(types.MappingProxyType, "get")
def _(d, key, default=None):
    if isinstance(key, Sym):
        for k in d:
            if truth_fork(eq(k, key)):
                return d[k]
        return default
    return d.get(key, default)


@_m(list, "index")
def _(l, x, *a):
    if a:
        raise Unsupported("index with bounds")
    for i, y in enumerate(l):
        if y is x or truth_fork(eq(y, x)):
            return i
    raise ValueError("x not in list")


METHODS[(tuple, "index")] = METHODS[(list, "index")]


@_m(list, "count")
def _(l, x):
    n = 0
    for y in l:
        b = eq(y, x)
        n = n + (b.as_int() if isinstance(b, SBool) else int(b))
    return n


METHODS[(tuple, "count")] = METHODS[(list, "count")]


@_m(list, "remove")
def _(l, x):
    for i, y in enumerate(l):
        if truth_fork(eq(y, x)):
            del l[i]
            return
    raise ValueError("list.remove(x): x not in list")


@_m(list, "pop")
def _(l, *a):
    if a and isinstance(a[0], Sym):
        raise Unsupported("list.pop symbolic index")
    return l.pop(*a)


@_m(set, "union")
def _(s, *o):
    return SymSet(s).union(*o)


@_m(set, "add")
def _(s, x):
    raise Unsupported("adding a symbolic value to a concrete set")


# ------------------------------------------------------------------- regex
def _re_uf(kind, pattern, flags, s):
    name = f"re_{kind}_{pattern}_{int(flags)}"
    return uf(name, z3.StringSort(), z3.BoolSort())(s.e)


class SymMatch(SymObj):
    pytype = re.Match

    def __init__(self, key, s):
        self.key, self.s = key, s

    def group(self, *a):
        outs = []
        Ctx.cur.abstract.add("re groups")
        for g in (a or (0,)):
            outs.append(mkstr(uf(f"{self.key}_g{g}", z3.StringSort(),
                                 z3.StringSort())(self.s.e)))
        return outs[0] if len(outs) == 1 else tuple(outs)

    def groups(self):
        raise Unsupported("match.groups")

    def __bool__(self):
        return True


def _simple_alt(pattern, flags):
    """A pattern that is a plain alternation of literals, else None."""
    if flags & ~re.UNICODE:
        return None
    alts = pattern.split("|")
    if all(a and re.escape(a).replace("\\_", "_").replace("\\-", "-") == a
           or a.isalnum() for a in alts) and not re.search(
               r"[\\.\[\](){}*+?^$]", pattern):
        return alts
    return None


def re_match(kind, pattern, s, flags=0):
    if isinstance(pattern, re.Pattern):
        flags = pattern.flags & ~re.UNICODE
        pattern = pattern.pattern
    if isinstance(pattern, Sym):
        raise Unsupported("symbolic regex")
    if isinstance(s, Name):
        return Maybe(truth(s.match(kind, pattern, flags)))
    if not isinstance(s, SStr):
        if isinstance(s, str):
            return getattr(re, kind)(pattern, s, flags)
        raise TypeError("expected string or bytes-like object")
    c = Ctx.cur
    alts = _simple_alt(pattern, flags)
    if alts is not None:
        op = {"search": lambda a: z3.Contains(s.e, z3.StringVal(a)),
              "match": lambda a: z3.PrefixOf(z3.StringVal(a), s.e),
              "fullmatch": lambda a: s.e == z3.StringVal(a)}[kind]
        cond = z3.Or(*[op(a) for a in alts])
    else:
        from .regex import to_z3
        rx = to_z3(pattern, flags, kind)
        if rx is not None:
            cond = z3.InRe(s.e, rx)
        else:
            c.abstract.add("re." + kind)
            c.assumed.add(f"re.{kind}({pattern!r}): uninterpreted predicate "
                          "of the text")
            cond = _re_uf(kind, pattern, flags, s)
    if c.branch(cond):
        return SymMatch(f"re_{kind}_{pattern}_{int(flags)}", s)
    return None


MODELS[re.search] = lambda p, s, flags=0: re_match("search", p, s, flags)
MODELS[re.match] = lambda p, s, flags=0: re_match("match", p, s, flags)
MODELS[re.fullmatch] = lambda p, s, flags=0: re_match("fullmatch", p, s, flags)
METHODS[(re.Pattern, "search")] = lambda p, s: re_match("search", p, s)
METHODS[(re.Pattern, "match")] = lambda p, s: re_match("match", p, s)
METHODS[(re.Pattern, "fullmatch")] = lambda p, s: re_match("fullmatch", p, s)


@model(re.sub)
def m_sub(p, r, s, *a, **k):
    c = Ctx.cur
    if not isinstance(s, SStr) or isinstance(r, Sym) or callable(r):
        raise Unsupported("re.sub with symbolic pattern")
    c.abstract.add("re.sub")
    c.assumed.add(f"re.sub({p!r}): uninterpreted text function")
    return SStr(uf(f"re_sub_{p}_{r}", z3.StringSort(), z3.StringSort())(s.e))


METHODS[(re.Pattern, "sub")] = lambda p, r, s, *a: m_sub(p.pattern, r, s)


@model(re.split)
def m_resplit(p, s, *a, **k):
    raise Unsupported("re.split of symbolic text")


def in_(item, container):
    return contains(container, item)


try:
    from more_itertools import split_before as _split_before
except ImportError:  # pragma: no cover
    _split_before = None

if _split_before is not None:
    @model(_split_before)
    def m_split_before(it, pred, maxsplit=-1):
        """more_itertools.split_before over a concrete number of items"""
        if maxsplit != -1 or isinstance(it, Sym):
            raise Unsupported("split_before")
        out, buf = [], []
        for x in it:
            if truth(call(pred, x)) and buf:
                out.append(buf)
                buf = []
            buf.append(x)
        if buf:
            out.append(buf)
        return out
