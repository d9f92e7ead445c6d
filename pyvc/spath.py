"""Symbolic paths and directory listings (contracts of pathlib)."""
import pathlib

from .core import z3, Ctx, Unsupported
from .values import (Sym, SymObj, SSeq, SStr, SInt, And, Or, mkbool, mkint,
                     int_expr, to_bool_expr, concat)
from . import hooks as H


class PSeq(SSeq):
    """A sequence of symbolic length that keeps universal facts about its
    elements and instantiates them at every index that is looked at."""
    __slots__ = ("points", "univ")

    def __init__(self, n, elem, kind=list, name="pseq"):
        self.points, self.univ = [], []
        super().__init__(n, elem, kind, name)

    def note(self, i):
        e = int_expr(i)
        if any(p.eq(e) for p in self.points):
            return
        self.points.append(e)
        for u in list(self.univ):
            Ctx.cur.add(u(e))

    def add_universal(self, u):
        self.univ.append(u)
        for p in list(self.points):
            Ctx.cur.add(u(p))


def _pure(f, x):
    """f(x) as a formula, without forking"""
    c = Ctx.cur
    old = c.limits
    c.limits = dict(old, depth=-1)
    try:
        return to_bool_expr(H.call(f, x))
    finally:
        c.limits = old


def sym_filter(f, s):
    """filter() over a sequence of symbolic length: the kept elements are
    src[g(0)], src[g(1)], ... with g strictly increasing, every kept element
    satisfying f and every element satisfying f kept."""
    c = Ctx.cur
    I = z3.IntSort()
    m = z3.Int(c.fresh("kept"))
    g = z3.Function(c.fresh("keptidx"), I, I)
    h = z3.Function(c.fresh("keptpos"), I, I)
    n = int_expr(s.n)
    c.add(z3.And(m >= 0, m <= n))
    s.note(mkint(g(z3.IntVal(0))))
    J = z3.Int(c.fresh("any"))
    body = _pure(f, s.elem(mkint(J)))      # now: f may close over a variable

    def P(i):
        s.elem(mkint(i))
        return z3.substitute(body, (J, i))

    def fact(i):
        p = z3.And(i >= 0, i < n, P(i))
        return z3.Implies(p, z3.And(h(i) >= 0, h(i) < m, g(h(i)) == i,
                                    g(0) <= i))
    s.add_universal(fact)
    out = PSeq(mkint(m), lambda k: s.elem(mkint(g(int_expr(k)))), list,
               "filtered")

    def kept(k):
        gk = g(k)
        s.note(mkint(gk))
        return z3.Implies(z3.And(k >= 0, k < m), z3.And(
            gk >= 0, gk < n, P(gk), h(gk) == k))
    out.add_universal(kept)
    base = out.elem

    def elem(k):
        out.note(k)
        return base(k)
    out.elem = elem
    out.note(0)
    return out


_old_filter = H.MODELS[filter]


def m_filter(f, it):
    if isinstance(it, PSeq) and f is not None and not isinstance(it.n, int):
        return sym_filter(f, it)
    return _old_filter(f, it)


H.MODELS[filter] = m_filter

from .aname import Name, NamePath  # noqa: E402


class SymPath(SymObj):
    pytype = pathlib.PosixPath

    def __init__(self, text, name, parent=None, exists=None, suffixes=None,
                 stem=None):
        self.text, self.name, self._parent = text, name, parent
        self._exists, self._suffixes, self._stem = exists, suffixes, stem

    def vc_str(self):
        return self.text

    def __fspath__(self):
        raise Unsupported("fspath")

    @property
    def parent(self):
        if self._parent is None:
            raise Unsupported("parent of this symbolic path")
        return self._parent

    @property
    def suffixes(self):
        if self._suffixes is None:
            raise Unsupported("suffixes of this symbolic path")
        return list(self._suffixes)

    @property
    def suffix(self):
        s = self.suffixes
        return s[-1] if s else ""

    def exists(self, **k):
        if self._exists is None:
            raise Unsupported("existence of this symbolic path")
        return self._exists

    is_file = exists

    def absolute(self):
        return self


class SymDir(SymObj):
    pytype = pathlib.PosixPath

    def __init__(self, exists, entries):
        self._exists, self.entries = exists, entries

    def exists(self, **k):
        return self._exists

    is_dir = exists

    def iterdir(self):
        if not self._exists:
            raise FileNotFoundError(2, "No such file or directory")
        return self.entries


_old_path = H.MODELS.get(pathlib.Path)


def _path(*a):
    if len(a) == 1 and isinstance(a[0], (SymPath, SymDir)):
        return a[0]
    if len(a) == 1 and isinstance(a[0], Name):
        return NamePath(a[0])
    raise Unsupported("Path() of a symbolic text")


H.MODELS[pathlib.Path] = _path

try:
    from dustgoggles.structures import listify as _listify

    def _m_listify(x):
        if isinstance(x, (list, tuple, set, frozenset)):
            return list(x)
        if isinstance(x, SSeq):
            return x
        return [x]
    H.MODELS[_listify] = _m_listify
except ImportError:  # pragma: no cover
    pass
