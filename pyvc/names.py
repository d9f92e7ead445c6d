"""Dictionaries and sets of names of arbitrary size.

A set of names is a predicate over strings, a dictionary a predicate plus a
function from strings to (opaque) values, and an ordered dictionary being
iterated an injective sequence of names.  Facts over all names ("none is
missing") are kept aside and instantiated at every name the path mentions."""
from .core import z3, Ctx, Unsupported
from .values import (Sym, SymObj, SInt, SStr, SSeq, mkbool, mkint, str_expr,
                     to_bool_expr)
from . import hooks as H

S, B, I = z3.StringSort(), z3.BoolSort(), z3.IntSort()


class Env:
    """the names a path talks about"""

    def __init__(self):
        self.points, self.univ = [], []

    def point(self, e):
        if any(e.eq(p) for p in self.points):
            return e
        self.points.append(e)
        for u in self.univ:
            Ctx.cur.assume(u(e))
        return e

    def fact(self, u):
        self.univ.append(u)
        for p in self.points:
            Ctx.cur.assume(u(p))


def env():
    c = Ctx.cur
    if not hasattr(c, "name_env"):
        c.name_env = Env()
    return c.name_env


def pred_of(o):
    """membership in o as a predicate over string expressions"""
    if isinstance(o, (NameSet, NameDict, NameTable)):
        return o.frozen()
    if isinstance(o, (list, tuple, set, frozenset, dict)) or type(o) is type(
            {}.keys()):
        es = [str_expr(x) for x in o]
        return lambda e: z3.Or(*[e == x for x in es])
    raise Unsupported(f"set of names from {type(o).__name__}")


class NameSet(SymObj):
    pytype = set

    def __init__(self, pred):
        self._pred = pred

    def frozen(self):
        return self._pred

    def contains(self, x):
        if not isinstance(x, (str, SStr)):
            return False
        return mkbool(self.frozen()(env().point(str_expr(x))))

    def _op(self, os, f):
        p = self.frozen()
        for o in os:
            p = (lambda a, b: lambda e: f(a(e), b(e)))(p, pred_of(o))
        return NameSet(p)

    def difference(self, *os):
        return self._op(os, lambda a, b: z3.And(a, z3.Not(b)))

    def intersection(self, *os):
        return self._op(os, z3.And)

    def union(self, *os):
        return self._op(os, z3.Or)

    def __sub__(self, o):
        return self.difference(o)

    def __and__(self, o):
        return self.intersection(o)

    def __or__(self, o):
        return self.union(o)

    def __rsub__(self, o):
        return NameSet(pred_of(o)).difference(self)

    __rand__, __ror__ = __and__, __or__

    def issubset(self, o):
        return self.difference(o).length() == 0

    __le__ = issubset

    def copy(self):
        return NameSet(self.frozen())

    vc_set = copy

    def isdisjoint(self, o):
        return self.intersection(o).length() == 0

    def length(self):
        """only its being zero is known"""
        p, c = self.frozen(), Ctx.cur
        n = z3.Int(c.fresh("count"))
        w = z3.String(c.fresh("member"))
        c.assume(n >= 0)
        c.assume(z3.Implies(n > 0, p(w)))
        env().point(w)
        env().fact(lambda e: z3.Implies(n == 0, z3.Not(p(e))))
        return mkint(n)

    def __bool__(self):
        return bool(self.length() > 0)

    def vc_iter(self):
        raise Unsupported("iteration over a set of names")

    def vc_str(self):
        return SStr(z3.String(Ctx.cur.fresh("names")))


class View(NameSet):
    """d.keys(): live"""

    def __init__(self, d):
        self.d = d

    def frozen(self):
        return self.d.frozen()


class Answer(SymObj):
    """an opaque value held in a NameDict"""
    pytype = object

    def __init__(self, e):
        self.e = e

    def vc_same(self, o):
        return isinstance(o, Answer) and mkbool(self.e == o.e)


def unwrap(v):
    """the value as a term; concrete objects get a constant each"""
    if isinstance(v, Answer):
        return v.e
    c = Ctx.cur
    table = c.__dict__.setdefault("name_objects", {})
    if id(v) not in table:
        # distinct objects, distinct negative codes; answers are positive
        table[id(v)] = (-len(table) - 1, v)
    return z3.IntVal(table[id(v)][0])


def rewrap(e):
    c = Ctx.cur
    return Answer(e)


class NameDict(SymObj):
    """dict from names to opaque values; `objects` are entries whose value is
    a known Python object."""
    pytype = dict

    def __init__(self, keys, vals, objects=()):
        self._keys, self._vals = keys, vals
        self.objects = dict(objects)

    def frozen(self):
        return self._keys

    def contains(self, k):
        return mkbool(self._keys(env().point(str_expr(k))))

    def keys(self):
        return View(self)

    def value(self, e):
        return self._vals(e)

    def getitem(self, k):
        if isinstance(k, str) and k in self.objects:
            return self.objects[k]
        if not bool(self.contains(k)):
            raise KeyError(k)
        return rewrap(self._vals(str_expr(k)))

    __getitem__ = getitem

    def get(self, k, default=None):
        if isinstance(k, str) and k in self.objects:
            return self.objects[k]
        if not bool(self.contains(k)):
            return default
        return rewrap(self._vals(str_expr(k)))

    def __setitem__(self, k, v):
        e, x = env().point(str_expr(k)), unwrap(v)
        ks, vs = self._keys, self._vals
        if self.objects:
            if not isinstance(k, str):
                for o in list(self.objects):
                    if bool(mkbool(e == z3.StringVal(o))):
                        del self.objects[o]
            else:
                self.objects.pop(k, None)
        self._keys = lambda y: z3.Or(y == e, ks(y))
        self._vals = lambda y: z3.If(y == e, x, vs(y))

    def setdefault(self, k, v=None):
        if not bool(self.contains(k)):
            self[k] = v
        return self.getitem(k)

    def update(self, o=(), **k):
        if isinstance(o, NameDict):
            ks, vs, k2, v2 = self._keys, self._vals, o._keys, o._vals
            self._keys = lambda y: z3.Or(ks(y), k2(y))
            self._vals = lambda y: z3.If(k2(y), v2(y), vs(y))
            self.objects = {**self.objects, **o.objects} if set(
                self.objects) <= set(o.objects) else {}
            return
        for a, b in list(dict(o).items()) + list(k.items()):
            self[a] = b

    def copy(self):
        return NameDict(self._keys, self._vals, self.objects)

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ror__(self, o):
        r = NameDict(lambda e: z3.BoolVal(False), lambda e: z3.IntVal(0))
        r.update(o)
        r.update(self)
        return r

    def vc_dstar(self):
        return {"**": self}

    def filtered(self, pred):
        ks = self._keys

        def keep(y):
            return z3.And(ks(y), to_bool_expr(pred(SStr(y))))
        return NameDict(keep, self._vals)

    def agrees(self, o, e):
        """both dictionaries say the same about the name e"""
        a, b = self._keys(e), o._keys(e)
        return mkbool(z3.And(a == b, z3.Implies(
            a, self._vals(e) == o._vals(e))))


class Fn(SymObj):
    """the callable stored under a name"""
    pytype = type(lambda: 0)

    def __init__(self, e):
        self.e = e


class NameTable(SymObj):
    """An ordered dict from names to callables: q(0), ..., q(n-1), pairwise
    different."""
    pytype = dict

    def __init__(self, vc, name):
        c = Ctx.cur
        self.n = vc.int(name + ".n", 0)
        self.q = z3.Function(c.fresh(name + ".at"), I, S)
        self.idx = z3.Function(c.fresh(name + ".index"), S, I)

    def elem(self, i):
        from .values import int_expr
        ie = int_expr(i)
        e = self.q(ie)
        n = int_expr(self.n)
        Ctx.cur.assume(z3.Implies(z3.And(ie >= 0, ie < n), self.idx(e) == ie))
        env().point(e)
        return SStr(e)

    def has(self, e):
        from .values import int_expr
        i = self.idx(e)
        return z3.And(i >= 0, i < int_expr(self.n), self.q(i) == e)

    def before(self, e, i):
        from .values import int_expr
        return z3.And(self.has(e), self.idx(e) < int_expr(i))

    def frozen(self):
        return self.has

    def contains(self, k):
        return mkbool(self.has(env().point(str_expr(k))))

    def length(self):
        return self.n

    def keys(self):
        return self

    def vc_set(self):
        return NameSet(self.has)

    def vc_loop(self):
        return SSeq(self.n, self.elem, list, "names")

    def items(self):
        return SSeq(self.n, lambda i: (self.elem(i), Fn(str_expr(
            self.elem(i)))), list, "items")

    def values(self):
        return Values(self)

    def getitem(self, k):
        if not bool(self.contains(k)):
            raise KeyError(k)
        return Fn(str_expr(k))

    def get(self, k, default=None):
        return Fn(str_expr(k)) if bool(self.contains(k)) else default

    def difference(self, *os):
        return NameSet(self.has).difference(*os)

    def intersection(self, *os):
        return NameSet(self.has).intersection(*os)

    def union(self, *os):
        return NameSet(self.has).union(*os)

    __sub__, __and__, __or__ = difference, intersection, union

    def __rsub__(self, o):
        return NameSet(pred_of(o)).difference(self)

    __rand__ = __and__


class Values(SymObj):
    pytype = list

    def __init__(self, table):
        self.table = table

    def vc_star(self):
        return [self]
