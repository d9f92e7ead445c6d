"""Sequences and mappings of any length over opaque values, for induction.

Values are terms of one uninterpreted sort; a sequence is a z3 sequence, a
mapping the sequence of its (key, value) items.  What a contract's
specification function does to a sequence is given as a homomorphism: its
value on the empty sequence, on concatenations, and on single elements.  Facts
about it are instantiated wherever the code (or an invariant) takes a sequence
apart or puts one together, so that obligations are quantifier free.
"""
import sys

from multidict import MultiDict

from .core import z3, Ctx, Unsupported, PathKill
from .values import SymObj, mkbool, mkint

V = z3.DeclareSort("Value")
_I = z3.Datatype("Item")
_I.declare("item", ("key", V), ("val", V))
Item = _I.create()
SV, SI = z3.SeqSort(V), z3.SeqSort(Item)
elems = z3.Function("elements_of", V, SV)
itemsof = z3.Function("items_of", V, SI)
pairs = z3.Function("paired_with", V, SV, SI)
node = z3.Function("mapping_of", SI, V)
kind_of = z3.Function("kind_of", V, z3.IntSort())


class Env:
    """the specification functions of a contract and its literals"""

    def __init__(self, kinds):
        self.kinds = list(kinds)     # (name, python type)
        self.homs = []
        self.lits = {}
        self.live = []

    def hom(self, sort, f, unit, empty):
        """f: a function on sequences of `sort`; f(a + b) = f(a) + f(b)"""
        self.homs.append((sort, f, unit))
        Ctx.cur.add(f(z3.Empty(sort)) == empty)

    def split(self, whole, x, rest, first):
        for sort, f, unit in self.homs:
            if whole.sort() == sort:
                u = unit(x)
                Ctx.cur.add(f(whole) == (z3.Concat(u, f(rest)) if first else
                                         z3.Concat(f(rest), u)))

    def concat(self, a, b):
        for sort, f, unit in self.homs:
            if a.sort() == sort:
                Ctx.cur.add(f(z3.Concat(a, b)) == z3.Concat(f(a), f(b)))

    def single(self, x, sort):
        for s, f, unit in self.homs:
            if s == sort:
                Ctx.cur.add(f(z3.Unit(x)) == unit(x))

    def fresh(self, sort, name="v"):
        return z3.Const(Ctx.cur.fresh(name), sort)

    def dec(self, e):
        if e.sort() == Item:
            return (self.any(Item.key(e)), self.any(Item.val(e)))
        return self.any(e)

    def any(self, e):
        e = z3.simplify(e)
        for o, x in self.lits.values():
            if x.eq(e):
                return o
        for x in self.live:
            if x.e.eq(e):
                return x
        x = Any(e, self)
        self.live.append(x)
        return x

    def lit(self, o):
        """a value of the program's own, equal to no other literal"""
        k = (type(o).__name__, repr(o))
        if k not in self.lits:
            e = self.fresh(V, "literal")
            for o2, x in self.lits.values():
                Ctx.cur.add(x != e)
            self.lits[k] = (o, e)
        return self.lits[k][1]

    def enc(self, o, sort=V):
        if sort == Item:
            if not isinstance(o, tuple) or len(o) != 2:
                raise Unsupported("an item that is no pair")
            return Item.item(self.enc(o[0]), self.enc(o[1]))
        if isinstance(o, Any):
            return o.e
        if isinstance(o, ZDict):
            return node(o.e)
        if isinstance(o, (str, int, float, type(None), bool)):
            return self.lit(o)
        raise Unsupported(f"{type(o).__name__} as an opaque value")

    def seq(self, e, rev=False, pytype=list):
        return ZSeq(e, self, rev, pytype)


class Any(SymObj):
    """an opaque value; its kind is decided when first observed"""

    def __init__(self, e, env):
        self.e, self.env = e, env

    @property
    def pytype(self):
        c = Ctx.cur
        for i, (name, t) in enumerate(self.env.kinds[:-1]):
            if c.branch(kind_of(self.e) == i):
                return t
        return self.env.kinds[-1][1]

    def is_kind(self, *names):
        return kind(self.env, self.e, *names)

    def vc_seq(self):
        t = self.pytype
        if not issubclass(t, (list, tuple)):
            raise TypeError(f"'{t.__name__}' object is not a sequence")
        return self.env.seq(elems(self.e), pytype=t)

    def length(self):
        return self.vc_seq().length()

    def items(self):
        t = self.pytype
        if not hasattr(t, "items"):
            raise AttributeError(f"'{t.__name__}' object has no attribute "
                                 "'items'")
        return self.env.seq(itemsof(self.e))

    def __eq__(self, o):
        if isinstance(o, Any):
            return mkbool(self.e == o.e)
        return mkbool(self.e == self.env.enc(o))

    def __ne__(self, o):
        return mkbool(z3.Not(self.e == self.env.enc(o)))

    __hash__ = object.__hash__

    def __bool__(self):
        raise Unsupported("truth of an opaque value")

    def vc_same(self, o):
        return mkbool(self.e == self.env.enc(o))


def kind(env, e, *names):
    ks = [n for n, t in env.kinds]
    last = len(ks) - 1
    out = []
    for n in names:
        i = ks.index(n)
        if i == last:
            out.append(z3.And(*[kind_of(e) != j for j in range(last)]))
        else:
            out.append(kind_of(e) == i)
    return z3.Or(*out)


class ZSeq(SymObj):
    def __init__(self, e, env, rev=False, pytype=list):
        self.e, self.env, self.rev, self.kind = e, env, rev, pytype

    @property
    def pytype(self):
        return self.kind

    def copy(self):
        return ZSeq(self.e, self.env, self.rev, self.kind)

    def vc_seq(self):
        return self

    def vc_list(self):
        return ZSeq(self.e, self.env, self.rev, list)

    def vc_reversed(self):
        return ZSeq(self.e, self.env, not self.rev, list)

    def length(self):
        return mkint(z3.Length(self.e))

    def __bool__(self):
        return bool(mkbool(z3.Length(self.e) > 0))

    def take(self, first):
        """remove and return the element at the front or end of e"""
        if not bool(self):
            raise IndexError("pop from empty list")
        env, c = self.env, Ctx.cur
        x = env.fresh(self.e.sort().basis(), "x")
        rest = env.fresh(self.e.sort(), "rest")
        c.add(self.e == (z3.Concat(z3.Unit(x), rest) if first else
                         z3.Concat(rest, z3.Unit(x))))
        env.split(self.e, x, rest, first)
        self.e = rest
        return env.dec(x)

    def pop(self, i=-1):
        if i not in (0, -1):
            raise Unsupported("pop from the middle")
        return self.take((i == 0) != self.rev)

    popleft = lambda self: self.pop(0)

    def append(self, o):
        x = self.env.enc(o, self.e.sort().basis())
        self.env.single(x, self.e.sort())
        self._join(z3.Unit(x), self.rev)

    def _join(self, e, rev):
        n = z3.simplify(z3.Length(e))
        if rev != self.rev and not (z3.is_int_value(n) and n.as_long() < 2):
            raise Unsupported("sequences of opposite directions joined")
        a, b = (e, self.e) if self.rev else (self.e, e)
        self.env.concat(a, b)
        self.e = z3.Concat(a, b)

    def extend(self, o):
        if isinstance(o, (Any, ZSeq)):
            o = o.vc_seq()
            self._join(o.e, o.rev)
        elif isinstance(o, (list, tuple)):
            for x in o:
                self.append(x)
        else:
            raise Unsupported("list extended by " + type(o).__name__)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        r = self.copy()
        r.extend(o)
        return r

    def vc_map(self, f):
        """[f(x) for x in self]"""
        x = self.env.dec(self.env.fresh(self.e.sort().basis(), "any"))
        r = f(x)
        if r is x:
            return self.vc_list()
        if isinstance(r, tuple) and len(r) == 2 and r[1] is x and \
                self.e.sort() == SV:
            return ZSeq(pairs(self.env.enc(r[0]), self.e), self.env, self.rev)
        raise Unsupported("comprehension of another kind over a sequence of "
                          "any length")

    def __iter__(self):
        raise Unsupported("native iteration over a sequence of any length")

    def vc_same(self, o):
        return self.rev == o.rev and mkbool(self.e == o.e)


class ZDict(SymObj):
    """a MultiDict: the sequence of its items"""
    pytype = MultiDict

    def __init__(self, env, e=None):
        self.env, self.e = env, z3.Empty(SI) if e is None else e

    def add(self, k, v):
        x = self.env.enc((k, v), Item)
        self.env.single(x, SI)
        self._join(z3.Unit(x))

    def _join(self, e):
        self.env.concat(self.e, e)
        self.e = z3.Concat(self.e, e)

    def extend(self, o):
        if isinstance(o, (ZDict, Any)):
            o = o.items()
        if isinstance(o, ZSeq) and not o.rev and o.e.sort() == SI:
            return self._join(o.e)
        if isinstance(o, (list, tuple)):
            for k, v in o:
                self.add(k, v)
            return
        raise Unsupported("MultiDict.extend")

    def items(self):
        return ZSeq(self.e, self.env)

    def length(self):
        return mkint(z3.Length(self.e))

    def vc_same(self, o):
        if not isinstance(o, ZDict):
            return False
        return mkbool(self.e == o.e)


class While:
    """Relational invariant of a while loop: fresh(entry) -> {var: arbitrary
    value} for what the loop changes; holds(locals) -> condition."""

    def __init__(self, fresh, holds):
        self.fresh, self.holds = fresh, holds

    def run(self, frame, name, sets=()):
        from . import hooks as H
        c = Ctx.cur
        c.assumed.add(f"loop {name}: inductive invariant (checked)")
        entry = dict(frame.f_locals)

        def check(what):
            c.obligation(f"inv-{what}:{name}", self.holds(frame.f_locals))
        new = self.fresh(entry)
        for k in new:
            if k not in entry:
                raise Unsupported(f"loop {name}: no local {k!r}")
        check("init")
        hidden = {k: H.Unset(name, k) for k in sets if k not in new
                  and k in frame.f_code.co_varnames}
        H._set_locals(frame, {**hidden, **new})
        h = self.holds(frame.f_locals)
        c.assume(h.e if hasattr(h, "e") else z3.BoolVal(bool(h)))
        still = {k: v for k, v in entry.items() if k not in hidden}
        keep = H._frame_state(still, new)
        yield None
        H._frame_check(frame, still, new, keep, name)
        check("step")
        raise PathKill("inductive step done")


class Prefix:
    """Invariant of a for loop over a ZSeq: state(entry, P) -> {var: value}
    after the elements P; given(P, x) adds facts about P + x."""

    def __init__(self, state, given=None):
        self.state, self.given = state, given

    def run(self, seq, frame, name, sets=()):
        from . import hooks as H
        c = Ctx.cur
        c.assumed.add(f"loop {name}: inductive invariant (checked)")
        if not isinstance(seq, ZSeq) or seq.rev:
            raise Unsupported(f"loop {name}: over something else")
        entry = dict(frame.f_locals)
        env = seq.env

        def check(P, what):
            want = self.state(entry, P)
            have = frame.f_locals
            for k, v in want.items():
                if k not in have:
                    raise Unsupported(f"loop {name}: no local {k!r}")
                c.obligation(f"inv-{what}:{name}:{k}",
                             H.vc_same(have[k], v))
        sort = seq.e.sort()
        check(z3.Empty(sort), "init")
        if c.branch(z3.Bool(c.fresh("loopiter"))):
            P, R = env.fresh(sort, "done"), env.fresh(sort, "todo")
            x = env.fresh(sort.basis(), "x")
            c.add(seq.e == z3.Concat(P, z3.Unit(x), R))
            Q = z3.Concat(P, z3.Unit(x))
            env.concat(P, z3.Unit(x))
            env.single(x, sort)
            if self.given:
                self.given(P, x)
            new = self.state(entry, P)
            hidden = {k: H.Unset(name, k) for k in sets if k not in new
                      and k in frame.f_code.co_varnames}
            H._set_locals(frame, {**hidden, **new})
            still = {k: v for k, v in entry.items() if k not in hidden}
            keep = H._frame_state(still, new)
            yield env.dec(x)
            H._frame_check(frame, still, new, keep, name)
            check(Q, "step")
            raise PathKill("inductive step done")
        new = self.state(entry, seq.e)
        H._set_locals(frame, {**{k: H.Unset(name, k) for k in sets
                                 if k not in new
                                 and k in frame.f_code.co_varnames}, **new})
