"""Symbolic byte strings: runs of bytes of a source of arbitrary content.

Content is an uninterpreted function position -> byte.  Searching is modelled
exactly: a bounded bytes regex is expanded into its alternatives (in matching
order), "found" introduces the least matching position, and "not found" (and
"least") are universal facts kept aside and instantiated at every position the
path talks about (`points`)."""
import re
try:
    import re._parser as sre
    import re._constants as sc
except ImportError:  # pragma: no cover
    import sre_parse as sre
    import sre_constants as sc

from .core import z3, Ctx, Unsupported
from .values import (Sym, SymObj, SInt, SBool, And, Or, mkbool, mkint,
                     int_expr, is_intlike, slice_bounds, to_bool_expr)
from . import hooks as H

ALL = frozenset(range(256))


# ------------------------------------------------------------- alternatives
def _alts(items, ic):
    out = [()]
    for op, av in items:
        if op is sc.LITERAL:
            nxt = [(_one(av, ic),)]
        elif op is sc.NOT_LITERAL:
            nxt = [(ALL - _one(av, ic),)]
        elif op is sc.ANY:
            nxt = [(ALL - {10},)]
        elif op is sc.IN:
            nxt = [(_cls(av, ic),)]
        elif op is sc.SUBPATTERN:
            nxt = _alts(av[3], ic)
        elif op is sc.BRANCH:
            nxt = [a for b in av[1] for a in _alts(b, ic)]
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            if hi is sc.MAXREPEAT or hi > 64:
                raise Unsupported("unbounded bytes pattern")
            one = _alts(sub, ic)
            if len(one) != 1 and hi > 1:
                raise Unsupported("repeated alternation in bytes pattern")
            counts = range(lo, hi + 1)
            if op is sc.MAX_REPEAT:
                counts = reversed(counts)
            nxt = []
            for n in counts:
                if n == 0:
                    nxt.append(())
                else:
                    nxt += [a * n for a in one]
        else:
            raise Unsupported(f"bytes pattern {op}")
        out = [a + b for a in out for b in nxt]
        if len(out) > 600:
            raise Unsupported("bytes pattern too large")
    return out


def _one(c, ic):
    s = {c}
    if ic and chr(c).isalpha() and c < 128:
        s |= {ord(chr(c).lower()), ord(chr(c).upper())}
    return frozenset(s)


def _cls(av, ic):
    s, neg = set(), False
    for op, v in av:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            s |= _one(v, ic)
        elif op is sc.RANGE:
            for c in range(v[0], v[1] + 1):
                s |= _one(c, ic)
        elif op is sc.CATEGORY:
            s |= {c for c in range(256) if re.match(
                {sc.CATEGORY_SPACE: rb"\s", sc.CATEGORY_DIGIT: rb"\d",
                 sc.CATEGORY_WORD: rb"\w", sc.CATEGORY_NOT_SPACE: rb"\S",
                 sc.CATEGORY_NOT_DIGIT: rb"\D",
                 sc.CATEGORY_NOT_WORD: rb"\W"}[v], bytes([c]))}
        else:
            raise Unsupported(f"bytes class {op}")
    return frozenset(ALL - s if neg else s)


_cache = {}


def alternatives(pattern, flags=0):
    k = (pattern, int(flags))
    if k not in _cache:
        _cache[k] = _alts(list(sre.parse(pattern, flags)),
                          bool(flags & re.I))
    return _cache[k]


# ------------------------------------------------------------------ content
def content(src):
    f = getattr(src, "_content", None)
    if f is None:
        f = z3.Function(f"byte!{getattr(src, 'name', 'src')}",
                        z3.IntSort(), z3.IntSort())
        src._content = f
    return f


def in_class(b, cls):
    if len(cls) == 256:
        return z3.BoolVal(True)
    if len(cls) > 128:
        return z3.Not(in_class(b, ALL - cls))
    return z3.Or(*[b == c for c in sorted(cls)])


_MA, _ML = {}, {}


def match_alt(src, q, alt):
    f = content(src)
    k = (f.name(), q.get_id(), alt)
    if k not in _MA:
        if len(_MA) > 300000:
            _MA.clear()
        _MA[k] = (q, z3.And(*[in_class(f(q + i), c)
                              for i, c in enumerate(alt)]))
    return _MA[k][1]


def _by_length(src, q, alts):
    """[(length, does an alternative of that length match at q)]"""
    k = (content(src).name(), q.get_id(), tuple(alts))
    if k not in _ML:
        if len(_ML) > 100000:
            _ML.clear()
        out = {}
        for a in alts:
            out.setdefault(len(a), []).append(match_alt(src, q, a))
        _ML[k] = (q, [(n, z3.Or(*v)) for n, v in sorted(out.items())])
    return _ML[k][1]


def match_at(src, q, alts, hi):
    """does one of the alternatives match at q, ending no later than hi?"""
    return z3.Or(*[z3.And(q + n <= hi, m)
                   for n, m in _by_length(src, q, alts)])


def _state():
    c = Ctx.cur
    if not hasattr(c, "byte_points"):
        c.byte_points, c.byte_univ = [], []
    return c


def add_point(q):
    """q: a position the path talks about"""
    c = _state()
    for p in c.byte_points:
        if p.eq(q):
            return
    c.byte_points.append(q)
    for u in c.byte_univ:
        c.add(u(q))


def add_universal(u):
    """u(q) holds for every position q"""
    c = _state()
    c.byte_univ.append(u)
    for p in c.byte_points:
        c.add(u(p))


# -------------------------------------------------------------------- bytes
class SymBytes(SymObj):
    pytype = bytes

    def __init__(self, src, off, n):
        self.src, self.off, self.n = src, off, n

    def length(self):
        return self.n

    @property
    def nbytes(self):           # of a memoryview
        return self.n

    def getitem(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("strided bytes slice")
            a, b = slice_bounds(k, self.n)
            ln = b - a
            if isinstance(ln, SInt):
                ln = ln if ln >= 0 else 0
            else:
                ln = max(0, ln)
            return SymBytes(self.src, self.off + a, ln)
        if not is_intlike(k):
            raise TypeError("byte indices must be integers or slices")
        if k < 0:
            k = k + self.n
        if k < 0 or k >= self.n:
            raise IndexError("index out of range")
        return mkint(self.byte(k))

    __getitem__ = getitem

    def byte(self, k):
        e = content(self.src)(int_expr(self.off + k))
        Ctx.cur.add(z3.And(e >= 0, e < 256))
        return e

    def __bool__(self):
        return bool(self.n != 0)

    def __add__(self, o):
        if isinstance(o, bytes) and o == b"":
            return self
        if not isinstance(o, SymBytes):
            raise Unsupported("joining file bytes with other bytes")
        if isinstance(o.n, int) and o.n == 0:
            return self
        if isinstance(self.n, int) and self.n == 0:
            return o
        c = Ctx.cur
        if o.src is self.src and c.must(
                int_expr(self.off + self.n) == int_expr(o.off)):
            return SymBytes(self.src, self.off, self.n + o.n)
        if bool(o.n == 0):
            return self
        if bool(self.n == 0):
            return o
        if o.src is self.src and c.must(
                int_expr(self.off + self.n) == int_expr(o.off)):
            return SymBytes(self.src, self.off, self.n + o.n)
        raise Unsupported("joining bytes that are not adjacent")

    def __radd__(self, o):
        if isinstance(o, bytes) and o == b"":
            return self
        raise Unsupported("joining file bytes with other bytes")

    def __eq__(self, o):
        if isinstance(o, bytes):
            if not o:
                return self.n == 0
            return And(self.n == len(o), mkbool(match_alt(
                self.src, int_expr(self.off),
                tuple(frozenset([x]) for x in o))))
        if isinstance(o, SymBytes):
            return self.vc_same(o)
        return False

    def __ne__(self, o):
        r = self == o
        return mkbool(z3.Not(to_bool_expr(r)))

    __hash__ = object.__hash__

    def vc_same(self, o):
        if not isinstance(o, SymBytes) or o.src is not self.src:
            return False
        return And(self.n == o.n, Or(self.n == 0, self.off == o.off))

    def contains(self, x):
        if isinstance(x, bytes):
            return self.find(x) >= 0
        raise Unsupported("bytes containment")

    __contains__ = contains

    def find(self, x, start=0, end=None):
        if not isinstance(x, bytes):
            raise Unsupported("find of symbolic bytes")
        if start < 0:
            start = start + self.n
        m = search_bytes([tuple(frozenset([c]) for c in x)], self, start, end)
        return -1 if m is None else m.start()

    def index(self, x, start=0, end=None):
        r = self.find(x, start, end)
        if isinstance(r, int) and r < 0:
            raise ValueError("subsection not found")
        return r

    def startswith(self, x, *a):
        if a or not isinstance(x, (bytes, tuple)):
            raise Unsupported("bytes.startswith")
        xs = x if isinstance(x, tuple) else (x,)
        return Or(*[And(self.n >= len(p), mkbool(match_alt(
            self.src, int_expr(self.off),
            tuple(frozenset([c]) for c in p)))) for p in xs])

    def endswith(self, x, *a):
        if a or not isinstance(x, (bytes, tuple)):
            raise Unsupported("bytes.endswith")
        xs = x if isinstance(x, tuple) else (x,)
        return Or(*[And(self.n >= len(p), mkbool(match_alt(
            self.src, int_expr(self.off + self.n - len(p)),
            tuple(frozenset([c]) for c in p)))) for p in xs])

    def decode(self, encoding="utf-8", errors="strict"):
        c = Ctx.cur
        c.assumed.add(f"bytes.decode({encoding!r}): total on the bytes the "
                      "contract's precondition calls decodable")
        return Decoded(self, encoding, errors)


class Decoded(SymObj):
    """the text of a run of bytes"""
    pytype = str

    def __init__(self, b, encoding, errors):
        self.bytes, self.encoding, self.errors = b, encoding, errors

    def length(self):
        raise Unsupported("length of decoded text")


class BytesMatch(SymObj):
    pytype = re.Match

    def __init__(self, b, start, end):
        self.b, self.a, self.z = b, start, end

    def start(self, g=0):
        self._zero(g)
        return self.a

    def end(self, g=0):
        self._zero(g)
        return self.z

    def span(self, g=0):
        self._zero(g)
        return (self.a, self.z)

    def group(self, g=0):
        self._zero(g)
        return self.b.getitem(slice(self.a, self.z))

    def __getitem__(self, g):
        return self.group(g)

    getitem = __getitem__

    def _zero(self, g):
        if g != 0:
            raise Unsupported("groups of a bytes match")

    def __bool__(self):
        return True


def search_bytes(alts, b, pos=0, endpos=None, kind="search"):
    """exact model of re.search / find on file bytes"""
    c = _state()
    n = b.n
    if endpos is not None:
        n = endpos if endpos <= n else n
    lo = pos if pos >= 0 else 0
    src = b.src
    off = int_expr(b.off)
    loe, hie = z3.simplify(off + int_expr(lo)), z3.simplify(off + int_expr(n))
    if kind != "search":
        q = loe
        if kind == "fullmatch":
            conds = [z3.And(q + len(a) == hie, match_alt(src, q, a))
                     for a in alts]
        else:
            conds = [z3.And(q + len(a) <= hie, match_alt(src, q, a))
                     for a in alts]
        if not c.branch(z3.Or(*conds)):
            return None
        m = q
    else:
        found = z3.Bool(c.fresh("found"))
        if not c.branch(found):
            add_universal(lambda q: z3.Not(z3.And(
                q >= loe, match_at(src, q, alts, hie))))
            c.assume(z3.BoolVal(True))
            _feasible(c)
            return None
        m = z3.Int(c.fresh("pos"))
        c.add(z3.And(m >= loe, match_at(src, m, alts, hie)))
        add_universal(lambda q: z3.Not(z3.And(
            q >= loe, q < m, match_at(src, q, alts, hie))))
        add_point(m)
        _feasible(c)
        conds = [z3.And(m + len(a) <= hie, match_alt(src, m, a))
                 for a in alts]
    end = z3.Int(c.fresh("end"))
    prev = []
    for a, k in zip(alts, conds):
        c.add(z3.Implies(z3.And(k, *[z3.Not(p) for p in prev]),
                         end == m + len(a)))
        prev.append(k)
    c.add(z3.Or(*[end == m + k for k in sorted({len(a) for a in alts})]))
    return BytesMatch(b, mkint(m) - b.off, mkint(end) - b.off)


def _feasible(c):
    from .core import PathKill
    if len(c.trace) >= len(c.prefix) and c._check() == z3.unsat:
        raise PathKill("infeasible search outcome")


def re_bytes(kind, pattern, b, flags=0, pos=0, endpos=None):
    if isinstance(pattern, re.Pattern):
        flags, pattern = pattern.flags, pattern.pattern
    if isinstance(pattern, str):
        raise TypeError("cannot use a string pattern on a bytes-like object")
    return search_bytes(alternatives(pattern, flags), b, pos, endpos, kind)


def _wrap(kind):
    old_f, old_m = H.MODELS[getattr(re, kind)], H.METHODS[(re.Pattern, kind)]

    def fn(p, s, flags=0):
        if isinstance(s, SymBytes):
            return re_bytes(kind, p, s, flags)
        return old_f(p, s, flags)

    def meth(p, s, pos=0, endpos=None):
        if isinstance(s, SymBytes):
            return re_bytes(kind, p, s, 0, pos, endpos)
        if pos != 0 or endpos is not None:
            raise Unsupported("pattern search with positions in text")
        return old_m(p, s)
    H.MODELS[getattr(re, kind)] = fn
    H.METHODS[(re.Pattern, kind)] = meth


for _k in ("search", "match", "fullmatch"):
    _wrap(_k)
