"""Names: arbitrary strings known only through the tests made on them.

A name is looked at by finitely many tests (is it this text, does it contain,
start or end with that text, does it match a pattern).  Each test is a free
boolean; the facts every string satisfies about pairs of tests made on it are
added as they appear.  This covers every string (the booleans take all the
values strings can give them, and perhaps others), so what is proved holds for
all strings; a refutation counts only when a string with those answers is found
and the real code confirms it."""
import itertools
import pathlib
import re

try:
    import re._parser as sre_parse
    import re._constants as sre_constants
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants

from .core import z3, Ctx, Unsupported
from .values import Sym, SymObj, SStr, mkbool, Or, And, Not

S = "eq", "in", "pre", "suf"


def _holds(a, s):
    """does string s pass test a?"""
    k, w = a[0], a[1]
    if k == "eq":
        return s == w
    if k == "in":
        return w in s
    if k == "pre":
        return s.startswith(w)
    if k == "suf":
        return s.endswith(w)
    if k == "part":
        return s in w
    return getattr(re, w)(a[2], s, a[3]) is not None


def _rule(a, b):
    """what passing a (a test's own text) says about b: True/False/None"""
    if a[0] == "eq":
        return _holds(b, a[1])
    if b[0] == "re" or a[0] == "re":
        return None
    w, u = a[1], b[1]
    if a[0] == "part":
        return False if b[0] in ("in", "pre", "suf") and u not in w else None
    if b[0] == "part":
        return None
    if b[0] == "in" and u in w:
        return True
    if a[0] == b[0] == "pre":
        if w.startswith(u):
            return True
        if not u.startswith(w):
            return False
    if a[0] == b[0] == "suf":
        if w.endswith(u):
            return True
        if not u.endswith(w):
            return False
    return None


HOW = {"lower": str.lower, "upper": str.upper,
       "own": lambda s: pathlib.PurePosixPath(s).name}


class Maybe(SymObj):
    """what re.match & co. give: used as a condition only"""
    pytype = re.Match

    def __init__(self, cond):
        self.cond = cond

    def __bool__(self):
        return bool(self.cond)

    def isnone(self):
        return Not(self.cond)


def _finite(pattern, flags):
    """the strings a pattern stands for, when few"""
    if flags & ~re.UNICODE:
        return None

    def expand(tree):
        outs = [""]
        for op, av in tree:
            if op is sre_constants.LITERAL:
                part = [chr(av)]
            elif op is sre_constants.BRANCH:
                part = [x for t in av[1] for x in expand(t)]
            elif op is sre_constants.SUBPATTERN and not av[1] and not av[2]:
                part = expand(av[3])
            elif op is sre_constants.IN and all(
                    o is sre_constants.LITERAL for o, _ in av):
                part = [chr(c) for _, c in av]
            else:
                raise ValueError
            outs = [o + p for o in outs for p in part]
            if len(outs) > 64:
                raise ValueError
        return outs
    try:
        return expand(sre_parse.parse(pattern))
    except (ValueError, re.error):
        return None


class Name(Sym):
    pytype = str

    def __init__(self, label, parent=None):
        self.label, self.parent = label, parent
        self.atoms = {}
        self.kids = {}
        c = Ctx.cur
        c.abstract.add("names by the tests made on them")
        c.assumed.add("names: tests on one name are constrained pairwise "
                      "(complete for proofs, refutations need a replay)")

    # ---- tests
    def test(self, *a):
        if a in self.atoms:
            return mkbool(self.atoms[a])
        if a[0] in ("in", "pre", "suf") and a[1] == "":
            return True
        e = z3.Bool(f"{self.label}|{'|'.join(map(str, a))}")
        c = Ctx.cur
        for b, f in self.atoms.items():
            self._link(a, e, b, f)
            self._link(b, f, a, e)
        self.atoms[a] = e
        for how, kid in self.kids.items():
            for b, f in kid.atoms.items():
                kid._down(a, e, b, f, how)
        if self.parent is not None:
            p, how = self.parent
            for b, f in p.atoms.items():
                self._down(b, f, a, e, how)
        if a[0] == "eq" and self.parent is not None and HOW[self.parent[1]](
                a[1]) != a[1]:
            c.add(z3.Not(e))
        return mkbool(e)

    @staticmethod
    def _link(a, e, b, f):
        r = _rule(a, b)
        if r is not None:
            Ctx.cur.add(z3.Implies(e, f if r else z3.Not(f)))

    def _down(self, b, f, a, e, how):
        """parent's test b against this (lower/upper-case) name's test a"""
        if b[0] in ("re", "part") or a[0] == "part" and b[0] != "eq":
            return
        if how == "own":
            if b[0] == a[0] == "in" and b[1] in a[1]:
                Ctx.cur.add(z3.Implies(e, f))
            if b[0] != "eq":
                return
        r = _rule((b[0], HOW[how](b[1])), a)
        if r is not None:
            Ctx.cur.add(z3.Implies(f, e if r else z3.Not(e)))

    def contains(self, w):
        if isinstance(w, Name) and w is self:
            return True
        if isinstance(w, (Sym, SymObj)):
            raise Unsupported("name in name")
        if not isinstance(w, str):
            raise TypeError("'in <string>' requires string as left operand, "
                            f"not {type(w).__name__}")
        return self.test("in", w)

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, (Name, SStr)):
            raise Unsupported("comparison of names")
        if not isinstance(o, str):
            return False
        return self.test("eq", o)

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = Sym.__hash__

    def _ends(self, k, w, a):
        if a:
            raise Unsupported("startswith with bounds")
        if isinstance(w, tuple):
            return Or(*[self._ends(k, x, ()) for x in w]) if w else False
        if not isinstance(w, str):
            raise TypeError("startswith first arg must be str or a tuple of "
                            f"str, not {type(w).__name__}")
        return self.test(k, w)

    def startswith(self, w, *a):
        return self._ends("pre", w, a)

    def endswith(self, w, *a):
        return self._ends("suf", w, a)

    def _kid(self, how):
        if self.parent is not None and self.parent[1] == how:
            return self
        if how not in self.kids:
            self.kids[how] = Name(f"{self.label}.{how}", (self, how))
        return self.kids[how]

    def lower(self):
        return self._kid("lower")

    def upper(self):
        return self._kid("upper")

    def own(self):
        """the last part of a path"""
        return self._kid("own")

    def __bool__(self):
        return bool(Not(self == ""))

    def nonempty(self):
        return Not(self == "")

    def match(self, kind, pattern, flags):
        flags = int(flags) & ~int(re.UNICODE)
        words = _finite(pattern, flags)
        if words is not None:
            k = {"match": "pre", "search": "in", "fullmatch": "eq"}[kind]
            return Or(*[self.test(k, w) for w in words])
        re.compile(pattern, flags)
        return self.test("re", kind, pattern, flags)

    # ---- a string with given answers
    def concretise(self, m):
        want = {a: z3.is_true(m.eval(e, model_completion=True))
                for a, e in self.atoms.items()}
        kids = [(how, a, z3.is_true(m.eval(e, model_completion=True)))
                for how, k in self.kids.items() for a, e in k.atoms.items()]

        def ok(s):
            return all(_holds(a, s) == v for a, v in want.items()) and all(
                _holds(a, HOW[how](s)) == v for how, a, v in kids)
        pos = [a for a, v in want.items() if v]
        for a in pos:
            if a[0] == "eq":
                return a[1]
        pre = max([a[1] for a in pos if a[0] == "pre"], key=len, default="")
        suf = max([a[1] for a in pos if a[0] == "suf"] + [
            a[1] for h, a, v in kids if v and a[0] == "suf"],
            key=len, default="")
        mids = [a[1] for a in pos if a[0] == "in"] + [
            a[1] for h, a, v in kids if v and a[0] in ("in", "eq")] + [
            _example(a[2]) for a in pos if a[0] == "re"]
        mids = sorted({x for x in mids if x}, key=len, reverse=True)
        keep = []
        for x in mids:
            if not any(x in y for y in keep + [pre, suf]):
                keep.append(x)
        for glue in ("~", "", "_", "-", "."):
            for perm in itertools.islice(itertools.permutations(keep), 40):
                for parts in ([pre, *perm, suf], [*perm, suf], [pre, *perm]):
                    for s in {glue.join(x for x in parts if x),
                              pre + glue.join(perm) + suf}:
                        if ok(s):
                            return s
        parts = [a[1][i:j] for a in pos if a[0] == "part"
                 for i in range(len(a[1])) for j in range(i + 1, len(a[1]) + 1)]
        for s in ["", "~", "zzz"] + parts:
            if ok(s):
                return s
        return None


def _example(pattern):
    """some string matching a pattern"""
    def gen(tree):
        out = ""
        for op, av in tree:
            if op is sre_constants.LITERAL:
                out += chr(av)
            elif op is sre_constants.BRANCH:
                out += gen(av[1][0])
            elif op is sre_constants.SUBPATTERN:
                out += gen(av[3])
            elif op is sre_constants.ANY:
                out += "."
            elif op is sre_constants.IN:
                o, c = av[0]
                out += chr(c if o is sre_constants.LITERAL else c[0]) if o in (
                    sre_constants.LITERAL, sre_constants.RANGE) else "0"
            elif op in (sre_constants.MAX_REPEAT, sre_constants.MIN_REPEAT):
                out += gen(av[2]) * max(av[0], 0)
        return out
    try:
        return gen(sre_parse.parse(pattern))
    except Exception:
        return ""


class NamePath(SymObj):
    """Path(name)"""
    pytype = pathlib.PosixPath

    def __init__(self, text):
        self.text = text

    @property
    def name(self):
        return self.text.own()


# ---- the same tests on names and ordinary strings, for specifications
def has(s, w):
    return s.contains(w) if isinstance(s, Name) else w in s


def own(s):
    return s.own() if isinstance(s, Name) else pathlib.PurePosixPath(s).name


def matches(s, pattern, kind="match"):
    if isinstance(s, Name):
        return s.match(kind, pattern, 0)
    return getattr(re, kind)(pattern, s) is not None


__all__ = ["Name", "Maybe", "has", "matches", "And", "Or", "Not"]
