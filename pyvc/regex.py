"""Translation of simple Python regexes (no groups with backrefs, no
lookaround) into z3 regular expressions."""
import re
try:
    import re._parser as sre
    import re._constants as sc
except ImportError:  # pragma: no cover
    import sre_parse as sre
    import sre_constants as sc
from .core import z3

_cache = {}


def to_z3(pattern, flags, kind):
    k = (pattern, int(flags), kind)
    if k not in _cache:
        try:
            _cache[k] = _build(pattern, flags, kind)
        except _No:
            _cache[k] = None
    return _cache[k]


class _No(Exception):
    pass


ANY = None


def _any():
    return z3.AllChar(z3.ReSort(z3.StringSort()))


def _all():
    return z3.Full(z3.ReSort(z3.StringSort()))


def _build(pattern, flags, kind):
    if flags & ~(re.I | re.UNICODE):
        raise _No
    icase = bool(flags & re.I)
    t = list(sre.parse(pattern, flags))
    start = False
    if t and t[0] in ((sc.AT, sc.AT_BEGINNING), (sc.AT, sc.AT_BEGINNING_STRING
                                                 )):
        start = True
        t = t[1:]
    r = _seqk(t, icase, z3.Re("") if kind == "fullmatch" else _all())
    if not start and kind == "search":
        r = z3.Concat(_all(), r)
    return r


def _eps():
    return z3.Re("")


def _seqk(items, ic, rest):
    """the texts matched by items followed by a text of `rest`"""
    r = rest
    for n in range(len(items) - 1, -1, -1):
        op, av = items[n]
        if op is sc.AT:
            if av is sc.AT_END:
                r = z3.Intersect(r, z3.Option(z3.Re("\n")))
            elif av is sc.AT_END_STRING:
                r = z3.Intersect(r, _eps())
            elif av is sc.AT_BOUNDARY and n > 0 and \
                    items[n - 1][0] is sc.LITERAL and (
                        chr(items[n - 1][1]).isalnum()
                        or items[n - 1][1] == 95):
                word = _cls([(sc.CATEGORY, sc.CATEGORY_WORD)], ic)
                r = z3.Intersect(r, z3.Complement(z3.Concat(word, _all())))
            else:
                raise _No
        elif op is sc.BRANCH:
            r = z3.Union(*[_seqk(list(b), ic, r) for b in av[1]])
        elif op is sc.SUBPATTERN:
            if av[1] or av[2]:
                raise _No
            r = _seqk(list(av[3]), ic, r)
        elif op in (sc.ASSERT, sc.ASSERT_NOT) and av[0] == 1:
            a = _seqk(list(av[1]), ic, _all())
            r = z3.Intersect(r, a if op is sc.ASSERT else z3.Complement(a))
        else:
            r = z3.Concat(_one(items[n], ic), r)
    return r


def _lit(ch, icase):
    c = chr(ch)
    if icase and c.upper() != c.lower():
        return z3.Union(z3.Re(c.upper()), z3.Re(c.lower()))
    return z3.Re(c)


def _seq(items, ic):
    rs = [_one(i, ic) for i in items]
    if not rs:
        return z3.Re("")
    return rs[0] if len(rs) == 1 else z3.Concat(*rs)


def _cls(items, ic):
    neg = False
    out = []
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            out.append(_lit(av, ic))
        elif op is sc.RANGE:
            out.append(z3.Range(chr(av[0]), chr(av[1])))
            if ic:
                for a, b in ((97, 122), (65, 90)):
                    if a <= av[0] and av[1] <= b:
                        d = -32 if a == 97 else 32
                        out.append(z3.Range(chr(av[0] + d), chr(av[1] + d)))
        elif op is sc.CATEGORY:
            if av is sc.CATEGORY_DIGIT:
                out.append(z3.Range("0", "9"))
            elif av is sc.CATEGORY_SPACE:
                out.append(z3.Union(*[z3.Re(x) for x in " \t\n\r\x0b\x0c"]))
            elif av is sc.CATEGORY_WORD:
                out.append(z3.Union(z3.Range("0", "9"), z3.Range("a", "z"),
                                    z3.Range("A", "Z"), z3.Re("_")))
            else:
                raise _No
        else:
            raise _No
    r = out[0] if len(out) == 1 else z3.Union(*out)
    if neg:
        return z3.Intersect(_any(), z3.Complement(r))
    return r


def _one(item, ic):
    op, av = item
    if op is sc.LITERAL:
        return _lit(av, ic)
    if op is sc.NOT_LITERAL:
        return z3.Intersect(_any(), z3.Complement(_lit(av, ic)))
    if op is sc.ANY:
        return z3.Intersect(_any(), z3.Complement(z3.Re("\n")))
    if op is sc.IN:
        return _cls(av, ic)
    if op is sc.BRANCH:
        return z3.Union(*[_seq(list(b), ic) for b in av[1]])
    if op is sc.SUBPATTERN:
        if av[1] or av[2]:
            raise _No
        return _seq(list(av[3]), ic)
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
        lo, hi, sub = av
        r = _seq(list(sub), ic)
        if hi is sc.MAXREPEAT:
            if lo == 0:
                return z3.Star(r)
            return z3.Concat(*([r] * lo + [z3.Star(r)]))
        return z3.Loop(r, lo, hi)
    raise _No
