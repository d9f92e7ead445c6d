"""C08: any label value parses to its typed form or is kept as text."""
from pyvc.api import contract, And, Or, Not, Implies

P = "pdr.parselabel.pds3:"


class _Opaque:
    def __init__(self, *what):
        self.what = what


def _stubs(vc, literal="any"):
    """Contracts of the functions literalize_pvl calls."""
    if not vc.symbolic:
        return
    n = [0]

    def outcome(tag, errors):
        def model(*a, **k):
            n[0] += 1
            r = vc.choice(f"{tag}.{n[0]}", ["value"] + errors)
            if r == "value":
                return _Opaque(tag, *a)
            raise r("...")
        return model
    le = outcome("literal_eval", [SyntaxError, ValueError, TypeError,
                                  MemoryError, RecursionError])
    if literal == "value":
        le = lambda x: _Opaque("literal_eval", x)
    vc.stub(P + "literal_eval", le, "ast.literal_eval returns a value or "
            "raises SyntaxError, ValueError, TypeError, MemoryError or "
            "RecursionError")
    vc.stub(P + "parse_non_base_10", outcome("based", [SyntaxError]),
            "returns an integer or raises SyntaxError; checked by the "
            "concrete contracts fuzz, malformed and values")
    vc.stub(P + "parse_pvl_quantity_statement", outcome(
        "quantity", [SyntaxError, ValueError]),
        "checked by the concrete contracts fuzz and values")
    vc.stub(P + "parse_unusual_collection", outcome(
        "collection", [SyntaxError, ValueError]),
        "checked by the concrete contracts fuzz and values")


TEXTS = ["", "A", "5", "-1.5E3", '"a b"', "'x'", "(1, 2)", "(A, B)", "{A}",
         "5 <km>", "16#FF#", "16#FF", "N/A", "2001-01-01", '"', "'", "<>",
         "\\", '"a\\x"', "(", "{{1}}", "#", "-16#1#", "12#", "1 #", "\x00"]


@contract("C08", "total", [P + "literalize_pvl"])
def total(vc):
    """Reading a value never raises, for every text."""
    s = vc.str("text", pool=TEXTS)
    _stubs(vc)
    o = vc.run(vc.f(P + "literalize_pvl"), s)
    vc.ensure("never raises", o.ok, lambda: f"{s!r}: {o.exc!r}")


@contract("C08", "quoted", [P + "literalize_pvl"])
def quoted(vc):
    """A quoted string is its content, character for character."""
    q = vc.choice("q", ['"', "'"])
    c = vc.str("content", pool=["a b", "C:\\new", "5", "16#F#", "(1, 2)",
                                "5 <km>", "", "a,b", "\n", "{", "it's",
                                "N/A", "\\", "a\\"])
    vc.assume(_matches(vc, c, f"[^{q}]*"))
    _stubs(vc)
    o = vc.run(vc.f(P + "literalize_pvl"), q + c + q)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    vc.ensure("its content", o.value == c, lambda: f"{o.value!r} for {c!r}")


def _matches(vc, s, pattern):
    import re
    if vc.symbolic:
        from pyvc.core import z3
        from pyvc.regex import to_z3
        from pyvc.values import mkbool
        return mkbool(z3.InRe(s.e, to_z3(pattern, 0, "fullmatch")))
    return re.fullmatch(pattern, s) is not None


@contract("C08", "number", [P + "literalize_pvl"])
def number(vc):
    """Every unsigned or signed integer or real without leading zeros is
    handed to literal_eval exactly as written, and its value returned."""
    s = vc.str("num", pool=["5", "-5", "+5", "0", "1.5", "-1.5E-3", "1.e+10",
                            ".5", "-.5e2", "12345678901234567890", "10.0"])
    vc.assume(_matches(vc, s, r"[+-]?((0|[1-9][0-9]*)(\.[0-9]*)?|\.[0-9]+)"
                       r"([eE][+-]?[0-9]+)?"))
    _stubs(vc, "value")
    o = vc.run(vc.f(P + "literalize_pvl"), s)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    if vc.symbolic:
        v = o.value
        vc.ensure("numeral evaluated", isinstance(v, _Opaque)
                  and v.what[0] == "literal_eval")
        vc.ensure("as written", v.what[1] == s)
        return
    import re
    want = int(s) if re.fullmatch(r"[+-]?[0-9]+", s) else float(s)
    vc.ensure("value", type(o.value) is type(want) and o.value == want,
              lambda: f"{o.value!r} for {s!r}")


@contract("C08", "plain-text", [P + "literalize_pvl"])
def plain_text(vc):
    """Text that is no number, quoted string, collection, quantity or based
    integer is kept as it is."""
    s = vc.str("text", pool=["A", "N/A", "2001-01-01", "007", "1_000", "None",
                             "12:30:45.5", "A B", "1.2.3", "1E", "-", "True",
                             "5 km", "x" * 50, "0x10", "1j", ".", "+", ""])
    vc.assume(_matches(vc, s, r"[^<>(){}\"'#\s\\]*"))
    vc.assume(Not(_matches(vc, s, r"[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)"
                           r"([eE][+-]?[0-9]+)?")))
    _stubs(vc)
    o = vc.run(vc.f(P + "literalize_pvl"), s)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    vc.ensure("kept as text", o.value == s if vc.symbolic else
              (type(o.value) is str and o.value == s),
              lambda: f"{o.value!r} for {s!r}")


# ---------------------------------------------------------------- concrete
WORDS = ["A", "N/A", "MARS", "SAMPLE_BAND", "UNK", "NULL", "2001-01-01",
         "1997-07-04T12:00:00.000Z", "A:B", "FILE.IMG", "1.2.3", "0001-A",
         "MRO:NAME", "12:30", "T_1", "1_000", "None", "True", "1J", "END_A"]
STRS = ["a b", "C:\\new\\x", "5", "16#F#", "(1, 2)", "5 <km>", "", "a,b",
        "it's", "N/A", "x\\", "A = B", "{a}", "a) b", "<", ">", "# no",
        "F,1.DAT", "tab\tx", "é", "None", " padded ", "semi;colon"]
UNITS = ["km", "KM/S", "m**2", "BYTES", "DEGREE/SECOND", "W/M**2/SR", "km**-1",
         "Kelvin", "DN", "degrees C"]


def _gen(vc, t, depth=0, scalar=False, units=True, lone=False):
    """(text, value, is it literal for Python's syntax as well)"""
    kinds = ["int", "real", "based", "str", "sq", "word", "qty"]
    if scalar:
        kinds = ["int", "real", "str"]
    if not scalar and depth < 2:
        kinds += ["seq", "seq", "set"]
    k = vc.choice(t + ".k", kinds)
    if k == "int":
        n = vc.choice(t + ".n", [0, 1, -1, 5, 42, -300, 1000000, 2 ** 40,
                                 -2 ** 63, 99999999999999999999])
        plus = "+" if n >= 0 and vc.flag(t + ".plus") else ""
        return plus + str(n), n, True
    if k == "real":
        s = vc.choice(t + ".r", ["1.5", "-0.25", "1.0E3", "1.e-5", ".5",
                                 "-2.5E+10", "1E6", "+3.25e-02", "0.0",
                                 "123456.789", "5."])
        return s, float(s), True
    if k == "based":
        b, d = vc.choice(t + ".b", [(16, "FF"), (2, "1010"), (8, "17"),
                                    (16, "0a1B"), (10, "99"), (3, "0"),
                                    (16, "7FFFFFFF"), (16, "E"), (36, "Z")])
        sg = vc.choice(t + ".s", ["", "", "-", "+"]) if not lone else ""
        return f"{sg}{b}#{d}#", int(d, b) * (-1 if sg == "-" else 1), False
    if k == "str":
        s = vc.choice(t + ".t", STRS)
        return f'"{s}"', s, True
    if k == "sq":
        s = vc.choice(t + ".t", [x for x in STRS if "'" not in x])
        return f"'{s}'", s, True
    if k == "word":
        s = vc.choice(t + ".w", WORDS)
        return s, s, False
    if k == "qty":
        s, v, _ = vc.choice(t + ".q", [
            ("5", 5, 0), ("-5", -5, 0), ("1.5", 1.5, 0), ("1.5E+3", 1500.0, 0),
            ("-1.25e-3", -.00125, 0), ("N/A", "N/A", 0), ("UNK", "UNK", 0),
            ("16#FF#", 255, 0), ("+7.5", 7.5, 0), ("NULL", "NULL", 0),
            ("2001-01-01T00:00:00", "2001-01-01T00:00:00", 0), (".5", .5, 0)])
        u = vc.choice(t + ".u", UNITS)
        sp = vc.choice(t + ".sp", ["", " ", "  "])
        return f"{s}{sp}<{u}>", {"value": v, "units": u}, False
    n = vc.int(t + ".len", 1 if k == "set" else 0, 4)
    sub, flavour = [], vc.choice(t + ".fl", ["literal", "word", "based",
                                             "quantity", "mixed"])
    for i in range(n):
        u = f"{t}.{i}"
        if flavour == "literal" or (k == "set" and flavour in (
                "mixed", "quantity")):
            deep = k == "seq" and depth == 0 and vc.flag(u + ".deep")
            if deep:
                m = [_gen(vc, f"{u}.{j}", 2, True) for j in
                     range(vc.int(u + ".m", 2, 3))]
                sub.append(("(" + ", ".join(x[0] for x in m) + ")",
                            tuple(x[1] for x in m), True))
            else:
                sub.append(_gen(vc, u, 2, True))
        elif flavour == "word":
            w = vc.choice(u + ".w", WORDS)
            sub.append((w, w, False))
        elif flavour == "based":
            b, d = vc.choice(u + ".b", [(16, "FF"), (2, "1010"), (8, "17")])
            sub.append((f"{b}#{d}#", int(d, b), False))
        elif flavour == "quantity":
            # a quantity first makes the whole a quantity statement
            if i == 0 or vc.flag(u + ".isq"):
                s, v = vc.choice(u + ".q", [("5", 5), ("1.5E+3", 1500.0),
                                            ("-2", -2)])
                un = vc.choice(u + ".u", UNITS)
                sub.append((f"{s} <{un}>", {"value": v, "units": un}, False))
            else:
                sub.append(_gen(vc, u, 2, True))
        else:
            # names among strings: elements are kept as their own text
            a = [("A", "A"), ('"x,y"', '"x,y"'), ('"b"', '"b"'), ("5", "5"),
                 ("(B, C)", "(B, C)")]
            sub.append(a[0] + (False,) if i == 0 else
                       vc.choice(u + ".m", a) + (False,))
    sep = vc.choice(t + ".sep", [",", ", ", " , ", ",  "])
    texts, vals = [x[0] for x in sub], [x[1] for x in sub]
    if k == "set":
        return "{" + sep.join(texts) + "}", set(vals), False
    if n == 1 and sub[0][2]:
        return f"({texts[0]})", vals[0], True   # documented: see DESIGN.md
    if n == 1 and isinstance(vals[0], dict):
        return f"({texts[0]})", vals[0], False
    return "(" + sep.join(texts) + ")", tuple(vals), False


def _eq(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(map(_eq, a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(_eq(a[k], b[k]) for k in a)
    if isinstance(a, set):
        return a == b and sorted(map(repr, a)) == sorted(map(repr, b))
    return a == b


@contract("C08", "values", [
    P + "literalize_pvl", P + "parse_pvl_quantity_statement",
    P + "parse_unusual_collection", P + "parse_non_base_10",
    P + "parse_non_base_10_collection", P + "split_pvl_collection",
    P + "parse_pvl_quantity_object"],
    bounded="concrete: random well-formed values, sequences nested one deep, "
    "up to 4 elements", secs=10)
def values(vc):
    """Well-formed values become their typed values; sequences keep every
    element in order; units are kept; quoting protects the content."""
    text, want, _ = _gen(vc, "v")
    if vc.flag("pad"):
        text = " " + text + " "
    import warnings
    via = vc.choice("via", ["literalize", "label", "block"])
    if via == "literalize":
        o = vc.run(vc.f(P + "literalize_pvl"), text.strip())
    elif via == "label":
        vc.assume("=" not in text)
        o = vc.run(lambda: vc.f(P + "parse_pvl")(
            f"PDS_VERSION_ID = PDS3\r\nKEY = {text}\r\nEND\r\n")[0]["KEY"])
    else:
        vc.assume("=" not in text)
        o = vc.run(lambda: vc.f(P + "parse_pvl")(
            "PDS_VERSION_ID = PDS3\r\nOBJECT = IMAGE\r\n"
            f"  KEY = {text}\r\nEND_OBJECT = IMAGE\r\nEND\r\n")[0]["IMAGE"][
                "KEY"])
    vc.ensure("no error", o.ok, lambda: f"{text!r}: {o.exc!r}")
    vc.ensure("typed value", _eq(o.value, want),
              lambda: f"{text!r} -> {o.value!r}, want {want!r}")


@contract("C08", "malformed", [P + "literalize_pvl"],
          bounded="concrete: a list of malformed values and random edits",
          secs=3)
def malformed(vc):
    """Malformed scalar values are kept as their own text."""
    s = vc.choice("s", [
        '"abc', 'abc"', '"a"b"', '"a" "b"', "16#FF", "16#GG#", "2#12#", "#",
        "16##", "5 <km", "5 km>", "5 < 6", "5 <a> <b>", "<km>", "A <km>",
        "1.2.3", "1E+", "--5", "5-", "+", ".", "-", "1,2", "a,b", "1 2",
        "TRUE FALSE", "'abc", "99#1#", "1#0#", "12 #3", "5 #", "x#y",
        "1_0.5", "0x1F", "0b1", "1e5j", "b'x'", 'r"x"', "[1, 2]", "...",
        "a(b)", "5)", "5}", "f(1, 2)", "1;2", "\\", "\\n", "see <URL>",
        "lambda: 0", "16#F_F#", "16# FF#", "16#FF#x", "5 <km> x"])
    o = vc.run(vc.f(P + "literalize_pvl"), s)
    vc.ensure("no error", o.ok, lambda: f"{s!r}: {o.exc!r}")
    vc.ensure("kept as text", type(o.value) is str and o.value == s,
              lambda: f"{s!r} -> {o.value!r}")


@contract("C08", "fuzz", [
    P + "literalize_pvl", P + "parse_pvl_quantity_statement",
    P + "parse_unusual_collection", P + "parse_pvl"],
    bounded="concrete: random texts up to 60 characters, and deep nesting",
    secs=8)
def fuzz(vc):
    """No text whatever makes reading a value raise."""
    import random
    rng = random.Random(vc.int("seed", 0, 10 ** 9))
    style = vc.choice("style", ["chars", "tokens", "mutate", "deep"])
    if style == "chars":
        s = "".join(rng.choice("(){}<>,\"'#=/*\\ 0159.-+eEA_N\t\x00é")
                    for _ in range(rng.randint(0, 60)))
    elif style == "tokens":
        s = "".join(rng.choice(TEXTS + ["(", ")", "{", "}", ",", " ", "<",
                                        ">", "1", "[", "]", ":", "16#F#"])
                    for _ in range(rng.randint(0, 12)))
    elif style == "mutate":
        s = list(_gen(vc, "v")[0])
        for _ in range(rng.randint(1, 3)):
            i = rng.randint(0, len(s))
            if s and rng.random() < .5:
                del s[i - 1 if i else 0]
            else:
                s.insert(i, rng.choice("(){}<>,\"'# 5A"))
        s = "".join(s)
    else:
        s = rng.choice(["(", "{", "-", "[", "(1,", "{1:", "'", "(<a>,", "~",
                        "((1 <m>,", "not ", "1+", "5 <"]) * rng.choice(
                            [2, 90, 250, 1500]) + rng.choice(
                                ["", "1", "<>", ")"])
    o = vc.run(vc.f(P + "literalize_pvl"), s)
    vc.ensure("never raises", o.ok, lambda: f"{s[:80]!r}: {o.exc!r}")


def _fixed(text, want):
    def h(vc):
        o = vc.run(vc.f(P + "literalize_pvl"), text)
        vc.ensure("typed value", o.ok and _eq(o.value, want),
                  lambda: f"{text!r} -> {o!r}, want {want!r}")
    h.__doc__ = f"{text} reads as {want!r}."
    return h


for _n, _t, _w in (("one-element", "(5)", (5,)), ("empty-set", "{}", set()),
                   ("mixed-sequence", '("A,1", B, 5)', ("A,1", "B", 5)),
                   ("mixed-bases", "(1, 16#FF#)", (1, 255)),
                   ("leading-zeros", "007", 7)):
    contract("C08", _n, [P + "literalize_pvl"],
             bounded="concrete: one fixed value", secs=1)(_fixed(_t, _w))
