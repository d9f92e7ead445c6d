"""C09: the parsed label keeps every statement, in order, at its level."""
from pyvc.api import contract, And, Or, Not, Implies

P = "pdr.parselabel.pds3:"
KEYS = ["A", "B", "NAME", "BYTES", "START_TIME", "END_TIME", "END_SCLK",
        "ENDIAN", "ENDED", "END_OBJECTIVE", "MRO:GAIN", "^DESCRIPTION",
        "OBJECT_TYPE", "GROUP_ID", "BEGIN_TIME", "NOTE", "UNIT", "X_1",
        "RECORD_BYTES", "OBJECTS", "BEGIN_OBJECTS", "LINES", "ITEM"]
VALUES = [("5", 5), ("-1.5", -1.5), ("km", "km"), ("ABC", "ABC"),
          ('"text"', "text"), ('"a = b"', "a = b"), ("x", "x"),
          ('"X = 5, Y = 6"', "X = 5, Y = 6"), ('""', ""), ("N/A", "N/A"),
          ("(1, 2)", (1, 2)), ("5 <km>", {"value": 5, "units": "km"}),
          ("2001-01-01", "2001-01-01"), ('"END"', "END"), ("END", "END"),
          ('"END_OBJECT"', "END_OBJECT"), ("16#FF#", 255),
          ('"it\'s /2 * 3"', "it's /2 * 3"), ('"OBJECT = X"', "OBJECT = X")]
LONG = [(['"one', 'two three', 'four"'], "one two three four"),
        (['(1,', '2,', '3)'], (1, 2, 3)), (['', '"next line"'], "next line"),
        (['("a",', '"b")'], ("a", "b")), (['"see', 'x = 5 here"'],
                                          "see x = 5 here"),
        (['', '5'], 5), (['{A,', 'B}'], {"A", "B"}),
        (['"first -', 'the end of it"'], "first - the end of it"),
        (['"a', 'endless', 'b"'], "a endless b"),
        (['"a', 'Object b', 'c"'], "a Object b c")]


def tree(vc, t="t", depth=0):
    """[(key, value) or (key, [children])]; the texts are in _TEXT"""
    out = []
    for i in range(vc.count(t + ".n", 0 if depth else 1, 5 if depth < 2 else 3,
                            5 if depth else 14)):
        u = f"{t}.{i}"
        k = vc.choice(u + ".k", ["stmt", "stmt", "stmt", "long", "block"]
                      if depth < 3 else ["stmt", "long"])
        if k == "block":
            nm = vc.choice(u + ".bn", ["IMAGE", "TABLE", "COLUMN", "A",
                                       "GEO_PARAMS", "QUBE"])
            out.append((nm, "block", tree(vc, u, depth + 1)))
        elif k == "stmt":
            out.append((vc.choice(u + ".key", KEYS), "stmt",
                        vc.choice(u + ".v", VALUES)))
        else:
            out.append((vc.choice(u + ".key", KEYS), "long",
                        vc.choice(u + ".v", LONG)))
    return out


def render(vc, nodes, s, depth=0):
    """The label text of a tree in the style drawn from random generator s."""
    ind = (s.choice(["", "  ", "\t"]) * depth) if s.rnd else "  " * depth
    eq = (lambda: s.choice([" = ", "=", "   = ", " =  ", "= "])) if s.rnd \
        else (lambda: " = ")
    out = []

    def noise():
        if s.rnd and s.comments and s.random() < .3:
            out.append(s.choice(["", "   ", "/* a comment */", "\t",
                                 "  /* KEY = 5 */", "/* END */",
                                 "/* see /*.img */", "/* unclosed",
                                 "/* OBJECT = X */", "/**/"]))

    def tail():
        if s.rnd and s.comments and s.random() < .15:
            return s.choice([" /* note */", "   ", " /* A = 5 */", "\t"])
        return ""
    for key, kind, v in nodes:
        noise()
        if kind == "block":
            w = s.choice(["OBJECT", "GROUP"])
            b = s.choice(["", "BEGIN_"]) if s.rnd else ""
            out.append(f"{ind}{b}{w}{eq()}{key}{tail()}")
            out += render(vc, v, s, depth + 1)
            noise()
            out.append(ind + s.choice([f"END_{w}{eq()}{key}", f"END_{w}"])
                       + tail())
        elif kind == "stmt":
            out.append(f"{ind}{key}{eq()}{v[0]}{tail()}")
        else:
            out.append(f"{ind}{key}{eq()}{v[0][0]}{tail()}")
            for line in v[0][1:]:
                if s.rnd and s.comments and s.random() < .1:
                    out.append("   ")
                out.append(ind + s.choice(["", "   "]) + line + tail())
    return out


def text(vc, nodes, name, comments=True):
    import random
    s = random.Random(vc.int(name, 0, 10 ** 9))
    s.rnd, s.comments = vc.flag(name + ".rnd"), comments
    eol = vc.choice(name + ".eol", ["\r\n", "\n", "\r\n", "\r"])
    lines = render(vc, nodes, s)
    end = ["END"] if vc.flag(name + ".end") else []
    return eol.join(lines + end) + (eol if vc.flag(name + ".nl") or end
                                    else "")


def want(nodes):
    return [(k, want(v) if kind == "block" else v[1]) for k, kind, v in nodes]


def got(md):
    from multidict import MultiDict
    return [(k, got(v) if isinstance(v, MultiDict) else v)
            for k, v in md.items()]


def names(nodes):
    out = []
    for k, kind, v in nodes:
        out += ([k] + names(v)) if kind == "block" else [k]
    return out


def _typed(x):
    if isinstance(x, list):
        return [(k, _typed(v)) for k, v in x]
    return (type(x).__name__, sorted(x) if isinstance(x, set) else x)


@contract("C09", "labels", [
    P + "parse_pvl", P + "chunk_statements", P + "is_an_assignment_line",
    P + "BlockParser.parse_statements", P + "extract_pvl_block_terminal",
    P + "multidict_dig_and_edit", P + "literalize_pvl_block"],
    bounded="concrete: random labels nested up to four deep, up to five "
    "statements a block, in random layout", secs=20)
def labels(vc):
    """Every statement is kept exactly once, in order, in its own block, with
    its value; comments, blank lines and layout add and change nothing."""
    import warnings
    t = tree(vc)
    lbl = text(vc, t, "style")
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        o = vc.run(vc.f(P + "parse_pvl"), lbl, False)
    vc.ensure("no error", o.ok, lambda: f"{o.exc!r}\n{lbl}")
    m, params = o.value
    vc.ensure("statements", _typed(got(m)) == _typed(want(t)),
              lambda: f"{got(m)}\nwant {want(t)}\n{lbl}")
    vc.ensure("parameter names", sorted(params) == sorted(names(t)),
              lambda: f"{params}\nwant {names(t)}\n{lbl}")


@contract("C09", "layout", [P + "parse_pvl", P + "read_pvl"],
          bounded="concrete: as labels, two layouts of the same label",
          secs=10)
def layout(vc):
    """Labels that differ only in layout parse equally, as text and as
    files."""
    import warnings
    from . import e2e
    t = tree(vc)
    a, b = text(vc, t, "one"), text(vc, t, "two")
    f = vc.f(P + "parse_pvl")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        x, y = vc.run(f, a, False), vc.run(f, b, False)
        vc.ensure("no error", x.ok and y.ok)
        vc.ensure("equal", _typed(got(x.value[0])) == _typed(got(y.value[0])),
                  lambda: f"{got(x.value[0])}\n{got(y.value[0])}\n{a}\n{b}")
        if "\r" in b.replace("\r\n", ""):
            return
        e2e.write(vc, "x.lbl", b)
        import os
        z = vc.run(vc.f(P + "read_pvl"), os.path.join(vc.tmp(), "x.lbl"),
                   False)
    vc.ensure("file readable", z.ok, lambda: f"{z.exc!r}\n{b}")
    vc.ensure("file parses equally", _typed(got(z.value[0])) ==
              _typed(want(t)), lambda: f"{got(z.value[0])}\n{b}")


@contract("C09", "duplicates", [P + "index_duplicate_pointers",
                                P + "get_pds3_pointers", P + "set_key_index"],
          bounded="concrete: random labels with repeated pointers and "
          "objects", secs=6)
def duplicates(vc):
    """Repeated pointers and their objects are numbered in order; nothing is
    lost, moved or renamed otherwise."""
    import warnings
    n = vc.count("n", 1, 3, 14)
    extra = vc.choice("extra", [0, 0, 1])
    np_, no = n, max(0, n + vc.choice("diff", [0, 0, -1]) + extra)
    nm = vc.choice("nm", ["IMAGE", "TABLE", "DESCRIPTION", "STRUCTURE"])
    other = vc.flag("other")
    nodes = [("PDS_VERSION_ID", "stmt", ("PDS3", "PDS3"))]
    for i in range(np_):
        nodes.append((f"^{nm}", "stmt", (str(i + 1), i + 1)))
        if other and i == 0:
            nodes.append(("^HEADER", "stmt", ("99", 99)))
    for i in range(no):
        nodes.append((nm, "block", [("LINES", "stmt", (str(i), i)),
                                    ("A", "stmt", ("B", "B"))]))
    lbl = text(vc, nodes, "style")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o = vc.run(vc.f(P + "parse_pvl"), lbl)
    vc.ensure("no error", o.ok, lambda: f"{o.exc!r}\n{lbl}")
    exp, p, b = [], 0, 0
    dup = np_ > 1 and nm != "STRUCTURE"
    for k, v in want(nodes):
        if dup and k == f"^{nm}":
            k, p = f"{k}_{p}", p + 1
        elif dup and k == nm and nm != "DESCRIPTION" and b < np_:
            k, b = f"{k}_{b}", b + 1
        exp.append((k, v))
    g = got(o.value[0])
    vc.ensure("numbered in order", _typed(g) == _typed(exp),
              lambda: f"{g}\nwant {exp}\n{lbl}")


# ------------------------------------------------------------------ proofs
NAME = r"\^?[A-Z][A-Z0-9_]*(:[A-Z][A-Z0-9_]*)?"


@contract("C09", "one-line", [P + "chunk_statements",
                              P + "is_an_assignment_line",
                              P + "extract_pvl_block_terminal"])
def one_line(vc):
    """Any `NAME = value` line, whatever the value, is one statement with
    that name and that value."""
    from .C08 import _matches
    name = vc.str("name", pool=KEYS)
    vc.assume(_matches(vc, name, NAME))
    vc.assume(Not(_matches(vc, name, "END(_OBJECT|_GROUP)?(:.*)?")))
    v = vc.str("value", pool=[x[0] for x in VALUES] + ["", "=", "a=b=c"])
    vc.assume(_matches(vc, v, r"([^\s]([^\n]*[^\s])?)?"))
    o = vc.run(vc.f(P + "chunk_statements"), [name + " = " + v])
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    vc.ensure("one statement", len(o.value) == 1, lambda: repr(o.value))
    vc.ensure("name", o.value[0][0] == name, lambda: repr(o.value))
    vc.ensure("value", o.value[0][1] == v, lambda: repr(o.value))


@contract("C09", "continued", [P + "chunk_statements",
                               P + "is_an_assignment_line",
                               P + "extract_pvl_block_terminal"],
          weight=2)
def continued(vc):
    """An assignment, any continuation lines without '=' (up to two), and
    the next assignment make exactly two statements; the first one's value is
    its lines joined by single spaces."""
    from .C08 import _matches
    n1, n2 = (vc.str(k, pool=KEYS) for k in ("n1", "n2"))
    for n in (n1, n2):
        vc.assume(_matches(vc, n, NAME))
        vc.assume(Not(_matches(vc, n, "END(_OBJECT|_GROUP)?(:.*)?")))
    v1 = vc.str("v1", pool=[x[0] for x in VALUES] + ["", "=", "a=b=c"])
    v2 = vc.str("v2", pool=[x[0] for x in VALUES] + ["", "=", "a=b=c"])
    for v in (v1, v2):
        vc.assume(_matches(vc, v, r"([^\s]([^\n]*[^\s])?)?"))
    cont = []
    for i in range(vc.choice("lines", [0, 1, 2])):
        x = vc.str(f"c{i}", pool=["text", "END OF IT", "(a, b)", "9", '"'])
        vc.assume(_matches(vc, x, r"[^\s=]([^\n=]*[^\s=])?"))
        vc.assume(Not(_matches(vc, x, "END|END_(OBJECT|GROUP)([^A-Za-z0-9_][^\\n]*)?")))
        cont.append(x)
    ind = vc.choice("indent", ["", "   "])
    o = vc.run(vc.f(P + "chunk_statements"),
               [n1 + " = " + v1] + [ind + x for x in cont]
               + [n2 + " = " + v2])
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    vc.ensure("two statements", len(o.value) == 2, lambda: repr(o.value))
    if len(o.value) != 2:
        return
    vc.ensure("names", And(o.value[0][0] == n1, o.value[1][0] == n2),
              lambda: repr(o.value))
    want = v1
    for i, x in enumerate(cont):
        want = (x if not i and v1 == "" else want + " " + x)
    vc.ensure("value joined", o.value[0][1] == want, lambda: repr(o.value))
    vc.ensure("second value", o.value[1][1] == v2, lambda: repr(o.value))


@contract("C09", "step", [P + "BlockParser.parse_statements",
                          P + "extract_pvl_block_terminal"])
def step(vc):
    """From any parser state, one statement opens a block, closes the
    innermost one into its parent, or is added once at the end of the
    innermost block; nothing else changes."""
    from .C08 import _matches
    name = vc.str("name", pool=KEYS + [
        "END", "END_OBJECT", "END_GROUP", "OBJECT", "GROUP", "BEGIN_OBJECT",
        "BEGIN_GROUP"])
    vc.assume(_matches(vc, name, NAME.replace("(:[A-Z][A-Z0-9_]*)?", "")))
    value = vc.str("value", pool=["IMAGE", "5", ""])
    depth = vc.choice("depth", [0, 1, 2, 3])
    p = vc.f(P + "BlockParser")()
    marks = [object() for _ in range(depth + 1)]
    p.names = [f"B{i}" for i in range(depth)]
    p.aggregations = [vc.multidict([("A", m), ("A", i)])
                      for i, m in enumerate(marks)]
    p.parameters = ["A"]
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o = vc.run(p.parse_statements, [(name, value)])
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    vc.ensure("returns the whole label", o.value[0] is p.aggregations[0])
    opens = Or(*[name == x for x in ("OBJECT", "GROUP", "BEGIN_OBJECT",
                                     "BEGIN_GROUP")])
    ends = Or(*[name == x for x in ("END", "END_OBJECT", "END_GROUP")])
    d = len(p.aggregations) - 1
    vc.ensure("blocks and names in step", len(p.names) == d)
    vc.ensure("only block openers open", opens if d > depth else True)
    vc.ensure("only block ends close", ends if d < depth else True)
    vc.ensure("one level at a time", abs(d - depth) <= 1)
    base = [[("A", m), ("A", i)] for i, m in enumerate(marks)]
    if d > depth:
        vc.ensure("block named", p.names[-1] == value)
        vc.ensure("block empty", len(p.aggregations[-1]) == 0)
        base.append([])
    elif d < depth:
        top = list(p.aggregations[-1].items())
        inner = base.pop()
        vc.ensure("closed block ends its parent",
                  len(top) == 3 and top[2][0] == f"B{depth - 1}" and
                  list(top[2][1].items()) == inner)
        vc.ensure("closed block recorded once", p.parameters ==
                  ["A", f"B{depth - 1}"])
        base[-1] = base[-1] + [top[2]]
    else:
        n = [len(a) for a in p.aggregations]
        if n[-1] > 2:
            vc.ensure("only plain names are added", Not(Or(opens, ends)))
            last = list(p.aggregations[-1].items())[-1]
            vc.ensure("name kept", last[0] == name)
            vc.ensure("value kept", last[1] == value)
            vc.ensure("recorded once", len(p.parameters) == 2 and
                      p.parameters[1] == name)
            base[-1] = base[-1] + [last]
        else:
            vc.ensure("only a top-level end is dropped",
                      And(ends, depth == 0))
    vc.ensure("nothing else changes", [list(a.items()) for a in
                                       p.aggregations] == base)


@contract("C09", "block-ends", [P + "extract_pvl_block_terminal"])
def block_ends(vc):
    """Exactly END, END_OBJECT and END_GROUP end a block: every other keyword
    is an ordinary statement."""
    from .C08 import _matches
    name = vc.str("name", pool=KEYS + ["END", "END_OBJECT", "END_GROUP"])
    vc.assume(_matches(vc, name, NAME.replace("(:[A-Z][A-Z0-9_]*)?", "")))
    o = vc.run(vc.f(P + "extract_pvl_block_terminal"), name)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    vc.ensure("terminal", Or(name == "END", name == "END_OBJECT", name ==
                             "END_GROUP") if o.value is not None else
              Not(Or(name == "END", name == "END_OBJECT",
                     name == "END_GROUP")), lambda: f"{name!r}: {o.value!r}")


def _fixed(lbl, exp, doc):
    def h(vc):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            o = vc.run(vc.f(P + "parse_pvl"), lbl, False)
        vc.ensure("statements", o.ok and got(o.value[0]) == exp,
                  lambda: f"{o!r}, want {exp}")
    h.__doc__ = doc
    return h


for _n, _l, _e, _d in (
        ("prose-assignment", 'A = "first\r\nTHE VALUE X = 5 is"\r\nB = 1\r\n',
         [("A", "first THE VALUE X = 5 is"), ("B", 1)],
         "A line of quoted text that looks like an assignment is text."),
        ("quoted-comment", 'A = "a /* b */ c"\r\nB = 1\r\n',
         [("A", "a /* b */ c"), ("B", 1)],
         "Comment marks inside quotes are text."),
        ("lowercase-keyword", 'A = 1\r\nmy_key = 2\r\n',
         [("A", 1), ("my_key", 2)], "Keywords may be written in lower case.")):
    contract("C09", _n, [P + "parse_pvl"],
             bounded="concrete: one fixed label", secs=1)(_fixed(_l, _e, _d))


from contracts.C20 import edit, EDIT  # noqa: E402
contract("C09", "edit", EDIT, secs=5)(edit)
