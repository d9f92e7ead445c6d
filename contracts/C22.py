"""C22: text table fields are read from their declared columns."""
from pyvc.api import contract, And, Or, Not, Implies

T = "pdr.loaders.table:"
Q = "pdr.loaders.queries:"
E2E = ["pdr:read", T + "_interpret_as_ascii", T + "_read_table_from_stringio",
       T + "_read_as_delimited", T + "_read_fwf_with_colspecs",
       T + "read_table", Q + "table_position", Q + "parse_table_structure"]
H = "pdr.loaders._helpers:"
WORDS = ["Alpha", "beta", "Q", "x-ray", "Day_2", "MARS", "a b", "orbit7",
         "T2:10", "EDR/RDR"]


DELIMS = {"COMMA": ",", "VERTICAL_BAR": "|", "SEMICOLON": ";", "TAB": "\t"}


class Opaque:
    """a value the code may only pass on"""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"<{self.n}>"


class Text:
    """a text buffer over the text it was made of"""

    def __init__(self, text):
        self.text, self.at = text, 0

    def seek(self, n, *a):
        self.at = n
        return n

    def read(self):
        return self.text


def patched(vc, path, model, why):
    """the callee's contract, in place of the callee"""
    if vc.symbolic:
        vc.stub(path, model, why)
        return
    import importlib
    mod, _, name = path.partition(":")
    m = importlib.import_module(mod)
    vc.undo = getattr(vc, "undo", [])
    vc.undo.append((m, name, getattr(m, name)))
    setattr(m, name, model)


def restore(vc):
    for m, name, old in reversed(getattr(vc, "undo", [])):
        setattr(m, name, old)
    vc.undo = []


@contract("C22", "window", [T + "_interpret_as_ascii", "pdr.utils:head_file"],
          secs=2)
def window(vc):
    """The text a table is read from is the file's bytes from the table's
    start, as many as its length says (to the end of the file if it does not
    say), and nothing else."""
    import io
    f = vc.f(T + "_interpret_as_ascii")
    size = vc.int("size", 0, 400)
    start = vc.int("start", 0, 500)
    length = vc.int("length", 0, 500) if vc.flag("bounded") else None
    seen = []

    def parse(fmtdef, block, buf):
        seen.append((fmtdef, block, buf))
        return "the table"
    fmtdef, block = Opaque("definition"), Opaque("block")
    if vc.symbolic:
        from pyvc.nparr import SymFile, SymBytesIO, SymBytes
        src = SymFile(size, vc.choice("kind", ["plain", "gzip", "bz2"]))
        vc.stub("pdr.utils:decompress", lambda fn: src,
                "C11: yields the file's uncompressed bytes")
        vc.ctx.stubs[io.BytesIO] = lambda b=b"": SymBytesIO(
            SymBytes(src, 0, 0) if b == b"" else b)
        vc.ctx.stubs[io.StringIO] = Text
    else:
        import gzip
        import os
        p = os.path.join(vc.tmp(), "t.tab")
        data = bytes(i * 7 % 95 + 32 for i in range(size))
        kind = vc.choice("kind", ["plain", "gzip", "bz2"])
        from . import e2e
        fn = os.path.join(vc.tmp(), e2e.write(vc, "t.tab", data, {
            "bz2": "bz2", "gzip": "gzip"}.get(kind, "plain")))
    patched(vc, T + "_read_table_from_stringio", parse, "contracts below")
    try:
        o = vc.run(f, "t.tab" if vc.symbolic else fn, fmtdef, block,
                   {"start": start, "length": length, "as_rows": False})
    finally:
        restore(vc)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    vc.ensure("parsed once, with this definition", len(seen) == 1 and
              seen[0][0] is fmtdef and seen[0][1] is block and
              o.value == "the table")
    buf = seen[0][2]
    if vc.symbolic:
        from pyvc.sbytes import Decoded
        t = buf.text
        vc.ensure("it is text of the file", isinstance(t, Decoded) and
                  t.bytes.src is src and t.encoding.lower().replace("-", "")
                  in ("utf8",) and t.errors == "strict" and buf.at == 0)
        b = t.bytes
        left = size - start
        short = True if length is None else left <= length
        vc.ensure("as many bytes as declared", And(
            Implies(left <= 0, b.n == 0),
            Implies(And(left > 0, short), b.n == left),
            Implies(And(left > 0, Not(short)), b.n == length)))
        vc.ensure("from the declared start", Or(b.n == 0, b.off == start))
        return
    want = data[start:] if length is None else data[start:start + length]
    vc.ensure("as many bytes as declared", len(buf.getvalue()) == len(want))
    vc.ensure("from the declared start", buf.read() == want.decode())


SPECS = ["SB_OFFSET", "BYTES", "ITEM_BYTES"]


@contract("C22", "columns", [T + "_read_fwf_with_colspecs"], secs=2,
          bounded="symbolic: tables of up to three columns (their positions "
          "and widths are any integers)")
def columns(vc):
    """A fixed-width column spans exactly the bytes of its (item's) declared
    width from its offset, and only padding is stripped from it."""
    import pandas as pd
    f = vc.f(T + "_read_fwf_with_colspecs")
    n = vc.int("n", 1, 3) if not vc.symbolic else vc.choice("n", [1, 2, 3])
    items = vc.flag("items")
    recs, want = [], []
    for i in range(n):
        r = {"NAME": f"C{i}", "SB_OFFSET": vc.int(f"off{i}", 0, 2000),
             "BYTES": vc.int(f"w{i}", 1, 200)}
        w = r["BYTES"]
        if items:
            r["ITEM_BYTES"] = float("nan")
            if vc.flag(f"item{i}"):
                w = r["ITEM_BYTES"] = vc.int(f"iw{i}", 1, 50)
                if vc.flag(f"apart{i}"):
                    # items apart from one another are no wider for it
                    r["ITEM_OFFSET"] = w + vc.int(f"gap{i}", 0, 50)
                    r["ITEMS"] = 2
        recs.append(r)
        want.append((r["SB_OFFSET"], r["SB_OFFSET"] + w))
    fmtdef = pd.DataFrame(recs, dtype=object if vc.symbolic else None)
    seen, buf = [], Opaque("text")

    def fwf(b, *a, **k):
        seen.append((b, a, k))
        return "the table"
    old = pd.read_fwf
    if vc.symbolic:
        vc.ctx.stubs[pd.read_fwf] = fwf
    else:
        pd.read_fwf = fwf
    try:
        o = vc.run(f, fmtdef, buf)
    finally:
        pd.read_fwf = old
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    vc.ensure("one pass over the text", len(seen) == 1 and seen[0][0] is buf
              and o.value == "the table")
    k = seen[0][2]
    vc.ensure("no header line", k.get("header", 0) is None)
    vc.ensure("only padding is stripped", set(k.get("delimiter", "")) <=
              set(' \t",') and " " in k.get("delimiter", ""))
    got = list(k["colspecs"])
    vc.ensure("as many columns", len(got) == n)
    for i, ((a, b), (x, y)) in enumerate(zip(got, want)):
        vc.ensure("first byte", a == x, lambda: f"column {i}: {a} not {x}")
        vc.ensure("end", b == y, lambda: f"column {i}: {b} not {y}")


@contract("C22", "scaling", [T + "read_table"], secs=2,
          bounded="symbolic: tables of two columns and two rows (all values "
          "are any reals)")
def scaling(vc):
    """A column's values are multiplied by its declared scaling factor, then
    its declared offset is added; other columns are unchanged; columns that
    stand for padding are dropped and the names are the declared ones."""
    import pandas as pd
    f = vc.f(T + "read_table")
    binary = vc.flag("binary")
    dropped = vc.flag("placeholders left out by the parser")
    nan = float("nan")
    names = ["A", "PLACEHOLDER_0", "B"] if vc.flag("padded") else ["A", "B"]
    rows, vals = [], {}
    for n in names:
        r = {"NAME": n, "DATA_TYPE": "X"}
        if n != "PLACEHOLDER_0":
            vals[n] = [vc.real(f"{n}{i}", -1000, 1000) for i in (0, 1)]
            if vc.flag(f"scaled.{n}"):
                r["SCALING_FACTOR"] = vc.real(f"s{n}", -50, 50)
                vc.assume(r["SCALING_FACTOR"] != 0)
            if vc.flag(f"shifted.{n}"):
                r["OFFSET"] = vc.real(f"o{n}", -50, 50)
        rows.append(r)
    ob = object if vc.symbolic else None
    fmtdef = pd.DataFrame(rows, dtype=ob)
    have = [n for n in names if n in vals or binary or not dropped]
    cols = [vals.get(n, [0.5, 1.5]) for n in have]
    t = pd.DataFrame({i: pd.Series(c, dtype=ob) for i, c in enumerate(cols)})
    if binary:
        t.columns = have
    seen = []

    def reader(*a):
        seen.append(a)
        return t
    patched(vc, T + ("_interpret_as_binary" if binary else
                     "_interpret_as_ascii"), reader, "contract window, C05")
    fn, block, props = "t.tab", Opaque("block"), Opaque("props")
    dt = Opaque("dtype") if binary else None
    start = Opaque("start")
    try:
        o = vc.run(f, identifiers={}, fn=fn, fmtdef_dt=(fmtdef, dt),
                   table_props=props, block=block, start_byte=start)
    finally:
        restore(vc)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    vc.ensure("read once, from this file and definition", len(seen) == 1 and
              seen[0][0] == fn and seen[0][1] is fmtdef and
              any(x is block for x in seen[0]) and
              any(x is (start if binary else props) for x in seen[0]))
    got = o.value
    vc.ensure("names", list(got.columns) == ["A", "B"],
              lambda: repr(list(got.columns)))
    for n in vals:
        r = [x for x in rows if x["NAME"] == n][0]
        for i in (0, 1):
            w = vals[n][i]
            if "SCALING_FACTOR" in r:
                w = w * r["SCALING_FACTOR"]
            if "OFFSET" in r:
                w = w + r["OFFSET"]
            g = got[n].iloc[i]
            vc.ensure("value", g == w if vc.symbolic else
                      abs(g - w) <= 1e-9 * (1 + abs(w)),
                      lambda: f"{n}[{i}]: {g} not {w}")


@contract("C22", "delimiter", [H + "check_explicit_delimiter"], secs=1)
def delimiter(vc):
    """The declared delimiter is the one used; a comma if none is declared; a
    delimiter the library does not know is refused."""
    f = vc.f(H + "check_explicit_delimiter")
    k = vc.choice("declared", [None, "COMMA", "VERTICAL_BAR", "SEMICOLON",
                               "TAB", "other"])
    name = vc.str("name", pool=["SPACE", "comma", "", "|", "COLON"],
                  maxlen=12) if k == "other" else k
    if k == "other":
        for n in DELIMS:
            vc.assume(name != n)
    block = {} if k is None else {"FIELD_DELIMITER": name}
    o = vc.run(f, block)
    if k == "other":
        vc.ensure("refused", not o.ok and isinstance(o.exc, KeyError))
    else:
        vc.ensure("declared delimiter", o.ok and o.value ==
                  DELIMS[k or "COMMA"], lambda: repr(o))


def _field(vc, t):
    """(type, width, text maker)"""
    kind = vc.choice(f"{t}.kind", ["int", "real", "exp", "text", "quoted"])
    if kind == "int":
        return kind, "ASCII_INTEGER", vc.int(f"{t}.w", 1, 7)
    if kind == "real":
        return kind, "ASCII_REAL", vc.int(f"{t}.w", 4, 9)
    if kind == "exp":
        return kind, "ASCII_REAL", 11
    return kind, "CHARACTER", vc.int(f"{t}.w", 1, 8)


def _value(vc, t, kind, w):
    """(the text of a field, the value it spells)"""
    if kind == "int":
        k = vc.int(f"{t}.digits", 1, w)
        if k > 1 and vc.flag(f"{t}.neg"):
            v = -vc.int(f"{t}.v", 0, 10 ** (k - 1) - 1)
        else:
            v = vc.int(f"{t}.v", 0, 10 ** k - 1)
        s = str(v)
        if vc.flag(f"{t}.zeros") and v >= 0:
            s = s.zfill(k)
        return s, v
    if kind == "real":
        d = vc.int(f"{t}.dec", 1, w - 3)
        v = vc.int(f"{t}.v", -10 ** (w - 3) + 1, 10 ** (w - 3) - 1)
        s = f"{v / 10 ** d:.{d}f}"
        return (s, float(s)) if len(s) <= w else (f"{v % 10}.5"[:w],
                                                  v % 10 + .5)
    if kind == "exp":
        v = vc.int(f"{t}.v", -9999, 9999)
        s = f"{v / 1000:.3f}E{vc.int(t + '.e', -20, 20):+03d}"
        return s, float(s)
    pool = [x for x in WORDS if len(x) <= w]
    s = pool[vc.index(f"{t}.word", len(pool))]
    return s, s


def same_column(got, want):
    import math
    got = got.tolist()
    if len(got) != len(want):
        return False
    for a, b in zip(got, want):
        if isinstance(b, str):
            if a != b:
                return False
        elif isinstance(a, str) or not math.isclose(a, b, rel_tol=1e-14):
            return False
    return True


def _compare(vc, cols, want, rows, lbl, obj):
    from . import e2e
    o = vc.run(lambda: e2e.load(e2e.read(vc, "t.lbl"), obj))
    vc.ensure("loads", o.ok, lambda: f"{o.exc!r}\n{lbl}")
    t = o.value
    vc.ensure("row and column count", t.shape == (rows, len(cols)),
              lambda: f"{t.shape} want {(rows, len(cols))}\n{lbl}\n{t}")
    names = list(t.columns)
    vc.ensure("declared names", names == cols, lambda: f"{names} want {cols}")
    for i, c in enumerate(cols):
        vc.ensure("declared text", same_column(t.iloc[:, i], want[i]),
                  lambda: f"{c}: {t.iloc[:, i].tolist()} want {want[i]}\n{lbl}")


def _scale(vc, t, kind, block, vals):
    """declare a scale and an offset for some numeric columns"""
    if kind in ("text", "quoted"):
        return vals
    if vc.flag(f"{t}.scaled"):
        s = vc.choice(f"{t}.scale", [2, 0.5, 10, 0.001, -1, 1])
        block.append(("SCALING_FACTOR", s))
        vals = [v * s for v in vals]
    if vc.flag(f"{t}.shifted"):
        s = vc.choice(f"{t}.offset", [1, -3, 273.15, 0])
        block.append(("OFFSET", s))
        vals = [v + s for v in vals]
    return vals


@contract("C22", "e2e-fixed", E2E, bounded="concrete: random ASCII TABLE "
          "definitions of up to five columns, six rows", secs=10, random=600)
def e2e_fixed(vc):
    """Each field of a fixed-width text table is the number or text in the
    columns its definition declares, whatever separates the columns."""
    from . import e2e
    n, rows = vc.count("cols", 1, 5, 14), vc.count("rows", 1, 6, 120)
    style = vc.choice("style", ["comma", "blank", "none", "mixed", "tight"])
    pos, cols, blocks, wants = 0, [], [], []
    scales = vc.flag("scales")
    lines = [""] * rows
    for i in range(n):
        t = f"c{i}"
        kind, typ, w = _field(vc, t)
        sep = ""
        if i:
            sep = {"comma": ",", "blank": " ", "none": "", "tight": ",",
                   "mixed": vc.choice(f"{t}.sep", [",", " ", ", ", "  "]),
                   }[style]
        elif vc.flag("lead"):
            sep = " " * vc.int("leadw", 1, 3)
        vals = [_value(vc, f"{t}.{r}", kind, w) for r in range(rows)]
        q = '"' if kind == "quoted" else ""
        just = vc.flag(f"{t}.right") if q == "" and kind == "text" else not q
        lines = [x + sep + q + (s.rjust(w) if just else s.ljust(w)) + q
                 for x, (s, _) in zip(lines, vals)]
        start = pos + len(sep) + len(q)
        pos = start + w + len(q)
        nm = f"COL_{i}"
        b = [("NAME", nm), ("DATA_TYPE", e2e.Raw(typ)),
             ("START_BYTE", start + 1), ("BYTES", w)]
        vals = [v for _, v in vals]
        if scales:
            vals = _scale(vc, t, kind, b, vals)
        if vc.flag(f"{t}.unit"):
            b.append(("UNIT", "N/A"))
        cols.append(nm)
        blocks.append(("OBJECT COLUMN", b))
        wants.append(vals)
    eol = vc.choice("eol", ["\r\n", "\r\n", "\n"])
    lines = [x + eol for x in lines]
    row = len(lines[0])
    skip = vc.int("skip", 0, 2)
    rec = row if skip else vc.choice("rec", [row, row * 2])
    lead = "".join(("#" * (rec - len(eol)) + eol) for _ in range(skip))
    tail = vc.choice("tail", ["", "junk, more junk\r\n1,2,3\r\n"])
    data = (lead + "".join(lines) + tail).encode()
    ptr = vc.choice("ptr", ["rec", "bytes"])
    tgt = ("t.tab", skip + 1) if ptr == "rec" else (
        "t.tab", e2e.Raw(f"{len(lead) + 1} <BYTES>"))
    obj = vc.choice("obj", ["TABLE", "ASCII_TABLE", "SERIES_TABLE"])
    b = [("INTERCHANGE_FORMAT", e2e.Raw("ASCII")), ("ROWS", rows),
         ("COLUMNS", n), ("ROW_BYTES", row)]
    e2e.write(vc, "t.tab", data)
    lbl = e2e.pvl([("PDS_VERSION_ID", e2e.Raw("PDS3")),
                   ("RECORD_TYPE", e2e.Raw("FIXED_LENGTH")),
                   ("RECORD_BYTES", rec), (f"^{obj}", tgt),
                   (f"OBJECT {obj}", b + blocks)]) + "END\r\n"
    e2e.write(vc, "t.lbl", lbl)
    _compare(vc, cols, wants, rows, lbl + "\n" + data.decode(), obj)


@contract("C22", "e2e-items", E2E + ["pdr.utils:append_repeated_object"],
          bounded="concrete: random ASCII TABLE definitions with containers "
          "and multiple-item columns", secs=5, random=200)
def e2e_items(vc):
    """Containers and multiple-item columns of a text table expand in order,
    each repetition and item at its own columns."""
    from . import e2e
    rows = vc.int("rows", 1, 4)
    w = vc.int("w", 2, 5)
    m = vc.int("items", 2, 4)
    reps = vc.int("reps", 2, 3)
    gap = vc.choice("gap", [" ", ",", ""])
    kind = vc.choice("kind", ["items", "cont"])
    # first column, then the repeated thing, then a last column
    first = [vc.int(f"a{r}", 0, 99) for r in range(rows)]
    k = m if kind == "items" else reps
    mid = [[vc.int(f"m{r}.{i}", 0, 10 ** w - 1) for i in range(k)]
           for r in range(rows)]
    last = [vc.int(f"z{r}", 0, 99) for r in range(rows)]
    lines = ["%2d" % a + gap + "".join("%*d" % (w, x) + gap for x in xs)
             + "%2d\r\n" % z for a, xs, z in zip(first, mid, last)]
    step = w + len(gap)
    b = [("OBJECT COLUMN", [("NAME", "A"), ("DATA_TYPE",
                                            e2e.Raw("ASCII_INTEGER")),
                            ("START_BYTE", 1), ("BYTES", 2)])]
    s0 = 3 + len(gap)
    if kind == "items":
        c = [("NAME", "M"), ("DATA_TYPE", e2e.Raw("ASCII_INTEGER")),
             ("START_BYTE", s0), ("ITEMS", m), ("ITEM_BYTES", w),
             ("BYTES", step * (m - 1) + w)]
        if gap:
            c.append(("ITEM_OFFSET", step))
        b.append(("OBJECT COLUMN", c))
    else:
        vc.assume(gap == "")
        b.append(("OBJECT CONTAINER", [
            ("NAME", "C"), ("START_BYTE", s0), ("BYTES", step),
            ("REPETITIONS", reps),
            ("OBJECT COLUMN", [("NAME", "M"), ("DATA_TYPE",
                                               e2e.Raw("ASCII_INTEGER")),
                               ("START_BYTE", 1), ("BYTES", w)])]))
    b.append(("OBJECT COLUMN", [("NAME", "Z"), ("DATA_TYPE",
                                                e2e.Raw("ASCII_INTEGER")),
                                ("START_BYTE", s0 + step * k), ("BYTES", 2)]))
    row = len(lines[0])
    e2e.write(vc, "t.tab", "".join(lines))
    lbl = e2e.pvl([("PDS_VERSION_ID", e2e.Raw("PDS3")),
                   ("RECORD_TYPE", e2e.Raw("FIXED_LENGTH")),
                   ("RECORD_BYTES", row), ("^TABLE", ("t.tab", 1)),
                   ("OBJECT TABLE", [
                       ("INTERCHANGE_FORMAT", e2e.Raw("ASCII")),
                       ("ROWS", rows), ("COLUMNS", 3), ("ROW_BYTES", row)]
                    + b)]) + "END\r\n"
    e2e.write(vc, "t.lbl", lbl)
    _compare(vc, ["A"] + [f"M_{i}" for i in range(k)] + ["Z"],
             [first] + [[xs[i] for xs in mid] for i in range(k)] + [last],
             rows, lbl + "".join(lines), "TABLE")



@contract("C22", "e2e-delimited", E2E + [
    "pdr.loaders._helpers:check_explicit_delimiter",
    "pdr.loaders._helpers:_check_delimiter_stream", Q + "_table_row_position"],
    bounded="concrete: random SPREADSHEET definitions of up to five fields, "
    "six rows", secs=10, random=600)
def e2e_delimited(vc):
    """Each field of a delimited table is the number or text between its
    delimiters, quoted text may hold the delimiter; the rows are the declared
    rows."""
    from . import e2e
    n, rows = vc.count("cols", 1, 5, 14), vc.count("rows", 1, 6, 120)
    dn = vc.choice("delim", sorted(DELIMS))
    d = DELIMS[dn]
    stream = vc.flag("stream")
    eol = vc.choice("eol", ["\r\n", "\n"])
    cols, blocks, wants, lines = [], [], [], [[] for _ in range(rows)]
    scales, sizes = vc.flag("scales"), vc.flag("bytes")
    for i in range(n):
        t = f"c{i}"
        kind, typ, w = _field(vc, t)
        vals = []
        for r in range(rows):
            s, v = _value(vc, f"{t}.{r}", kind, w)
            if kind == "quoted":
                if vc.flag(f"{t}.{r}.has"):
                    s = v = "x" + d + "y"
                s = f'"{s}"'
            elif vc.flag(f"{t}.{r}.pad"):
                s = " " + s
            vals.append(v)
            lines[r].append(s)
        nm = f"FLD_{i}"
        b = [("NAME", nm), ("DATA_TYPE", e2e.Raw(typ))]
        if sizes:
            b.append(("BYTES", 12))
        if scales:
            vals = _scale(vc, t, kind, b, vals)
        cols.append(nm)
        blocks.append(("OBJECT FIELD", b))
        wants.append(vals)
    lines = [d.join(x) + eol for x in lines]
    skip = vc.int("skip", 0, 2)
    tail = vc.choice("tail", ["", "junk\r\n"])
    body = "".join(lines)
    obj = "SPREADSHEET"
    items = [("PDS_VERSION_ID", e2e.Raw("PDS3"))]
    b = [("FIELDS", n), ("FIELD_DELIMITER", dn)]
    if dn == "COMMA" and vc.flag("nodelim"):
        b.pop()
    if stream:
        lead = "".join(f"# line {i}{eol}" for i in range(skip))
        items += [("RECORD_TYPE", e2e.Raw("STREAM"))]
        tgt = ("t.csv", skip + 1)
        if not skip and not tail and vc.flag("nameonly"):
            tgt = "t.csv"
        if skip:
            # without a row length, such a position is refused (C04)
            b[:0] = [("ROWS", rows), ("ROW_BYTES", max(map(len, lines)))]
        elif tail or vc.flag("sayrows"):
            b.insert(0, (vc.choice("rowkey", ["ROWS", "RECORDS"]), rows))
    else:
        rec = vc.int("rec", 8, 20)
        lead = "#" * (rec * skip)
        items += [("RECORD_TYPE", e2e.Raw("FIXED_LENGTH")),
                  ("RECORD_BYTES", rec)]
        tgt = ("t.csv", skip + 1)
        b += [("ROWS", rows), ("BYTES", len(body))]
    data = lead + body + tail
    e2e.write(vc, "t.csv", data)
    lbl = e2e.pvl(items + [(f"^{obj}", tgt), (f"OBJECT {obj}", b + blocks)]) \
        + "END\r\n"
    e2e.write(vc, "t.lbl", lbl)
    _compare(vc, cols, wants, rows, lbl + "\n" + data, obj)


def _fixed(name, doc, cols, lines, want):
    """One fixed product (used for the arrangements that are known not to
    work, so that each finding names its input)."""
    def h(vc):
        from . import e2e
        body = "".join(x + "\r\n" for x in lines)
        row = len(lines[0]) + 2
        b = [("INTERCHANGE_FORMAT", e2e.Raw("ASCII")), ("ROWS", len(lines)),
             ("COLUMNS", len(cols)), ("ROW_BYTES", row)]
        b += [("OBJECT COLUMN", [("NAME", n), ("DATA_TYPE", e2e.Raw(t)),
                                 ("START_BYTE", s), ("BYTES", w)])
              for n, t, s, w in cols]
        e2e.write(vc, "t.tab", body)
        lbl = e2e.pvl([("PDS_VERSION_ID", e2e.Raw("PDS3")),
                       ("RECORD_TYPE", e2e.Raw("FIXED_LENGTH")),
                       ("RECORD_BYTES", row), ("^TABLE", ("t.tab", 1)),
                       ("OBJECT TABLE", b)]) + "END\r\n"
        e2e.write(vc, "t.lbl", lbl)
        _compare(vc, [c[0] for c in cols], want, len(lines), lbl + body,
                 "TABLE")
    h.__doc__ = doc
    contract("C22", name, E2E, bounded="concrete: one fixed product", secs=1,
             random=2)(h)


_fixed("text-with-commas", "the text of a fixed-width column may hold commas",
       [("NAME", "CHARACTER", 1, 8), ("N", "ASCII_INTEGER", 9, 3)],
       ["Smith, J  5", "Doe, A   12"], [["Smith, J", "Doe, A"], [5, 12]])
_fixed("text-of-digits", "a CHARACTER column keeps text that spells a number",
       [("ID", "CHARACTER", 2, 3), ("N", "ASCII_INTEGER", 6, 3)],
       ['"007",  5', '"010", 12'], [["007", "010"], [5, 12]])
_fixed("text-missing", "a CHARACTER column keeps text such as NA",
       [("ID", "CHARACTER", 2, 4), ("N", "ASCII_INTEGER", 7, 3)],
       ['"NA  ",  5', '"None", 12'], [["NA", "None"], [5, 12]])


@contract("C22", "e2e-array", ["pdr:read", T + "read_array",
                               Q + "get_array_num_items"],
          bounded="concrete: random ASCII ARRAY objects of up to three axes",
          secs=4, random=200)
def e2e_array(vc):
    """A text ARRAY holds the numbers its text spells from its declared
    position on, in order, in its declared shape."""
    import numpy as np
    from . import e2e
    nd = vc.choice("axes", [1, 2, 3])
    dims = tuple(vc.int(f"n{i}", 1, 4) for i in range(nd))
    n = int(np.prod(dims))
    words, vals = [], []
    for i in range(n):
        t = f"v{i}"
        form = vc.choice(f"{t}.form", ["int", "fixed", "exp", "bare"])
        v = vc.int(t, -9999, 9999)
        if form == "int":
            s = str(v)
        elif form == "fixed":
            s = f"{v / 100:.2f}"
        elif form == "exp":
            s = f"{v / 1000:.3f}{vc.choice(t + '.e', ['E', 'e'])}" \
                f"{vc.int(t + '.x', -12, 12):+03d}"
        else:
            s = ("-" if v < 0 else "") + f".{abs(v) % 1000:03d}"
        words.append(s)
        vals.append(float(s))
    sep = vc.choice("sep", [" ", ", ", "\r\n", "\t"])
    rec = vc.int("rec", 1, 3)
    head = "".join(f"# {i} 12 {'x' * 3}\r\n"[:10].ljust(8)[:8] + "\r\n"
                   for i in range(rec - 1))
    tail = vc.choice("tail", ["", "\r\n", "\r\n99 98\r\n"])
    body = sep.join(words)
    e2e.write(vc, "h.tab", head + body + tail)
    b = [("AXES", nd), ("AXIS_ITEMS", dims if nd > 1 else dims[0]),
         ("NAME", "A")]
    if vc.flag("say"):
        b.append(("INTERCHANGE_FORMAT", e2e.Raw("ASCII")))
    lbl = e2e.pvl([("PDS_VERSION_ID", e2e.Raw("PDS3")),
                   ("RECORD_TYPE", e2e.Raw("FIXED_LENGTH")),
                   ("RECORD_BYTES", 10), ("^ARRAY", ("h.tab", rec)),
                   ("OBJECT ARRAY", b)]) + "END\r\n"
    e2e.write(vc, "h.lbl", lbl)
    o = vc.run(lambda: e2e.load(e2e.read(vc, "h.lbl"), "ARRAY"))
    vc.ensure("loads", o.ok, lambda: f"{o.exc!r}\n{lbl}{head}{body}{tail}")
    want = np.array(vals).reshape(dims)
    vc.ensure("elements", np.shape(o.value) == dims and np.array_equal(
        np.asarray(o.value, float), want), lambda: f"{o.value} want {want}\n"
        + head + body + tail)
