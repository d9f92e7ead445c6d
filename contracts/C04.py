"""C04: data objects are read from the byte their label points to."""
from pyvc.api import contract, And, Or, Not, Implies

Q = "pdr.loaders.queries:"
H = "pdr.loaders._helpers:"


def _pos(vc, n):
    return vc.int(n, 1, r=(1, 9))


def _target(vc, kind):
    """A pointer value as the label parser produces it, and what it says:
    ('record', N) / ('bytes', N) / ('file', None)."""
    if kind == "file":
        return "DATA.DAT", ("file", None)
    n = vc.int("N", 1, r=(1, 9))
    unit = {"rec": None, "bytes": "BYTES", "recq": "RECORDS"}[kind]
    v = n if unit is None else {"value": n, "units": unit}
    where = vc.choice("where", ["attached", "tuple", "list"])
    t = v if where == "attached" else (
        ("DATA.DAT", v) if where == "tuple" else ["DATA.DAT", v])
    return t, ("bytes" if kind == "bytes" else "record", n)


def _idents(vc):
    rb = vc.choice("rb", ["", None, "n"])
    if rb == "n":
        rb = vc.int("record_bytes", 1, r=(1, 99))
    return {"RECORD_BYTES": rb,
            "RECORD_TYPE": vc.choice("rtype", ["FIXED_LENGTH", "STREAM",
                                               "UNDEFINED"])}


def _filesize(vc):
    size = vc.int("size", 0, r=(0, 300))
    if vc.symbolic:
        import os.path
        vc.ctx.stubs[os.path.getsize] = lambda p: size
        vc.ctx.assumed.add("os.path.getsize returns the file's size")
        return "/d/DATA.DAT", size
    return vc.file("DATA.DAT", b"x" * size), size


def _start(kind, ask_block):
    def h(vc):
        f = vc.f(Q + "data_start_byte")
        ids = _idents(vc)
        t, (what, n) = _target(vc, kind)
        block = vc.block("b", {"RECORD_BYTES": _pos, "ROWS": _pos,
                               "ROW_BYTES": _pos}) if ask_block else {}
        if ask_block:
            vc.assume("ROWS" not in block or "ROW_BYTES" in block)
        fn, size = _filesize(vc)
        o = vc.run(f, ids, block, t, fn)
        rb = block["RECORD_BYTES"] if "RECORD_BYTES" in block \
            else ids["RECORD_BYTES"]
        known = rb is not None and not isinstance(rb, str)
        if what == "bytes":
            want = n - 1
        elif what == "file":
            want = 0
        elif known:
            want = (n - 1) * rb
        elif n == 1 if not vc.symbolic else bool(n == 1):
            # the first record starts at the first byte whatever its length
            if not o.ok:
                vc.ensure("first record may be refused only in a quantity",
                          kind == "recq")
                return
            want = 0
        elif "ROWS" in block and kind == "rec":
            end = size - block["ROWS"] * block["ROW_BYTES"]
            vc.ensure("found from the end", o.ok)
            vc.ensure("counted from the end", Or(
                And(end >= 0, o.value == end), And(end < 0, o.value == 0)))
            return
        else:
            vc.ensure("unknowable start is an error", not o.ok,
                      lambda: repr(o.value))
            return
        vc.ensure("interpretable pointers are accepted", o.ok,
                  lambda: repr(o.exc))
        vc.ensure("start byte", o.value == want,
                  lambda: f"got {o.value} want {want} for {t}")
        vc.ensure("not negative", o.value >= 0)
    return h


for _k, _d in (("rec", "record number"), ("bytes", "byte number"),
               ("recq", "record quantity"), ("file", "file name only")):
    for _b in (True, False):
        _h = _start(_k, _b)
        _h.__doc__ = (f"pointer giving a {_d}: start byte is the declared "
                      "position (1-based; records times record length), the "
                      "object's own record length first; unknowable is an "
                      "error")
        contract("C04", f"start-{_k}" + ("-block" if _b else ""),
                 [Q + "data_start_byte", H + "quantity_start_byte",
                  H + "count_from_bottom_of_file"])(_h)


@contract("C04", "quantity", [H + "quantity_start_byte"])
def quantity(vc):
    """Bytes are 1-based, other quantities count records; no record length
    means no answer."""
    f = vc.f(H + "quantity_start_byte")
    v = vc.int("v", 1)
    unit = vc.choice("unit", ["BYTES", "RECORDS", "RECORD", "ROWS"])
    rb = vc.int("rb", 0) if vc.flag("has_rb") else None
    o = vc.run(f, {"units": unit, "value": v}, rb)
    vc.ensure("no error", o.ok)
    if unit == "BYTES":
        vc.ensure("bytes", o.value == v - 1)
    elif rb is None:
        vc.ensure("unknown", o.value is None)
    else:
        vc.ensure("records", o.value == (v - 1) * rb)


@contract("C04", "from-bottom", [H + "count_from_bottom_of_file"])
def from_bottom(vc):
    """File size minus rows times row bytes, of the first candidate file."""
    f = vc.f(H + "count_from_bottom_of_file")
    fn, size = _filesize(vc)
    rows, rb = vc.int("rows", 0), vc.int("row_bytes", 0)
    arg = [fn, "/nonexistent/other"] if vc.flag("list") else fn
    o = vc.run(f, arg, rows, rb)
    vc.ensure("offset", And(o.ok, o.value == size - rows * rb))


@contract("C04", "bad-zero-byte", [Q + "data_start_byte"])
def bad_zero(vc):
    """Byte 0 (or less) does not exist: an error, never a negative start."""
    f = vc.f(Q + "data_start_byte")
    n = vc.int("n", None, 0, r=(-5, 0))
    t = {"value": n, "units": "BYTES"}
    if vc.flag("tuple"):
        t = ("F.DAT", t)
    o = vc.run(f, {"RECORD_BYTES": 10}, {}, t, "x")
    vc.ensure("rejected", not o.ok)


@contract("C04", "odd-pointers", [Q + "data_start_byte"])
def odd(vc):
    """Values that are no pointer at all are errors."""
    f = vc.f(Q + "data_start_byte")
    t = vc.choice("t", [None, 2.5, set(), (None,), ("A", None), ("A", 1.5)])
    o = vc.run(f, {"RECORD_BYTES": vc.choice("rb", [10, "", None])}, {}, t,
               "x")
    vc.ensure("rejected", not o.ok, lambda: repr(o.value))


NAMES = ["TABLE", "ASCII_TABLE", "SPREADSHEET", "HEADER", "IMAGE_HEADER",
         "SERIES"]


def _delimited(ids, name, t, block):
    if "BYTES" in block or ids["RECORD_BYTES"] not in (None, "") or \
            ids["RECORD_TYPE"] != "STREAM":
        return False
    q = t[-1] if isinstance(t, (list, tuple)) else t
    if isinstance(q, dict) and q["units"] == "BYTES":
        return False
    return any(w in name for w in ("ASCII", "SPREADSHEET", "HEADER"))


def _position(kind):
    def h(vc):
        f = vc.f(Q + "table_position")
        ids = _idents(vc)
        if not isinstance(ids["RECORD_BYTES"], (str, type(None))):
            vc.assume(ids["RECORD_TYPE"] != "UNDEFINED")
        t, (what, n) = _target(vc, kind)
        name = vc.choice("name", NAMES)
        g = lambda vc, n: vc.int(n, 0, r=(0, 9))
        block = vc.block("b", {
            "BYTES": _pos, "RECORDS": _pos, "ROWS": _pos, "RECORD_BYTES":
            _pos, "ROW_BYTES": _pos, "ROW_SUFFIX_BYTES": g,
            "ROW_PREFIX_BYTES": g})
        start = vc.int("start", 0, r=(0, 99))
        delim = vc.call(vc.f(H + "_check_delimiter_stream"), ids, name, t,
                        block)
        o = vc.run(f, ids, block, t, name, start)
        rows = block["RECORDS"] if "RECORDS" in block else \
            block.get("ROWS")
        header = "HEADER" in name
        want_delim = _delimited({**ids, "RECORD_BYTES": ids["RECORD_BYTES"]
                                 if isinstance(ids["RECORD_BYTES"],
                                               (str, type(None))) else 1},
                                name, t, block)
        vc.ensure("delimited exactly when no byte length is known",
                  bool(delim) == want_delim)
        if want_delim:
            length = rows
        elif "BYTES" in block:
            length = block["BYTES"]
        elif rows is None:
            length = None
        elif "RECORD_BYTES" in block:
            length = rows * block["RECORD_BYTES"]
        elif "ROW_BYTES" in block:
            length = rows * (block["ROW_BYTES"] + block.get(
                "ROW_SUFFIX_BYTES", 0) + block.get("ROW_PREFIX_BYTES", 0))
        elif ids["RECORD_BYTES"] not in (None, ""):
            length = rows * ids["RECORD_BYTES"]
        else:
            length = None
        if not o.ok:
            attached = want_delim and not isinstance(t, (list, tuple, str))
            vc.ensure("rejects only unknown extents", Or(
                header and length is None, attached), lambda: repr(o.exc))
            return
        vc.ensure("a header's extent is known", not (header and length is
                                                     None))
        r = o.value
        vc.ensure("units", r["as_rows"] is want_delim)
        if want_delim:
            vc.ensure("start row", r["start"] == (0 if what == "file"
                                                  else n - 1))
        else:
            vc.ensure("start byte", r["start"] == start)
        if length is None:
            vc.ensure("to end of file", r["length"] is None,
                      lambda: repr(r["length"]))
        else:
            vc.ensure("length", r["length"] == length, lambda:
                      f"{r['length']} want {length}")
    return h


for _k in ("rec", "bytes", "recq", "file"):
    _h = _position(_k)
    _h.__doc__ = ("a table's extent: declared bytes, else its rows/records "
                  "times its own record or row length (with row prefix and "
                  "suffix), else to the end; rows only for delimited streams "
                  "without record length")
    contract("C04", f"extent-{_k}", [
        Q + "table_position", Q + "_extract_table_records",
        Q + "_table_row_position", Q + "_table_length",
        H + "_check_delimiter_stream"], secs=4)(_h)


@contract("C04", "negative-start", [Q + "table_position"])
def negative_start(vc):
    """A negative start is refused."""
    s = vc.int("s", None, -1, r=(-9, -1))
    o = vc.run(vc.f(Q + "table_position"), {"RECORD_BYTES": 8,
               "RECORD_TYPE": "FIXED_LENGTH"}, {"ROWS": 2, "ROW_BYTES": 3},
               ("F", 2), "TABLE", s)
    vc.ensure("rejected", not o.ok)


@contract("C04", "e2e-pointers", ["pdr:read", Q + "get_target", Q +
                                  "get_block", Q + "get_file_mapping",
                                  Q + "data_start_byte",
                                  Q + "standalone_start_byte"],
          bounded="concrete: random labelled products with up to three "
          "objects, attached and detached labels", secs=20)
def e2e_pointers(vc):
    """Each object of a product is read from the byte its own pointer names,
    in its own file, attached or detached."""
    import numpy as np
    from . import e2e
    attached = vc.flag("attached")
    rec = vc.int("rec", 2, 40)
    objs = []
    used = ["IMAGE", "A_IMAGE", "B_TABLE", "THERMAL_QUBE"]
    for k in range(vc.choice("nobj", [1, 2, 3])):
        nm = used.pop(vc.choice(f"o{k}.name", list(range(len(used)))))
        form = vc.choice(f"o{k}.form", ["rec", "bytes", "first"])
        objs.append((nm, form, vc.int(f"o{k}.n", 1, 30),
                     vc.choice(f"o{k}.file", ["a.dat", "b.dat"]),
                     vc.int(f"o{k}.rows", 1, 3), vc.int(f"o{k}.cols", 1, 4)))
    skip = 40 if attached else 0     # label records come first
    items, want, need = [], {}, {"a.dat": 0, "b.dat": 0, "prod.lbl": 0}
    for nm, form, n, fl, r, c in objs:
        if attached:
            fl = "prod.lbl"
            n = n + skip
            if form == "first":
                form = "rec"
        if form == "rec":
            p, start = n, (n - 1) * rec
        elif form == "bytes":
            if attached:
                n = n + skip * rec
            p, start = e2e.Q(n), n - 1
        else:
            p, start = None, 0
        items.append((f"^{nm}", p if attached else
                      ((fl, p) if p is not None else fl)))
        size = r * c * 2
        need[fl] = max(need[fl], start + size)
        want[nm] = (fl, start, r, c)
    blocks = []
    for nm, _, _, _, r, c in objs:
        if "TABLE" in nm:
            b = [("INTERCHANGE_FORMAT", e2e.Raw("BINARY")), ("ROWS", r),
                 ("COLUMNS", c), ("ROW_BYTES", 2 * c)]
            for i in range(c):
                b.append(("OBJECT COLUMN", [
                    ("NAME", e2e.Raw(f"C{i}")), ("BYTES", 2),
                    ("DATA_TYPE", e2e.Raw("LSB_INTEGER")),
                    ("START_BYTE", 2 * i + 1)]))
        elif "QUBE" in nm:
            b = [("AXIS_NAME", (e2e.Raw("SAMPLE"), e2e.Raw("LINE"),
                                e2e.Raw("BAND"))),
                 ("CORE_ITEMS", (c, r, 1)), ("CORE_ITEM_BYTES", 2),
                 ("CORE_ITEM_TYPE", e2e.Raw("LSB_INTEGER"))]
        else:
            b = [("LINES", r), ("LINE_SAMPLES", c), ("SAMPLE_TYPE",
                 e2e.Raw("LSB_INTEGER")), ("SAMPLE_BITS", 16)]
        blocks.append((f"OBJECT {nm}", b))
    lbl = e2e.pvl([("PDS_VERSION_ID", e2e.Raw("PDS3")),
                   ("RECORD_TYPE", e2e.Raw("FIXED_LENGTH")),
                   ("RECORD_BYTES", rec), *items, *blocks]) + "END\r\n"
    data = {k: vc.bytes("content." + k, v + 8) for k, v in need.items()}
    if attached:
        vc.assume(len(lbl) <= skip * rec)
        d0 = lbl.encode() + b" " * (skip * rec - len(lbl))
        data["prod.lbl"] = d0 + data["prod.lbl"][len(d0):]
    else:
        data["prod.lbl"] = lbl
    for k, v in data.items():
        e2e.write(vc, k, v)
    d = e2e.read(vc, "prod.lbl")
    for nm, (fl, start, r, c) in want.items():
        o = vc.run(e2e.load, d, nm)
        vc.ensure("loads", o.ok, lambda: f"{nm}: {o.exc!r}\n{lbl}")
        got = np.asarray(o.value)
        exp = e2e.pick(data[fl], start, np.arange(r * c).reshape(r, c),
                       np.dtype("<i2"))
        vc.ensure("bytes read", got.shape == exp.shape and (got == exp).all(),
                  lambda: f"{nm}: got {got.tolist()} want {exp.tolist()}\n"
                  + lbl)
