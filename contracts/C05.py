"""C05: binary table fields are read from their declared bytes."""
from pyvc.api import contract, And, Or, Not, Implies

Q = "pdr.loaders.queries:"
P = "pdr.pd_utils:"
E2E = ["pdr:read", Q + "parse_table_structure", Q + "read_table_structure",
       Q + "read_format_block", P + "compute_offsets", P + "_apply_item_offsets",
       P + "insert_sample_types_into_df", P + "fmtdef_to_dtype",
       "pdr.loaders.table:_interpret_as_binary"]


def _check(vc, opt):
    from . import e2e, tables
    b, kids, lay, rows, rowlen = tables.table(vc, opt)
    _compare(vc, b, kids, lay, rows, rowlen)


def _compare(vc, b, kids, lay, rows, rowlen, sub=""):
    from . import e2e, tables
    rec = 10
    n = vc.int("rec", 1, 3)
    start = (n - 1) * rec
    data = vc.bytes("d", start + rows * rowlen + 7)
    # a NUL or 0xff in text is not at stake here
    lbl = tables.label(("t.dat", n), b + kids, rec)
    e2e.write(vc, sub + "t.dat", data)
    e2e.write(vc, sub + "t.lbl", lbl)
    o = vc.run(lambda: e2e.load(e2e.read(vc, sub + "t.lbl"), "TABLE"))
    vc.ensure("loads", o.ok, lambda: f"{o.exc!r}\n{lbl}")
    t = o.value
    vc.ensure("row and column count", t.shape == (rows, len(lay)),
              lambda: f"{t.shape} want {(rows, len(lay))}\n{lbl}")
    for i, (nm, off, dt) in enumerate(lay):
        want = tables.column_bytes(data, start, rows, rowlen, off, dt)
        got = t.iloc[:, i]
        vc.ensure("declared bytes", tables.same_column(got, want),
                  lambda: f"{nm} at {off} {dt}: {list(got)} want "
                  f"{list(want)}\n{lbl}")
    names = list(t.columns)
    vc.ensure("unique names", len(set(names)) == len(names),
              lambda: repr(names))
    vc.ensure("declared names", all(
        n == nm or n.startswith(nm + "_") for n, (nm, _, _) in
        zip(names, lay)), lambda: repr(names))


def _reg(name, doc, **opt):
    base = dict(gaps=False, containers=False, items=False, offsets=False,
                dupes=False, sides=False)
    base.update(opt)

    def h(vc):
        _check(vc, base)
    h.__doc__ = doc
    contract("C05", name, E2E, bounded="concrete: random table definitions, "
             "up to 4 members per level, 5 rows", secs=8)(h)



_reg("e2e-columns", "Columns with gaps between them, and a row longer than "
     "its columns, read their declared bytes in every row", gaps=True)
_reg("e2e-types", "Columns of every type keep their declared type, width and "
     "bytes: booleans are the bytes that are not zero, EBCDIC text decodes to "
     "the text its bytes encode", gaps=True, items=True, types=True)
_reg("e2e-names", "Columns with repeated names keep their own bytes and get "
     "distinct names", gaps=True, dupes=True)
_reg("e2e-sides", "Row prefixes and suffixes are skipped in every row",
     gaps=True, sides=True, items=True)
_reg("e2e-items", "Multiple-item columns expand in order with their declared "
     "item width and stride", gaps=True, items=True, offsets=True)
_reg("e2e-order", "Columns may be defined in another order than they are "
     "stored", gaps=True, items=True, offsets=True, shuffle=True, dupes=True)


def _conts(kids):
    return [i for i, (k, _) in enumerate(kids) if "CONT" in k]


def _end(kid):
    d = dict(kid[1])
    r = d.get("REPETITIONS", 1) if "CONT" in kid[0] else 1
    return d["START_BYTE"] - 1 + d["BYTES"] * r


@contract("C05", "e2e-containers", E2E + ["pdr.utils:append_repeated_object"],
          bounded="concrete: random table definitions with one level of "
          "containers, each directly after a column (the other arrangements "
          "are known findings, below)", secs=14)
def e2e_containers(vc):
    """Containers expand their members once per repetition, each repetition
    one container length further on."""
    from . import tables
    opt = dict(gaps=True, containers=True, items=True, offsets=True,
               dupes=True, sides=True)
    b, kids, lay, rows, rowlen = tables.table(vc, opt)
    c = _conts(kids)
    # nudge the draw into the arrangement under contract
    vc.assume(c and c[0] > 0)
    vc.assume(all(y - x > 1 for x, y in zip(c, c[1:])))
    names = [b_["NAME"].s for b_ in (dict(kids[i][1]) for i in c)]
    vc.assume(len(set(names)) == len(names))
    vc.assume(all(_end(kids[i - 1]) == dict(kids[i][1])["START_BYTE"] - 1
                  for i in c))
    from . import e2e
    for i in c:
        if vc.choice(f"file{i}", [0, 0, 1]):
            # the members are defined in an external format file
            k, body = kids[i]
            cut = [key == "OBJECT COLUMN" for key, _ in body].index(True)
            e2e.write(vc, f"c{i}.fmt", e2e.pvl(body[cut:]) + "END\r\n")
            kids[i] = (k, body[:cut] + [("^STRUCTURE", f"C{i}.FMT")])
    _compare(vc, b, kids, lay, rows, rowlen)


def _fixed(name, doc, kids, lay, rowlen, structs=None):
    """One fixed product (used for the arrangements that are known not to
    work, so that each finding names its input)."""
    def h(vc):
        from . import e2e
        b = [("INTERCHANGE_FORMAT", e2e.Raw("BINARY")), ("ROWS", 3),
             ("COLUMNS", len(kids)), ("ROW_BYTES", rowlen)]
        conv = lambda ks: [(k, [(a, e2e.Raw(v) if isinstance(v, str) else v)
                                if not isinstance(v, list) else conv([(a, v)])[0]
                                for a, v in sub]) for k, sub in ks]
        _compare(vc, b, conv(kids), lay, 3, rowlen)
    h.__doc__ = doc
    contract("C05", name, E2E, bounded="concrete: one fixed product", secs=1,
             random=2)(h)


def _col(n, start, size=2, typ="MSB_UNSIGNED_INTEGER"):
    return ("OBJECT COLUMN", [("NAME", n), ("DATA_TYPE", typ),
                              ("START_BYTE", start), ("BYTES", size)])


def _cont(n, start, size, reps, *kids):
    return ("OBJECT CONTAINER", [("NAME", n), ("START_BYTE", start),
                                 ("BYTES", size), ("REPETITIONS", reps),
                                 *kids])


_fixed("container-after-gap", "pad bytes between a column and the container "
       "that follows it are skipped",
       [_col("A", 1), _cont("C", 5, 2, 2, _col("B", 1))],
       [("A", 0, ">u2"), ("B", 4, ">u2"), ("B", 6, ">u2")], 8)
_fixed("container-first", "a table may begin with a container",
       [_cont("C", 1, 2, 2, _col("B", 1)), _col("A", 5)],
       [("B", 0, ">u2"), ("B", 2, ">u2"), ("A", 4, ">u2")], 6)
_fixed("container-adjacent", "a container may directly follow a repeated one",
       [_col("A", 1), _cont("C", 3, 2, 2, _col("B", 1)),
        _cont("D", 7, 4, 2, _col("E", 1), _col("F", 3))],
       [("A", 0, ">u2"), ("B", 2, ">u2"), ("B", 4, ">u2"), ("E", 6, ">u2"),
        ("F", 8, ">u2"), ("E", 10, ">u2"), ("F", 12, ">u2")], 14)
_fixed("container-nested", "containers nest",
       [_col("A", 1), _cont("C", 3, 6, 2, _col("B", 1),
                            _cont("D", 3, 2, 2, _col("E", 1))),
        _col("G", 15)],
       [("A", 0, ">u2")] + [(n, o + r, ">u2") for r in (2, 8)
                            for n, o in (("B", 0), ("E", 2), ("E", 4))] +
       [("G", 14, ">u2")], 16)


_fixed("container-same-name", "two containers may have the same name",
       [_col("A", 1), _cont("C", 3, 2, 2, _col("B", 1)), _col("D", 7),
        _cont("C", 9, 4, 2, _col("E", 1), _col("F", 3))],
       [("A", 0, ">u2"), ("B", 2, ">u2"), ("B", 4, ">u2"), ("D", 6, ">u2"),
        ("E", 8, ">u2"), ("F", 10, ">u2"), ("E", 12, ">u2"),
        ("F", 14, ">u2")], 16)


@contract("C05", "e2e-structure-files", E2E + [Q + "inject_format_files",
                                               Q + "load_format_file"],
          bounded="concrete: random table definitions, some of whose members "
          "(or parts of columns) are moved to external format files, beside "
          "the label or in the volume's label directory", secs=14)
def e2e_structure(vc):
    """Definitions moved to ^STRUCTURE files read as if written in place, in
    their place among the other definitions."""
    import os
    from . import e2e, tables
    sub, lab = "", None
    if vc.flag("volume"):
        # a volume: label and data somewhere below DATA, formats in LABEL
        sub = vc.choice("datadir", ["vol/DATA/x/", "vol/data/", "V/Data/a/b/",
                                    "data/vol/DATA/"])
        lab = sub[:sub.lower().rindex("data/")] + vc.choice(
            "labeldir", ["LABEL/", "label/"])
        for d in (sub, lab):
            os.makedirs(os.path.join(vc.tmp(), d), exist_ok=True)
    files = []

    def wr(nm, text):
        # in the label directory, beside the label, or in both (then the
        # one beside the label counts)
        w = vc.choice(f"where {nm}", ["label", "beside", "both"]) if lab \
            else "beside"
        if w != "label":
            e2e.write(vc, sub + nm, text)
        if w != "beside":
            e2e.write(vc, lab + nm, text if w == "label" else "OBJECT = "
                      "COLUMN\r\nEND_OBJECT\r\nEND\r\n")
    opt = dict(gaps=True, containers=False, items=True, offsets=True,
               dupes=False, sides=False)
    b, kids, lay, rows, rowlen = tables.table(vc, opt)
    for k, (key, body) in enumerate(kids):
        if vc.choice(f"part of {k}", [0, 0, 0, 1]):
            # some of a column's keywords
            cut = vc.int(f"cut{k}", 1, len(body) - 1)
            nm = f"col{k}.fmt"
            wr(nm, e2e.pvl(body[cut:]) + "END\r\n")
            kids[k] = (key, body[:cut] + [("^STRUCTURE", nm)])
    top, i = [], 0
    while i < len(kids):
        n = vc.choice(f"move{i}", [0, 0, 1, 2])
        part = kids[i:i + max(n, 1)]
        if n:
            nm = f"part{len(files)}.fmt"
            if vc.flag(f"deep{i}") and len(part) == 2:
                # a format file may itself refer to one
                wr("deep" + nm, e2e.pvl([part[1]]) + "END\r\n")
                part = [part[0], ("^STRUCTURE", "deep" + nm)]
            wr(nm, e2e.pvl(part) + "END\r\n")
            files.append(nm)
            top.append(("^STRUCTURE", vc.choice(f"case{i}", [nm, nm.upper()])))
        else:
            top += part
        i += max(n, 1)
    _compare(vc, b, top, lay, rows, rowlen, sub)


@contract("C05", "e2e-histogram", ["pdr:read", Q + "get_histogram_fields",
                                   Q + "parse_table_structure"],
          bounded="concrete: random histograms", secs=3)
def e2e_histogram(vc):
    """A histogram's items are its declared elements, in order."""
    import numpy as np
    from . import e2e, tables
    typ, size, dt = vc.choice("type", tables.COLS[:6])
    n, rec = vc.int("items", 1, 9), vc.int("rec", 1, 3)
    start = (rec - 1) * 10
    data = vc.bytes("d", start + n * size + 5)
    e2e.write(vc, "h.dat", data)
    b = [("ITEMS", n), ("DATA_TYPE", e2e.Raw(typ)),
         (vc.choice("key", ["ITEM_BYTES", "BYTES"]), size)]
    if vc.flag("name"):
        b.insert(0, ("NAME", "COUNTS"))
    e2e.write(vc, "h.lbl", tables.label(("h.dat", rec), b, 10, "HISTOGRAM"))
    o = vc.run(lambda: e2e.load(e2e.read(vc, "h.lbl"), "HISTOGRAM"))
    vc.ensure("loads", o.ok, lambda: repr(o.exc))
    want = np.frombuffer(data, dt, n, start)
    vc.ensure("elements", o.value.shape == (1, n) and all(
        e2e.same(np.asarray(o.value.iloc[:, i]), want[i:i + 1])
        for i in range(n)), lambda: f"{o.value} want {want}")


@contract("C05", "e2e-array", ["pdr:read", "pdr.loaders.table:read_array",
                               Q + "get_array_num_items",
                               Q + "parse_array_structure"],
          bounded="concrete: random binary ARRAY objects of up to three axes",
          secs=3)
def e2e_array(vc):
    """A binary ARRAY holds its declared elements in storage order."""
    import numpy as np
    from . import e2e, tables
    typ, size, dt = vc.choice("type", tables.COLS[:6])
    nd = vc.choice("axes", [1, 2, 3])
    dims = tuple(vc.int(f"n{i}", 1, 4) for i in range(nd))
    rec = vc.int("rec", 1, 3)
    start = (rec - 1) * 10
    n = int(np.prod(dims))
    data = vc.bytes("d", start + n * size + 5)
    e2e.write(vc, "h.dat", data)
    b = [("AXES", nd), ("AXIS_ITEMS", dims if nd > 1 else dims[0]),
         ("INTERCHANGE_FORMAT", e2e.Raw("BINARY")), ("NAME", "A"),
         ("DATA_TYPE", e2e.Raw(typ)), ("BYTES", size)]
    e2e.write(vc, "h.lbl", tables.label(("h.dat", rec), b, 10, "ARRAY"))
    o = vc.run(lambda: e2e.load(e2e.read(vc, "h.lbl"), "ARRAY"))
    vc.ensure("loads", o.ok, lambda: repr(o.exc))
    want = np.frombuffer(data, dt, n, start).reshape(dims)
    vc.ensure("elements", e2e.same(o.value, want),
              lambda: f"{o.value} want {want}")


@contract("C05", "e2e-line-prefix", E2E + [
    "pdr.pdr:Data._associate_prefix_tables", Q + "get_block", Q + "get_target",
    Q + "_fix_up_line_prefix_table_block", Q + "inject_format_files"],
    bounded="concrete: random images with a table in their line prefixes",
    secs=8)
def line_prefix(vc):
    """A table defined in the line prefixes of an image holds, for each line,
    the bytes its columns declare within that line's prefix; the image holds
    the samples only."""
    import numpy as np
    from . import e2e, tables
    opt = dict(gaps=True, containers=False, items=True, offsets=False,
               dupes=False, sides=False)
    b, kids, lay, _, width = tables.table(vc, opt)
    lines, samples = vc.int("lines", 1, 5), vc.int("samples", 1, 6)
    bits, st, dt = vc.choice("sample", [
        (8, "UNSIGNED_INTEGER", "u1"), (16, "MSB_INTEGER", ">i2"),
        (16, "LSB_UNSIGNED_INTEGER", "<u2")])
    w = bits // 8
    width += -width % w
    suffix = vc.choice("suffix", [0, 0, 1, 2]) * w
    wrap = vc.flag("wrapped")
    how = vc.choice("explicit", ["implicit", "implicit", "pointer"])
    rowlen = width + samples * w + suffix
    n = vc.int("rec", 1, 3)
    start = (n - 1) * 10
    data = vc.bytes("d", start + lines * rowlen + 7)
    e2e.write(vc, "I.DAT", data)
    fmt = [("ROW_BYTES", width)] + kids
    if vc.flag("more"):
        fmt = [("ROWS", lines), ("ROW_SUFFIX_BYTES", samples * w + suffix)
               ] + fmt
    if wrap:
        fmt = [("OBJECT LINE_PREFIX_TABLE", fmt)]
    e2e.write(vc, "PRE.FMT", e2e.pvl(fmt) + "END\r\n")
    ptr = {"implicit": [], "pointer": [("^LINE_PREFIX_TABLE", ("I.DAT", n))]}
    image = [("LINES", lines), ("LINE_SAMPLES", samples),
             ("SAMPLE_BITS", bits), ("SAMPLE_TYPE", e2e.Raw(st)),
             ("LINE_PREFIX_BYTES", width)]
    if suffix:
        image.append(("LINE_SUFFIX_BYTES", suffix))
    image.insert(vc.int("place", 0, len(image)),
                 ("^LINE_PREFIX_STRUCTURE", "PRE.FMT"))
    e2e.write(vc, "I.LBL", e2e.pvl(
        [("PDS_VERSION_ID", e2e.Raw("PDS3")), ("RECORD_BYTES", 10)]
        + ptr[how] + [("^IMAGE", ("I.DAT", n)), ("OBJECT IMAGE", image)])
        + "END\r\n")
    name = {"implicit": "IMAGE_LINE_PREFIX_TABLE",
            "pointer": "LINE_PREFIX_TABLE"}[how]
    d = e2e.read(vc, "I.LBL")
    vc.ensure("listed", name in d.keys(), lambda: str(d.keys()))
    o = vc.run(lambda: e2e.load(d, name))
    vc.ensure("loads", o.ok, lambda: repr(o.exc))
    t = o.value
    vc.ensure("rows and columns", t.shape == (lines, len(lay)),
              lambda: f"{t.shape} want {(lines, len(lay))}")
    for i, (nm, off, cdt) in enumerate(lay):
        want = tables.column_bytes(data, start, lines, rowlen, off, cdt)
        vc.ensure("declared bytes", tables.same_column(t.iloc[:, i], want),
                  lambda: f"{nm} at {off}: {list(t.iloc[:, i])} {list(want)}")
    im = vc.run(lambda: e2e.load(d, "IMAGE"))
    vc.ensure("image loads", im.ok, lambda: repr(im.exc))
    raw = np.frombuffer(data, "u1", lines * rowlen, start).reshape(lines, -1)
    want = np.ascontiguousarray(raw[:, width:width + samples * w]).view(dt)
    vc.ensure("the image's samples", e2e.same(im.value, want),
              lambda: f"{im.value} {want}")


# ------------------------------------------------- layouts with any positions
def _items(vc, t, n=3):
    """a column definition with any positions, and its items' (offset, width)
    """
    from multidict import MultiDict
    m = MultiDict()
    m["NAME"], m["DATA_TYPE"] = t.upper(), "MSB_UNSIGNED_INTEGER"
    at = m["START_BYTE"] = vc.int(t + ".start", 1, r=(1, 30))
    k = vc.choice(t + ".items", [None, 1, 2, 3][:n + 1])
    if k is None:
        w = m["BYTES"] = vc.int(t + ".bytes", 1, r=(1, 8))
        return m, [(at - 1, w)]
    w = step = vc.int(t + ".ibytes", 1, r=(1, 8))
    m["ITEMS"], m["ITEM_BYTES"] = k, w
    if vc.flag(t + ".offset"):
        step = m["ITEM_OFFSET"] = w + vc.int(t + ".over", 0, r=(0, 3))
    if vc.flag(t + ".saysbytes"):
        m["BYTES"] = (k - 1) * step + w
    return m, [(at - 1 + i * step, w) for i in range(k)]


def _layout(vc, ncols, n=3):
    from multidict import MultiDict
    block = MultiDict({"NAME": "T", "INTERCHANGE_FORMAT": "BINARY"})
    lay = []
    for i in range(ncols):
        m, its = _items(vc, "abc"[i], n)
        block.add("COLUMN", m)
        lay.append((m["NAME"], its))
    _parse(vc, block, lay)


def _parse(vc, block, lay):
    """the real layout of a definition is `lay`: (name, (offset, width) of
    each of its fields) in order of definition"""
    from contracts.C22 import patched, restore
    f = vc.f(Q + "parse_table_structure")
    pre = suf = 0
    if vc.flag("prefix"):
        pre = block["ROW_PREFIX_BYTES"] = vc.int("pre", 0, r=(0, 5))
    if vc.flag("suffix"):
        suf = block["ROW_SUFFIX_BYTES"] = vc.int("suf", 0, r=(0, 5))
    row = block["ROW_BYTES"] = vc.int("row", 1, r=(1, 60))
    for nm, its in lay:
        for at, w in its:
            vc.assume(at + w <= row)
    seen = []

    def types(fmtdef, ids):
        seen.append(fmtdef)
        return fmtdef, "dtype"
    patched(vc, P + "insert_sample_types_into_df", types,
            "contract 'types' below and C03")
    try:
        o = vc.run(f, "TABLE", block, "t.dat", None, {})
    finally:
        restore(vc)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    if not o.ok or not seen:
        return
    df = seen[0]
    # bytes of nothing, that hold a container's place
    df = df[[str(x) in ("PLACEHOLDER_0", "PLACEHOLDER") or not
             str(x).startswith("PLACEHOLDER") for x in df["NAME"]]]
    want = [(nm if len(its) == 1 else f"{nm}_{i}", at, w)
            for nm, its in lay for i, (at, w) in enumerate(its)]
    n = len(want)
    vc.ensure("a field per item, in order of definition", len(df) in (
        n, n + 1) and sorted(df["NAME"].iloc[:n]) == sorted(
            w[0] for w in want),
        lambda: repr(list(df["NAME"])))
    get = lambda c, i: df[c].iloc[i]
    at_ = {x: i for i, x in enumerate(df["NAME"])}
    for nm, at, w in want:
        i = at_[nm]
        vc.ensure("offset of its declared bytes",
                  get("SB_OFFSET", i) == pre + at, lambda: f"{nm} at "
                  f"{get('SB_OFFSET', i)} for {pre + at}")
        have = get("BYTES", i)
        if "ITEM_BYTES" in df.columns:
            ib = get("ITEM_BYTES", i)
            if not _missing(ib):
                have = ib
        vc.ensure("width", have == w)
    total = pre + row + suf
    ends = [pre + at + w for _, at, w in want]
    if len(df) == n:
        vc.ensure("the row ends with its last field",
                  Or(*[e == total for e in ends]))
    else:
        vc.ensure("the rest of the row is one pad", And(
            get("NAME", n) == "PLACEHOLDER_0", get("DATA_TYPE", n) == "VOID",
            get("SB_OFFSET", n) + get("BYTES", n) == total,
            *[get("SB_OFFSET", n) >= e for e in ends]))


def _missing(x):
    return isinstance(x, float) and x != x


@contract("C05", "layout-of-one", [Q + "parse_table_structure",
                                   Q + "read_format_block", P +
                                   "compute_offsets", P +
                                   "_apply_item_offsets", Q +
                                   "_fill_empty_byte_rows",
                                   P + "reindex_df_values",
                                   "pdr.utils:append_repeated_object"],
          bounded="symbolic: one column of up to three items; any positions, "
          "widths, strides, row lengths, prefixes and suffixes", secs=3)
def layout_one(vc):
    """Each item of a column starts at the row prefix's length + the column's
    start + its number times the item stride, has its declared width, and the
    rest of the row, up to its declared length, is padding."""
    _layout(vc, 1)


@contract("C05", "layout-of-two", [Q + "parse_table_structure",
                                   Q + "read_format_block", P +
                                   "compute_offsets", P +
                                   "_apply_item_offsets", Q +
                                   "_fill_empty_byte_rows",
                                   P + "reindex_df_values",
                                   "pdr.utils:append_repeated_object"],
          bounded="symbolic: two columns of up to two items; any positions "
          "(overlapping, in any order), widths, strides, row lengths, "
          "prefixes and suffixes", secs=8, weight=4)
def layout_two(vc):
    """Each item of each column starts at the row prefix's length + the
    column's start + its number times the item stride, wherever the other
    column is."""
    _layout(vc, 2, 2)


@contract("C05", "layout-of-three", [Q + "parse_table_structure",
                                     Q + "read_format_block", P +
                                     "compute_offsets"],
          bounded="symbolic: three columns of one item; any positions, "
          "widths, row lengths, prefixes and suffixes", secs=4, weight=2)
def layout_three(vc):
    """Columns may be defined in any order, with any gaps."""
    _layout(vc, 3, 0)


@contract("C05", "layout-of-containers", [
    Q + "parse_table_structure", Q + "read_format_block",
    Q + "create_placeholder_field", P + "compute_offsets",
    "pdr.utils:append_repeated_object"],
    bounded="symbolic: a column, a container directly after it with one or "
    "two members, up to three times, and a column anywhere after that; any "
    "positions, widths, container and row lengths, prefixes and suffixes",
    secs=8, weight=3)
def layout_containers(vc):
    """The members of a container repeat at the container's length."""
    from multidict import MultiDict
    block = MultiDict({"NAME": "T", "INTERCHANGE_FORMAT": "BINARY"})
    a, ia = _items(vc, "a", 0)
    block.add("COLUMN", a)
    (start, w), = ia
    at = start + w
    reps = vc.choice("reps", [1, 2, 3])
    size = vc.int("size", 1, r=(1, 12))
    con = MultiDict({"NAME": "BOX", "START_BYTE": at + 1, "BYTES": size,
                     "REPETITIONS": reps})
    lay = [("A", ia)]
    for t in "bc"[:vc.choice("members", [1, 2])]:
        m, im = _items(vc, t, vc.choice(t + ".kind", [0, 2]) if t == "b"
                       else 0)
        for x, y in im:
            vc.assume(x + y <= size)
        con.add("COLUMN", m)
        lay.append((t.upper(), [(at + r * size + x, y) for r in range(reps)
                                for x, y in im]))
    block.add("CONTAINER", con)
    if vc.flag("last"):
        z, iz = _items(vc, "z", 0)
        vc.assume(iz[0][0] >= at + reps * size)
        block.add("COLUMN", z)
        lay.append(("Z", iz))
    _parse(vc, block, lay)


@contract("C05", "types", [P + "insert_sample_types_into_df",
                           P + "fmtdef_to_dtype",
                           P + "construct_nested_array_format"],
          bounded="symbolic: up to three columns of any of 24 types, "
          "multiple-item or not; any offsets", secs=4, weight=2)
def types(vc):
    """What numpy is asked to read is, for each field in order, its name, its
    offset, and the type and width (an item's, if it is one of several) its
    definition declares.  (That sample_types means the declared types is C03.)
    """
    import numpy as np
    import pandas as pd
    from collections import defaultdict
    from . import tables
    n = vc.choice("n", [1, 2, 3])
    rows, want = [], []
    k = vc.choice("first", list(range(len(tables.MORE))))
    far = vc.choice("far", [1, 2, 7])
    for i in range(n):
        typ, w, dt = tables.MORE[(k + far * i) % len(tables.MORE)]
        at = vc.int(f"at{i}", 0, r=(0, 40))
        row = {"NAME": f"N{i}", "DATA_TYPE": typ, "BYTES": w,
               "SB_OFFSET": at}
        if i < 2 and vc.flag(f"item{i}"):
            row["BYTES"], row["ITEM_BYTES"] = w * 3, float(w)
        rows.append(row)
        want.append((f"N{i}", at, np.dtype(dt)))
    df = pd.DataFrame(rows)
    if vc.flag("blocks"):
        df["BLOCK_NAME"] = "T"
    seen = []
    if vc.symbolic:
        def dtype(spec):
            if not isinstance(spec, dict):
                return np.dtype(spec)
            seen.append(spec)
            return spec
        vc.ctx.stubs[np.dtype] = dtype
    try:
        o = vc.run(vc.f(P + "insert_sample_types_into_df"), df,
                   defaultdict(str))
    finally:
        if vc.symbolic:
            vc.ctx.stubs.pop(np.dtype)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    if not o.ok:
        return
    d = o.value[1]
    if vc.symbolic:
        vc.ensure("one request", len(seen) == 1 and d is seen[0] and
                  set(d) == {"names", "formats", "offsets"})
        d = list(zip(d["names"], d["formats"], d["offsets"]))
    else:
        d = [(m, t, at) for m, (t, at) in
             ((m, d.fields[m]) for m in d.names)]
    vc.ensure("every field, in order", [m for m, _, _ in d] ==
              [m for m, _, _ in want])
    for (m, t, at), (_, off, dt) in zip(d, want):
        t = np.dtype(t)
        vc.ensure("at its offset", at == off, lambda: m)
        vc.ensure("its type", t.itemsize == dt.itemsize and (
            t == dt or dt.kind == "b" and t.kind in "iub" or dt.kind == "V" and t.kind in "VS" or
            t.kind == "V" and dt.kind == "S"), lambda: f"{m} {t} for {dt}")


# ------------------------------------------------------- proofs of the helpers
@contract("C05", "line-prefix-block", [Q + "get_block",
                                       Q + "_fix_up_line_prefix_table_block"],
          random=300)
def line_prefix_block(vc):
    """For all values: a table in the line prefixes of an image has the
    definition of its format file, within the image's own; where they do not
    say so themselves, it has as many rows as the image has lines, and a row
    is followed by the samples of its line and the line's suffix.  Any other
    object has its own definition."""
    from multidict import MultiDict
    from contracts.C22 import patched, restore
    f = vc.f(Q + "get_block")
    parent = MultiDict()
    lines = parent["LINES"] = vc.int("lines", 1, r=(1, 99))
    samples = parent["LINE_SAMPLES"] = vc.int("samples", 1, r=(1, 99))
    width = vc.choice("sample bytes", [1, 2, 4, 8])
    parent["SAMPLE_BITS"] = 8 * width
    suffix = 0
    if vc.flag("suffix"):
        suffix = parent["LINE_SUFFIX_BYTES"] = vc.int("suf", 0, r=(0, 9))
    parent["^LINE_PREFIX_STRUCTURE"] = "P.FMT"
    rows, after = lines, width * samples + suffix
    fmt = [("ROW_BYTES", 7)]
    if vc.flag("says rows"):
        rows = vc.int("rows", 1, r=(1, 99))
        fmt.append(("ROWS", rows))
    if vc.flag("says after"):
        after = vc.int("after", 0, r=(0, 99))
        fmt.append(("ROW_SUFFIX_BYTES", after))
    before = list(parent.items())
    asked = []

    def inject(block, name, fn, data):
        asked.append((list(block), name, fn))
        return [kv for kv in block if not kv[0].startswith("^")] + fmt

    class D:
        _interleaved_objects = {
            "IMAGE_LINE_PREFIX_TABLE": {"parent": "IMAGE",
                                        "type": "line_prefix_table"},
            "OTHER": {"parent": "IMAGE", "type": "axplane"}}
        file_mapping = {"IMAGE_LINE_PREFIX_TABLE": "/x/i.img"}

        def metablock_(self, name):
            return parent if name == "IMAGE" else own if name == "TABLE" \
                else None
    own = MultiDict({"ROWS": 3})
    patched(vc, Q + "inject_format_files", inject, "e2e-line-prefix, "
            "e2e-structure-files")
    try:
        o = vc.run(f, D(), "IMAGE_LINE_PREFIX_TABLE")
        others = [vc.run(f, D(), n) for n in ("TABLE", "IMAGE", "OTHER",
                                              "NONE")]
    finally:
        restore(vc)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    b = o.value
    vc.ensure("of its format file", asked == [
        (before, "IMAGE_LINE_PREFIX_TABLE", "/x/i.img")])
    vc.ensure("its rows", And(b["ROWS"] == rows, b["ROW_BYTES"] == 7))
    vc.ensure("what follows a row", b["ROW_SUFFIX_BYTES"] == after)
    vc.ensure("the image's definition is left alone",
              list(parent.items()) == before)
    for g, w in zip(others, (own, parent, parent, None)):
        vc.ensure("any other object has its own", g.ok and g.value is w)


@contract("C05", "array-items", [Q + "get_array_num_items"], random=300)
def array_items(vc):
    """For all sizes of up to sixteen axes (the most there are): an array has
    as many elements as the product of the lengths of its axes."""
    f = vc.f(Q + "get_array_num_items")
    n = vc.int("axes", 0, 16)
    n = [i for i in range(17) if bool(n == i)][0]
    if n == 0:
        v = want = vc.int("len", 1, r=(1, 9))
    else:
        v = tuple(vc.int(f"len{i}", 1, r=(1, 4)) for i in range(n))
        want = 1
        for x in v:
            want = want * x
    o = vc.run(f, {"AXIS_ITEMS": v})
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    vc.ensure("the product of its lengths", o.value == want)
    o = vc.run(f, {"AXIS_ITEMS": 2.5})
    vc.ensure("anything else is refused", not o.ok)


@contract("C05", "histogram-fields", [Q + "get_histogram_fields",
                                      "pdr.utils:append_repeated_object"],
          random=200)
def histogram_fields(vc):
    """For any number of items: a histogram has one field for each, all as its
    definition says; an ASCII one is refused."""
    from multidict import MultiDict
    from pyvc.hooks import m_len, getitem
    f = vc.f(Q + "get_histogram_fields")
    w = vc.int("bytes", 1, r=(1, 8))
    b = MultiDict({"DATA_TYPE": "MSB_INTEGER", "BYTES": w})
    ascii_ = vc.flag("ascii")
    if ascii_ or vc.flag("binary"):
        b["INTERCHANGE_FORMAT"] = "ASCII" if ascii_ else "BINARY"
    n = 1
    if vc.flag("items"):
        n = b["ITEMS"] = vc.int("n", 1, r=(1, 300))
    if vc.symbolic:
        from pyvc.hooks import SymList, V_ite

        def repeated(obj, fields, n):
            if fields or not isinstance(obj, dict):
                raise Unsupported("another use")
            return SymList(V_ite(n > 1, n, 1), lambda i: obj)
        from pyvc.core import Unsupported
        vc.stub("pdr.utils:append_repeated_object", repeated,
                "contract repeat")
    o = vc.run(f, b)
    if ascii_:
        vc.ensure("refused", not o.ok and isinstance(o.exc,
                                                     NotImplementedError))
        return
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    vc.ensure("one for each item", m_len(o.value) == n)
    i = vc.int("i", 0, r=(0, 299))
    vc.assume(i < n)
    e = getitem(o.value, i) if vc.symbolic else o.value[i]
    vc.ensure("as defined", dict(e) == dict(b), lambda: repr(e))


@contract("C05", "repeat", ["pdr.utils:append_repeated_object"], random=300)
def repeat(vc):
    """For any count: what was there is kept, and the object (or each element
    of a sequence of objects, in order) follows as many times as asked for, at
    least once."""
    from pyvc.hooks import m_len, getitem
    f = vc.f("pdr.utils:append_repeated_object")
    was = [{"NAME": f"P{i}"} for i in range(vc.choice("there", [0, 1, 2]))]
    m = vc.choice("object", [None, 1, 2, 3])
    obj = {"NAME": "X"} if m is None else [{"NAME": f"X{i}"}
                                           for i in range(m)]
    from pyvc.hooks import SymList
    fields = SymList() if vc.symbolic else []
    for x in was:
        fields.append(x)
    n = vc.int("count", r=(-2, 40))
    o = vc.run(f, obj, fields, n)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    k = m or 1
    reps = n if bool(n > 1) else 1
    vc.ensure("how many", m_len(o.value) == len(was) + k * reps)
    at = lambda i: getitem(o.value, i) if vc.symbolic else o.value[i]
    for i, x in enumerate(was):
        vc.ensure("what was there is kept", at(i) == x)
    r = vc.int("r", 0, r=(0, 39))
    vc.assume(r < reps)
    for j in range(k):
        vc.ensure("the object, repeated", at(len(was) + r * k + j) == (
            obj if m is None else obj[j]))
