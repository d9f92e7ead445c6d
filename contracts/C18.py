"""C18: FITS objects come from the HDU the label points to."""
import os

from pyvc.api import contract, And, Or, Not, Implies
from pyvc.aname import has
from contracts import e2e

H = "pdr.loaders.handlers:"
Q = "pdr.loaders.queries:"
REC = 2880
NAMES = ["IMAGE", "HEADER", "A_HEADER", "HEADER_TABLE", "TABLE", "header"]


def symbolic_index(vc):
    """The positions of the HDUs of an arbitrary FITS file: headers at H(t),
    data at D(t); where both are (data of no length), the header counts."""
    from pyvc.core import z3
    from pyvc.values import SymObj, mkbool, int_expr
    hf = z3.Function("hdr_at", z3.IntSort(), z3.BoolSort())
    df = z3.Function("data_at", z3.IntSort(), z3.BoolSort())
    nf = z3.Function("hdu_no", z3.IntSort(), z3.IntSort())
    seen = []
    vc.ctx.add(hf(0))

    def facts(e):
        if not any(e.eq(x) for x in seen):
            seen.append(e)
            vc.ctx.add(z3.Implies(z3.Or(hf(e), df(e)),
                                  z3.And(e >= 0, e % REC == 0)))
        return e

    class Index(SymObj):
        pytype = dict

        def contains(self, t):
            e = facts(int_expr(t))
            return mkbool(z3.Or(hf(e), df(e)))

        def getitem(self, t):
            from pyvc.values import mkint
            if not bool(self.contains(t)):
                raise KeyError(t)
            e = facts(int_expr(t))
            return {"part": "header" if bool(mkbool(hf(e))) else "data",
                    "ix": mkint(nf(e)), "name": "HDU"}

        def get(self, t, default=None):
            return self.getitem(t) if bool(self.contains(t)) else default

        def keys(self):
            return self
    return Index(), lambda t: mkbool(hf(facts(int_expr(t)))), \
        lambda t: mkbool(df(facts(int_expr(t))))


def fake_file(vc, parts):
    """an open FITS file as far as the positions of its HDUs go"""
    from astropy.io import fits

    class Part:
        def __init__(self, h, d):
            self.h, self.d = h, d

        def fileinfo(self):
            return {"hdrLoc": self.h, "datLoc": self.d}

    class Fake(fits.HDUList):
        def __init__(self):
            self.parts = [Part(*p) for p in parts]

        def info(self, output=None):
            return [(i, f"H{i}", 1, "ImageHDU", 1, (), "", "")
                    for i in range(len(self.parts))]

        def __len__(self):
            return len(self.parts)

        def __iter__(self):
            return iter(self.parts)

        def __getitem__(self, i):
            return self.parts[i]

        def __del__(self):
            pass
    return Fake()


def layout(vc):
    """[(header, data)] positions of one to four HDUs"""
    parts, at = [], 0
    for k in range(vc.int("HDUs", 1, 4)):
        n = vc.choice(f"header{k}", [1, 1, 2, 3])
        m = vc.choice(f"data{k}", [0, 1, 2, 2877, 2878, 2879, 8, 5760])
        parts.append((at * REC, (at + n) * REC))
        at += n + m
    return parts


@contract("C18", "location", [Q + "get_fits_start_byte"], random=1500,
          weight=2)
def location(vc):
    """For every FITS layout, a pointer that gives the position of a header
    or of data -- by record number or by byte, with or without the file's name
    -- selects just that position; and nothing is ever selected at which no
    part of the right kind starts."""
    f = vc.f(Q + "get_fits_start_byte")
    vc.merge()
    name = vc.name("name", pool=NAMES)
    wants_header = has(name, "HEADER")
    if vc.symbolic:
        index, hdr, dat = symbolic_index(vc)
        vc.stub(H + "hdu_byte_index", lambda h: index,
                "contracts index, e2e: positions of the parts of a file")
        hdulist = object()
        rec = vc.int("record", 1)
    else:
        parts = layout(vc)
        heads = {h for h, d in parts}
        datas = {d for h, d in parts} - heads
        hdulist = fake_file(vc, parts)
        hdr, dat = heads.__contains__, {d for h, d in parts}.__contains__
        rec = 1 + vc.choice("record of", sorted(heads | datas)) // REC
    p = (rec - 1) * REC
    form = vc.choice("form", ["record", "records", "bytes", "file"])
    if form == "file":
        vc.assume(rec == 1)
    fn = "/d/" + vc.choice("case", ["X.FITS", "x.fits"])
    target = {"record": rec, "records": {"value": rec, "units": vc.choice(
        "units", ["RECORDS", "RECORD"])}, "bytes": {
            "value": p + 1, "units": "BYTES"}, "file": "X.FITS"}[form]
    if form != "file":
        wrap = vc.choice("wrap", ["bare", "tuple", "list"])
        target = target if wrap == "bare" else ("X.FITS", target) if wrap == \
            "tuple" else ["X.FITS", target]
    right = Or(And(wants_header, hdr(p)),
               And(Not(wants_header), dat(p), Not(hdr(p))))
    vc.assume(right)
    o = vc.run(f, name, target, fn, hdulist)
    vc.ensure("finds the declared part", o.ok, lambda: repr(o.exc))
    vc.ensure("the declared position", o.value == p,
              lambda: f"{o.value} for {target}")


@contract("C18", "never-elsewhere", [Q + "get_fits_start_byte"], random=800)
def never_elsewhere(vc):
    """Whatever a pointer says, what is selected is a place where a part of
    the right kind starts; otherwise the pointer is reported as wrong."""
    f = vc.f(Q + "get_fits_start_byte")
    vc.merge()
    name = vc.name("name", pool=NAMES)
    wants_header = has(name, "HEADER")
    if vc.symbolic:
        index, hdr, dat = symbolic_index(vc)
        vc.stub(H + "hdu_byte_index", lambda h: index, "as in location")
        hdulist = object()
        n = vc.int("n", 0)
    else:
        parts = layout(vc)
        heads = {h for h, d in parts}
        hdulist = fake_file(vc, parts)
        hdr, dat = heads.__contains__, {d for h, d in parts}.__contains__
        n = vc.choice("n", sorted({x + k for h, d in parts for x in (
            h, d, h // REC, d // REC) for k in (-1, 0, 1, 2) if x + k >= 0}))
    target = vc.choice("form", ["int", "tuple", "bytes", "records"])
    target = {"int": n, "tuple": ("X.FITS", n), "bytes": {
        "value": n, "units": "BYTES"}, "records": {
            "value": n, "units": "RECORDS"}}[target]
    o = vc.run(f, name, target, "/d/X.FITS", hdulist)
    if not o.ok:
        vc.ensure("reported as a wrong pointer", isinstance(
            o.exc, ValueError), lambda: repr(o.exc))
        return
    p = o.value
    vc.ensure("a part of the right kind", Or(
        And(wants_header, hdr(p)),
        And(Not(wants_header), dat(p), Not(hdr(p)))),
        lambda: f"{p} for {target}")


@contract("C18", "other-file", [Q + "get_fits_start_byte"], random=100)
def other_file(vc):
    """A pointer that names only a file is refused unless it is this file."""
    f = vc.f(Q + "get_fits_start_byte")
    other = vc.choice("other", ["Y.FITS", "X.FIT", "d/X.FITS", "X.FITS.gz"])
    if vc.symbolic:
        index, hdr, dat = symbolic_index(vc)
        vc.stub(H + "hdu_byte_index", lambda h: index, "as in location")
        hdulist = object()
    else:
        hdulist = fake_file(vc, layout(vc))
    o = vc.run(f, vc.choice("name", ["HEADER", "IMAGE"]), other,
               "/d/X.FITS", hdulist)
    vc.ensure("refused", not o.ok and isinstance(o.exc, ValueError),
              lambda: repr(o.value))


@contract("C18", "index", [H + "hdu_byte_index"], random=400,
          bounded="concrete: layouts of up to four HDUs")
def index(vc):
    """Every HDU's header and data are found at their positions, numbered as
    in the file."""
    parts = layout(vc)
    o = vc.run(vc.f(H + "hdu_byte_index"), fake_file(vc, parts))
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    want = {}
    for i, (h, d) in enumerate(parts):
        want[d] = (i, "data")
    for i, (h, d) in enumerate(parts):
        want[h] = (i, "header")
    vc.ensure("positions", {k: (v["ix"], v["part"]) for k, v in
                            o.value.items()} == want, lambda: repr(o.value))


# ------------------------------------------------- from an HDU to its contents
def contents(vc, nmax=5, names=None):
    """astropy HDUs with recognisable contents"""
    import numpy as np
    from astropy.io import fits
    out = []
    n = vc.count("n", 1, nmax, 13)
    for k in range(n):
        name = "PRIMARY" if not k and vc.flag("plain primary") else vc.choice(
            f"name{k}", names)
        kind = vc.choice(f"kind{k}", ["image", "image", "empty", "table"])
        if not k and kind == "table":
            kind = "image"
        head = [("MARK", 100 + k)]
        if vc.flag(f"long{k}"):
            head += [(f"KEY{j}", j) for j in range(40)]
        if kind == "table":
            rows = np.zeros(k + 2, dtype=[("A", ">i4"), ("B", ">f8")])
            rows["A"], rows["B"] = np.arange(k + 2) + 10 * k, k + .5
            h = fits.BinTableHDU(rows)
        elif kind == "empty":
            h = fits.ImageHDU() if k else fits.PrimaryHDU()
        else:
            a = np.arange((k + 2) * 3, dtype=">i2").reshape(k + 2, 3) + 50 * k
            if vc.flag(f"big{k}"):
                a = np.tile(a, (300, 2))
            h = fits.ImageHDU(a) if k else fits.PrimaryHDU(a)
        for c in head:
            h.header[c[0]] = c[1]
        if name != "PRIMARY" or k:
            h.header["EXTNAME"] = name
        out.append((name, kind, h))
    return out


def is_hdu(kind, k, h, v):
    import numpy as np
    import pandas as pd
    if kind == "empty":
        return isinstance(v, np.ndarray) and v.size == 0
    if kind == "table":
        return isinstance(v, pd.DataFrame) and list(v.columns) == ["A", "B"] \
            and v["A"].tolist() == [10 * k + i for i in range(k + 2)] and \
            (v["B"] == k + .5).all()
    return isinstance(v, np.ndarray) and v.shape == h.data.shape and \
        bool((v == h.data).all())


TRICKY = ["A", "B", "A_0", "A_1", "SCI", "A_HEADER", "IMG HEADER", "HEADER",
          "PRIMARY", "A"]


def save(vc, hdus, name="x.fits"):
    from astropy.io import fits
    import warnings
    p = os.path.join(vc.tmp(), name)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fits.HDUList([h for _, _, h in hdus]).writeto(p)
    return p


@contract("C18", "primary", ["pdr:read", H + "unpack_fits_headers",
                             H + "handle_fits_file"], random=150, secs=10,
          bounded="concrete: files of up to five HDUs, names repeated and "
          "colliding")
def primary(vc):
    """A FITS file opened without a label gives every HDU under a name of its
    own, in file order, with the HDU's own header and data, whatever is
    loaded in whatever order."""
    hdus = contents(vc, names=TRICKY)
    p = save(vc, hdus)
    o = vc.run(lambda: e2e.read(vc, "x.fits"))
    vc.ensure("opens", o.ok, lambda: repr(o.exc))
    d = o.value
    keys = list(d.keys())
    names = [n for n, _, _ in hdus]
    vc.ensure("one name for each HDU", len(keys) == len(hdus) and len(
        set(keys)) == len(keys), lambda: f"{keys} for {names}")
    vc.ensure("names follow the HDUs' own", all(
        k == n if names.count(n) == 1 else k.startswith(n + "_") and
        k[len(n) + 1:].isdigit() for k, n in zip(keys, names)),
        lambda: f"{keys} for {names}")
    for n in set(names):
        ix = [int(k[len(n) + 1:]) for k, m in zip(keys, names)
              if m == n and names.count(n) > 1]
        vc.ensure("numbered in file order", ix == sorted(ix),
                  lambda: f"{keys} for {names}")
    vc.ensure("headers as metadata, in file order", list(d.metadata.keys())
              == keys and all(d.metadata[k]["MARK"] == 100 + i
                              for i, k in enumerate(keys)),
              lambda: repr(list(d.metadata.keys())))
    order = list(range(len(keys)))
    for i in range(len(order) - 1, 0, -1):
        j = vc.int(f"order{i}", 0, i)
        order[i], order[j] = order[j], order[i]
    for i in order:
        o = vc.run(lambda: d[keys[i]])
        vc.ensure("loads", o.ok, lambda: f"{keys[i]}: {o.exc!r}")
    for i, k in enumerate(keys):
        vc.ensure("the HDU's own data", is_hdu(hdus[i][1], i, hdus[i][2],
                                               d[k]),
                  lambda: f"{k} of {keys}: {d[k]!r}")
        if k + "_HEADER" in keys:
            continue
        h = d[k + "_HEADER"]
        vc.ensure("the HDU's own header", h["MARK"] == 100 + i,
                  lambda: f"{k} of {keys}")


@contract("C18", "labelled", ["pdr:read", "pdr.loaders.datawrap:ReadFits",
                              H + "handle_fits_file"], random=150, secs=10,
          bounded="concrete: labels that point into files of up to four HDUs")
def labelled(vc):
    """Objects of a labelled FITS product come from the HDUs at the declared
    positions."""
    from astropy.io import fits
    hdus = contents(vc, 4, ["A"])
    p = save(vc, hdus)
    with fits.open(p) as f:
        at = [(h.fileinfo()["hdrLoc"], h.fileinfo()["datLoc"]) for h in f]
    items = [("PDS_VERSION_ID", e2e.Raw("PDS3")), ("RECORD_TYPE",
             "FIXED_LENGTH"), ("RECORD_BYTES", REC)]
    want = []
    for k in range(vc.int("objects", 1, 4)):
        i = vc.int(f"hdu{k}", 0, len(hdus) - 1)
        head = vc.flag(f"header{k}") or hdus[i][1] == "empty"
        pos = at[i][0 if head else 1]
        name = f"O{k}_" + ("HEADER" if head else "TABLE" if hdus[i][1] ==
                           "table" else "IMAGE")
        form = vc.choice(f"form{k}", ["record", "bytes", "records"])
        t = {"record": pos // REC + 1, "bytes": e2e.Q(pos + 1), "records":
             e2e.Q(pos // REC + 1, "RECORDS")}[form]
        items.append(("^" + name, ("x.fits", t)))
        want.append((name, i, head))
    e2e.write(vc, "x.lbl", e2e.pvl(items) + "END\r\n")
    o = vc.run(lambda: e2e.read(vc, "x.lbl"))
    vc.ensure("opens", o.ok, lambda: repr(o.exc))
    d = o.value
    for name, i, head in want:
        o = vc.run(lambda: e2e.load(d, name))
        vc.ensure("loads", o.ok, lambda: f"{name}: {o.exc!r} {items}")
        v = o.value
        if head:
            vc.ensure("the declared header", "MARK" in v and v["MARK"] ==
                      100 + i, lambda: f"{name} {items} {at}")
        else:
            vc.ensure("the declared data", is_hdu(hdus[i][1], i, hdus[i][2],
                                                  v),
                      lambda: f"{name} {items} {at} {v!r}")


@contract("C18", "columns", ["pdr:read", H + "reindex_dupe_names"],
          random=120, secs=6, bounded="concrete: binary tables of up to five "
          "columns with repeated names")
def columns(vc):
    """Repeated columns of a FITS table are all kept, in order, under distinct
    names."""
    import io
    import numpy as np
    from astropy.io import fits
    n = vc.count("n", 1, 5, 24)
    names = [vc.choice(f"c{i}", ["A", "A", "B", "A_0", "A_1", "B_0"])
             for i in range(n)]
    a = np.zeros(3, [(f"c{i}", ">i4") for i in range(n)])
    for i in range(n):
        a[f"c{i}"] = 10 * i + np.arange(3)
    b = io.BytesIO()
    fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU(a, name="T")]).writeto(b)
    b = b.getvalue()
    for i, c in enumerate(names):
        b = b.replace(f"'{f'c{i}':8}'".encode(), f"'{c:8}'".encode())
    e2e.write(vc, "x.fits", b)
    o = vc.run(lambda: e2e.read(vc, "x.fits")["T"])
    vc.ensure("loads", o.ok, lambda: f"{names} {o.exc!r}")
    t = o.value
    vc.ensure("all columns in order", t.to_numpy().T.tolist() == [
        [10 * i + j for j in range(3)] for i in range(n)],
        lambda: f"{names}\n{t}")
    got = list(t.columns)
    vc.ensure("distinct names", len(set(got)) == n, lambda: f"{names} {got}")
    vc.ensure("names follow the columns' own", all(
        g == c if names.count(c) == 1 else g.startswith(c + "_")
        for g, c in zip(got, names)), lambda: f"{names} {got}")


def _native(a):
    import numpy as np
    a = np.asarray(a)
    return a.astype(a.dtype.newbyteorder("="))


KINDS = ["B", "I", "J", "K", "E", "D", "L", "A", "uI", "uJ", "uK"]


def _fits_column(vc, t, name, rows, shapes):
    """An astropy column and the values of each of its elements"""
    import numpy as np
    from astropy.io import fits
    kind = vc.choice(f"{t}.kind", KINDS)
    shape = vc.choice(f"{t}.shape", shapes)
    n = int(np.prod(shape)) if shape else 1
    opt = {}
    num = lambda lo, hi: [vc.int(f"{t}.{i}", lo, hi) for i in range(rows * n)]
    full = (rows,) + shape
    if kind == "A":
        shape, full, n = (), (rows,), 1
        v = np.array([vc.choice(f"{t}.{i}", ["", "a", "bc", "d e", "xyz"])
                      for i in range(rows)], "S3")
        fmt, want = "3A", [x.decode() for x in v]
        v = np.array(want, "U3")
        return fits.Column(name, fmt, array=v), v.reshape(rows, 1), ()
    if kind == "L":
        v = np.array([x % 2 for x in num(0, 1)], bool).reshape(full)
        fmt = "L"
    elif kind in ("E", "D"):
        v = np.array(num(-9, 9), "f4" if kind == "E" else "f8").reshape(full)
        v, fmt = v / 4, kind
    elif kind == "uI":
        v = np.array(num(0, 65535), "u2").reshape(full)
        fmt, opt = "I", dict(bzero=32768)
    elif kind == "uJ":
        v = np.array(num(0, 2 ** 32 - 1), "u4").reshape(full)
        fmt, opt = "J", dict(bzero=2 ** 31)
    elif kind == "uK":
        v = np.array(num(0, 2 ** 64 - 1), "u8").reshape(full)
        fmt, opt = "K", dict(bzero=2 ** 63)
    else:
        dt, top = {"B": ("u1", 255), "I": ("i2", 2 ** 15 - 1), "J": (
            "i4", 2 ** 31 - 1), "K": ("i8", 2 ** 63 - 1)}[kind]
        v = np.array(num(0 if kind == "B" else -top - 1, top), dt).reshape(
            full)
        fmt = kind
    if len(shape) > 1:
        opt["dim"] = str(tuple(reversed(shape)))
    fmt = (str(n) if shape else "") + fmt
    return fits.Column(name, fmt, array=v, **opt), v.reshape(rows, n), shape


@contract("C18", "tables", ["pdr:read", H + "handle_fits_file",
                            H + "_convert_fits_table_to_df",
                            "pdr.pd_utils:structured_array_to_df"],
          random=200, secs=8, bounded="concrete: binary tables of up to four "
          "columns of any type, of numbers, vectors and matrices")
def fits_tables(vc):
    """A table of a FITS file holds every element of every column, in order,
    with the values the file encodes."""
    import numpy as np
    from astropy.io import fits
    n, rows = vc.int("n", 1, 4), vc.count("rows", 1, 4, 60)
    shapes = [(), (), (2,), (3,), (2, 3)] if vc.flag("vectors") else [()]
    names = vc.choice("names", [["A", "B", "C", "D"], ["X", "Y 1", "Z", "_W"],
                                ["c_0", "b", "a_1", "c"]])
    cols = [_fits_column(vc, f"c{i}", names[i], rows, shapes)
            for i in range(n)]
    t = fits.BinTableHDU.from_columns([c for c, _, _ in cols], name="T")
    fits.HDUList([fits.PrimaryHDU(), t]).writeto(
        os.path.join(vc.tmp(), "x.fits"))
    o = vc.run(lambda: e2e.load(e2e.read(vc, "x.fits"), "T"))
    what = [(c.name, c.format, c.dim) for c, _, _ in cols]
    vc.ensure("loads", o.ok, lambda: f"{what} {o.exc!r}")
    got = o.value
    want = [(nm, v[:, j], bool(s)) for nm, (_, v, s) in zip(names, cols)
            for j in range(v.shape[1])]
    vc.ensure("all elements of all columns", got.shape == (rows, len(want)),
              lambda: f"{what} {got}")
    for j, (nm, v, vec) in enumerate(want):
        g = got.iloc[:, j]
        vc.ensure("name", got.columns[j] == nm if not vec else
                  got.columns[j].startswith(nm), lambda: f"{what} {got}")
        if v.dtype.kind == "U":
            # FITS pads text with blanks
            ok = [x.rstrip() for x in v] == [
                (x.decode() if isinstance(x, bytes) else x).rstrip()
                for x in g]
        else:
            ok = [x.item() for x in v] == [x.item() if hasattr(x, "item")
                                           else x for x in g]
        vc.ensure("values", ok, lambda: f"{what} {nm} {v} got {g}")
    vc.ensure("distinct names", len(set(got.columns)) == len(want),
              lambda: f"{what} {list(got.columns)}")


@contract("C18", "headers", ["pdr:read", H + "handle_fits_header"],
          random=200, secs=5, bounded="concrete: headers of up to twelve "
          "cards of any kind, repeated keywords included")
def fits_headers(vc):
    """A header object holds every card of its HDU's header, in order, with
    its value and comment."""
    from astropy.io import fits
    cards, want = [], []
    for i in range(vc.int("n", 0, 12)):
        t = f"c{i}"
        kind = vc.choice(t, ["int", "int", "real", "text", "long", "bool",
                             "COMMENT", "HISTORY", "blank", "none", "hier",
                             "complex"])
        if kind in ("COMMENT", "HISTORY"):
            v = vc.choice(t + ".v", ["a note", "b = 2", "1", "END", "x / y"])
            cards.append((kind, v))
            want.append((kind, v))
            continue
        if kind == "blank":
            cards.append(("", ""))
            continue
        k = vc.choice(t + ".k", ["A", "KEY", "DATE-OBS", "X_1", "BLANKS",
                                 "A"]) + ("" if vc.flag(t + ".rep")
                                          else f"{i}"[-1])
        if kind == "hier":
            k = "HIERARCH long keyword %d" % i
        v = {"int": lambda: vc.int(t + ".v", -9, 99999),
             "real": lambda: vc.int(t + ".v", -900, 900) / 8,
             "text": lambda: vc.choice(t + ".v", ["a", "", "it's", "a / b", "T",
                                                  "1", "= 2", "a  b"]),
             "long": lambda: vc.choice(t + ".v", ["ab cd " * 30 + "e",
                                                  "xy, " * 50 + "z"]),
             "bool": lambda: vc.flag(t + ".v"),
             "hier": lambda: vc.int(t + ".v", 0, 9),
             "complex": lambda: complex(vc.int(t + ".v", 0, 9), 2),
             "none": lambda: None}[kind]()
        com = vc.choice(t + ".com", ["", "", "what it is", "[m] unit / x"])
        if kind == "long":
            com = ""
        cards.append((k, v, com))
        k = k.replace("HIERARCH ", "") if kind == "hier" else k
        want.append((k, str(v) if kind == "complex" else v))
        if com:
            want.append((k + "_comment", com))
    ext = vc.flag("extension")
    import numpy as np
    h = fits.ImageHDU(np.zeros((1, 2), "i2")) if ext else \
        fits.PrimaryHDU(np.zeros((1, 2), "i2"))
    h.header.append(("MARK", 1))
    for c in cards:
        h.header.append(fits.Card(*c), end=True)
    import warnings
    p = os.path.join(vc.tmp(), "x.fits")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fits.HDUList([fits.PrimaryHDU(), h] if ext else [h]).writeto(p)
        with fits.open(p) as f:
            at = f[int(ext)].fileinfo()["hdrLoc"]
    if vc.flag("labelled"):
        name = "IMAGE_HEADER"
        e2e.write(vc, "x.lbl", e2e.pvl([
            ("PDS_VERSION_ID", e2e.Raw("PDS3")), ("RECORD_BYTES", REC),
            ("RECORD_TYPE", "FIXED_LENGTH"),
            ("^IMAGE_HEADER", ("x.fits", at // REC + 1)),
            ("OBJECT IMAGE_HEADER", [("BYTES", 2880), ("HEADER_TYPE",
                                                       "FITS")])]) + "END\r\n")
        o = vc.run(lambda: e2e.load(e2e.read(vc, "x.lbl"), name))
    else:
        def get():
            d = e2e.read(vc, "x.fits")
            n = list(d.keys())[int(ext)]
            d.load(n)
            return d[n + "_HEADER"]
        o = vc.run(get)
    vc.ensure("loads", o.ok, lambda: f"{cards} {o.exc!r}")
    got = list(o.value.items())
    i = [k for k, _ in got].index("MARK") + 1
    vc.ensure("every card", [(k, v) for k, v in got[i:]] == want,
              lambda: f"{got[i:]}\nwant {want}")
