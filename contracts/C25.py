"""C25: dumped and shown browse products are of the objects they name."""
from pyvc.api import contract, And, Or, Not, Implies
from contracts import e2e
from .C15 import check_pictures, band_groups

D = "pdr.pdr:Data."


def pds3_product(vc, name):
    """an attached product: image, table, text; returns its objects' kinds"""
    import numpy as np
    B = vc.choice("B", [1, 1, 2, 3, 4, 5, 12])
    L, S = vc.int("L", 1, 4), vc.int("S", 1, 5)
    typ, bits, dt = vc.choice("type", [
        ("MSB_INTEGER", 16, ">i2"), ("LSB_INTEGER", 32, "<i4"),
        ("MSB_UNSIGNED_INTEGER", 8, "u1"), ("IEEE_REAL", 32, ">f4")])
    rng = np.random.default_rng(vc.int("seed", 0, 10 ** 6))
    px = rng.integers(0, 100, B * L * S).astype(dt)
    items = [("LINES", L), ("LINE_SAMPLES", S), ("SAMPLE_TYPE", e2e.Raw(typ)),
             ("SAMPLE_BITS", bits)]
    if B > 1:
        items += [("BANDS", B), ("BAND_STORAGE_TYPE",
                                 e2e.Raw("BAND_SEQUENTIAL"))]
    if vc.flag("scale"):
        items += [("SCALING_FACTOR", vc.choice("factor", [2, 0.5, -1.0])),
                  ("OFFSET", vc.choice("offset", [0, 10, -2.5]))]
    if vc.flag("missing"):
        items.append(("MISSING_CONSTANT", int(px[rng.integers(px.size)])))
    rows = vc.choice("rows", [1, 2, 2, 5])
    names = vc.choice("cols", [("A",), ("A", "B C"), ("B", "A", "X")])
    cells = [[int(rng.integers(-99, 999)) if k % 2 == 0 else
              vc.choice(f"c{r}.{k}", ["ab", "x;y", "it's", 'q d', "Z"])
              for k in range(len(names))] for r in range(rows)]
    w = 6
    text = "".join("".join(f"{v!s:>{w}}" for v in r) + "\r\n" for r in cells)
    width = w * len(names) + 2
    cols = [("OBJECT COLUMN", [
        ("NAME", n), ("DATA_TYPE", e2e.Raw("ASCII_INTEGER" if k % 2 == 0
                                           else "CHARACTER")),
        ("START_BYTE", 1 + w * k), ("BYTES", w)]) for k, n in
        enumerate(names)]
    note = vc.choice("note", ["a note", "two\nlines of it\n", "x = 1\nEND\n",
                              "caf\u00e9"])
    raw_note = note.encode()
    body = [("PDS_VERSION_ID", e2e.Raw("PDS3")), ("RECORD_TYPE",
                                                  e2e.Raw("UNDEFINED"))]
    at = 4001
    parts = [("IMAGE", px.tobytes(), ("OBJECT IMAGE", items)),
             ("TABLE", text.encode(), ("OBJECT TABLE", [
                 ("INTERCHANGE_FORMAT", e2e.Raw("ASCII")), ("ROWS", rows),
                 ("COLUMNS", len(names)), ("ROW_BYTES", width)] + cols)),
             ("NOTE_TEXT", raw_note, ("OBJECT NOTE_TEXT",
                                      [("BYTES", len(raw_note))]))]
    if vc.flag("mixed"):
        parts.reverse()
    data = b""
    for n, b, o in parts:
        body.append(("^" + n, e2e.Q(at + len(data))))
        data += b
    body += [o for n, b, o in parts]
    lab = (e2e.pvl(body) + "END\r\n").encode()
    e2e.write(vc, name, lab.ljust(4000) + data)
    return [n for n, b, o in parts]


def fits_product(vc, name):
    from astropy.io import fits
    import numpy as np
    rng = np.random.default_rng(vc.int("seed", 0, 10 ** 6))
    shape = vc.choice("shape", [(2, 3), (4, 2), (3, 2, 2), (5, 2, 3),
                                 (11, 2, 2)])
    h = fits.PrimaryHDU(rng.integers(0, 99, shape).astype(vc.choice(
        "dt", ["i2", "f4"])))
    hs = [h]
    if vc.flag("vector"):
        hs.append(fits.ImageHDU(rng.integers(0, 99, 4).astype("i2"),
                                name="VEC"))
    if vc.flag("table"):
        hs.append(fits.BinTableHDU.from_columns([
            fits.Column("A", "J", array=rng.integers(0, 99, 3)),
            fits.Column("B", "4A", array=["ab", "x,y", "c"])], name="TAB"))
    import os
    fits.HDUList(hs).writeto(os.path.join(vc.tmp(), name))


def pds4_product(vc, name):
    import numpy as np
    from .C21 import xml, product
    rng = np.random.default_rng(vc.int("seed", 0, 10 ** 6))
    n = vc.choice("shape", [(2, 3), (4, 2), (3, 2, 2), (5, 2, 3),
                                 (11, 2, 2)])
    typ, dt = vc.choice("type", [("SignedMSB2", ">i2"), ("UnsignedByte", "u1"),
                                 ("SignedLSB4", "<i4"),
                                 ("IEEE754MSBSingle", ">f4")])
    a = rng.integers(0, 99, n).astype(dt)
    el = xml("Element_Array", data_type=typ, scaling_factor=vc.choice(
        "factor", [None, 2, 0.5]), value_offset=vc.choice(
            "offset", [None, 3])) % ""
    ax = "".join(xml("Axis_Array", axis_name=f"A{i}", elements=d,
                     sequence_number=i + 1) % "" for i, d in enumerate(n))
    sc = xml("Special_Constants", missing_constant=int(a.flat[1])) % "" \
        if vc.flag("missing") else ""
    e2e.write(vc, "x.dat", a.tobytes())
    e2e.write(vc, name, product(
        "<File_Area_Observational><File><file_name>x.dat</file_name></File>"
        + xml("Array", local_identifier="IM", offset=0, axes=len(n),
              axis_index_order="Last Index Fastest") % (el + ax + sc)
        + "</File_Area_Observational>"))


def make(vc):
    kind = vc.choice("product", ["pds3", "pds3", "fits", "pds4"])
    stem = vc.choice("stem", ["prod", "a.b", "A_1"])
    name = stem + {"pds3": ".lbl", "fits": ".fits", "pds4": ".xml"}[kind]
    {"pds3": pds3_product, "fits": fits_product,
     "pds4": pds4_product}[kind](vc, name)
    return kind, stem, name


def options(vc, bands):
    """keyword arguments of the rendering, and what they ask for"""
    kw = {}
    clip = vc.choice("clip", [None, 0, (0, 10), 5])
    if clip is not None:
        kw["image_clip"] = clip
    color = vc.choice("color", [None, (10, 20, 30)])
    if color:
        kw["mask_color"] = color
    band_ix = vc.choice("band_ix", [None, None, 0, 1, "burst"])
    if band_ix is not None:
        kw["band_ix"] = band_ix
    over = vc.flag("override")
    if over:
        kw["override_rgba"] = True
    rgb = vc.choice("rgb", [None, None, (2, 0, 1)])
    if rgb and (bands is None or bands > 2):
        kw["rgb_channels"] = rgb
    else:
        rgb = None
    return kw, clip, color or (0, 255, 255), band_ix, over, rgb


def check_shown(vc, pics, want, kw, clip, color, band_ix, over, rgb):
    import numpy as np
    groups = band_groups(want.shape[0] if want.ndim == 3 else 0, rgb, over,
                         band_ix)
    vc.ensure("one picture for each", len(pics) == len(groups))
    check_pictures(vc, pics, groups, np.ma.getdata(want),
                   np.ma.getmaskarray(want),
                   isinstance(want, np.ma.MaskedArray), color, clip)


def quiet(f, *a, **k):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def bands_of(d):
    import numpy as np
    n = [d[k].shape[0] for k in d.keys() if isinstance(d[k], np.ndarray)
         and d[k].ndim == 3]
    return min(n) if n else (0 if any(
        isinstance(d[k], np.ndarray) and d[k].ndim == 2 for k in d.keys())
        else None)


@contract("C25", "dump", [D + "dump_browse", "pdr.browsify:browsify",
                          "pdr.browsify:_browsify_array"], secs=20,
          random=300, weight=3, bounded="concrete: PDS3, FITS and PDS4 "
          "products with an image, a table, vectors, headers and text")
def dump(vc):
    """Every loaded object gets its browse product(s) under its own name, and
    no other file is written."""
    import csv
    import os
    import numpy as np
    import pandas as pd
    from PIL import Image
    kind, stem, name = make(vc)
    ref = quiet(e2e.read, vc, name)
    for k in list(ref.keys()):
        quiet(lambda: ref[k])
    d = quiet(e2e.read, vc, name)
    names = list(d.keys())
    chosen = [k for k in names if vc.flag("load." + k)]
    for k in chosen:
        quiet(lambda: d[k])
    loaded = [k for k in d.keys() if k in vars(d)]
    kw, clip, color, band_ix, over, rgb = options(vc, bands_of(ref))
    kw["image_format"] = "png"
    scaled = vc.choice("scaled", [True, True, False, "both"])
    if scaled is not True:
        kw["scaled"] = scaled
    purge = vc.flag("purge")
    if purge:
        kw["purge"] = True
    prefix = vc.choice("prefix", [None, None, "pre", "p.q"])
    if prefix:
        kw["prefix"] = prefix
    out = os.path.join(vc.tmp(), "out")
    os.mkdir(out)
    o = vc.run(quiet, d.dump_browse, outpath=out, **kw)
    vc.ensure("no error", o.ok, lambda: f"{kw} {o.exc!r}")
    files = set(os.listdir(out))
    for k in loaded:
        base = f"{prefix or stem}_{k}"
        raw = ref[k]

        def take(f):
            vc.ensure(f"a browse product for {k}", f in files,
                      lambda: f"{f} not in {sorted(files)}")
            files.remove(f)
            return os.path.join(out, f)
        if isinstance(raw, np.ndarray) and raw.ndim > 1:
            sc = quiet(ref.get_scaled, k)
            if kind == "fits":
                versions = [("" if scaled is True else "_scaled", sc)]
            else:
                versions = {True: [("", sc)], False: [("", raw)], "both": [
                    ("_scaled", sc), ("_unscaled", raw)]}[scaled]
            for suffix, want in versions:
                n = len(band_groups(want.shape[0] if want.ndim == 3 else 0,
                                    rgb, over, band_ix))
                many = band_ix == "burst" and want.ndim == 3 and not rgb and (
                    want.shape[0] not in (3, 4) or over)
                pics = [Image.open(take(base + suffix + (
                    f"_{j}" if many else "") + ".png")) for j in range(n)]
                check_shown(vc, pics, want, kw, clip, color, band_ix, over,
                            rgb)
        elif isinstance(raw, (np.ndarray, pd.DataFrame)):
            with open(take(base + ".csv"), newline="") as f:
                got = list(csv.reader(f))
            if isinstance(raw, np.ndarray):
                vc.ensure("the vector's values", [r[-1] for r in got[1:]] ==
                          [str(x) for x in raw], lambda: f"{got} {raw}")
                continue
            if len(raw) == 1:
                got = [list(r) for r in zip(*got)]
            vc.ensure("the columns, in order", got[0][1:] == list(
                map(str, raw.columns)), lambda: f"{got} {raw}")
            vc.ensure("every row", len(got) == 1 + len(raw))
            for r, g in enumerate(got[1:]):
                vc.ensure("the values", g[1:] == [
                    str(x) for x in raw.iloc[r]], lambda: f"{g} {raw}")
        elif hasattr(raw, "to_string"):
            with open(take(base + ".xml")) as f:
                vc.ensure("the label", f.read() == raw.to_string())
        elif raw is not None:
            with open(take(base + ".txt"), newline="") as f:
                vc.ensure("the text", f.read() == str(raw))
    vc.ensure("no other file", not files, lambda: f"{kw} {sorted(files)}")
    if purge:
        vc.ensure("purged", not any(k in vars(d) for k in names))
    else:
        for k in loaded:
            a, b = d[k], ref[k]
            vc.ensure("objects are left alone", e2e.same(a, b) if isinstance(
                a, np.ndarray) and a.dtype.names is None else a.equals(b)
                if isinstance(a, pd.DataFrame) else a.to_string() ==
                b.to_string() if hasattr(b, "to_string") else
                str(a) == str(b))
        vc.ensure("nothing else is loaded", [k for k in d.keys() if k in
                                             vars(d)] == loaded)
    for k in names:
        if isinstance(ref[k], np.ndarray):
            vc.ensure("still available", e2e.same(quiet(
                lambda: d[k]), ref[k]))


@contract("C25", "show", [D + "show", "pdr.browsify:_browsify_array"], secs=10,
          random=200, weight=2, bounded="concrete: PDS3, FITS and PDS4 images")
def show(vc):
    """The picture shown is of the object asked for, and writes nothing."""
    import os
    import numpy as np
    kind, stem, name = make(vc)
    ref = quiet(e2e.read, vc, name)
    for k in list(ref.keys()):
        quiet(lambda: ref[k])
    d = quiet(e2e.read, vc, name)
    kw, clip, color, band_ix, over, rgb = options(vc, bands_of(ref))
    scaled = vc.flag("scaled")
    if not scaled or vc.flag("says"):
        kw["scaled"] = scaled
    before = set(os.listdir(vc.tmp()))
    vc.ensure("an object must be named", isinstance(vc.run(
        d.show).exc, ValueError))
    for k in d.keys():
        o = vc.run(quiet, d.show, k, **kw)
        if not isinstance(ref[k], np.ndarray):
            vc.ensure("only arrays are shown", isinstance(o.exc, TypeError),
                      lambda: f"{k} {o!r}")
        elif ref[k].ndim > 1:
            vc.ensure("no error", o.ok, lambda: f"{kw} {o.exc!r}")
            got = list(o.value) if isinstance(o.value, (list, tuple)) \
                else [o.value]
            check_shown(vc, got, quiet(ref.get_scaled, k) if scaled
                        else ref[k], kw, clip, color, band_ix, over, rgb)
            vc.ensure("the object is left alone", e2e.same(d[k], ref[k]))
    vc.ensure("nothing is written", set(os.listdir(vc.tmp())) == before)


class _Obj:
    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return f"<{self.tag}>"


def _arr(tag, shape):
    o = type("ndarray", (_Obj,), {})(tag)
    o.shape = shape
    return o


@contract("C25", "which", [D + "dump_browse"], weight=2, random=200,
          bounded="symbolic: every state of two listed objects, every "
          "combination of requests")
def which(vc):
    """Each loaded object, and no other, is handed to browsify once for each
    version asked for, under its own name, with the options given; a version
    that must survive is never handed over for destruction."""
    import pdr.browsify as B
    cls = vc.f("pdr.pdr:Data")
    vc.f(D + "dump_browse")
    d = cls.__new__(cls)
    put = object.__setattr__
    names = ["IMAGE", "TABLE"]
    put(d, "index", names + ["LABEL"])
    fits = vc.flag("fits")
    put(d, "filename", "/x/y/a.b.fits" if fits else "/x/y/a.b.LBL")
    objs, log = {}, []
    for n in names:
        k = vc.choice("state." + n, ["unloaded", "2d", "other"] + (
            ["3d", "1d"] if n == "IMAGE" else []))
        if k != "unloaded":
            objs[n] = _Obj(n) if k == "other" else _arr(n, {
                "2d": (2, 3), "3d": (2, 2, 2), "1d": (4,)}[k])
            put(d, n, objs[n])
    scaled = vc.choice("scaled", ["unsaid", True, False, "both", "other"])
    purge = vc.choice("purge", ["unsaid", True, False])
    kw = {}
    if scaled != "unsaid":
        kw["scaled"] = scaled
    else:
        scaled = True
    if purge != "unsaid":
        kw["purge"] = purge
    else:
        purge = False
    more = vc.choice("more", [{"image_clip": 3, "float_dtype": "f4"}, {}][:1 if vc.symbolic else 2])
    kw.update(more)
    prefix = vc.choice("prefix", [None, "pre"])
    if prefix:
        kw["prefix"] = prefix
    out = vc.choice("outpath", [None, "some/where"])
    if out:
        kw["outpath"] = out

    # nothing to scale: the object itself is returned
    nothing = vc.flag("nothing to scale")

    def get_scaled(name, inplace=False, float_dtype=None):
        log.append(("scale", objs[name], inplace, float_dtype))
        if nothing:
            return objs[name]
        s = _arr("scaled " + name, objs[name].shape)
        s.of = objs[name]
        return s
    put(d, "get_scaled", get_scaled)

    def browsify(obj, outbase, **k):
        log.append(("dump", obj, str(outbase), k))
    import pdr.pdr as P
    old = [(m, m.browsify) for m in (B, P) if hasattr(m, "browsify")]
    try:
        if vc.symbolic:
            vc.stub("pdr.browsify:browsify", browsify, "contract dump")
        else:
            for m, _ in old:
                m.browsify = browsify
        o = vc.run(quiet_here(vc, d.dump_browse), **kw)
    finally:
        for m, f in old:
            m.browsify = f
    arrays = [n for n in names if n in objs and getattr(
        objs[n], "shape", (0,)) != (4,) and hasattr(objs[n], "shape")]
    if scaled == "other" and arrays:
        vc.ensure("an unknown request is an error", not o.ok and isinstance(
            o.exc, ValueError))
        return
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    dumps = [x[1:] for x in log if x[0] == "dump"]
    want = []
    for n in names:
        if n not in objs:
            continue
        base = (out + "/" if out else "") + f"{prefix or 'a.b'}_{n}"
        if n not in arrays:
            want.append((n, False, base))
        elif fits:
            # their scaling can't be turned off
            want.append((n, None, base + ("" if scaled is True
                                          else "_scaled")))
        elif scaled == "both":
            want += [(n, True, base + "_scaled"), (n, False,
                                                   base + "_unscaled")]
        else:
            want.append((n, scaled, base))
    vc.ensure("each version of each loaded object once", len(dumps) ==
              len(want) and sorted(x[1] for x in dumps) == sorted(
                  w[2] for w in want), lambda: f"{dumps} {want}")
    for n, s, base in want:
        mine = [x for x in dumps if x[1] == base]
        obj, _, k = mine[0]
        if s is True:
            vc.ensure("scaled", obj is objs[n] if nothing else
                      getattr(obj, "of", None) is objs[n])
        elif s is False:
            vc.ensure("as it is", obj is objs[n])
        else:
            vc.ensure("the object", objs[n] in (obj, getattr(obj, "of",
                                                             None)))
        vc.ensure("destroyed only if asked", purge or not k.get("purge"))
        vc.ensure("the options given", all(k.get(a) == v for a, v in
                                           more.items() if a == "image_clip"))
    for n in names:
        mine = [x for x in log if objs.get(n) is not None and (
            x[1] is objs[n] or getattr(x[1], "of", None) is objs[n])]
        hurt = [j for j, x in enumerate(mine) if (
            x[0] == "scale" and x[2] and not nothing or x[0] == "dump" and x[3].get("purge")
            and x[1] is objs[n])]
        reads = [j for j, x in enumerate(mine) if x[0] == "scale" or
                 x[1] is objs[n]]
        vc.ensure("not read after it may have been destroyed", not hurt or
                  max(reads) == min(hurt), lambda: f"{mine}")
        vc.ensure("scaled in place only if purging", purge or not any(
            x[0] == "scale" and x[2] for x in mine))
        vc.ensure("deleted exactly if purging", (n in vars(d)) == (
            n in objs and not purge))


def quiet_here(vc, f):
    """with warnings off, when run for real"""
    if vc.symbolic:
        return f
    return lambda *a, **k: quiet(f, *a, **k)


@contract("C25", "by-kind", ["pdr.browsify:browsify"], random=100)
def by_kind(vc):
    """For any object and any name: a table is written as CSV, its rows as
    columns only if there is a single one; a vector as CSV; any other array is
    rendered with the options given; a label as XML, anything else as text;
    each to one file of the name given, and nothing for nothing."""
    vc.assume(vc.symbolic)
    import builtins
    import numpy as np
    import pandas as pd
    from pyvc.core import Ctx
    from pyvc.values import SymObj
    f = vc.f("pdr.browsify:browsify")
    log = []

    class Table(SymObj):
        pytype = pd.DataFrame

        def __init__(self, turned=False, of=None):
            self.turned, self.of = turned, of

        def length(self):
            return n

        @property
        def shape(self):
            c = vc.int("columns", 0)
            return (c, n) if self.turned else (n, c)

        @property
        def index(self):
            return range_of(self.shape[0])

        @property
        def T(self):
            return Table(not self.turned, self.of)

        transpose = lambda self: self.T

        def to_csv(self, name, **k):
            log.append(("csv", name, self.turned, self.of, k))

    class range_of(SymObj):
        def __init__(self, n):
            self.n = n

        def length(self):
            return self.n

    class Array(SymObj):
        pytype = np.ndarray

        def __init__(self, shape):
            self.shape, self.ndim = shape, len(shape)

    class Label:
        def to_string(self):
            return "<xml/>"

    class Other:
        def __str__(self):
            return "its text"

    class File:
        def __init__(self, name):
            self.name = name

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def write(self, text):
            log.append(("text", self.name, text))

    def open_(name, mode="r", *a, **k):
        vc.ensure("opened for writing", "w" in mode)
        return File(name)
    n = vc.int("rows", 0)
    kind = vc.choice("kind", ["table", "vector", "2d", "3d", "none", "label",
                              "text", "other"])
    d = [vc.int(f"dim{i}", 1) for i in range(3)]
    obj = {"table": Table(), "vector": Array((d[0],)), "2d": Array(
        (d[0], d[1])), "3d": Array(tuple(d)), "none": None,
        "label": Label(), "text": "some text", "other": Other()}[kind]
    base = vc.str("name", pool=["out/x_IMAGE", "a.b_T", ""])
    kw = vc.choice("options", [{}, {"image_clip": 3, "purge": True}])
    Ctx.cur.stubs[builtins.open] = open_
    Ctx.cur.abstract.add("what writes the files")
    Ctx.cur.stubs[pd.DataFrame] = lambda o: Table(of=o)
    vc.stub("pdr.browsify:_browsify_array", lambda o, b, *a, **k: log.append(
        ("array", b, o, a, k)), "C15 picture")
    o = vc.run(f, obj, base, **kw)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    if kind == "none":
        vc.ensure("nothing is written", log == [])
        return
    vc.ensure("one file", len(log) == 1, lambda: f"{log}")
    what, name, *rest = log[0]
    if kind == "table":
        vc.ensure("a CSV file", what == "csv" and rest[1] is None)
        vc.ensure("of its name", name == base + ".csv")
        vc.ensure("turned only if of one row", (n == 1) == rest[0])
    elif kind == "vector":
        vc.ensure("a CSV file of its values", what == "csv" and
                  rest[1] is obj and not rest[0])
        vc.ensure("of its name", name == base + ".csv")
    elif kind in ("2d", "3d"):
        vc.ensure("rendered as asked", what == "array" and rest[0] is obj
                  and rest[1:] == [(), kw])
        vc.ensure("of its name", name == base)
    elif kind == "label":
        vc.ensure("its XML", what == "text" and rest[0] == "<xml/>")
        vc.ensure("of its name", name == base + ".xml")
    else:
        vc.ensure("its text", what == "text" and rest[0] == str(obj))
        vc.ensure("of its name", name == base + ".txt")
