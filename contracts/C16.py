"""C16: every object pointer selects one loader."""
import os

from pyvc.api import contract, And, Or, Not, Iff
from pyvc.aname import has
from contracts import e2e

L = "pdr.loaders.dispatch:"
U = "pdr.loaders.utility:"
D = "pdr.pdr:"
FITS = (".fits", ".fit", ".fits.gz", ".fit.gz", ".fz")
DESKTOP = (".bmp", ".tif", ".tiff", ".jp2", ".jpf", ".jpc", ".jpx", ".jpg",
           ".jpeg", ".gif", ".png", ".webp")
IMAGE, TABLE, TEXT = (".img", ".rgb"), (".tab", ".csv"), (".txt", ".md")
TABLE_WORDS = ("TABLE", "SPREADSHEET", "CONTAINER", "SERIES", "SPECTRUM",
               "HISTOGRAM", "FILE")
POOL = ["LABEL", "IMAGE", "TABLE", "QUBE", "SPECTRAL_QUBE", "IMAGE_HEADER",
        "TABLE_HEADER", "IMAGE_TIME_TABLE", "HISTOGRAM_IMAGE", "FILE_NAME",
        "TIFF_IMAGE", "TIFF_DOCUMENT", "TIFF_TAGS", "COLUMN_STRUCTURE",
        "X_ARRAY", "SPREADSHEET", "DESCRIPTION", "INSTRUMENT_DESC", "TEXT",
        "PDF_DOCUMENT", "XDR_DOCUMENT", "HISTORY", "ENGINEERING_DATA",
        "FILE_NAME.IMG", "TIME_SERIES", "HEADER", "MAP_PROJECTION_CATALOG",
        "PDS_OBJECT", "FILENAME", "", "SPECTRUM_HEADER", "TABLE_NAME",
        "HISTOGRAM", "IMAGE_DESC", "TEXT_TABLE", "ARRAY_TABLE", "DOCUMENT"]


def trivial_name(p):
    return Or(And(has(p, "TIFF"), Not(has(p, "IMAGE")),
                  Not(has(p, "DOCUMENT"))),
              has(p, "STRUCTURE"), has(p, "PDS_OBJECT"))


def by_extension(kinds):
    for k, name in (("fits", "ReadFits"), ("image", "ReadImage"), (
            "text", "ReadText"), ("table", "ReadTable"),
            ("desktop", "ReadCompressedImage")):
        yield kinds[k], name
    yield True, "TBD"


def expected(p, target, named):
    """[(condition, loader)] in order of precedence, for products that are no
    special case"""
    yield trivial_name(p), "Trivial"
    yield p == "LABEL", "ReadLabel"
    yield target["fits"], "ReadFits"
    yield target["desktop"], "ReadCompressedImage"
    yield Or(*[has(p, w) for w in ("TEXT", "PDF", "MAP_PROJECTION_CATALOG",
                                   "FILENAME")]), "ReadText"
    yield has(p, "DESC"), "ReadText"
    yield has(p, "ARRAY"), "ReadArray"
    yield And(Or(*[has(p, w) for w in TABLE_WORDS]),
              *[Not(has(p, w + s)) for w in TABLE_WORDS
                for s in ("_HEADER", "_NAME")],
              Not(has(p, "HISTOGRAM_IMAGE"))), "ReadTable"
    yield has(p, "HEADER"), "ReadHeader"
    yield Or(has(p, "IMAGE"), has(p, "QUB"), has(p, "XDR_DOCUMENT")), \
        "ReadImage"
    for c, name in by_extension(named):
        yield And(has(p, "FILE_NAME"), c), name
    yield True, "TBD"


def always(vc, value):
    """the files of a product whose objects share one"""
    if vc.symbolic:
        from pyvc.values import SymObj

        class Always(SymObj):
            def getitem(self, k):
                return value
            get = getitem
        return Always()

    class Mapping(dict):
        def __missing__(self, k):
            return value
    return Mapping()


class Product:
    def __init__(self, vc, fn, target):
        self.filename, self.target = fn, target
        self.file_mapping = always(vc, target)
        self.identifiers = {k: "" for k in (
            "DATA_SET_ID", "DATA_SET_NAME", "DATA_QUALITY_DESC", "FILE_NAME",
            "FILE_RECORDS", "INSTRUMENT_ID", "INSTRUMENT_HOST_NAME",
            "INSTRUMENT_NAME", "LABEL_RECORDS", "NOTE", "PRODUCT_ID",
            "PRODUCT_TYPE", "RECORD_BYTES", "RECORD_TYPE", "ROW_BYTES",
            "ROWS", "SPACECRAFT_NAME", "STANDARD_DATA_PRODUCT_ID",
            "START_TIME")}

    def _target_path(self, name, *a, **k):
        return self.target


SETS = {"fits": FITS, "desktop": DESKTOP, "image": IMAGE, "table": TABLE,
        "text": TEXT}


def kind_of(exts):
    for k, v in SETS.items():
        if set(v) == set(exts):
            return k
    return None


def suffixes(name):
    """the extensions of a file name: what follows each dot but a leading
    one (a name ending with a dot has none)"""
    if name.endswith("."):
        return []
    return ["." + x for x in name.lower().lstrip(".").split(".")[1:]]


@contract("C16", "dispatch", [L + "pointer_to_loader", L +
                              "file_extension_to_loader", L +
                              "image_lib_dispatch", U + "is_trivial", L +
                              "special_pointer_dispatch"], weight=3, secs=8)
def dispatch(vc):
    """For every object name: the loader is the one the order of precedence
    determines from the name and the kind of file, and no error is raised."""
    f = vc.f(L + "pointer_to_loader")
    if vc.symbolic:
        vc.merge()
        p = vc.name("name")
        target = {k: vc.bool("target." + k) for k in SETS}
        named = {k: vc.bool("named." + k) for k in SETS}
        where = "/x/F.DAT"

        def kind(fn, exts):
            k = kind_of(exts)
            if k is None:
                from pyvc.core import Unsupported
                raise Unsupported("another set of extensions")
            if isinstance(fn, str) and fn == where:
                return target[k]
            vc.ensure("the kind of a file", fn is p)
            return named[k]
        vc.stub(U + "looks_like_this_kind_of_file", kind, "contract kind")
    else:
        p = vc.choice("stock", POOL)
        if vc.flag("compose"):
            p = "_".join(vc.choice(f"part{k}", POOL) for k in range(2))
        where = "/x/F" + vc.choice("ext", [".DAT", ".FIT", ".fits", ".tif",
                                           ".JP2", ".img", ".TAB", ""])
        k = {x: any(s in SETS[x] for s in suffixes(os.path.basename(where)))
             for x in SETS}
        target = k
        named = {x: any(s in SETS[x] for s in suffixes(p)) for x in SETS}
    o = vc.run(f, p, Product(vc, "/x/P.LBL", where))
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    got = type(o.value).__name__
    earlier = []
    cases = {}
    for c, name in expected(p, target, named):
        cases.setdefault(name, []).append(And(c, *[Not(e) for e in earlier]))
        earlier.append(c)
    vc.ensure("the loader determined by name and file", Or(*cases.get(
        got, [False])), lambda: f"{p!r} {where} -> {got}")


@contract("C16", "kind", [U + "looks_like_this_kind_of_file"], bounded=
          "concrete: names of up to 4 dotted parts in any letter case and "
          "directory", secs=3)
def kind(vc):
    """Whether a file has one of some extensions depends on its own name only,
    not on letter case or directory."""
    parts = [vc.choice(f"p{k}", ["a", "fits", "FIT", "Tif", "img", "tab",
                                 "txt", "gz", "fz", "", "jp2", "v1", "md",
                                 "CSV", "png", "lbl"])
             for k in range(vc.int("n", 1, 4))]
    name = ".".join(parts)
    vc.assume(name.strip(".") != "")
    where = vc.choice("dir", ["", "/x/", "dir.fits/", "/a.tif/b.TAB/",
                              "/IMG.img/../"])
    k = vc.choice("kind", list(SETS))
    o = vc.run(vc.f(U + "looks_like_this_kind_of_file"), where + name,
               SETS[k])
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    vc.ensure("by the extensions of the name", bool(o.value) == any(
        s in SETS[k] for s in suffixes(name)), lambda: f"{where}{name} {k}")


@contract("C16", "ignored", [D + "Data.load_all", D + "Data.unloaded"],
          weight=1)
def ignored(vc):
    """load("all") loads every object except those designated as reference
    files, whatever their names, in order."""
    cls = vc.f(D + "Data")
    vc.f(D + "Data.load")
    exc = vc.f(D + "AlreadyLoadedError")
    stock = POOL + ["DATA_SET_MAP_PROJECTION", "A_DESCRIPTION_12",
                    "DATA_SET_MAP_PROJECT", "DESCRIPTION_X", "DESCRIPTIONS",
                    "XDESC", "DESCRIPTION_", "DESCRIPTION_1_2", "IMAGE_DESC_2",
                    "MY_DATA_SET_MAP_PROJECTION", "x_desc"]
    name = vc.str("name", pool=stock)
    vc.assume(one_line(name))
    names = ["A", name, "A_DESC", "B", "C_DESCRIPTION_1"]
    d = cls.__new__(cls)
    object.__setattr__(d, "index", names)
    already = vc.flag("already")
    log = []

    def load(self, name, *a, **k):
        log.append(name)
        if already:
            raise exc("loaded")
    if vc.symbolic:
        vc.stub(D + "Data.load", load, "contracts of C12")
    else:
        object.__setattr__(d, "load", lambda *a, **k: load(d, *a, **k))
    o = vc.run(cls.load_all, d)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    skipped = len(log) == 2
    vc.ensure("all but the reference files", Iff(skipped, _ignored(name)),
              lambda: f"{log}")
    vc.ensure("in order", len(log) == (2 if skipped else 3) and log[0] == "A"
              and log[-1] == "B" and (skipped or log[1] is name))


def _line():
    from pyvc.values import z3
    return z3.Star(z3.Intersect(z3.AllChar(z3.ReSort(z3.StringSort())),
                                z3.Complement(z3.Re("\n"))))


def one_line(n):
    if isinstance(n, str):
        return "\n" not in n
    from pyvc.values import z3, mkbool
    return mkbool(z3.InRe(n.e, _line()))


def _ignored(n):
    """designated as a reference file?"""
    if isinstance(n, str):
        import re
        return n.startswith("DATA_SET_MAP_PROJECT") or n.endswith("_DESC") \
            or bool(re.search(r"DESCRIPTION(_[0-9]*)?\Z", n))
    from pyvc.values import z3, mkbool
    digits = z3.Star(z3.Range("0", "9"))
    anyc = _line()
    return mkbool(z3.InRe(n.e, z3.Union(
        z3.Concat(z3.Re("DATA_SET_MAP_PROJECT"), anyc),
        z3.Concat(anyc, z3.Re("_DESC")),
        z3.Concat(anyc, z3.Re("DESCRIPTION"),
                  z3.Option(z3.Concat(z3.Re("_"), digits))))))


def pointer(vc, name):
    """the pointer to an object: its name behind a caret"""
    if not vc.symbolic:
        return "^" + name
    from pyvc.values import SymObj
    from pyvc.core import Unsupported

    class Caret(SymObj):
        pytype = str

        def startswith(self, w, *a):
            if w != "^" or a:
                raise Unsupported("start of a pointer")
            return True

        def getitem(self, i):
            if i != slice(1, None):
                raise Unsupported("part of a pointer")
            return name

        def _strip(self, w=None):
            if w != "^":
                raise Unsupported("strip")
            return name

        lstrip = strip = _strip

        def removeprefix(self, w):
            return self._strip(w)

        def contains(self, w):
            return True if w == "^" else name.contains(w)
    return Caret()


@contract("C16", "index", [D + "Data._find_objects", U + "is_trivial",
                           "pdr.parselabel.pds3:depointerize"], weight=1)
def index(vc):
    """Objects never loaded are not listed; all others are, in order."""
    cls = vc.f(D + "Data")
    vc.f(D + "Data._associate_prefix_tables")
    vc.merge()
    names = [vc.name(f"name{k}", pool=POOL) for k in range(2)]
    d = cls.__new__(cls)
    put = object.__setattr__
    vc.assume(And(*[Not(has(n, "^")) for n in names]))
    if not vc.symbolic:
        vc.assume(names[0] != names[1])
    put(d, "index", [])
    put(d, "pointers", [pointer(vc, n) for n in names])
    put(d, "identifiers", Product(vc, "", "").identifiers)
    put(d, "metablock_", lambda n: {"X": 1})
    seen = []
    if vc.symbolic:
        vc.stub(D + "Data._associate_prefix_tables", lambda self, n, pre:
                seen.append(n), "interleaved tables: C04")
    else:
        put(d, "_associate_prefix_tables", lambda n, pre: seen.append(n))
    o = vc.run(cls._find_objects, d)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    def same(x, n):
        return x is n if vc.symbolic else x == n
    kept = [any(same(x, n) for x in d.index) for n in names]
    for n, k in zip(names, kept):
        vc.ensure("all but the trivial ones", Iff(k, Not(trivial_name(n))))
    vc.ensure("in order", len(d.index) == sum(kept) and all(
        same(x, n) for x, n in zip(d.index, [n for n, k in zip(names, kept)
                                         if k])))


NAMES = ["PROD", "prod", "Image.v1", "ce2_a", "A.B.C"]
DIRS = ["", "d.fits/", "CE1_DATA/", "x.tif/", "ce3/"]


def recase(vc, s):
    how = vc.choice("case", ["lower", "upper", "title"])
    return getattr(s, how)()


@contract("C16", "standard", [D + "Data.__init__",
                              "pdr.utils:check_primary_fmt",
                              "pdr.utils:associate_label_file"],
          bounded="concrete: a PDS3 label, a FITS file, a PNG picture and a "
          "PDS4 label under names in any letter case and directory", secs=6)
def standard(vc):
    """The standard of a product is told by its name's extension, whatever the
    letter case and directory."""
    import numpy as np
    kind = vc.choice("kind", ["pds3", "fits", "png", "pds4", "lblx"])
    stem = vc.choice("stem", NAMES)
    where = vc.choice("dir", DIRS)
    os.makedirs(os.path.join(vc.tmp(), where), exist_ok=True)
    raw = np.arange(6, dtype="u1").reshape(2, 3)
    ext = {"pds3": ".lbl", "fits": vc.choice("fext", [".fits", ".fit"]),
           "png": ".png", "pds4": ".xml", "lblx": ".lblx"}[kind]
    fn = where + stem + recase(vc, ext)
    full = os.path.join(vc.tmp(), fn)
    if kind == "pds3":
        e2e.write(vc, where + "F.DAT", raw.tobytes())
        e2e.write(vc, fn, e2e.pvl([
            ("PDS_VERSION_ID", e2e.Raw("PDS3")), ("^IMAGE", "F.DAT"),
            ("OBJECT IMAGE", [("LINES", 2), ("LINE_SAMPLES", 3), (
                "SAMPLE_BITS", 8), ("SAMPLE_TYPE", e2e.Raw(
                    "UNSIGNED_INTEGER"))])]) + "END\r\n")
        name = "IMAGE"
    elif kind == "fits":
        from astropy.io import fits
        fits.PrimaryHDU(raw).writeto(full)
        name = "PRIMARY"
    elif kind == "png":
        from PIL import Image
        Image.fromarray(raw).save(full, format="png")
        name = "IMAGE"
    else:
        e2e.write(vc, where + "F.DAT", raw.tobytes())
        e2e.write(vc, fn, PDS4)
        name = "PICTURE"
    o = vc.run(vc.f("pdr:read"), full)
    vc.ensure("read", o.ok, lambda: f"{fn}: {o.exc!r}")
    d = o.value
    want = {"pds3": "PDS3", "fits": "FITS", "png": "PNG"}.get(kind, "PDS4")
    vc.ensure("the standard", d.standard == want,
              lambda: f"{fn}: {d.standard}")
    vc.ensure("the object", name in d.keys(), lambda: f"{d.keys()}")
    v = e2e.load(d, name)
    vc.ensure("its data", isinstance(v, np.ndarray) and v.shape == (2, 3)
              and (np.asarray(v) == raw).all(), lambda: f"{v!r}")


PDS4 = """<?xml version="1.0" encoding="UTF-8"?>
<Product_Observational xmlns="http://pds.nasa.gov/pds4/pds/v1">
 <Identification_Area>
  <logical_identifier>urn:nasa:pds:a:b:c</logical_identifier>
  <version_id>1.0</version_id><title>t</title>
  <information_model_version>1.11.0.0</information_model_version>
  <product_class>Product_Observational</product_class>
 </Identification_Area>
 <File_Area_Observational>
  <File><file_name>F.DAT</file_name></File>
  <Array_2D_Image>
   <local_identifier>PICTURE</local_identifier>
   <offset unit="byte">0</offset><axes>2</axes>
   <axis_index_order>Last Index Fastest</axis_index_order>
   <Element_Array><data_type>UnsignedByte</data_type></Element_Array>
   <Axis_Array><axis_name>Line</axis_name><elements>2</elements>
    <sequence_number>1</sequence_number></Axis_Array>
   <Axis_Array><axis_name>Sample</axis_name><elements>3</elements>
    <sequence_number>2</sequence_number></Axis_Array>
  </Array_2D_Image>
 </File_Area_Observational>
</Product_Observational>
"""


@contract("C16", "unsupported", ["pdr:read", U + "tbd"], bounded="concrete: "
          "names that fit no supported kind of object", secs=3)
def unsupported(vc):
    """An object of no supported kind is given as its block, with a warning;
    names never loaded are refused."""
    import warnings
    name = vc.choice("name", ["ENGINEERING_DATA", "BROWSE", "GAZETTEER",
                              "HISTORY", "TIFF_TAGS", "IMAGE_STRUCTURE",
                              "PALETTE", "PDS_OBJECT_X"])
    e2e.write(vc, "F.DAT", b"12345678")
    e2e.write(vc, "P.LBL", e2e.pvl([
        ("PDS_VERSION_ID", e2e.Raw("PDS3")), ("^" + name, "F.DAT"),
        ("OBJECT " + name, [("BYTES", 8), ("NOTE", "n")])]) + "END\r\n")
    d = e2e.read(vc, "P.LBL")
    if name in ("TIFF_TAGS", "IMAGE_STRUCTURE", "PDS_OBJECT_X"):
        vc.ensure("not listed", name not in d.keys())
        o = vc.run(d.load, name)
        vc.ensure("refused", not o.ok and isinstance(o.exc, KeyError))
        return
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        o = vc.run(lambda: d[name])
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    vc.ensure("the block of the label", dict(o.value) == {"BYTES": 8,
                                                          "NOTE": "n"})
    vc.ensure("with a warning", any(name in str(w.message)
                                    and "not yet fully supported" in
                                    str(w.message) for w in ws))
