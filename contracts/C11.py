"""C11: files are found and decompressed without changing what is read."""
import io
import os
import random

from pyvc.api import contract, And, Or, Not, Implies
from contracts import e2e

U = "pdr.utils:"
COMP = (".gz", ".bz2", ".zip")


def _lower(s):
    return s.lower()


# --------------------------------------------------------------- stem_path
@contract("C11", "stem", [U + "stem_path"], random=300)
def stem(vc):
    """For every file name, stem_path is the lowercase name, less one
    compression suffix when another suffix precedes it."""
    f = vc.f(U + "stem_path")
    k = vc.choice("dots", [0, 1, 2, 3])
    if vc.symbolic:
        from pyvc.core import z3
        from pyvc.spath import SymPath
        from pyvc.values import concat, SStr
        ps = []
        word = z3.Plus(z3.Union(z3.Range("\x20", "\x2d"), z3.Range(
            "\x30", "\x7e")))
        for i in range(k + 1):
            p = vc.str(f"part{i}")
            vc.ctx.add(z3.InRe(p.e, word))
            ps.append(p)
        pieces = [ps[0]]
        for p in ps[1:]:
            pieces += [".", p]
        name = concat(*pieces)
        path = SymPath(concat("/d/", name), name, suffixes=[
            concat(".", p) for p in ps[1:]])
    else:
        from pathlib import Path
        pool = ["a", "IMG", "gz", "GZ", "bz2", "Zip", "tar", "x_1", "B2", "2",
                "gzx"]
        ps = [vc.str(f"part{i}", pool=pool) for i in range(k + 1)]
        vc.assume(all(p and "." not in p and "/" not in p and p.isascii()
                      and p.isprintable() for p in ps))
        name = ".".join(ps)
        path = Path("/d") / name
    o = vc.run(f, path)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    low = [_lower(p) for p in ps]
    is_comp = Or(*[low[-1] == c[1:] for c in COMP]) if k > 1 else False
    join = lambda xs: _join(vc, xs)
    vc.ensure("whole name, or less its compression suffix", And(
        Implies(is_comp, o.value == join(low[:-1])),
        Implies(Not(is_comp), o.value == join(low))),
        lambda: f"{name!r} -> {o.value!r}")


def _join(vc, xs):
    if not xs:
        return ""
    if not vc.symbolic:
        return ".".join(xs)
    from pyvc.values import concat
    out = [xs[0]]
    for x in xs[1:]:
        out += [".", x]
    return concat(*out)


# -------------------------------------------------------------- check_cases
def _sym_dir(vc, t):
    from pyvc.core import z3
    from pyvc.spath import PSeq, SymPath, SymDir
    from pyvc.values import SStr, SInt, int_expr, _case
    n = vc.int(f"{t}.n", 0)
    S, I = z3.StringSort(), z3.IntSort()
    name = z3.Function(f"{t}.name", I, S)
    text = z3.Function(f"{t}.text", I, S)
    stm = z3.Function(f"{t}.stem", I, S)
    inv = z3.Function(f"{t}.inv", S, I)

    def elem(i):
        e = int_expr(i)
        vc.ctx.add(inv(text(e)) == e)
        return SymPath(SStr(text(e)), SStr(name(e)), stem=SStr(stm(e)))
    seq = PSeq(n, elem, list, t)
    d = SymDir(vc.bool(f"{t}.dir"), seq)
    return d, seq, (lambda v: SInt(inv(v.e))), n


@contract("C11", "resolve", [U + "check_cases"], random=400,
          weight=2)
def resolve(vc):
    """For every directory content and list of references: an exactly named
    file is taken, else a file of that name up to letter case or a compressed
    copy of it, else the next reference; and the absence of all of them is
    reported."""
    f = vc.f(U + "check_cases")
    m = vc.choice("refs", [1, 2])
    if not vc.symbolic:
        return _resolve_concrete(vc, f, m)
    from pyvc.spath import SymPath
    from pyvc.values import SStr, mkbool
    vc.stub(U + "stem_path", lambda p: p._stem,
            "proved by C11.stem: lowercase name less a compression suffix")
    refs = []
    for k in range(m):
        d, seq, inv, n = _sym_dir(vc, f"dir{k}")
        refs.append((SymPath(vc.str(f"ref{k}"), vc.str(f"name{k}"), d,
                             vc.bool(f"exists{k}")), seq, inv, n, d))
    single = m == 1 and vc.flag("single")
    o = vc.run(f, refs[0][0] if single else [r[0] for r in refs])

    def match(r, e):
        low = _lower(r[0].name)
        return Or(e._stem == low, _lower(e.name) == low)

    def fails(r, tag):
        """nothing in r's directory answers to r"""
        w = vc.int(tag)
        hit = And(w >= 0, w < r[3], match(r, r[1].elem(w)))
        r[1].note(w)
        return And(Not(r[0]._exists), Or(Not(r[4]._exists), Not(hit)))
    if not o.ok:
        vc.ensure("only a missing file is an error",
                  type(o.exc).__name__ == "FileNotFoundError")
        for k, r in enumerate(refs):
            vc.ensure("reported only when nothing answers to the name",
                      fails(r, f"w{k}"))
        return
    v = o.value
    earlier = True
    alts = []
    for k, r in enumerate(refs):
        j = r[2](v)
        r[1].note(j)
        e = r[1].elem(j)
        alts.append(And(earlier, r[0]._exists, v == r[0].text))
        alts.append(And(earlier, Not(r[0]._exists), r[4]._exists, j >= 0,
                        j < r[3], e.text == v, match(r, e)))
        earlier = And(earlier, fails(r, f"w{k}"))
    vc.ensure("the exactly named file, or one that answers to the name",
              Or(*alts))


NAMES = ["img.dat", "IMG.DAT", "Img.Dat", "img.dat.gz", "IMG.DAT.GZ",
         "img.dat.Bz2", "img.dat.zip", "img.gz", "IMG", "img", "img.da",
         "ximg.dat", "img.dat.gz.bz2", "img.v1.dat", "img.v1.dat.gz",
         ".img.dat", "._img.dat", "img.", "img.dat.", "IMG.DAT.", "a.img.dat",
         "img.dat.old", "img.dat~", "img_dat", "imgxdat", "dat", ".dat"]


def _answers(name, ref):
    """does a file of this name answer to the reference?"""
    name, ref = name.lower(), ref.lower()
    return name == ref or (any(name == ref + c for c in COMP)
                           and "." in ref.strip("."))


def _resolve_concrete(vc, f, m):
    from pathlib import Path
    vc.assume(vc.mode == "random" or "r0" in vc.values)
    refs, dirs = [], []
    for k in range(m):
        d = os.path.join(vc.tmp(), f"d{k}")
        os.makedirs(d, exist_ok=True)
        names = {vc.choice(f"f{k}.{j}", NAMES)
                 for j in range(vc.int(f"nfiles{k}", 0, 4))}
        for x in names:
            with open(os.path.join(d, x), "w") as g:
                g.write("x")
        ref = vc.choice(f"r{k}", NAMES)
        if vc.flag(f"sub{k}"):
            # files of these names elsewhere do not answer
            for s in ("sub", "sub/deeper"):
                os.makedirs(os.path.join(d, s), exist_ok=True)
                for x in (ref, ref.upper(), ref + ".gz"):
                    with open(os.path.join(d, s, x), "w") as g:
                        g.write("y")
            os.makedirs(os.path.join(d, "..", "sibling"), exist_ok=True)
            with open(os.path.join(d, "..", "sibling", ref), "w") as g:
                g.write("z")
        if vc.flag(f"nodir{k}"):
            d = os.path.join(d, "none")
            names = set()
        refs.append(os.path.join(d, ref))
        dirs.append((d, ref, sorted(names)))
    as_path = vc.flag("aspath")
    arg = [Path(r) for r in refs] if as_path else refs
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o = vc.run(f, arg[0] if m == 1 and vc.flag("single") else arg)
    want = []
    for d, ref, names in dirs:
        if ref in names:
            want = [os.path.join(d, ref)]
        else:
            want = [os.path.join(d, x) for x in names if _answers(x, ref)]
        if want:
            break
    if not want:
        vc.ensure("only a missing file is an error", not o.ok and type(
            o.exc).__name__ == "FileNotFoundError",
            lambda: f"{dirs}: {o.value if o.ok else o.exc!r}")
        return
    vc.ensure("the exactly named file, or one that answers to the name",
              o.ok and o.value in want,
              lambda: f"{dirs}: {o.value if o.ok else o.exc!r}")


# ------------------------------------------------------- the bytes in a file
CODES = ["u1", ">i2", "<u4", ">f8"]


@contract("C11", "array", ["pdr.np_utils:np_from_buffered_io"], random=200)
def array(vc):
    """For every file size, offset, element type and count, the array read
    through any compression holds the whole elements found at the offset, as
    many as asked for and available."""
    import numpy as np
    f = vc.f("pdr.np_utils:np_from_buffered_io")
    kind = vc.choice("kind", ["plain", "gzip", "bz2", "bytesio"])
    dt = np.dtype(vc.choice("code", CODES))
    size = vc.int("size", 0, r=(0, 90))
    pos = vc.int("pos", 0, r=(0, 30))
    has_off, has_n = vc.flag("hasoffset"), vc.flag("hascount")
    off = vc.int("off", 0, r=(0, 60)) if has_off else None
    vc.assume((pos if off is None else off) <= size)
    n = vc.int("count", 0, r=(0, 12)) if has_n else None
    if vc.symbolic:
        from pyvc.nparr import SymFile
        src = SymFile(size, kind)
        if kind == "bytesio":
            from pyvc.nparr import SymBytesIO
            from pyvc.sbytes import SymBytes
            src0 = SymFile(size, "plain")
            src = SymBytesIO(SymBytes(src0, 0, size))
        data = None
    else:
        data = vc.bytes("content", size)
        src = _stream(vc, kind, data)
    src.seek(pos)
    o = vc.run(f, src, dt, off, n)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    start = pos if off is None else off
    have = size - start
    if vc.symbolic:
        from pyvc.hooks import MODELS
        mx, mn = MODELS[max], MODELS[min]
    else:
        mx, mn = max, min
    have = mx(have, 0) // dt.itemsize
    want = have if n is None else mn(have, n)
    vc.ensure("element count", o.value.shape[0] == want,
              lambda: f"{o.value.shape} for {want}")
    vc.ensure("element type", o.value.dtype == dt)
    vc.assume(want > 0)
    i = vc.index("i", want)
    at = start + i * dt.itemsize
    if vc.symbolic:
        e = o.value.get((i,))
        root = src.bytes.src if kind == "bytesio" else src
        vc.ensure("element", And(e.src is root, e.off == at, e.dtype == dt))
    else:
        vc.ensure("element", o.value[i].tobytes() == np.frombuffer(
            data[at:at + dt.itemsize], dt)[0].tobytes())


def _stream(vc, kind, data):
    import bz2
    import gzip
    if kind == "bytesio":
        return io.BytesIO(data)
    name = e2e.write(vc, "x.dat", data, kind)
    p = os.path.join(vc.tmp(), name)
    return {"plain": lambda: open(p, "rb"), "gzip": lambda: gzip.open(p),
            "bz2": lambda: bz2.BZ2File(p)}[kind]()


@contract("C11", "decompress", [U + "decompress"], random=200)
def decompress(vc):
    """A file is opened through the decompressor its last suffix names, in any
    letter case, and as it is otherwise; nothing is read or skipped."""
    f = vc.f(U + "decompress")
    if vc.symbolic:
        return _decompress_symbolic(vc, f)
    data = vc.bytes("content", vc.int("size", 0, 3000))
    kind = vc.choice("kind", ["plain", "gzip", "bz2", "zip"])
    suffix = {"plain": ["", ".dat", ".GZX", ".gzip"], "gzip": [".gz", ".GZ"],
              "bz2": [".bz2", ".Bz2"], "zip": [".zip", ".ZIP"]}[kind]
    name = e2e.write(vc, "x.img", data, kind)
    stem = vc.choice("stem", ["x", "x.img", "X.GZ.IMG", "a.zip.b"])
    if stem == "x.img" and kind == "plain":
        stem = "y.img"
    new = os.path.join(vc.tmp(), stem + vc.choice("suffix", suffix))
    os.rename(os.path.join(vc.tmp(), name), new)
    o = vc.run(f, new)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    with o.value as g:
        vc.ensure("positioned at the start", g.tell() == 0)
        vc.ensure("the bytes of the file", g.read() == data)


def _decompress_symbolic(vc, f):
    import bz2
    import builtins
    import gzip
    import zipfile
    from types import SimpleNamespace
    from pyvc.core import z3
    from pyvc.nparr import SymFile
    from pyvc.spath import SymPath
    from pyvc.values import concat
    log = []

    class Wrapped:
        def __init__(self, kind, fp):
            self.kind, self.fp = kind, fp
    raw = SymFile(vc.int("size", 0), "plain")

    def _open(name, mode="r", *a, **k):
        vc.ensure("opened for reading bytes", mode == "rb" and name is path)
        log.append("open")
        return raw
    vc.ctx.stubs[builtins.open] = _open
    vc.ctx.stubs[bz2.BZ2File] = lambda fp, *a: Wrapped("bz2", fp)
    gz = lambda fileobj=None, **k: Wrapped("gzip", fileobj)
    vc.ctx.stubs[gzip.GzipFile] = gz

    class Zip:
        def __init__(self, fp):
            self.fp, self.members = fp, ["first"]

        def infolist(self):
            return self.members

        def open(self, m):
            return Wrapped("zip", self.fp) if m == "first" else None
    vc.ctx.stubs[zipfile.ZipFile] = lambda fp, *a: Zip(fp)
    vc.stub(U + "import_best_gzip", lambda: SimpleNamespace(GzipFile=gz),
            "the gzip module or its drop-in replacement")
    k = vc.choice("dots", [0, 1, 2])
    word = z3.Plus(z3.Union(z3.Range("\x20", "\x2d"), z3.Range(
        "\x30", "\x7e")))
    ps = [vc.str(f"part{i}") for i in range(k + 1)]
    for p in ps:
        vc.ctx.add(z3.InRe(p.e, word))
    pieces = [ps[0]]
    for p in ps[1:]:
        pieces += [".", p]
    name = concat(*pieces)
    path = SymPath(concat("/d/", name), name,
                   suffixes=[concat(".", p) for p in ps[1:]])
    o = vc.run(f, path)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    low = ps[-1].lower() if k else ""
    got = o.value
    kinds = {"gz": "gzip", "bz2": "bz2", "zip": "zip"}
    if isinstance(got, Wrapped):
        vc.ensure("over the opened file", got.fp is raw)
        vc.ensure("by its suffix", Or(*[
            And(low == s, got.kind == w) for s, w in kinds.items()]))
    else:
        vc.ensure("the opened file itself", got is raw)
        vc.ensure("only without a compression suffix",
                  Not(Or(*[low == s for s in kinds])))
    vc.ensure("not moved", raw.pos == 0)


@contract("C11", "product", ["pdr:read"], bounded="concrete: labels naming "
          "files whose on-disk names differ in letter case or compression, "
          "with similarly named files beside them, and missing files",
          secs=8, weight=2)
def product(vc):
    """Every object is read from the file its pointer names, however that name
    is written on disk; an object whose file is missing is reported, and the
    others are read."""
    import numpy as np
    n = vc.int("objects", 1, 3)
    kinds = ["plain", "plain", "gzip", "bz2", "zip"]
    stems = ["img", "img2", "IMG_A", "img.v1", "a.img"]
    used, items, blocks, want = set(), [], [], {}
    for k in range(n):
        stem_ = vc.choice(f"stem{k}", stems)
        vc.assume(stem_.lower() not in used)
        used.add(stem_.lower())
        ref = stem_ + vc.choice(f"ext{k}", [".DAT", ".img", ".B"])
        disk = vc.choice(f"case{k}", [str, str.lower, str.upper,
                                      str.swapcase])(ref)
        L, S = vc.int(f"L{k}", 1, 4), vc.int(f"S{k}", 1, 4)
        raw = vc.bytes(f"data{k}", L * S * 2)
        there = vc.choice(f"there{k}", [True, True, True, False])
        kind = vc.choice(f"kind{k}", kinds)
        if there:
            e2e.write(vc, disk, raw, kind)
            if vc.flag(f"exact{k}") and disk != ref:
                # a file of exactly the name beside an off-case one
                e2e.write(vc, ref, raw)
                e2e.write(vc, disk, b"\7" * len(raw), kind)
        else:
            e2e.write(vc, "x" + disk, raw)
            e2e.write(vc, disk + "~", raw)
        name = f"IMAGE_{k}" if k else "IMAGE"
        name = ["IMAGE", "SUN_IMAGE", "DARK_IMAGE"][k]
        items.append((f"^{name}", ref))
        blocks.append((f"OBJECT {name}", [
            ("LINES", L), ("LINE_SAMPLES", S), ("SAMPLE_BITS", 16),
            ("SAMPLE_TYPE", e2e.Raw("MSB_INTEGER"))]))
        want[name] = np.frombuffer(raw, ">i2").reshape(L, S) if there else None
    lbl = vc.choice("label", ["P.LBL", "p.lbl", "P.lbl"])
    e2e.write(vc, lbl, e2e.pvl([("PDS_VERSION_ID", e2e.Raw("PDS3"))] + items
                               + blocks) + "END\r\n")
    opened = vc.choice("open", [lbl, lbl.lower(), lbl.upper()])
    try:
        d = e2e.read(vc, opened)
    except Exception as ex:
        vc.ensure("the product opens", False, repr(ex))
        return
    for name, w in want.items():
        try:
            got = e2e.load(d, name)
        except Exception as ex:
            vc.ensure("read from its file", w is None, lambda: repr(ex))
            continue
        vc.ensure("missing files are reported", w is not None,
                  lambda: f"{name}: {type(got)}")
        vc.ensure("read from its file", e2e.same(got, w), lambda: name)


@contract("C11", "compressed-file", ["pdr:read", "pdr:Data"],
          bounded="concrete: random images whose labels describe a compressed "
          "file and the uncompressed file it holds", secs=6)
def compressed_file(vc):
    """An object of a product whose label describes both a compressed file
    and the file it uncompresses to is read from whichever of the two is
    there, and is the same from both; other objects are read from their own
    files."""
    import numpy as np
    kind = vc.choice("kind", ["gzip", "bz2", "zip"])
    ext = {"gzip": ".gz", "bz2": ".bz2", "zip": ".zip"}[kind]
    L, S = vc.int("L", 1, 4), vc.int("S", 1, 4)
    n = vc.int("rec", 1, 2)
    data = vc.bytes("data", (n - 1) * 10 + L * S * 2)
    other = vc.bytes("other", 6)
    stem_ = vc.choice("stem", ["img", "IMG", "a.img"])
    ref = stem_ + ".IMG"
    disk = vc.choice("case", [str, str.lower, str.upper])(ref)
    there = vc.choice("there", [("c",), ("u",), ("c", "u"), ()])
    if "c" in there:
        e2e.write(vc, disk, data, kind)
    if "u" in there:
        e2e.write(vc, disk, data)
    e2e.write(vc, "o.img", other)
    im = lambda a, b: [("LINES", a), ("LINE_SAMPLES", b), ("SAMPLE_BITS", 16),
                       ("SAMPLE_TYPE", e2e.Raw("MSB_INTEGER"))]
    ptr = (f"^IMAGE", (ref, n) if n > 1 or vc.flag("sayn") else ref)
    files = [
        ("OBJECT COMPRESSED_FILE", [
            ("FILE_NAME", ref + ext.upper()), ("RECORD_TYPE", e2e.Raw(
                "UNDEFINED")), ("ENCODING_TYPE", "ZIP")]),
        ("OBJECT UNCOMPRESSED_FILE", [
            ("FILE_NAME", ref), ("RECORD_TYPE", e2e.Raw("FIXED_LENGTH")),
            ("RECORD_BYTES", 10), ptr, ("OBJECT IMAGE", im(L, S))])]
    if vc.flag("swap"):
        files.reverse()
    items = [("PDS_VERSION_ID", e2e.Raw("PDS3"))] + files
    more = vc.flag("more")
    if more:
        items.insert(vc.choice("at", [1, 3]),
                     ("OBJECT SUN_IMAGE", im(1, 3)))
        items.insert(1, ("^SUN_IMAGE", "o.img"))
    e2e.write(vc, "p.lbl", e2e.pvl(items) + "END\r\n")
    d = e2e.read(vc, "p.lbl")
    o = vc.run(lambda: e2e.load(d, "IMAGE"))
    if there:
        vc.ensure("the file that is there", o.ok and e2e.same(
            o.value, np.frombuffer(data, ">i2", L * S, (n - 1) * 10).reshape(
                L, S)), lambda: f"{o.exc!r} {o.value if o.ok else ''}")
    else:
        vc.ensure("missing files are reported", not o.ok, lambda: repr(
            o.value))
    if more:
        o = vc.run(lambda: e2e.load(d, "SUN_IMAGE"))
        vc.ensure("other objects", o.ok and e2e.same(
            o.value, np.frombuffer(other, ">i2").reshape(1, 3)),
            lambda: f"{o.exc!r}")
