"""C01: every image pixel comes from the file position its label declares."""
import bz2
import gzip
import os
import zipfile

import numpy as np

from pyvc.api import contract, And, Or, Not, Implies, Ite

I = "pdr.loaders.image:"
TYPES = [(">B", False), ("<h", False), (">i4", False), ("<f", False),
         (">d", False), ("<u4", True)]


def _dtype(code):
    order, rest = code[0], code[1:]
    return np.dtype({"B": "u1", "b": "i1"}.get(rest, order + {
        "h": "i2", "H": "u2", "f": "f4", "d": "f8"}.get(rest, rest)))


def make_props(vc, bands, pads):
    """An image properties record as produced from a label (C02)."""
    code, is_vax = vc.choice("type", TYPES)
    p = {"sample_type": code, "is_vax_real": is_vax,
         "BYTES_PER_PIXEL": _dtype(code).itemsize,
         "nrows": vc.int("nrows", 1, r=(1, 6)),
         "ncols": vc.int("ncols", 1, r=(1, 6)),
         "rowpad": 0, "colpad": 0, "bandpad": 0, "linepad": 0}
    if bands == "one":
        p["nbands"] = 1
        p["band_storage_type"] = vc.choice(
            "bst1", [None, "BAND_SEQUENTIAL", "LINE_INTERLEAVED",
                      "SAMPLE_INTERLEAVED"] if pads != "line" else
            [None, "BAND_SEQUENTIAL", "LINE_INTERLEAVED"])
    else:
        p["nbands"] = vc.int("nbands", 2, r=(2, 4))
        p["band_storage_type"] = bands
    if pads == "line":
        which = vc.choice("fix", ["pre", "suf", "both"])
        if which != "suf":
            p["line_prefix_pix"] = vc.int("lpre", 1, r=(1, 3))
        if which != "pre":
            p["line_suffix_pix"] = vc.int("lsuf", 1, r=(1, 3))
        p["linepad"] = p.get("line_prefix_pix", 0) + \
            p.get("line_suffix_pix", 0)
    elif pads in ("row", "col", "band"):
        which = vc.choice("plane", ["pre", "suf", "both"])
        if which != "suf":
            p[f"prefix_{pads}s"] = vc.int("apre", 0, r=(0, 3))
        if which != "pre":
            p[f"suffix_{pads}s"] = vc.int("asuf", 0, r=(0, 3))
        p[f"{pads}pad"] = p.get(f"prefix_{pads}s", 0) + \
            p.get(f"suffix_{pads}s", 0)
    return p


def spec_total(p):
    """Number of elements the object occupies in the file."""
    L, S, B = (p["nrows"] + p["rowpad"], p["ncols"] + p["colpad"],
               p["nbands"] + p["bandpad"])
    return L * S * B + L * p["linepad"]


def spec_index(p, b, l, s):
    """File element number of pixel (band, line, sample)."""
    L, S, B = (p["nrows"] + p["rowpad"], p["ncols"] + p["colpad"],
               p["nbands"] + p["bandpad"])
    b = b + p.get("prefix_bands", 0)
    l = l + p.get("prefix_rows", 0)
    s = s + p.get("prefix_cols", 0)
    bst = p["band_storage_type"]
    if bst == "SAMPLE_INTERLEAVED":
        return (l * S + s) * B + b
    if bst == "LINE_INTERLEAVED" or (p["linepad"] is not 0
                                     and p["nbands"] is 1):
        rec = p.get("line_prefix_pix", 0) + B * S + p.get("line_suffix_pix", 0)
        return l * rec + p.get("line_prefix_pix", 0) + b * S + s
    return (b * L + l) * S + s


def make_file(vc, kind, need):
    """A file holding `need` bytes of object (or fewer) and any data after."""
    from pyvc import nparr
    size = vc.int("size", 0, r=None, pool=None if vc.symbolic else
                  [need, need, need + 1, need + 7, need + 64,
                   max(0, need - 1), max(0, need - 9)])
    if vc.symbolic:
        f = nparr.SymFile(size, kind)
        vc.stub("pdr.utils:decompress", lambda fn: f, "C11: yields the file's "
                "bytes, decompressed, positioned at 0")
        import importlib
        vc.ctx.stubs[importlib.import_module("pdr.loaders.image").decompress] \
            = lambda fn: f
        return "image.img", f, size
    data = vc.bytes("content", size)
    base = vc.file("image.img", data)
    if kind == "gzip":
        p = base + ".gz"
        with gzip.open(p, "wb") as g:
            g.write(data)
    elif kind == "bz2":
        p = base + ".bz2"
        with bz2.open(p, "wb") as g:
            g.write(data)
    elif kind == "zip":
        p = base + ".zip"
        with zipfile.ZipFile(p, "w") as z:
            z.write(base, "image.img")
    else:
        p = base
    return p, data, size


def same_element(vc, got, f, off, code, is_vax):
    """Is `got` the file element at byte offset off?"""
    dt = _dtype(code)
    from pyvc.nparr import Elem
    if not isinstance(got, Elem):
        return False
    tags = (("vax32", dt.str),) if is_vax else ()
    return And(got.src is f, got.dtype == (np.dtype("f4") if is_vax else dt),
               got.tags == tags, got.off == off)


def expect_concrete(data, start, idx, code, is_vax):
    dt = _dtype(code)
    idx = np.asarray(idx)
    n = dt.itemsize
    raw = np.frombuffer(data, dtype="u1")
    pos = start + idx[..., None] * n + np.arange(n)
    arr = np.ascontiguousarray(raw[pos]).view(dt).reshape(idx.shape)
    if is_vax:
        import vax
        arr = vax.from_vax32(np.ascontiguousarray(arr))
    return arr


def bits(a):
    a = np.ascontiguousarray(np.asarray(a))
    return a.astype(a.dtype.newbyteorder("=")).tobytes()


def image_contract(vc, bands, pads, name="IMAGE"):
    f = vc.f(I + "read_image")
    p = make_props(vc, bands, pads)
    kind = vc.choice("kind", ["plain", "gzip"] if vc.symbolic else
                     ["plain", "gzip", "bz2", "zip"])
    start = vc.int("start", 0, r=(0, 40))
    code, is_vax = p["sample_type"], p["is_vax_real"]
    isz = _dtype(code).itemsize
    need = start + spec_total(p) * isz
    fn, src, size = make_file(vc, kind, need)
    q = dict(p)
    o = vc.run(f, name, dict(p), fn, start)
    if not o.ok:
        vc.ensure("complete objects are read", size < need,
                  lambda: repr(o.exc))
        return
    vc.ensure("short files are rejected", size >= need)
    img = o.value
    R, C, B = q["nrows"], q["ncols"], q["nbands"]
    single = bands == "one"
    if name != "IMAGE":
        fixname = "line_prefix_pix" if "PREFIX" in name else "line_suffix_pix"
        width = q.get(fixname, 0)
        if not vc.symbolic and width == 0 or fixname not in q:
            return
        if vc.symbolic and bool(width == 0):
            return
        vc.ensure("prefix/suffix rank", len(img.shape) == 2)
        vc.ensure("prefix/suffix shape", And(img.shape[0] == R,
                                             img.shape[1] == width))
        S = q["ncols"] * q["nbands"]
        rec = S + q["linepad"]
        before = 0 if "PREFIX" in name else S + q.get("line_prefix_pix", 0)
        if vc.symbolic:
            l = vc.index("l", R)
            k = vc.index("k", width)
            e = img.get((l, k))
            vc.ensure("prefix/suffix element", And(
                e.src is src, e.off == start + (l * rec + before + k) * isz))
        elif not is_vax:
            ll, kk = np.meshgrid(np.arange(R), np.arange(width),
                                 indexing="ij")
            want = expect_concrete(src, start, ll * rec + before + kk, code,
                                   False)
            vc.ensure("prefix/suffix element", bits(img) == bits(want))
        return
    shape = (R, C) if single else (B, R, C)
    vc.ensure("rank", len(img.shape) == len(shape),
              lambda: f"shape {img.shape}, declared {shape}")
    vc.ensure("shape", And(*[a == b for a, b in zip(img.shape, shape)]),
              lambda: f"shape {img.shape}, declared {shape}")
    if vc.symbolic:
        l, s = vc.index("l", R), vc.index("s", C)
        b = 0 if single else vc.index("b", B)
        e = img.get((l, s) if single else (b, l, s))
        off = start + spec_index(q, b, l, s) * isz
        vc.ensure("element", same_element(vc, e, src, off, code, is_vax))
    else:
        bb, ll, ss = np.meshgrid(np.arange(B), np.arange(R), np.arange(C),
                                 indexing="ij")
        idx = spec_index(q, bb, ll, ss)
        want = expect_concrete(src, start, idx, code, is_vax)
        if single:
            want = want[0]
        vc.ensure("element type", img.dtype.kind == want.dtype.kind
                  and img.dtype.itemsize == want.dtype.itemsize)
        vc.ensure("element", bits(img) == bits(want),
                  lambda: f"got {np.asarray(img).tolist()} want {want.tolist()}")


def _mk(bands, pads, tag, extra=()):
    @contract("C01", tag, [I + "read_image", I + "process_single_band_image"
                           if bands == "one" else
                           I + "process_multiband_image",
                           "pdr.np_utils:np_from_buffered_io",
                           "pdr.loaders.queries:get_image_properties",
                           I + "extract_axplanes", *extra],
              weight=5, secs=4)
    def h(vc):
        image_contract(vc, bands, pads)
    h.__doc__ = (f"{bands} image with {pads} padding: declared shape, every "
                 "element at its declared file offset")


for _b, _t in (("one", "single"), ("BAND_SEQUENTIAL", "bsq"),
               ("LINE_INTERLEAVED", "bil"), ("SAMPLE_INTERLEAVED", "bip")):
    for _p in ("none", "row", "col", "band", "line"):
        if _p == "line" and _t in ("bsq", "bip"):
            continue
        _mk(_b, _p, f"{_t}-{_p}")


def _fix(bands, tag, nm):
    @contract("C01", tag, [I + "read_image",
                           I + ("extract_single_band_linefix"
                                if bands == "one" else
                                "extract_bil_linefix")], secs=3)
    def h(vc):
        image_contract(vc, bands, "line", nm)
    h.__doc__ = f"{nm} of {bands} image: the line prefix/suffix samples"


for _b, _t in (("one", "single"), ("LINE_INTERLEAVED", "bil")):
    _fix(_b, f"{_t}-prefix", "LINE_PREFIX_TABLE")
    _fix(_b, f"{_t}-suffix", "LINE_SUFFIX_TABLE")


@contract("C01", "e2e-product", ["pdr:read", I + "read_image",
                                 "pdr.loaders.datawrap:ReadImage"],
          bounded="concrete: random labelled products up to 6x6x3 pixels, "
          "plain and compressed, detached label", secs=25)
def e2e_product(vc):
    """pdr.read of a labelled IMAGE/QUBE returns exactly the declared file
    samples, with data after the image and whatever compression."""
    from . import e2e
    kind, items, g = e2e.image_block(vc)
    total, ix = e2e.geometry(g)
    rec = vc.int("rec", 1, 40)
    n = vc.int("recno", 1, 4)
    start = (n - 1) * rec
    comp = vc.choice("kind", ["plain", "gzip", "bz2", "zip"])
    data = vc.bytes("content", start + total * g["isz"]
                    + vc.int("after", 0, 30))
    fn = e2e.write(vc, "data.img", data, comp)
    items = list(items)
    lbl = e2e.pvl([("PDS_VERSION_ID", e2e.Raw("PDS3")),
                   ("RECORD_TYPE", e2e.Raw("FIXED_LENGTH")),
                   ("RECORD_BYTES", rec), (f"^{kind}", (fn, n)),
                   (f"OBJECT {kind}", items)]) + "END\r\n"
    e2e.write(vc, "prod.lbl", lbl)
    d = e2e.read(vc, "prod.lbl")
    o = vc.run(e2e.load, d, kind)
    vc.ensure("loads", o.ok, lambda: f"{o.exc!r} for\n{lbl}")
    img = o.value
    want = e2e.pick(data, start, ix, g["dt"])
    if g["B"] == 1:
        want = want[0]
    vc.ensure("element", e2e.same(img, want),
              lambda: f"got {np.asarray(img).tolist()} want {want.tolist()} "
              f"for\n{lbl}")
