"""Concrete end-to-end helpers: write a labelled product, read it with pdr."""
import bz2
import gzip
import os
import zipfile

import numpy as np


def val(v):
    if isinstance(v, (tuple, list)):
        return "(" + ", ".join(val(x) for x in v) + ")"
    if isinstance(v, Q):
        return f"{val(v.v)} <{v.u}>"
    if isinstance(v, Raw):
        return v.s
    if isinstance(v, str):
        return f'"{v}"'
    return repr(v)


class Q:
    def __init__(self, v, u="BYTES"):
        self.v, self.u = v, u


class Raw:
    def __init__(self, s):
        self.s = s


def pvl(items, indent=0, eol="\r\n"):
    """items: [(key, value)]; a list value under 'OBJECT NAME' key is a
    nested block."""
    out = []
    pad = " " * indent
    for k, v in items:
        if k.startswith("OBJECT "):
            n = k.split()[1]
            out.append(f"{pad}OBJECT = {n}{eol}")
            out.append(pvl(v, indent + 2, eol))
            out.append(f"{pad}END_OBJECT = {n}{eol}")
        else:
            out.append(f"{pad}{k} = {val(v)}{eol}")
    return "".join(out)


def write(vc, name, data, kind="plain"):
    """returns the name of the file actually written"""
    if isinstance(data, str):
        data = data.encode()
    p = os.path.join(vc.tmp(), name)
    if kind == "gzip":
        name += ".gz"
        with gzip.open(p + ".gz", "wb") as g:
            g.write(data)
    elif kind == "bz2":
        name += ".bz2"
        with bz2.open(p + ".bz2", "wb") as g:
            g.write(data)
    elif kind == "zip":
        name += ".zip"
        with zipfile.ZipFile(p + ".zip", "w") as z:
            z.writestr(name[:-4], data)
    else:
        with open(p, "wb") as f:
            f.write(data)
    return name


def read(vc, name, **k):
    return vc.f("pdr:read")(os.path.join(vc.tmp(), name), **k)


def load(d, name):
    """d[name], raising if pdr reports (by a warning) that it failed."""
    import warnings
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        v = d[name]
    for w in ws:
        t = str(w.message)
        if t.startswith(("Unable to", "This product's")) or "not found in" \
                in t or "not yet fully supported" in t:
            raise ValueError(t)
    return v


STYPES = [("MSB_INTEGER", 16, ">i2"), ("LSB_INTEGER", 16, "<i2"),
          ("MSB_UNSIGNED_INTEGER", 8, "u1"), ("LSB_UNSIGNED_INTEGER", 16, "<u2"),
          ("MSB_UNSIGNED_INTEGER", 32, ">u4"), ("VAX_INTEGER", 32, "<i4"),
          ("IEEE_REAL", 32, ">f4"), ("PC_REAL", 64, "<f8"),
          ("SUN_INTEGER", 16, ">i2")]


def image_block(vc):
    """Random IMAGE or QUBE definition.  Returns (kind, items, geometry)."""
    typ, nbits, dt = vc.choice("type", STYPES)
    isz = nbits // 8
    g = {"L": vc.int("L", 1, 6), "S": vc.int("S", 1, 6),
         "B": vc.choice("B", [1, 1, 2, 3]), "dt": np.dtype(dt), "isz": isz,
         "pre": {}, "suf": {}, "lpre": 0, "lsuf": 0}
    kind = vc.choice("obj", ["IMAGE", "QUBE"])
    bst = vc.choice("bst", ["BAND_SEQUENTIAL", "LINE_INTERLEAVED",
                            "SAMPLE_INTERLEAVED"])
    g["bst"] = bst
    if kind == "IMAGE":
        items = [("LINES", g["L"]), ("LINE_SAMPLES", g["S"]),
                 ("SAMPLE_TYPE", Raw(typ)), ("SAMPLE_BITS", nbits)]
        if g["B"] > 1 or vc.flag("sayB"):
            items += [("BANDS", g["B"]), ("BAND_STORAGE_TYPE", bst)]
        elif g["B"] == 1:
            g["bst"] = "BAND_SEQUENTIAL"
        if (g["bst"] == "LINE_INTERLEAVED" or g["B"] == 1) and vc.flag("fix") \
                and not (g["B"] == 1 and g["bst"] == "SAMPLE_INTERLEAVED"):
            g["lpre"], g["lsuf"] = vc.int("lpre", 0, 3), vc.int("lsuf", 0, 3)
            g["bst"] = "LINE_INTERLEAVED"
            if g["lpre"]:
                items.append(("LINE_PREFIX_BYTES", g["lpre"] * isz))
            if g["lsuf"]:
                items.append(("LINE_SUFFIX_BYTES", g["lsuf"] * isz))
    else:
        order = {"BAND_SEQUENTIAL": ("SAMPLE", "LINE", "BAND"),
                 "LINE_INTERLEAVED": ("SAMPLE", "BAND", "LINE"),
                 "SAMPLE_INTERLEAVED": ("BAND", "SAMPLE", "LINE")}[bst]
        n = {"SAMPLE": g["S"], "LINE": g["L"], "BAND": g["B"]}
        items = [("AXES", 3), ("AXIS_NAME", tuple(map(Raw, order))),
                 ("CORE_ITEMS", tuple(n[a] for a in order)),
                 ("CORE_ITEM_BYTES", isz), ("CORE_ITEM_TYPE", Raw(typ))]
        if vc.flag("side"):
            ax = vc.choice("sideax", ["SAMPLE", "LINE", "BAND"])
            k, w = vc.int("nside", 0, 2), vc.choice("wside", [1, 2])
            items.append(("SUFFIX_ITEMS", tuple(
                k if a == ax else 0 for a in order)))
            items.append((f"{ax}_SUFFIX_ITEM_BYTES", isz * w))
            g["suf"][ax] = k * w
    return kind, items, g


def geometry(g):
    """(element count, index array [B, L, S]) by the PDS3 definitions."""
    pre, suf = g["pre"], g["suf"]
    tot = {a: n + pre.get(a, 0) + suf.get(a, 0) for a, n in
           (("BAND", g["B"]), ("LINE", g["L"]), ("SAMPLE", g["S"]))}
    TB, TL, TS = tot["BAND"], tot["LINE"], tot["SAMPLE"]
    b, l, s = np.meshgrid(np.arange(g["B"]), np.arange(g["L"]),
                          np.arange(g["S"]), indexing="ij")
    b, l, s = (b + pre.get("BAND", 0), l + pre.get("LINE", 0),
               s + pre.get("SAMPLE", 0))
    if g["bst"] == "BAND_SEQUENTIAL":
        ix = (b * TL + l) * TS + s
    elif g["bst"] == "SAMPLE_INTERLEAVED":
        ix = (l * TS + s) * TB + b
    else:
        ix = l * (g["lpre"] + TB * TS + g["lsuf"]) + g["lpre"] + b * TS + s
    return TB * TL * TS + TL * (g["lpre"] + g["lsuf"]), ix


def pick(data, start, ix, dt):
    raw = np.frombuffer(data, "u1")
    pos = start + ix[..., None] * dt.itemsize + np.arange(dt.itemsize)
    return np.ascontiguousarray(raw[pos]).view(dt).reshape(ix.shape)


def same(a, b):
    """same shape, kind, width and bits (byte order aside)"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype.kind != b.dtype.kind or \
            a.dtype.itemsize != b.dtype.itemsize:
        return False
    f = lambda x: np.ascontiguousarray(x).astype(
        x.dtype.newbyteorder("=")).tobytes()
    return f(a) == f(b)


def words(*targets):
    """upper-case words in the source of these functions' modules"""
    from pyvc.job import constants
    return constants(os.environ.get("PYVC_REPO", "/repo"), targets)[1]


def compound(vc, tag, pool):
    """a name of one to three words"""
    return "_".join(pool[vc.int(f"{tag}.{i}", 0, len(pool) - 1)]
                    for i in range(vc.choice(tag + ".parts", [1, 1, 2, 3])))
