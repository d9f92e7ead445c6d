"""C02: image and qube geometry is derived exactly from the label."""
from pyvc.api import contract, And, Or, Not, Implies

Q = "pdr.loaders.queries:"


def _int(lo=None, hi=None):
    return lambda vc, n: vc.int(n, lo, hi)


@contract("C02", "linefix", [Q + "extract_linefix_metadata"])
def linefix(vc):
    """Line prefix/suffix bytes become whole pixels; linepad is their sum;
    zero or missing means none; a fractional pixel count is rejected."""
    f = vc.f(Q + "extract_linefix_metadata")
    bpp = vc.choice("bpp", [1, 2, 4, 8, 3])
    block = vc.block("b", {"LINE_PREFIX_BYTES": _int(0),
                           "LINE_SUFFIX_BYTES": _int(0)})
    o = vc.run(f, block, {"BYTES_PER_PIXEL": bpp})
    pre = block.get("LINE_PREFIX_BYTES", 0)
    suf = block.get("LINE_SUFFIX_BYTES", 0)
    whole = And(pre % bpp == 0, suf % bpp == 0)
    if not o.ok:
        vc.ensure("rejects only fractional", And(
            Not(whole), isinstance(o.exc, NotImplementedError)))
        return
    vc.ensure("accepts only whole", whole)
    r = o.value
    vc.ensure("prefix pixels", r.get("line_prefix_pix", 0) * bpp == pre)
    vc.ensure("suffix pixels", r.get("line_suffix_pix", 0) * bpp == suf)
    vc.ensure("linepad", r["linepad"] * bpp == pre + suf)


AXES = ("BAND", "LINE", "SAMPLE")
COUNT = {"LINE": "nrows", "SAMPLE": "ncols", "BAND": "nbands"}
PAD = {"LINE": "row", "SAMPLE": "col", "BAND": "band"}
PERMS = [("SAMPLE", "LINE", "BAND"), ("SAMPLE", "BAND", "LINE"),
         ("BAND", "SAMPLE", "LINE"), ("LINE", "SAMPLE", "BAND"),
         ("BAND", "LINE", "SAMPLE"), ("LINE", "BAND", "SAMPLE")]
ORDER = {PERMS[0]: "BAND_SEQUENTIAL", PERMS[1]: "LINE_INTERLEAVED",
         PERMS[2]: "SAMPLE_INTERLEAVED"}
STORAGE = ["BAND_SEQUENTIAL", "LINE_INTERLEAVED", "SAMPLE_INTERLEAVED"]


def _items(vc, n):
    return tuple(vc.int(f"{n}{i}", 0, r=(0, 5)) for i in range(3))


def _sizes(vc, n):
    """per-item sizes given as a list"""
    k = vc.choice(n + ".len", [1, 2, 3])
    return tuple(vc.int(f"{n}.{i}", 0, r=(0, 1)) * 4 for i in range(k))


def _axschema(ax, sizes=None):
    d = {"PREFIX_ITEMS": _items, "SUFFIX_ITEMS": _items}
    for a in ax:
        for s in ("PREFIX", "SUFFIX"):
            d[f"{a}_{s}_ITEM_BYTES"] = sizes or (
                lambda vc, n: vc.int(n, 0, r=(0, 9)))
    return d


def _spec_axpad(block, axnames, bpp):
    """({(axis, side): pad in bytes}, rejectable condition)"""
    pads, bad = {}, []
    for ax in AXES:
        for side in ("PREFIX", "SUFFIX"):
            size = block.get(f"{ax}_{side}_ITEM_BYTES")
            if size is None:
                continue
            items = block.get(f"{side}_ITEMS")
            if items is None or axnames is None:
                bad.append(True)
                continue
            if isinstance(size, tuple):
                if len(size) > 1:
                    bad.append(Or(*[size[0] != s for s in size[1:]]))
                n = 0
                for s in size:
                    n = n + s
            else:
                n = items[axnames.index(ax)] * size
            pads[ax, side] = n
            bad.append(n % bpp != 0)
    return pads, Or(*bad) if bad else False


def _check_axpad(vc, r, pads, bpp):
    for ax in AXES:
        p = PAD[ax]
        tot = 0
        for side in ("PREFIX", "SUFFIX"):
            n = pads.get((ax, side), 0)
            vc.ensure(f"{side.lower()} pixels per axis",
                      r.get(f"{side.lower()}_{p}s", 0) * bpp == n)
            tot = tot + n
        vc.ensure("padding per axis", r[f"{p}pad"] * bpp == tot)


def _mk_ax(name, axs, sizes, bounded=None):
    @contract("C02", name, [Q + "extract_axplane_metadata"], bounded=bounded)
    def h(vc):
        f = vc.f(Q + "extract_axplane_metadata")
        bpp = vc.choice("bpp", [1, 2, 4, 8] if sizes is None else [1, 4, 8])
        names = vc.choice("names", [None, *PERMS] if sizes is None else
                          [None, *PERMS[:2]])
        block = vc.block("b", _axschema(axs, sizes))
        props = {"BYTES_PER_PIXEL": bpp}
        if names is not None:
            props["axnames"] = names
        o = vc.run(f, block, props)
        pads, bad = _spec_axpad(block, names, bpp)
        if not o.ok:
            vc.ensure("rejects only what it cannot honour", And(bad, isinstance(
                o.exc, (NotImplementedError, ValueError))))
            return
        vc.ensure("accepts only what it can honour", Not(bad))
        _check_axpad(vc, o.value, pads, bpp)
    h.__doc__ = (f"{axs} prefix/suffix planes: pixels per side and axis are "
                 "items * item bytes / pixel bytes at the axis's own place in "
                 "the axis order; fractional or undeclared counts rejected")


for _a in AXES:
    _mk_ax(f"axplane-{_a.lower()}", (_a,), None)
_mk_ax("axplane-list", ("SAMPLE",), _sizes,
       "item sizes given as a list of 1 to 3 numbers")
_mk_ax("axplane-list-band", ("BAND",), _sizes,
       "item sizes given as a list of 1 to 3 numbers")


@contract("C02", "axplane-axes", [Q + "extract_axplane_metadata"])
def axplane_axes(vc):
    """Planes declared on several axes are each accounted to their own axis."""
    f = vc.f(Q + "extract_axplane_metadata")
    names = vc.choice("names", PERMS)
    block = vc.block("b", _axschema(AXES), ("PREFIX_ITEMS", "SUFFIX_ITEMS"))
    o = vc.run(f, block, {"BYTES_PER_PIXEL": 1, "axnames": names})
    pads, _ = _spec_axpad(block, names, 1)
    vc.ensure("accepted", o.ok)
    _check_axpad(vc, o.value, pads, 1)


IMTYPES = [("LSB_INTEGER", 16), ("MSB_UNSIGNED_INTEGER", 8), ("VAX_REAL", 32),
           ("IEEE_REAL", 64), ("PC_REAL", 32), ("MSB_INTEGER", 32)]


def _with_validation(vc, props):
    return vc.run(vc.f(Q + "get_image_properties"), props)


def _linefix_spec(block, bpp):
    pre = block.get("LINE_PREFIX_BYTES", 0)
    suf = block.get("LINE_SUFFIX_BYTES", 0)
    return pre, suf, Or(pre % bpp != 0, suf % bpp != 0)


def _check_linefix(vc, r, pre, suf, bpp):
    vc.ensure("prefix pixels", r.get("line_prefix_pix", 0) * bpp == pre)
    vc.ensure("suffix pixels", r.get("line_suffix_pix", 0) * bpp == suf)
    vc.ensure("linepad", r["linepad"] * bpp == pre + suf)


@contract("C02", "image", [Q + "generic_image_properties",
                           Q + "get_image_properties",
                           Q + "check_fix_validity", Q + "gt0f"], weight=3)
def image(vc):
    """An IMAGE block's lines, samples, bands, bytes per pixel, storage order
    and padding are the declared ones; absent BANDS is one band; several bands
    need a storage order; line padding of a non-BIL multiband image and
    fractional or undeclared padding are rejected."""
    f = vc.f(Q + "generic_image_properties")
    typ, nbits = vc.choice("type", IMTYPES)
    bpp = nbits // 8
    block = vc.block("b", {
        "SAMPLE_BITS": nbits, "SAMPLE_TYPE": typ,
        "LINES": _int(1), "LINE_SAMPLES": _int(1), "BANDS": _int(1),
        "BAND_STORAGE_TYPE": lambda vc, n: vc.choice(n, STORAGE),
        "LINE_PREFIX_BYTES": _int(0), "LINE_SUFFIX_BYTES": _int(0),
        "SUFFIX_ITEMS": _items,
        "SAMPLE_SUFFIX_ITEM_BYTES": _int(0),
    }, ("SAMPLE_BITS", "SAMPLE_TYPE", "LINES", "LINE_SAMPLES"))
    o = vc.run(f, block, "TAG")
    pre, suf, frac = _linefix_spec(block, bpp)
    nb = block.get("BANDS", 1)
    bst = block.get("BAND_STORAGE_TYPE")
    side = "SAMPLE_SUFFIX_ITEM_BYTES" in block
    nostore = And(nb > 1, bst is None)
    if not o.ok:
        vc.ensure("rejects only what it cannot honour", And(
            Or(frac, nostore, side),
            isinstance(o.exc, (NotImplementedError, ValueError))))
        return
    r = o.value
    vc.ensure("accepts only what it can honour", Not(Or(frac, nostore, side)))
    vc.ensure("lines", r["nrows"] == block["LINES"])
    vc.ensure("samples", r["ncols"] == block["LINE_SAMPLES"])
    vc.ensure("bands", r["nbands"] == nb)
    vc.ensure("bytes per pixel", r["BYTES_PER_PIXEL"] == bpp)
    vc.ensure("sample type", r["sample_type"] == "TAG")
    vc.ensure("vax flag", r["is_vax_real"] == (typ == "VAX_REAL"))
    vc.ensure("storage order", Or(nb == 1, r["band_storage_type"] == bst))
    vc.ensure("no side planes", r["rowpad"] + r["colpad"] + r["bandpad"] == 0)
    _check_linefix(vc, r, pre, suf, bpp)
    nonbil = And(pre + suf > 0, nb > 1, bst != "LINE_INTERLEAVED")
    v = _with_validation(vc, r)
    if not v.ok:
        vc.ensure("validity rejects only", And(nonbil, isinstance(
            v.exc, NotImplementedError)))
        return
    vc.ensure("validity accepts only", Not(nonbil))
    vc.ensure("element count", v.value["pixels"] * bpp == block["LINES"] * (
        block["LINE_SAMPLES"] * nb * bpp + pre + suf))


@contract("C02", "validity", [Q + "get_image_properties",
                              Q + "check_fix_validity", Q + "gt0f"])
def validity(vc):
    """Both kinds of padding, padding on several axes, and line padding of a
    multiband non-BIL image are rejected; anything else is accepted and its
    element count is that of the padded cube plus line padding."""
    g = lambda n: vc.int(n, 0, r=(0, 3))
    p = {"nrows": g("r"), "ncols": g("c"), "nbands": vc.int("b", 1, r=(1, 3)),
         "rowpad": g("rp"), "colpad": g("cp"), "bandpad": g("bp"),
         "linepad": g("lp"),
         "band_storage_type": vc.choice("bst", [None, *STORAGE])}
    vc.assume(Or(p["nbands"] == 1, p["band_storage_type"] is not None))
    q = dict(p)
    o = _with_validation(vc, p)
    both = And(q["linepad"] > 0, q["rowpad"] + q["colpad"] + q["bandpad"] > 0)
    two = Or(And(q["rowpad"] > 0, q["colpad"] > 0),
             And(q["rowpad"] > 0, q["bandpad"] > 0),
             And(q["colpad"] > 0, q["bandpad"] > 0))
    nb = And(q["linepad"] > 0, q["nbands"] > 1,
             q["band_storage_type"] != "LINE_INTERLEAVED")
    bad = Or(both, two, nb)
    if not o.ok:
        vc.ensure("rejects only what it cannot honour", And(bad, isinstance(
            o.exc, NotImplementedError)))
        return
    vc.ensure("accepts only what it can honour", Not(bad))
    r = o.value
    vc.ensure("properties unchanged", And(*[r[k] == q[k] for k in q]))
    vc.ensure("element count", r["pixels"] == (q["nrows"] + q["rowpad"]) * (
        (q["ncols"] + q["colpad"]) * (q["nbands"] + q["bandpad"])
        + q["linepad"]))


QT = [("SUN_INTEGER", 2, ">h"), ("PC_REAL", 4, "<f"), ("VAX_REAL", 4, "<u4"),
      ("MSB_UNSIGNED_INTEGER", 1, ">B"), ("LSB_INTEGER", 4, "<i4")]


def _core(extra=()):
    d = {"CORE_ITEM_BYTES": None, "CORE_ITEM_TYPE": None,
         "CORE_ITEMS": lambda vc, n: tuple(vc.int(f"{n}{i}", 1, r=(1, 9))
                                           for i in range(3))}
    return d


def _qube(vc, wrapped, pads):
    f = vc.f(Q + "check_if_qube")
    typ, nby, code = vc.choice("type", QT[1:3] if pads else QT)
    d = _core()
    d["CORE_ITEM_BYTES"], d["CORE_ITEM_TYPE"] = nby, typ
    names = vc.choice("names", PERMS)
    outer = {"AXIS_NAME": names}
    if pads:
        outer |= _axschema(pads)
    req = ("CORE_ITEM_BYTES", "CORE_ITEM_TYPE", "CORE_ITEMS", "AXIS_NAME")
    if wrapped:
        inner_names = vc.flag("inner_names")
        if inner_names:
            d["AXIS_NAME"] = outer.pop("AXIS_NAME")
        block = vc.block("b", {**outer, "CORE": lambda vc, n: vc.block(
            n, d, req)}, ("CORE", "AXIS_NAME"))
        core = block["CORE"]
    else:
        core = block = vc.block("b", {**outer, **d}, req)
    bst = vc.choice("bst", [None, *STORAGE] if not pads else
                    [None, "LINE_INTERLEAVED"])
    name = vc.choice("nm", ["QUBE", "SPECTRAL_QUBE"])
    o = vc.run(f, name, block, bst)
    want = bst or ORDER.get(names)
    padspec, bad = _spec_axpad(block, names, nby)
    bad = Or(bad, want is None)
    if not o.ok:
        vc.ensure("rejects only what it cannot honour", And(
            bad, isinstance(o.exc, (NotImplementedError, ValueError,
                                    KeyError))))
        return
    vc.ensure("accepts only what it can honour", Not(bad))
    isq, r = o.value
    vc.ensure("is a qube", isq is True)
    for ax, n in zip(names, core["CORE_ITEMS"]):
        vc.ensure("lines/samples/bands", r[COUNT[ax]] == n)
    vc.ensure("bytes per pixel", r["BYTES_PER_PIXEL"] == nby)
    vc.ensure("storage order", r["band_storage_type"] == want)
    import numpy as np
    vc.ensure("sample type", np.dtype(r["sample_type"]) == np.dtype(code))
    vc.ensure("vax flag", r["is_vax_real"] == (typ == "VAX_REAL"))
    _check_axpad(vc, r, padspec, nby)
    vc.ensure("no line padding", r["linepad"] == 0)


_QT = [Q + "check_if_qube", Q + "generic_qube_properties",
       Q + "extract_axplane_metadata", Q + "extract_linefix_metadata",
       "pdr.datatypes:sample_types"]
for _w in (False, True):
    for _p in ((), ("BAND",), ("SAMPLE",), ("LINE",)):
        def _h(vc, w=_w, p=_p):
            _qube(vc, w, p)
        _h.__doc__ = ("QUBE geometry: counts by axis name, storage order from "
                      "axis order unless explicit, side planes per axis")
        contract("C02", "qube" + ("-core" if _w else "")
                 + ("-" + _p[0].lower() if _p else ""), _QT, secs=3)(_h)


@contract("C02", "not-a-qube", [Q + "check_if_qube"])
def not_a_qube(vc):
    """Objects that are not qubes are left to the general image rules."""
    f = vc.f(Q + "check_if_qube")
    name = vc.str("name", pool=["IMAGE", "X_IMAGE", "QUBE", "A_QUBE"])
    hasq = ("QUBE" in name) if not vc.symbolic else name.contains("QUBE")
    vc.assume(Not(hasq))
    o = vc.run(f, name, {}, None)
    vc.ensure("declines", o.ok and o.value[0] is False)


@contract("C02", "sample-info", [Q + "base_sample_info", Q + "im_sample_type",
                                 "pdr.datatypes:sample_types"])
def sample_info(vc):
    """The sample type handed to the reader is the declared type at the
    declared width."""
    typ, nbits = vc.choice("type", IMTYPES)
    code = {"LSB_INTEGER": "<h", "MSB_UNSIGNED_INTEGER": ">B",
            "VAX_REAL": "<u4", "IEEE_REAL": ">d", "PC_REAL": "<f",
            "MSB_INTEGER": ">i4"}[typ]
    o = vc.run(vc.f(Q + "base_sample_info"), {"SAMPLE_TYPE": typ,
                                              "SAMPLE_BITS": nbits})
    vc.ensure("info", o.ok and o.value == {"BYTES_PER_PIXEL": nbits // 8,
                                           "SAMPLE_TYPE": typ})
    o = vc.run(vc.f(Q + "im_sample_type"), o.value)
    import numpy as np
    vc.ensure("code", o.ok and np.dtype(o.value) == np.dtype(code))
