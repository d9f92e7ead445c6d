"""C14: scaling and special constants change exactly the declared pixels."""
import struct

from pyvc.api import contract, And, Or, Not, Implies
from contracts import e2e

S = "pdr._scaling:"

# PDS3 Standards Reference (N/A, UNK, NULL) and the ISIS special pixel values
# (SpecialPixel.h), by sample type
IMPLICIT = {
    "uint8": {}, "int8": {}, "int64": {"N/A": -2147483648,
                                       "UNK": 2147483647},
    "int16": {"N/A": -32768, "UNK": 32767, "ISIS_LOW_INST_SAT": -32766,
              "ISIS_LOW_REPR_SAT": -32767, "ISIS_HIGH_INST_SAT": -32765,
              "ISIS_HIGH_REPR_SAT": -32764},
    "uint16": {"NULL": 0, "N/A": 65533, "UNK": 65534,
               "ISIS_LOW_INST_SAT": 2, "ISIS_LOW_REPR_SAT": 1,
               "ISIS_HIGH_INST_SAT": 65534, "ISIS_HIGH_REPR_SAT": 65535},
    "int32": {"N/A": -2147483648, "UNK": 2147483647},
    "uint32": {"N/A": 4294967293, "UNK": 4294967294,
               "ISIS_NULL": 0xFF7FFFFB, "ISIS_LOW_REPR_SAT": 0xFF7FFFFC,
               "ISIS_LOW_INST_SAT": 0xFF7FFFFD,
               "ISIS_HIGH_INST_SAT": 0xFF7FFFFE,
               "ISIS_HIGH_REPR_SAT": 0xFF7FFFFF},
    "float32": {"NULL": struct.unpack(">f", b"\xff\x7f\xff\xfb")[0],
                "N/A": -1e32, "UNK": 1e32,
                **{k: struct.unpack(">f", struct.pack(">I", v))[0]
                   for k, v in (("ISIS_LOW_REPR_SAT", 0xFF7FFFFC),
                                ("ISIS_LOW_INST_SAT", 0xFF7FFFFD),
                                ("ISIS_HIGH_INST_SAT", 0xFF7FFFFE),
                                ("ISIS_HIGH_REPR_SAT", 0xFF7FFFFF))}},
    "float64": {"NULL": struct.unpack(">f", b"\xff\x7f\xff\xfb")[0]},
}
NAMES = ["MISSING_CONSTANT", "INVALID_CONSTANT", "NULL", "UNKNOWN_CONSTANT",
         "CORE_NULL", "HIGH_INST_SATURATION", "NOT_APPLICABLE_CONSTANT"]
TYPES = [("UNSIGNED_INTEGER", 8, "u1"), ("MSB_INTEGER", 8, "i1"),
         ("MSB_UNSIGNED_INTEGER", 16, ">u2"), ("LSB_INTEGER", 16, "<i2"),
         ("MSB_INTEGER", 32, ">i4"), ("LSB_UNSIGNED_INTEGER", 32, "<u4"),
         ("PC_REAL", 32, "<f4"), ("IEEE_REAL", 32, ">f4"),
         ("IEEE_REAL", 64, ">f8")]
SMALL = [("UNSIGNED_INTEGER", 8, "u1"), ("LSB_INTEGER", 16, "<i2"),
         ("PC_REAL", 32, "<f4")]


def _number(vc, tag, kind):
    if kind == "int":
        return vc.choice(tag, [2, 3, 1, 10, 300, -1, -2, 0, 70000])
    return vc.choice(tag, [0.5, 2.0, 1.0, 0.1, -0.25, 1e-3, 100.5])


def _constant(vc, tag, dt):
    """(what the label says, the number meant or None)"""
    if dt.kind in "iu":
        c = vc.choice(tag, [5, 0, 7, -5, 200, 65535, 300])
    else:
        c = vc.choice(tag, [-999.9, -1e32, 5, 0.1, 1.0, -3.4e38])
    how = vc.choice(tag + ".how", ["plain", "plain", "plain", "units", "N/A",
                                   "text", "pair"])
    if how == "units":
        return e2e.Raw(f"{c!r} <K>"), c
    if how == "N/A":
        return "N/A", None
    if how == "text":
        return "NOT GIVEN", None
    if how == "pair":
        return (c, c), c
    return c, c


def _near(got, want, scale):
    return abs(got - want) <= 2e-6 * scale + 1e-300


def scene(vc, types, bands):
    import numpy as np
    typ, bits, dts = vc.choice("type", types)
    dt = np.dtype(dts)
    L, W = vc.int("L", 1, 3), vc.int("W", 1, 3)
    B = vc.choice("B", bands)
    shape = (B, L, W) if B > 1 else (L, W)
    consts, items = {}, []
    for n in range(vc.int("nconst", 0, 2)):
        name = vc.choice(f"cname{n}", NAMES)
        if name in consts:
            continue
        said, c = _constant(vc, f"c{n}", dt)
        consts[name] = c
        items.append((name, said))
    imp = IMPLICIT.get(dt.newbyteorder("=").name, {})
    count = L * W * B
    raw = np.frombuffer(vc.bytes("data", count * dt.itemsize), dt).copy()
    pool = [v for v in list(imp.values()) + list(consts.values())
            if v is not None]
    if dt.kind in "iu":
        i = np.iinfo(dt)
        pool = [v for v in pool if i.min <= v <= i.max] + [
            i.min, i.max, 100, 1]
    else:
        pool += [0.0, 1.5, -2.25, 1e6, float("nan"), float("inf")]
        raw = np.resize(np.array([0.25, -1.75, 3e4]), count).astype(dt)
    for k in range(count):
        if vc.flag(f"pick{k}"):
            with np.errstate(all="ignore"):
                raw[k] = vc.choice(f"v{k}", pool)
    return typ, bits, dt, shape, items, consts, imp, raw.reshape(shape)


def factor(vc, name, B):
    """(label items, per-band numbers)"""
    neutral = 1 if name == "SCALING_FACTOR" else 0
    how = vc.choice(name, ["absent", "int", "int", "float", "float", "units",
                           "N/A"] + (["bands"] * 3 if B > 1 else []))
    if how == "absent":
        return [], [neutral] * B
    if how == "N/A":
        return [(name, "N/A")], [neutral] * B
    if how == "bands":
        k = vc.choice(name + ".kind", ["int", "float"])
        v = [_number(vc, f"{name}.{i}", k) for i in range(B)]
        return [(name, tuple(v))], v
    v = _number(vc, name + ".v", "int" if how == "int" else "float")
    return [(name, e2e.Raw(f"{v!r} <K>") if how == "units" else v)], [v] * B


def check_scaled(vc, types, bands, inplace=False):
    import numpy as np
    typ, bits, dt, shape, citems, consts, imp, raw = scene(vc, types, bands)
    B = shape[0] if len(shape) == 3 else 1
    sitems, scale = factor(vc, "SCALING_FACTOR", B)
    oitems, offset = factor(vc, "OFFSET", B)
    items = [("LINES", shape[-2]), ("LINE_SAMPLES", shape[-1]),
             ("SAMPLE_BITS", bits), ("SAMPLE_TYPE", e2e.Raw(typ))]
    if B > 1:
        items += [("BANDS", B), ("BAND_STORAGE_TYPE", e2e.Raw(
            "BAND_SEQUENTIAL"))]
    e2e.write(vc, "F.DAT", raw.tobytes())
    e2e.write(vc, "P.LBL", e2e.pvl([
        ("PDS_VERSION_ID", e2e.Raw("PDS3")), ("^IMAGE", "F.DAT"),
        ("OBJECT IMAGE", items + citems + sitems + oitems)]) + "END\r\n")
    d = e2e.read(vc, "P.LBL")
    image = e2e.load(d, "IMAGE")
    vc.ensure("the raw image", isinstance(image, np.ndarray)
              and image.shape == shape)
    before = image.tobytes()
    with np.errstate(all="ignore"):
        o = vc.run(type(d).get_scaled, d, "IMAGE", inplace)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    out = o.value
    if not inplace:
        vc.ensure("the raw array is not modified",
                  d["IMAGE"] is image and image.tobytes() == before
                  and not isinstance(image, np.ma.MaskedArray))
    vc.ensure("the shape is kept", out.shape == shape)
    mask = np.broadcast_to(np.ma.getmaskarray(out), shape)
    data = np.ma.getdata(out)
    specials = list({**imp, **{k: v for k, v in consts.items()
                               if v is not None}}.values())
    big = 0.99 * np.finfo(dt).max if dt.kind == "f" else None
    for ix in np.ndindex(*shape):
        v = raw[ix]
        b = ix[0] if B > 1 else 0
        if dt.kind == "f":
            with np.errstate(all="ignore"):
                special = not np.isfinite(v) or any(
                    v == dt.type(s) for s in specials)
            v = float(v)
        else:
            v = int(v)
            special = v in specials
        vc.ensure("masked exactly when special", bool(mask[ix]) == special,
                  lambda: f"{v!r} in {specials}: {mask[ix]}")
        if special:
            continue
        want = v * scale[b] + offset[b]
        size = abs(v * scale[b]) + abs(offset[b])
        if big is not None and size > big:
            continue
        vc.ensure("raw * factor + offset", _near(
            float(data[ix]), want, size), lambda: (
            f"{ix} {v!r} * {scale[b]} + {offset[b]} = {data[ix]!r}"))


@contract("C14", "images", ["pdr:read"], bounded="concrete: images of up to "
          "3x3x3 pixels of nine sample types, single factors", secs=14,
          weight=3)
def images(vc):
    check_scaled(vc, TYPES, [1, 1, 2, 3])


@contract("C14", "inplace", ["pdr:read"], bounded="concrete: as images, "
          "scaled in place", secs=6)
def inplace(vc):
    check_scaled(vc, TYPES, [1, 2, 3], True)


# ------------------------------------------------ any array, any pixel: proofs
ALL = ["u1", "i1", "u2", ">i2", "u4", "i4", "u8", "i8", "f4", "f8"]


class Meta:
    """a product with one block"""

    def __init__(self, block):
        self.block = block
        self.identifiers = {k: "" for k in (
            "INSTRUMENT_ID", "SPACECRAFT_NAME", "DATA_SET_ID", "PRODUCT_ID",
            "INSTRUMENT_NAME", "DATA_SET_NAME", "PRODUCT_TYPE", "FILE_NAME",
            "INSTRUMENT_HOST_NAME", "MISSION_NAME", "INSTRUMENT_HOST_ID",
            "NOTE", "SPACECRAFT_ID", "VOLUME_ID")}

    def metablock_(self, name):
        return self.block

    metablock = metablock_


def _pixel(vc, dts, real_limits=True):
    """(array, value of the pixel, dtype)"""
    import numpy as np
    from pyvc import pix
    from pyvc.core import Ctx
    pix.models(Ctx.cur, vc)
    dt = np.dtype(vc.choice("dtype", dts))
    if dt.kind in "iu":
        i = np.iinfo(dt)
        v = vc.int("v", int(i.min), int(i.max))
        lo = vc.int("least", int(i.min), int(i.max))
        hi = vc.int("greatest", int(i.min), int(i.max))
    else:
        v, lo, hi = vc.real("v"), vc.real("least"), vc.real("greatest")
    vc.assume(And(lo <= v, v <= hi))
    return pix.ndarray(dt, v, lo, hi, n=vc.int("count", 1)), v, dt


def _said(vc, name, kinds):
    """(in the block?, value in the label, number meant, its kind)"""
    neutral = 1 if name == "SCALING_FACTOR" else 0
    how = vc.choice(name, kinds)
    if how == "absent":
        return False, None, neutral, "int"
    if how == "N/A":
        return True, (" null " if neutral else "N/A"), neutral, "int"
    if how == "real":
        x = vc.real(name + ".v")
        return True, x, x, "real"
    x = vc.int(name + ".v", -2 ** 70, 2 ** 70)
    return True, ({"value": x, "units": "K"} if how == "units" else x), x, \
        "int"


@contract("C14", "lemma", [S + "fit_to_scale"], weight=1)
def lemma(vc):
    """Multiplying by a number keeps or reverses the order (used by scale)."""
    s, a, b, c = (vc.int(n, -2 ** 70, 2 ** 70) for n in "sabc")
    vc.assume(And(a <= b, b <= c))
    vc.ensure("monotone", Or(And(a * s <= b * s, b * s <= c * s),
                             And(c * s <= b * s, b * s <= a * s)))


PARTS = [S + "scale_array", S + "fit_to_scale", S + "_copy_scale",
         S + "_inplace_scale", S + "overflow_wrap"]


def _scale(vc, dts, inplace, kinds):
    if not vc.symbolic:
        vc.assume(vc.mode == "random" or "L" in vc.values)
        return check_scaled(vc, SMALL, [1], inplace)
    arr, v, dt = _pixel(vc, dts)
    block = {}
    has, said, s, k = _said(vc, "SCALING_FACTOR", kinds)
    if has:
        block["SCALING_FACTOR"] = said
    has, said, t, k2 = _said(vc, "OFFSET", ["absent", "int", "real"])
    if has:
        block["OFFSET"] = said
    if dt.kind in "iu" and k == "int":
        a, c = arr.lo, arr.hi
        vc.assume(Or(And(a * s <= v * s, v * s <= c * s),
                     And(c * s <= v * s, v * s <= a * s)))   # lemma
    o = vc.run(vc.f(S + "scale_array"), Meta(block), arr, "IMAGE", inplace)
    if not o.ok:
        # only when no integer type holds the operands and results
        vc.ensure("no error unless no type holds the values",
                  isinstance(o.exc, TypeError) and dt.kind in "iu"
                  and And(_no_type(arr, s, t)), lambda: repr(o.exc))
        return
    r = o.value
    vc.ensure("value * factor + offset", r.v == v * s + t)
    if not inplace:
        vc.ensure("no in-place operation", arr.touched == [])


@contract("C14", "scale-bytes", PARTS, weight=2, max_paths=20000, random=80)
def scale_bytes(vc):
    """For every array, pixel, factor and offset: the scaled pixel is
    value * factor + offset as integers (no wrap-around) or reals, and scaling
    a copy performs no in-place operation; 8-bit types and floats."""
    _scale(vc, ["u1", "i1", "f4", "f8"], False, ["absent", "int", "real",
                                                 "units", "N/A"])


@contract("C14", "scale-words", PARTS, weight=2, max_paths=20000, random=80)
def scale_words(vc):
    """As scale-bytes; 16- and 32-bit types."""
    _scale(vc, [">i2", "u2", "i4", "u4"], False, ["absent", "int", "real"])


@contract("C14", "scale-longs", PARTS, weight=2, max_paths=20000, random=20)
def scale_longs(vc):
    """As scale-bytes; 64-bit types."""
    _scale(vc, ["u8", "i8"], False, ["int", "real"])


@contract("C14", "scale-inplace", PARTS, weight=2, max_paths=20000,
          random=80)
def scale_inplace(vc):
    """As scale-bytes, in place."""
    _scale(vc, ["u1", "i2", "f4"], True, ["absent", "int", "real"])


def _no_type(arr, s, t):
    """no integer type of numpy holds limits, factor, offset and results"""
    vals = [arr.lo, arr.hi, arr.lo * s, arr.hi * s, arr.lo * s + t,
            arr.hi * s + t, s, t]
    from pyvc.values import SReal
    if isinstance(t, SReal):
        vals = [arr.lo, arr.hi, arr.lo * s, arr.hi * s, s]
    fits = []
    for w in (8, 16, 32, 64):
        fits.append(And(*[And(x >= 0, x < 2 ** w) for x in vals]))
        fits.append(And(*[And(x >= -2 ** (w - 1), x < 2 ** (w - 1))
                          for x in vals]))
    return Not(Or(*fits))


def _const(vc, tag):
    """(value in the label, number meant or None)"""
    how = vc.choice(tag, ["int", "real", "units", "N/A", "text", "pair"])
    if how in ("N/A", "text"):
        return ("N/A" if how == "N/A" else "UNKNOWN"), None
    c = vc.real(tag + ".v") if how == "real" else vc.int(tag + ".v")
    if how == "units":
        return {"value": c, "units": "K"}, c
    if how == "pair":
        return (c, vc.int(tag + ".v2")), c
    return c, c


@contract("C14", "mask", [S + "find_special_constants", S + "mask_specials"],
          weight=3, max_paths=20000, random=150)
def mask(vc):
    """For every sample type, array and pixel, and any two constants declared
    by the label: the pixel is masked exactly when it is not finite or equals
    a declared constant or an implicit one that the label does not redefine,
    at the precision of the array; the array is not touched.  (The implicit
    constants occur elsewhere in the array all or none; see `implicit`.)"""
    if not vc.symbolic:
        vc.assume(vc.mode == "random" or "L" in vc.values)
        return check_scaled(vc, SMALL, [1])
    block, consts = {}, {}
    if vc.flag("declares0"):
        name = vc.choice("name0", ["NULL", "MISSING_CONSTANT"])
        block[name], c = _const(vc, "c0")
        if c is not None:
            consts[name] = c
    if vc.flag("declares1"):
        c = consts["CORE_NULL"] = vc.int("c1.v")
        block["CORE_NULL"] = c
    _mask(vc, block, consts, True)


@contract("C14", "implicit", [S + "find_special_constants",
                              S + "mask_specials"], weight=3,
          max_paths=20000, random=100)
def implicit(vc):
    """As `mask`, for arrays holding any of the implicit constants elsewhere
    and labels that declare none."""
    if not vc.symbolic:
        vc.assume(vc.mode == "random" or "L" in vc.values)
        return check_scaled(vc, SMALL, [1])
    _mask(vc, {"LINES": 3}, {}, False)


def _mask(vc, block, consts, together):
    import numpy as np
    from pyvc.pix import _real, rn24
    from pyvc.values import mkbool
    arr, v, dt = _pixel(vc, ALL)
    if together:
        arr.elsewhere = vc.bool("elsewhere")
    if dt.kind == "f":
        arr.finite = vc.bool("finite")
    o = vc.run(vc.f(S + "find_special_constants"), Meta(block), arr, "IMAGE")
    vc.ensure("constants found", o.ok, lambda: repr(o.exc))
    o = vc.run(vc.f(S + "mask_specials"), arr, list(o.value.values()))
    vc.ensure("masked", o.ok, lambda: repr(o.exc))
    imp = IMPLICIT.get(dt.newbyteorder("=").name, {})
    want = Not(arr.finite)

    def equals(c):
        if dt.kind in "iu":
            return v == c
        e = _real(c)
        return And(arr.finite, mkbool(_real(v) == (
            rn24(e) if dt.itemsize == 4 else e)))
    for c in {**imp, **consts}.values():
        want = Or(want, equals(c))
    r = o.value
    vc.ensure("masked exactly when special", r.masked == want)
    vc.ensure("values and array are left alone", arr.touched == []
              and arr.masked is False and r.v is v)


@contract("C14", "get", ["pdr.pdr:Data.get_scaled",
                         "pdr.pdr:Data.find_special_constants"], random=120)
def get(vc):
    """get_scaled masks with the constants found for this object (looking
    only once) and scales the masked array; FITS-scaled arrays and other
    standards come back unchanged; anything but an array is a TypeError."""
    if not vc.symbolic:
        vc.assume(vc.mode == "random" or "L" in vc.values)
        return check_scaled(vc, SMALL, [1])
    from pyvc.core import Ctx
    cls = vc.f("pdr.pdr:Data")
    d = cls.__new__(cls)
    put = object.__setattr__
    arr, v, dt = _pixel(vc, ["u1", "f4"])
    kind = vc.choice("object", ["array", "array", "table"])
    obj = arr if kind == "array" else {"a": 1}
    standard = vc.choice("standard", ["PDS3", "PDS3", "FITS", "PNG"])
    prescaled = vc.choice("prescaled", [None, True, False])
    known = vc.choice("known", [None, "none", "some"])
    found = vc.choice("found", ["none", "some"])
    inplace = vc.flag("inplace")
    fdt = vc.choice("float_dtype", [None, "f4"])
    for k, x in dict(index=["IMAGE", "OTHER"], IMAGE=obj, standard=standard,
                     _scaleflags={} if prescaled is None else {
                         "IMAGE": prescaled, "OTHER": not prescaled},
                     specials={"OTHER": {"X": 9}}, identifiers=Meta(
                         {}).identifiers, debug=False).items():
        put(d, k, x)
    cs = {"none": {}, "some": {"NULL": 3, "X": 4}}
    if known is not None:
        d.specials["IMAGE"] = cs[known]
    log = []
    masked, scaled = object(), object()
    vc.stub(S + "find_special_constants", lambda data, o, n: log.append(
        ("find", o, n)) or cs[found], "contract mask")
    vc.stub(S + "mask_specials", lambda o, s: log.append(
        ("mask", o, list(s))) or masked, "contract mask")
    vc.stub(S + "scale_array", lambda m, o, n, i=False, f=None: log.append(
        ("scale", m, o, n, i, f)) or scaled, "contract scale")
    o = vc.run(cls.get_scaled, d, "IMAGE", inplace, fdt)
    if kind == "table":
        vc.ensure("not an array", not o.ok and isinstance(o.exc, TypeError))
        return
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    if prescaled is True or standard != "PDS3":
        vc.ensure("already scaled", o.value is arr and log == [])
        return
    use = known or found
    want = [] if known else [("find", arr, "IMAGE")]
    if cs[use]:
        want.append(("mask", arr, [3, 4]))
    want.append(("scale", d, masked if cs[use] else arr, "IMAGE", inplace,
                 fdt))
    vc.ensure("masked with what was found, then scaled", len(log) == len(
        want) and all(len(a) == len(b) and all(
            x is y or (isinstance(x, list) and x == y) or (
                isinstance(x, (str, bool)) and x == y)
            for x, y in zip(a, b)) for a, b in zip(log, want)),
        lambda: f"{log} {want}")
    vc.ensure("the scaled array", o.value is scaled)
    vc.ensure("constants are remembered", d.specials["IMAGE"] == cs[use]
              and d.specials["OTHER"] == {"X": 9})


@contract("C14", "names", ["pdr:read"], bounded="concrete: every constant "
          "keyword of the PDS3 standard and of ISIS, in one image", random=1,
          secs=2)
def names(vc):
    """Every keyword that declares a constant is honoured."""
    import numpy as np
    ks = ["INVALID_CONSTANT", "MISSING_CONSTANT", "INFINITY_CONSTANT",
          "NOT_APPLICABLE_CONSTANT", "NULL_CONSTANT", "UNKNOWN_CONSTANT"]
    for a in ("CORE_", "BAND_SUFFIX_", "SAMPLE_SUFFIX_", "LINE_SUFFIX_", ""):
        ks.append(a + "NULL")
        for b in ("HIGH_", "LOW_"):
            for c in ("INST_", "REPR_"):
                ks += [f"{a}{b}{c}SATURATION", f"{a}{b}{c}SAT"]
    raw = np.arange(1000, 1000 + len(ks) + 5).astype(">i2")
    e2e.write(vc, "F.DAT", raw.tobytes())
    e2e.write(vc, "P.LBL", e2e.pvl([
        ("PDS_VERSION_ID", e2e.Raw("PDS3")), ("^IMAGE", "F.DAT"),
        ("OBJECT IMAGE", [("LINES", 1), ("LINE_SAMPLES", len(raw)),
                          ("SAMPLE_BITS", 16), ("SAMPLE_TYPE", e2e.Raw(
                              "MSB_INTEGER"))] + [
            (k, 1002 + n) for n, k in enumerate(ks)])]) + "END\r\n")
    d = e2e.read(vc, "P.LBL")
    m = np.ma.getmaskarray(d.get_scaled("IMAGE"))[0]
    for n, k in enumerate(ks):
        vc.ensure("masked", bool(m[n + 2]), k)
    vc.ensure("others are not", not m[:2].any() and not m[len(ks) + 2:].any())


# PDS4 special constants that mean "no value here" (valid_minimum and
# valid_maximum bound the valid ones)
SPECIAL4 = ["missing_constant", "saturated_constant", "error_constant",
            "invalid_constant", "unknown_constant", "not_applicable_constant",
            "high_instrument_saturation", "low_representation_saturation"]


def pds4_number(vc, tag, dt, kind):
    if kind == "int":
        return vc.choice(tag, [None, None, 2, 1, 3, 300, -1, -7, 0, 40000])
    if kind == "offset":
        return vc.choice(tag, [None, None, 1, -5, 0, 255, 70000, -32768])
    return vc.choice(tag, [None, 0.5, 2.5, 1.0, 0.0, -0.25, 1e-3, -100.5])


@contract("C14", "pds4", ["pdr:read", S + "scale_pds4_tools_struct",
                          "pdr.pds4_tools.reader.data_types:"
                          "apply_scaling_and_value_offset"],
          bounded="concrete: random PDS4 arrays with scaling factors, offsets "
          "and special constants", random=300, secs=10)
def pds4(vc):
    """The scaled array of a PDS4 product is raw value x factor + offset where
    the raw value is no declared special constant, and is masked where it is;
    asking for it (again) changes neither the raw array nor the answer."""
    import numpy as np
    import warnings
    from .C21 import TYPES, xml, product
    t = vc.choice("type", sorted(k for k in TYPES if "Complex" not in k))
    dt = np.dtype(TYPES[t])
    n = [vc.int("n0", 1, 4), vc.int("n1", 1, 6)]
    rng = __import__("random").Random(vc.choice("seed", range(10 ** 6)))
    kinds = [vc.choice("factor.kind", ["int", "real"]),
             vc.choice("offset.kind", ["offset", "real"])]
    factor = pds4_number(vc, "factor", dt, kinds[0])
    offset = pds4_number(vc, "offset", dt, kinds[1])
    if dt.kind in "iu":
        i = np.iinfo(dt)
        pool = [0, 1, 5, i.max, i.min, i.max - 1, 100, 77, 12]
        consts = [5, 77, 0, i.max, i.min]
        if dt.itemsize == 8:
            pool, consts = [0, 1, 5, 2 ** 40, 77], [5, 77]
    else:
        pool = [0.0, 1.5, -2.25, 5.0, 77.0, -1e10, 3.0]
        consts = [5.0, 77.0, -1e10]
    raw = np.array([rng.choice(pool) for _ in range(n[0] * n[1])], dt)
    declared = {}
    for k in vc.choice("constants", [0, 0, 1, 1, 2]) * ["x"]:
        declared[rng.choice(SPECIAL4)] = rng.choice(consts)
    limits = {}
    if vc.flag("limits"):
        limits = {"valid_minimum": consts[0], "valid_maximum": consts[1]}
    el = xml("Element_Array", data_type=t, scaling_factor=factor,
             value_offset=offset) % ""
    ax = "".join(xml("Axis_Array", axis_name=f"A{i}", elements=d,
                     sequence_number=i + 1) % "" for i, d in enumerate(n))
    sc = xml("Special_Constants", **declared, **limits) % "" if (
        declared or limits) else ""
    at = vc.choice("at", [0, 5])
    e2e.write(vc, "x.dat", bytes(at) + raw.tobytes())
    e2e.write(vc, "x.xml", product(
        "<File_Area_Observational><File><file_name>x.dat</file_name></File>"
        + xml("Array_2D_Image", local_identifier="IM", offset=at, axes=2,
              axis_index_order="Last Index Fastest") % (el + ax + sc)
        + "</File_Area_Observational>"))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        d = e2e.read(vc, "x.xml")
        before = np.array(e2e.load(d, "IM"))
        results = [vc.run(d.get_scaled, "IM") for _ in range(2)]
    raw = raw.reshape(n)
    bad = np.isin(raw, np.array(list(declared.values()), dt))
    f, o = 1 if factor is None else factor, 0 if offset is None else offset
    for which, r in zip(("first", "second"), results):
        vc.ensure("no error", r.ok, lambda: repr(r.exc))
        m = np.ma.getmaskarray(r.value)
        vc.ensure(which + ": exactly the special constants are masked",
                  m.shape == raw.shape and (m == bad).all(),
                  lambda: f"{declared} {raw} {m}")
        v = np.ma.getdata(r.value)
        for got, x, b in zip(v.ravel(), raw.ravel(), bad.ravel()):
            if not b:
                want = x.item() * f + o
                vc.ensure(which + ": raw value x factor + offset",
                          abs(got.item() - want) <= 1e-6 * abs(want) + 1e-12
                          if dt.kind == "f" or isinstance(want, float)
                          else got.item() == want,
                          lambda: f"{x!r} x {f} + {o} is {got!r}")
    vc.ensure("raw array unchanged", before.tobytes() == raw.tobytes() and
              np.asarray(d["IM"]).tobytes() == raw.tobytes(),
              lambda: f"{raw} {d['IM']}")
