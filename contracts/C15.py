"""C15: browse images keep order and stay within display range."""
from pyvc.api import contract, And, Or, Not, Implies
from contracts import e2e

B = "pdr.browsify:"
DTYPES = ["u1", "i1", ">i2", "u2", "i4", ">u4", "i8", "u8", "f4", ">f8"]


def percentile(values, q):
    """linear interpolation between order statistics (exact)"""
    from fractions import Fraction
    v = sorted(Fraction(x) for x in values)
    pos = Fraction(q) / 100 * (len(v) - 1)
    k = int(pos)
    if k + 1 >= len(v):
        return v[-1]
    return v[k] + (v[k + 1] - v[k]) * (pos - k)


def array(vc, shape, dts):
    import numpy as np
    dt = np.dtype(vc.choice("dtype", dts))
    count = int(np.prod(shape))
    style = vc.choice("style", ["small", "small", "spread", "constant",
                                "outlier"])
    seed = vc.int("seed", 0, 10 ** 6)
    rng = np.random.default_rng(seed)
    if dt.kind in "iu":
        i = np.iinfo(dt)
        # browse limits are computed in double precision
        lo, hi = max(int(i.min), -2 ** 52), min(int(i.max), 2 ** 52)
        base = vc.choice("base", [0, lo, hi - 9, 100])
        if style == "small":
            v = base + rng.integers(0, 10, count)
        elif style == "spread":
            v = rng.integers(lo, hi, count, endpoint=True)
        elif style == "constant":
            v = np.full(count, base)
        else:
            v = np.full(count, base)
            v[rng.integers(0, count)] = vc.choice("out", [lo, hi, base + 1])
        v = v.astype(dt)
    else:
        base = vc.choice("base", [0.0, -1e3, 1e-3, 1e6])
        if style == "small":
            v = base + rng.normal(0, 1, count)
        elif style == "spread":
            v = base + rng.normal(0, 1, count) * 10.0 ** rng.integers(
                -5, 9, count)
        else:
            v = np.full(count, base)
            if style == "outlier":
                v[rng.integers(0, count)] = vc.choice("out", [
                    -1e9, base + 1, 1e20])
        v = v.astype(dt)
    v = v.reshape(shape)
    how = vc.choice("mask", ["none", "none", "nomask", "some", "some", "all"])
    if how == "none":
        return v
    if how == "nomask":
        return np.ma.masked_array(v)
    m = np.ones(shape, bool) if how == "all" else rng.random(shape) < 0.4
    if dt.kind == "f" and vc.flag("nonfinite"):
        v[m] = np.resize([np.nan, np.inf, -np.inf], m.sum())
    return np.ma.masked_array(v, mask=m)


def around(q):
    """percentiles of integers are rounded either way, in double precision"""
    from fractions import Fraction
    e = Fraction(1, 2 ** 40) * (1 + abs(q))
    return {q, (q - e) // 1, -(-(q + e) // 1)}


def check_gray(vc, values, mask, gray, clip, eps):
    """`gray` renders `values` (flat lists, valid pixels only) in order."""
    from fractions import Fraction
    v = [x for x, m in zip(values, mask) if not m]
    g = [int(x) for x, m in zip(gray, mask) if not m]
    if not v:
        return
    order = sorted(range(len(v)), key=lambda k: v[k])
    for a, b in zip(order, order[1:]):
        vc.ensure("order is kept", g[a] <= g[b] and (
            v[a] != v[b] or g[a] == g[b]), lambda: (
                f"{v[a]!r} -> {g[a]}, {v[b]!r} -> {g[b]}"))
    low, high = (clip if isinstance(clip, tuple) else (clip, clip)) \
        if clip is not None else (1, 1)
    lo, hi = percentile(v, low), percentile(v, 100 - high)
    blur = max(abs(x) for x in v) * Fraction(float(eps))
    if 0 < hi - lo <= blur:
        return
    whole = eps == 0
    slack = 1 if whole else 0
    # do the limits coincide, perhaps only after rounding?
    same = bool(around(lo) & around(hi)) if whole else hi == lo
    if same and (clip is not None or v[order[0]] == v[order[-1]]):
        return
    vc.ensure("the full range is used", g[order[0]] == 0
              and g[order[-1]] == 255, lambda: f"{v} {g}")
    if same and whole:
        return
    if same:
        lo, hi = percentile(v, 0), percentile(v, 100)
    for x, y in zip(v, g):
        want = []
        for a in (around(lo) if slack else
                  {lo, lo - blur, lo + blur}):
            for b in (around(hi) if slack else
                      {hi, hi - blur, hi + blur}):
                if a < b:
                    c = min(max(x, a), b)
                    want.append(float(255 * (c - a) / (b - a)))
        vc.ensure("linear between the limits", min(want) - 1.01 <= y
                  <= max(want) + 1.01, lambda: f"{x} {y} {want}")


def exact(values):
    from fractions import Fraction
    import math
    return [Fraction(x) if math.isfinite(x) else None for x in (
        int(x) if getattr(x, "dtype", None) is not None and x.dtype.kind in
        "iu" else float(x) for x in values)]


def band_groups(bands, rgb=None, override=False, band_ix=None):
    """which bands each picture shows"""
    if not bands:
        return [(None,)]
    elif rgb is not None:
        return [rgb]
    elif bands in (3, 4) and not override:
        return [(0, 1, 2)]
    elif band_ix == "burst":
        return [(n,) for n in range(bands)]
    elif band_ix is not None and -bands <= band_ix < bands:
        return [(band_ix,)]
    else:
        return [(round(bands / 2),)]


def check_render(vc, dts=DTYPES):
    import numpy as np
    import warnings
    bands = vc.choice("bands", [0, 0, 1, 2, 3, 4, 5])
    H, W = vc.int("H", 1, 4), vc.int("W", 1, 4)
    obj = array(vc, (bands, H, W) if bands else (H, W), dts)
    kw = {}
    clip = vc.choice("clip", [None, None, 0, (0, 0), (0, 10), (25, 0),
                              (5, 5), 10, (2.5, 0.5)])
    if clip is not None or vc.flag("clipnone"):
        kw["image_clip"] = clip
    purge = vc.flag("purge")
    if purge or vc.flag("says"):
        kw["purge"] = purge
    color = vc.choice("color", ["default", (10, 20, 30), (255, 0, 0)])
    if color == "default":
        color = (0, 255, 255)
    else:
        kw["mask_color"] = color
    band_ix = vc.choice("band_ix", [None, None, 0, 1, -1, 4, 9, "burst"])
    override = vc.flag("override")
    rgb = vc.choice("rgb", [None, None, (2, 0, 1), (1, 1, 0)])
    if bands:
        if band_ix is not None:
            kw["band_ix"] = band_ix
        if override:
            kw["override_rgba"] = True
        if rgb is not None and bands > 2:
            kw["rgb_channels"] = rgb
        else:
            rgb = None
    data = np.ma.getdata(obj)
    mask = np.ma.getmaskarray(obj).copy()
    before = data.copy()
    groups = band_groups(bands, rgb, override, band_ix)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o = vc.run(vc.f(B + "_browsify_array"), obj, "", save=False, **kw)
    vc.ensure("rendered", o.ok, lambda: repr(o.exc))
    imgs = list(o.value) if isinstance(o.value, (list, tuple)) else [o.value]
    vc.ensure("one image for each", len(imgs) == len(groups))
    if not purge:
        vc.ensure("the input is unmodified", data.tobytes() == before.tobytes()
                  and (np.ma.getmaskarray(obj) == mask).all()
                  and obj.dtype == before.dtype)
    check_pictures(vc, imgs, groups, before, mask, isinstance(
        obj, np.ma.MaskedArray), color, clip)


def check_pictures(vc, imgs, groups, before, mask, masked, color, clip):
    """Each picture shows its group of bands of the array."""
    import numpy as np
    H, W = before.shape[-2:]
    for img, group in zip(imgs, groups):
        got = np.asarray(img)
        vc.ensure("the type and size of the picture", got.dtype == np.uint8
                  and got.shape[:2] == (H, W), lambda: f"{got.shape}")
        chans = [(before[b], mask[b]) if b is not None else (before, mask)
                 for b in group]
        flat = []
        if len(group) == 1:
            v, m = chans[0]
            if masked:
                vc.ensure("colour picture", got.shape == (H, W, 3))
                vc.ensure("masked pixels in the fill colour",
                          (got[m] == np.array(color, "u1")).all())
                g = got[:, :, 0]
                vc.ensure("others in gray", (got[~m] == g[~m][:, None]).all())
            else:
                vc.ensure("gray picture", got.shape == (H, W))
                g = got
            flat.append((v, m, g))
        else:
            vc.ensure("three channels", got.shape == (H, W, 3))
            for k, (v, m) in enumerate(chans):
                vc.ensure("masked pixels in the fill colour",
                          (got[:, :, k][m] == color[k]).all())
                flat.append((v, m, got[:, :, k]))
        vals = exact([x for v, m, g in flat for x in v.ravel()])
        check_gray(vc, vals, [x for v, m, g in flat for x in m.ravel()],
                   [x for v, m, g in flat for x in g.ravel()], clip,
                   2 * np.finfo(before.dtype).eps if before.dtype.kind == "f"
                   else 0)


@contract("C15", "render", ["pdr.browsify:_browsify_array"], bounded=
          "concrete: images of up to 5 bands of 4x4 pixels, ten sample types, "
          "integers within 52 bits", secs=14, weight=3)
def render(vc):
    check_render(vc)


# ------------------------------------------------ any array, any pixel: proofs
INTS = ["u1", "i2", "i4", ">u4", "i8", "u8"]
FLOATS = ["f4", ">f8"]


def _limits(vc, dt):
    import numpy as np
    if dt.kind in "iu":
        i = np.iinfo(dt)
        lo = vc.int("least", int(i.min), int(i.max))
        hi = vc.int("greatest", int(i.min), int(i.max))
    else:
        lo, hi = vc.real("least"), vc.real("greatest")
    vc.assume(lo <= hi)
    return lo, hi


def _pixel(vc, name, dt, lo, hi, masked):
    """one array seen at one valid pixel"""
    from pyvc import pix
    v = (vc.int if dt.kind in "iu" else vc.real)(name)
    vc.assume(And(lo <= v, v <= hi))
    n = vc.int("count", 1)
    arr = pix.ndarray(dt, v, lo, hi, n=n)
    if masked:
        out = pix.MaskedArray(dt, v, lo, hi, n=n, owner=arr)
        out.mask = pix.PixBool(False) if masked == "some" else False
        return out
    return arr


def _start(vc, dts):
    import numpy as np
    from pyvc import pix
    from pyvc.core import Ctx
    pix.models(Ctx.cur, vc)
    return np.dtype(vc.choice("dtype", dts))


def _real_path(vc, dts=None):
    vc.assume(vc.mode == "random" or "H" in vc.values)
    return check_render(vc, dts or DTYPES)


@contract("C15", "bounds", [B + "find_masked_bounds",
                            B + "find_unmasked_bounds"], weight=2, random=60)
def bounds(vc):
    """For every array and percentages: the limits are the percentiles of the
    valid pixels (the extremes where nothing is clipped), within the least and
    greatest valid value and in order; the array is not modified.  Without
    valid pixels there are no limits."""
    if not vc.symbolic:
        return _real_path(vc)
    from pyvc import pix
    from pyvc.core import Ctx
    from pyvc.values import real_expr, z3
    dt = _start(vc, INTS + FLOATS)
    lo, hi = _limits(vc, dt)
    masked = vc.choice("mask", [None, "some", "none"])
    arr = _pixel(vc, "v", dt, lo, hi, masked)
    arr.pct = pix.Percentiles(lo, hi)
    arr.valid = vc.int("valid", 0)
    if dt.itemsize > 4 and dt.kind != "f":
        vc.assume(And(lo >= -2 ** 52, hi <= 2 ** 52))
    low, high = vc.real("low"), vc.real("high")
    vc.assume(And(low >= 0, high >= 0, low + high <= 100))
    o = vc.run(vc.f(B + ("find_masked_bounds" if masked else
                         "find_unmasked_bounds")), arr, low, high)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    a, b = o.value
    vc.ensure("the array is not modified", arr.touched == [])
    if a is None or b is None:
        vc.ensure("no limits without valid pixels", And(
            a is None and b is None, masked is not None, arr.valid == 0))
        return
    vc.ensure("in order, within the valid values", And(lo <= a, a <= b,
                                                       b <= hi))
    for got, q, end, clipped in ((a, low, lo, low), (b, 100 - high, hi,
                                                     high)):
        p = arr.pct(q)
        vc.ensure("the percentile, or the extreme", Or(
            And(clipped == 0, got == end), And(clipped != 0, got == p)
            if dt.kind == "f" else And(clipped != 0, got - p < 1,
                                       p - got < 1)))


def _stub_bounds(vc, arrs, a, b):
    """contract `bounds`"""
    def model(image, low, high):
        lo, hi = arrs
        if low == 0 and high == 0:
            return lo, hi
        return a, b
    for k in ("find_masked_bounds", "find_unmasked_bounds"):
        vc.stub(B + k, model, "contract bounds")


def _normalize(vc, dts, inplace):
    dt = _start(vc, dts)
    lo, hi = _limits(vc, dt)
    mk = vc.int if dt.kind in "iu" else vc.real
    a, b = mk("low"), mk("high")
    vc.assume(And(lo <= a, a <= b, b <= hi))
    masked = vc.choice("mask", [None, "some"])
    nice = vc.flag("nice_clip")
    _stub_bounds(vc, (lo, hi), a, b)
    out = []
    for name in ("v", "w"):
        arr = _pixel(vc, name, dt, lo, hi, masked)
        v = arr.v
        o = vc.run(vc.f(B + "normalize_range"), arr, (0, 255), (1, 1),
                   inplace, nice)
        vc.ensure("no error", o.ok, lambda: repr(o.exc))
        r = o.value
        vc.ensure("a valid pixel stays valid", And(Not(r.masked), r.finite))
        if not inplace:
            vc.ensure("the input is not modified", arr.touched == [])
        if nice and bool(a == b):
            a, b = lo, hi
        x = r.v
        vc.ensure("within the display range", And(x >= 0, x <= 255))
        if bool(a < b):
            vc.ensure("the low limit is 0", Implies(v <= a, x == 0))
            vc.ensure("the high limit is 255", Implies(v >= b, x == 255))
        out.append((v, x))
    (v, x), (w, y) = out
    vc.ensure("order is kept", Implies(v <= w, x <= y))


@contract("C15", "normalize", [B + "normalize_range"], weight=3, random=60)
def normalize(vc):
    """For every array, limits and two of its valid pixels: rendered values lie
    within 0 and 255, keep the order of the pixels, reach 0 and 255 at the
    limits, stay valid, and the input is not modified."""
    if not vc.symbolic:
        return _real_path(vc)
    _normalize(vc, INTS + FLOATS, False)


@contract("C15", "normalize-inplace", [B + "normalize_range"], weight=3,
          random=60)
def normalize_inplace(vc):
    """As normalize, in place."""
    if not vc.symbolic:
        return _real_path(vc)
    _normalize(vc, ["i2", "i4", ">u4", "i8", "f4"], True)


@contract("C15", "eightbit", [B + "eightbit"], random=40)
def eightbit(vc):
    """Rounding to eight bits keeps order, range and extremes; what is asked of
    the normalization is what was asked for."""
    if not vc.symbolic:
        return _real_path(vc)
    from pyvc import pix
    import numpy as np
    dt = _start(vc, ["f8", "f4", "i4"])
    clip = vc.choice("clip", [0, 10, (1, 1), (0, 5)])
    inplace, nice = vc.flag("inplace"), vc.flag("nice")
    masked = vc.choice("mask", [None, True, False])
    asked, out = [], []
    arr, res = object(), []

    def normal(image, bounds=(0, 1), clip=0, inplace=False, nice_clip=False):
        asked.append((image, bounds, clip, inplace, nice_clip))
        return res[-1]
    vc.stub(B + "normalize_range", normal, "contract normalize")
    for name in ("v", "w"):
        v = (vc.int if dt.kind in "iu" else vc.real)(name)
        vc.assume(And(v >= 0, v <= 255))
        r = pix.ndarray(dt, v, n=1)
        if masked is not None:
            r = pix.MaskedArray(dt, v, n=1, owner=r)
            r.masked = masked
        res.append(r)
        o = vc.run(vc.f(B + "eightbit"), arr, clip, inplace, nice)
        vc.ensure("no error", o.ok, lambda: repr(o.exc))
        e = o.value
        vc.ensure("unsigned bytes", e.dtype == np.uint8)
        vc.ensure("the mask is kept", type(e) is type(r)
                  and e.masked is r.masked)
        x = e.v
        vc.ensure("nearly the same, in range", And(
            x >= 0, x <= 255, x - v < 1, v - x < 1))
        vc.ensure("ends stay", And(Implies(v == 0, x == 0),
                                   Implies(v == 255, x == 255)))
        out.append((v, x))
    (v, x), (w, y) = out
    vc.ensure("order is kept", Implies(v <= w, x <= y))
    vc.ensure("normalized as asked", all(
        q[0] is arr and tuple(q[1]) == (0, 255) and q[2] == clip
        and q[3] is inplace and q[4] is nice for q in asked)
        and len(asked) == 2, lambda: f"{asked}")


def _stack_models(vc):
    """numpy.dstack and numpy.ma.dstack of planes"""
    import numpy as np
    from pyvc.core import Ctx
    from pyvc.values import SymObj

    class Stack(SymObj):
        pytype = np.ndarray

        def __init__(self, planes, masked):
            self.planes, self.masked = list(planes), masked
            if masked:
                self.pytype = np.ma.MaskedArray

        @property
        def shape(self):
            return (20, 30, len(self.planes))

        def getitem(self, k):
            a, b, ix = k
            if a != slice(None) or b != slice(None):
                raise NotImplementedError
            return self.planes[ix]
        __getitem__ = getitem
    Ctx.cur.stubs[np.dstack] = lambda x: Stack(x, False)
    Ctx.cur.stubs[np.ma.dstack] = lambda x: Stack(x, True)
    Ctx.cur.assumed.add("numpy.dstack, numpy.ma.dstack stack planes in order")
    return Stack


@contract("C15", "colorfill", [B + "colorfill_maskedarray"], random=40)
def colorfill(vc):
    """A masked pixel gets the fill colour, others keep their value in every
    channel."""
    if not vc.symbolic:
        return _real_path(vc)
    from pyvc import pix
    import numpy as np
    _start(vc, ["u1"])
    Stack = _stack_models(vc)
    shape = vc.choice("shape", ["2d", "3d", "other"])
    planes = []
    for k in range(1 if shape == "2d" else 3 if shape == "3d" else 2):
        v = vc.int(f"v{k}", 0, 255)
        a = pix.MaskedArray(np.dtype("u1"), v, n=1)
        a.masked = vc.bool(f"m{k}")
        a.dims = (20, 30)
        planes.append((a, v, a.masked))
    obj = planes[0][0] if shape == "2d" else Stack(
        [p[0] for p in planes], True)
    one = vc.flag("one")
    color = vc.int("color", 0, 255) if one else tuple(
        vc.int(f"color{k}", 0, 255) for k in range(3))
    vc.assume(shape == "2d" or not one)
    o = vc.run(vc.f(B + "colorfill_maskedarray"), obj, color)
    if shape == "other":
        vc.ensure("refused", not o.ok and isinstance(o.exc, ValueError))
        return
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    got = [o.value] if one else o.value.planes
    vc.ensure("channels", len(got) == (1 if one else 3))
    for k, g in enumerate(got):
        a, v, m = planes[k if shape == "3d" else 0]
        c = color if one else color[k]
        vc.ensure("masked in the fill colour, others as they are", And(
            Implies(m, g.v == c), Implies(Not(m), g.v == v)))
        vc.ensure("the array is left alone", And(a.v == v, a.masked == m,
                                                 a.touched == []))


def _cube(vc, N, masked):
    import numpy as np
    from pyvc.values import SymObj, is_intlike
    from pyvc.core import Unsupported

    class Band(SymObj):
        pytype = np.ma.MaskedArray if masked else np.ndarray

        def __init__(self, axis, ix):
            self.axis, self.ix = axis, ix

    class Cube(SymObj):
        pytype = np.ma.MaskedArray if masked else np.ndarray

        def __init__(self, sizes, axes=(0, 1, 2)):
            self.sizes, self.axes = sizes, axes

        @property
        def shape(self):
            return tuple(self.sizes[a] for a in self.axes)

        def swapaxes(self, a, b):
            x = list(self.axes)
            x[a], x[b] = x[b], x[a]
            return Cube(self.sizes, tuple(x))

        def getitem(self, k):
            n = self.shape[0]
            if isinstance(k, slice):
                lo, hi = k.start or 0, k.stop
                if not isinstance(lo, int) or not isinstance(hi, int) or \
                        k.step not in (None, 1) or lo < 0 or hi < 0:
                    raise Unsupported("bands")
                return [self.getitem(j) for j in range(lo, hi)
                        if bool(n > j)]
            if not is_intlike(k):
                raise IndexError("only integers")
            if not bool(And(k < n, k >= -n)):
                raise IndexError("out of bounds")
            if not bool(k >= 0):
                k = k + n
            return Band(self.axes, k)
        __getitem__ = getitem
    return Cube(N)


@contract("C15", "bands", [B + "_format_multiband_image", B + "_format_as_rgb",
                           B + "_format_as_single_band"], weight=2, random=60)
def bands(vc):
    """For any number of bands and any request: exactly the bands asked for are
    shown, in the order asked for; a band that does not exist is replaced by
    one that does, never an error."""
    if not vc.symbolic:
        return _real_path(vc)
    _start(vc, ["u1"])
    Stack = _stack_models(vc)
    masked = vc.flag("masked")
    sizes = [vc.int(k, 1) for k in ("B", "L", "W")]
    axis = vc.choice("axis", [0, 0, 1, 2])
    N = sizes[axis]
    cube = _cube(vc, sizes, masked)
    band_ix = vc.choice("band_ix", [None, "burst", "number"])
    if band_ix == "number":
        band_ix = vc.int("ix")
    override = vc.flag("override")
    rgb = vc.choice("rgb", [None, "three"])
    if rgb:
        rgb = tuple(vc.int(f"rgb{k}", 0) for k in range(3))
        vc.assume(And(*[k < N for k in rgb]))
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o = vc.run(vc.f(B + "_format_multiband_image"), cube, band_ix,
                   override, axis, rgb)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    r = o.value
    axes = cube.swapaxes(0, axis).axes

    def is_band(x, ix):
        return And(hasattr(x, "ix") and x.axis == axes, x.ix == ix)
    if rgb or not override and bool(Or(N == 3, N == 4)):
        vc.ensure("a colour picture", isinstance(r, Stack)
                  and r.masked == masked and len(r.planes) == 3)
        for k in range(3):
            vc.ensure("each channel shows its band", is_band(
                r.planes[k], rgb[k] if rgb else k))
    elif isinstance(band_ix, str):
        from pyvc.hooks import m_len
        vc.ensure("all bands", m_len(r) == N)
        k = vc.int("k", 0)
        vc.assume(k < N)
        from pyvc.hooks import getitem
        vc.ensure("each band once, in order", is_band(getitem(r, k), k))
    elif band_ix is not None and bool(And(band_ix < N, band_ix >= -N)):
        vc.ensure("the band asked for", Or(is_band(r, band_ix),
                                           is_band(r, band_ix + N)))
    else:
        vc.ensure("the band in the middle", And(
            hasattr(r, "ix") and r.axis == axes, 2 * r.ix - N <= 1,
            N - 2 * r.ix <= 1))


class Picture:
    def __init__(self):
        self.size, self.saved = (30, 20), []

    def save(self, name):
        self.saved.append(name)

    def thumbnail(self, size):
        self.saved.append(size)


@contract("C15", "picture", [B + "_render_array", B + "_browsify_array",
                             B + "browsify"], weight=2, random=60)
def picture(vc):
    """The picture is made of the array widened if narrow, rendered with the
    clip asked for (falling back only where none was), filled where masked, and
    written under its own name; each band of a burst is rendered on its
    own."""
    if not vc.symbolic:
        return _real_path(vc)
    from pyvc import pix
    from pyvc.core import Ctx
    import numpy as np
    from PIL import Image
    dt = _start(vc, [">i2", "i4", "f4"])
    v = (vc.int("v", 0, 100) if dt.kind in "iu" else vc.real("v"))
    masked = vc.flag("masked")
    kw = {}
    clip = vc.choice("clip", ["default", None, 0, (0, 2)])
    if clip != "default":
        kw["image_clip"] = clip
    color = vc.choice("color", ["default", None, (1, 2, 3)])
    if color != "default":
        kw["mask_color"] = color
    else:
        color = (0, 255, 255)
    purge, save = vc.flag("purge"), vc.flag("save")
    kw["purge"] = purge
    if not save:
        kw["save"] = False
    fmt = vc.choice("format", [None, "png"])
    if fmt:
        kw["image_format"] = fmt
    many = vc.choice("bands", [None, "one", "two"])

    def array(name):
        a = pix.ndarray(dt, v, n=1)
        if masked:
            a = pix.MaskedArray(dt, v, n=1, owner=a)
            a.masked = vc.bool("m")
        a.dims, a.tag = (20, 30), name
        return a
    obj = array("whole") if many is None else array("cube")
    parts = [obj] if many is None else [array(f"band{k}") for k in range(
        1 if many == "one" else 2)]
    log, made = [], []
    if many is not None:
        obj.dims = (7, 20, 30)
        vc.stub(B + "_format_multiband_image", lambda o, *a: parts[0]
                if many == "one" else tuple(parts), "contract bands")

    def eight(a, clip=0, inplace=False, nice_clip=False):
        r = type(a)(np.dtype("u1"), 7, n=1)
        r.masked, r.dims = a.masked, a.dims
        log.append((a, clip, inplace, nice_clip, r))
        return r

    def fill(a, color=(0, 255, 255)):
        r = pix.ndarray(np.dtype("u1"), 8, n=1)
        r.dims, r.filled_from, r.color = (20, 30, 3), a, color
        return r

    def fromarray(a, *args):
        p = Picture()
        p.of = a
        made.append(p)
        return p
    vc.stub(B + "eightbit", eight, "contract eightbit")
    vc.stub(B + "colorfill_maskedarray", fill, "contract colorfill")
    Ctx.cur.stubs[Image.fromarray] = fromarray
    Ctx.cur.assumed.add("PIL.Image.fromarray shows the array; save writes it")
    direct = vc.flag("direct")
    vc.assume(direct or save)
    o = vc.run(vc.f(B + ("_browsify_array" if direct else "browsify")), obj,
               "out/x", **kw)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    vc.ensure("one picture for each", len(log) == len(made) == len(parts))
    for k, (p, (a, c, inplace, nice, r), im) in enumerate(zip(
            parts, log, made)):
        narrow = dt.kind in "iu" and dt.itemsize <= 2
        vc.ensure("the array itself, widened if narrow", (a is p) if not narrow
                  else And(a is not p, a.dtype.kind == "i"
                           and a.dtype.itemsize >= 4, a.v == p.v,
                           a.masked is p.masked, type(a) is type(p)))
        vc.ensure("it is left alone", p.touched == [])
        vc.ensure("clipped as asked", c == ((1, 1) if clip in (
            "default", None) else clip) and nice is (clip in ("default",
                                                              None)))
        vc.ensure("in place only if asked", inplace is purge)
        filled = masked and color is not None
        vc.ensure("filled where masked", (im.of.filled_from is r and
                                          im.of.color == color)
                  if filled else im.of is r)
        name = "out/x" + (f"_{k}" if many == "two" else "") + "." + (
            fmt or "jpg")
        vc.ensure("written under its name, or returned", im.saved == (
            [name] if save else []), lambda: f"{im.saved} {name}")
    if direct and not save:
        vc.ensure("returned", o.value == made if many == "two"
                  else o.value is made[0])
