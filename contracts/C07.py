"""C07: IBM and VAX reals decode to the number they encode."""
from fractions import Fraction

from pyvc.api import contract, And, Or, Not, Implies

N = "pdr.np_utils:"


def _sym_ibm(width, fn):
    def h(vc):
        bits = 8 * width
        f = vc.f(N + fn)
        e = vc.int("bits", 0, 2 ** bits - 1, r=(0, 2 ** bits - 1))
        dt = vc.choice("dt", [f"u{width}"] + ([f"i{width}"] if width == 4
                                               else []))
        if not vc.symbolic:
            import numpy as np
            raw = e.to_bytes(width, "little")
            a = vc.run(f, np.frombuffer(raw, "<" + dt))
            vc.ensure("no error", a.ok, lambda: repr(a.exc))
            vc.ensure("binary64 result", a.value.dtype == np.float64)
            _check_ibm(vc, a.value, [raw[::-1]], 8, "")
            return
        from pyvc.core import z3, Unsupported
        from pyvc.earr import EArr, rounded
        u = e.e
        v = u
        if dt.startswith("i"):
            v = z3.If(u >= 2 ** (bits - 1), u - 2 ** bits, u)
        o = vc.run(f, EArr(dt, v))
        vc.ensure("no error", o.ok, lambda: repr(o.exc))
        r = o.value
        if not isinstance(r, EArr):
            raise Unsupported(f"result {type(r).__name__}")
        vc.ensure("binary64 result", str(r.dtype) == "float64")
        sign = u / 2 ** (bits - 1)
        ex = (u / 2 ** (bits - 8)) % 128
        m = u % 2 ** (bits - 8)
        from pyvc.values import mkbool
        want = z3.If(sign == 1, -rounded(m), rounded(m)) / 2 ** (bits - 8)
        zero = m == 0
        coef = r.e if r.exp is not None else r.e
        exp = r.exp if r.exp is not None else z3.RealVal(0)
        vc.ensure("mantissa and sign", mkbool(coef == want))
        vc.ensure("exponent", mkbool(z3.Or(
            zero, exp == z3.ToReal(ex) - 64)))
    h.__doc__ = (f"Every {width}-byte pattern (elementwise, any array shape) "
                 "decodes to sign x 0.mantissa x 16^(exponent-64), the "
                 "mantissa rounded once into binary64, with no wrap-around.")
    return h


def _ibm_value(raw):
    """Exact value of a big-endian System/360 real."""
    n = int.from_bytes(raw, "big")
    bits = 8 * len(raw)
    s = n >> (bits - 1)
    e = (n >> (bits - 8)) & 127
    m = n & ((1 << (bits - 8)) - 1)
    return (-1) ** s * Fraction(m, 1 << (bits - 8)) * Fraction(16) ** (e - 64)


def _vax_value(raw):
    """Exact value of a VAX F_floating real (None when reserved)."""
    n = (raw[1] << 24) | (raw[0] << 16) | (raw[3] << 8) | raw[2]
    s, e, f = n >> 31, (n >> 23) & 255, n & 0x7fffff
    if e == 0:
        return None if s else Fraction(0)
    return (-1) ** s * Fraction(f | 0x800000, 1 << 24) * \
        Fraction(2) ** (e - 128)


def _ibm_random(vc, n, w):
    import random
    rng = random.Random(vc.int(f"seed{n}.{w}", 0, 10 ** 9))
    style = vc.choice(f"style{n}.{w}", ["mid", "mid", "any", "big", "small",
                                        "edge", "int"])
    out = []
    for _ in range(n):
        m = rng.choice([0, 1, 1 << (8 * w - 9), (1 << (8 * w - 8)) - 1,
                        rng.getrandbits(8 * w - 8), rng.getrandbits(8 * w - 8),
                        rng.getrandbits(8 * w - 8) | 15 << (8 * w - 12)])
        e = {"mid": rng.randint(50, 78), "any": rng.randint(0, 127),
             "big": rng.randint(60, rng.choice([95, 96, 97, 127])),
             "small": rng.randint(rng.choice([0, 25, 28, 31, 33]), 66),
             "edge": rng.choice([0, 1, 27, 28, 31, 32, 64, 96, 97, 127]),
             "int": rng.choice([65, 66, 70])}[style]
        out.append(((rng.getrandbits(1) << 7 | e) << (8 * w - 8) | m)
                   .to_bytes(w, "big"))
    return out


def _vax_random(vc, n, t=""):
    import random
    rng = random.Random(vc.int(f"vseed{n}{t}", 0, 10 ** 9))
    out = []
    for _ in range(n):
        if rng.random() < .15:
            out.append(bytes(4))
            continue
        e = rng.choice([rng.randint(1, 254), rng.randint(100, 150), 1, 2, 254,
                        128, 129])
        f = rng.choice([0, 1, 0x7fffff, rng.getrandbits(23)])
        x = rng.getrandbits(1) << 31 | e << 23 | f
        out.append(bytes([(x >> 16) & 255, x >> 24, x & 255, (x >> 8) & 255]))
    return out


def _nearest(x, want):
    """is the float x the nearest of its own type to the exact `want`?"""
    import numpy as np
    if not np.isfinite(x):
        return False
    t = np.asarray(x).dtype.type
    d = abs(Fraction(float(x)) - want)
    for y in (np.nextafter(t(x), t(np.inf)), np.nextafter(t(x), t(-np.inf))):
        if np.isfinite(y) and abs(Fraction(float(y)) - want) < d:
            return False
    return True


def _check_ibm(vc, got, raws, w, detail):
    """Every decoded value is the declared number, rounded into the result
    type; narrowed columns lose neither range nor magnitude."""
    import numpy as np
    want = [_ibm_value(r) for r in raws]
    vc.ensure("float result", got.dtype.kind == "f" and got.dtype.itemsize in
              ((4, 8) if w == 4 else (8,)), lambda: str(got.dtype))
    fmax = Fraction(float(np.finfo(np.float32).max))
    big = any(abs(x) > fmax for x in want)
    tiny = any(x != 0 and abs(x) < Fraction(1, 2 ** 150) for x in want)
    if big or tiny:
        vc.ensure("not narrowed when a value would be lost",
                  got.dtype.itemsize == 8,
                  lambda: f"{got.dtype} for {list(map(float, want))}\n{detail}")
    for x, y in zip(got, want):
        if y == 0:
            vc.ensure("zero", x == 0, lambda: f"{x!r} for 0\n{detail}")
        else:
            vc.ensure("value", _nearest(x, y) and x != 0,
                      lambda: f"{x!r} for {float(y)!r}\n{detail}")


contract("C07", "ibm32", [N + "ibm_to_np", N + "ibm32_to_np_f32"])(
    _sym_ibm(4, "ibm32_to_np_f32"))
contract("C07", "ibm64", [N + "ibm_to_np", N + "ibm64_to_np_f64"])(
    _sym_ibm(8, "ibm64_to_np_f64"))


@contract("C07", "ibm-arrays", [N + "ibm32_to_np_f32", N + "ibm64_to_np_f64"],
          bounded="concrete: edge and random bit patterns, 1-D and 2-D arrays, "
          "either byte order in memory", secs=5)
def ibm_arrays(vc):
    """Arrays of single or double reals decode element by element."""
    import numpy as np
    w = vc.choice("w", [4, 8])
    n = vc.int("n", 1, 12)
    raws = _ibm_random(vc, n, w)
    a = np.frombuffer(b"".join(raws), f">u{w}")
    if vc.flag("native"):
        a = a.astype(f"=u{w}")
    if vc.flag("2d") and n % 2 == 0:
        a = a.reshape(2, -1)
    f = vc.f(N + ("ibm32_to_np_f32" if w == 4 else "ibm64_to_np_f64"))
    o = vc.run(f, a)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    vc.ensure("shape", o.value.shape == a.shape)
    vc.ensure("binary64", o.value.dtype.itemsize == 8)
    _check_ibm(vc, o.value.ravel(), raws, w, "")


@contract("C07", "tables", [
    "pdr:read", "pdr.pd_utils:convert_ibm_reals",
    "pdr.pd_utils:convert_vax_reals",
    "pdr.loaders.table:_interpret_as_binary"],
    bounded="concrete: random tables of up to four columns of IBM singles and "
    "doubles, VAX singles and ordinary types, with and without items, up to "
    "8 rows", secs=16)
def tables_(vc):
    """IBM and VAX columns of a binary table decode to their values, whatever
    the columns around them, and those columns are unaffected."""
    import numpy as np
    from . import e2e, tables
    rows, ncol = vc.int("rows", 1, 8), vc.int("ncol", 1, 4)
    pos, kids, want, cells = 0, [], [], {}
    for c in range(ncol):
        t = f"c{c}"
        kind = vc.choice(t + ".kind", ["ibm4", "ibm4", "ibm8", "vax", "other"])
        if kind == "other":
            typ, size, dt = vc.choice(t + ".type", tables.COLS)
        else:
            typ = "VAX_REAL" if kind == "vax" else "IBM_REAL"
            size = 8 if kind == "ibm8" else 4
        b = [("NAME", e2e.Raw(vc.choice(t + ".nm", ["X", f"C{c}"]))),
             ("DATA_TYPE", e2e.Raw(typ)), ("START_BYTE", pos + 1)]
        items = vc.choice(t + ".items", [1, 1, 2, 3])
        if items > 1:
            b += [("ITEMS", items), ("ITEM_BYTES", size)]
        b.append(("BYTES", size * items))
        kids.append(("OBJECT COLUMN", b))
        for i in range(items):
            if kind == "other":
                want.append(("other", pos, dt))
            else:
                vals = _vax_random(vc, rows, f"{t}.{i}") if kind == "vax" \
                    else _ibm_random(vc, rows, size)
                for r in range(rows):
                    cells[(r, pos)] = vals[r]
                want.append((kind, pos, vals))
            pos += size
    rowlen = pos
    data = bytearray(vc.bytes("d", rows * rowlen))
    for (r, p), v in cells.items():
        data[r * rowlen + p:r * rowlen + p + len(v)] = v
    data = bytes(data)
    e2e.write(vc, "t.dat", data)
    lbl = tables.label(("t.dat", 1), [
        ("INTERCHANGE_FORMAT", e2e.Raw("BINARY")), ("ROWS", rows),
        ("COLUMNS", ncol), ("ROW_BYTES", rowlen)] + kids, 10)
    e2e.write(vc, "t.lbl", lbl)
    o = vc.run(lambda: e2e.load(e2e.read(vc, "t.lbl"), "TABLE"))
    vc.ensure("loads", o.ok, lambda: f"{o.exc!r}\n{lbl}")
    t = o.value
    vc.ensure("shape", t.shape == (rows, len(want)), lambda: f"{t.shape}")
    for i, (kind, p, x) in enumerate(want):
        got = t.iloc[:, i]
        if kind == "other":
            exp = tables.column_bytes(data, 0, rows, rowlen, p, x)
            vc.ensure("other columns", tables.same_column(got, exp),
                      lambda: f"{list(got)} want {list(exp)}\n{lbl}")
            continue
        g = np.asarray(got)
        vc.ensure("floating point", g.dtype.kind == "f", lambda: f"column {i} "
                  f"has dtype {g.dtype}\n{lbl}")
        if kind == "vax":
            for a, raw in zip(g, x):
                v = _vax_value(raw)
                vc.ensure("VAX value", _nearest(a, v) and (v or a == 0),
                          lambda: f"{a!r} for {float(v)!r} {raw.hex()}\n{lbl}")
        else:
            _check_ibm(vc, g, x, 8 if kind == "ibm8" else 4, lbl)


@contract("C07", "images", [
    "pdr:read", "pdr.loaders.image:convert_if_vax",
    "pdr.loaders.image:process_single_band_image",
    "pdr.loaders.image:process_multiband_image"],
    bounded="concrete: VAX images and qubes of up to 4x4x3", secs=6)
def images(vc):
    """VAX images and qubes decode pixel by pixel."""
    import numpy as np
    from . import e2e
    L, S = vc.int("L", 1, 4), vc.int("S", 1, 4)
    B = vc.choice("B", [1, 2, 3])
    kind = vc.choice("kind", ["IMAGE", "QUBE"])
    vals = _vax_random(vc, L * S * B)
    if kind == "IMAGE":
        items = [("LINES", L), ("LINE_SAMPLES", S), ("SAMPLE_TYPE", e2e.Raw(
            "VAX_REAL")), ("SAMPLE_BITS", 32), ("BANDS", B),
            ("BAND_STORAGE_TYPE", "BAND_SEQUENTIAL")]
    else:
        items = [("AXES", 3), ("AXIS_NAME", tuple(map(e2e.Raw, (
            "SAMPLE", "LINE", "BAND")))), ("CORE_ITEMS", (S, L, B)),
            ("CORE_ITEM_BYTES", 4), ("CORE_ITEM_TYPE", e2e.Raw("VAX_REAL"))]
    e2e.write(vc, "i.dat", b"".join(vals))
    lbl = e2e.pvl([("PDS_VERSION_ID", e2e.Raw("PDS3")),
                   ("RECORD_TYPE", e2e.Raw("FIXED_LENGTH")),
                   ("RECORD_BYTES", 4), (f"^{kind}", ("i.dat", 1)),
                   (f"OBJECT {kind}", items)]) + "END\r\n"
    e2e.write(vc, "i.lbl", lbl)
    o = vc.run(lambda: e2e.load(e2e.read(vc, "i.lbl"), kind))
    vc.ensure("loads", o.ok, lambda: f"{o.exc!r}\n{lbl}")
    a = np.asarray(o.value)
    vc.ensure("shape", a.shape == ((L, S) if B == 1 else (B, L, S)))
    vc.ensure("floating point", a.dtype.kind == "f", lambda: str(a.dtype))
    for x, raw in zip(a.ravel(), vals):
        v = _vax_value(raw)
        vc.ensure("VAX value", _nearest(x, v) and (v or x == 0),
                  lambda: f"{x!r} for {float(v)!r} {raw.hex()}\n{lbl}")


def _fixed(kind, typ, raw, want):
    def h(vc):
        import numpy as np
        from . import e2e, tables
        pre = [("PDS_VERSION_ID", e2e.Raw("PDS3")),
               ("RECORD_TYPE", e2e.Raw("FIXED_LENGTH")), ("RECORD_BYTES", 4),
               (f"^{kind}", ("d.dat", 1))]
        b = {"TABLE": [("INTERCHANGE_FORMAT", e2e.Raw("BINARY")), ("ROWS", 2),
                       ("COLUMNS", 1), ("ROW_BYTES", 4), ("OBJECT COLUMN", [
                           ("NAME", e2e.Raw("X")), ("DATA_TYPE", e2e.Raw(typ)),
                           ("START_BYTE", 1), ("BYTES", 4)])],
             "IMAGE": [("LINES", 1), ("LINE_SAMPLES", 2), ("SAMPLE_TYPE",
                       e2e.Raw(typ)), ("SAMPLE_BITS", 32)],
             "ARRAY": [("NAME", e2e.Raw("A")), ("INTERCHANGE_FORMAT",
                       e2e.Raw("BINARY")), ("AXES", 1), ("AXIS_ITEMS", 2),
                       ("OBJECT ELEMENT", [
                           ("NAME", e2e.Raw("E")), ("DATA_TYPE", e2e.Raw(typ)),
                           ("BYTES", 4)])]}[kind]
        e2e.write(vc, "d.dat", raw)
        e2e.write(vc, "d.lbl", e2e.pvl(pre + [(f"OBJECT {kind}", b)])
                  + "END\r\n")
        o = vc.run(lambda: e2e.load(e2e.read(vc, "d.lbl"), kind))
        vc.ensure("loads", o.ok, lambda: repr(o.exc))
        v = o.value
        got = list(np.asarray(v["X"] if kind == "TABLE" else v["E"]
                              if kind == "ARRAY" else v).ravel())
        vc.ensure("decoded", got == want, lambda: f"{got} want {want}")
    h.__doc__ = f"The two {typ} values {want} of a {kind} decode."
    return h


for _name, _kind, _typ, _raw, _want in (
        ("ibm-image", "IMAGE", "IBM_REAL", "42640000c1100000", [100.0, -1.0]),
        ("ibm-array", "ARRAY", "IBM_REAL", "42640000c1100000", [100.0, -1.0]),
        ("vax-array", "ARRAY", "VAX_REAL", "804000004041cdcc", None),
        ("vax-top-exponent", "TABLE", "VAX_REAL", "80ff000080400000", None),
        ("vax-dirty-zero", "TABLE", "VAX_REAL", "0100000080400000", None)):
    _r = bytes.fromhex(_raw)
    contract("C07", _name, ["pdr:read"], bounded="concrete: one fixed product",
             secs=2)(_fixed(_kind, _typ, _r, _want or [
                 float(_vax_value(_r[:4])), float(_vax_value(_r[4:]))]))
