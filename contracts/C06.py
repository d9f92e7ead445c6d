"""C06: bit columns are exactly the declared bits of their parent column."""
from pyvc.api import contract, And, Or, Not, Implies

B = "pdr.bit_handling:"
IDS = {"INSTRUMENT_NAME": "CAMERA", "INSTRUMENT_ID": "CAM",
       "SPACECRAFT_NAME": "CRAFT", "DATA_SET_ID": "XX-1", "PRODUCT_ID": "P",
       "DATA_SET_NAME": "", "FILE_NAME": "F", "LABEL_RECORDS": "",
       "RECORD_TYPE": "FIXED_LENGTH", "RECORD_BYTES": 10, "FILE_RECORDS": 3,
       "NOTE": "", "ROW_BYTES": "", "ROWS": "", "BYTES": "",
       "SPACECRAFT_ID": "", "PRODUCT_TYPE": "", "FILE": ""}


def _seq(vc, name, n, lo=0, hi=None):
    """n arbitrary integers >= lo; and a function giving the k-th"""
    if vc.symbolic:
        from pyvc.core import z3
        from pyvc.values import SSeq, SInt, int_expr
        f = z3.Function(name, z3.IntSort(), z3.IntSort())
        k = z3.Int("k!" + name)
        vc.ctx.add(z3.ForAll([k], f(k) >= lo))
        vc.ctx.inputs[name] = ("const", None)
        g = lambda i: SInt(f(int_expr(i)))
        return SSeq(n, g, list, name), g
    xs = [vc.int(f"{name}.{i}", lo, hi if hi is not None else lo + 9)
          for i in range(n)]
    return xs, lambda i: xs[i]


@contract("C06", "split", [B + "split_bits"])
def split(vc):
    """For every bit string and any number of declared runs, run k is exactly
    the declared bits, in declared order."""
    f = vc.f(B + "split_bits")
    bits = vc.str("bits", maxlen=None)
    n = vc.int("n", 0, r=(0, 4))
    starts, s = _seq(vc, "start", n)
    sizes, z = _seq(vc, "size", n, 1)
    o = vc.run(f, bits, starts, sizes)
    vc.ensure("no error", o.ok)
    from pyvc.hooks import m_len
    ln = m_len if vc.symbolic else len
    vc.ensure("one value per declared run", ln(o.value) == n)
    vc.assume(n > 0)
    k = vc.index("k", n)
    got = o.value.getitem(k) if vc.symbolic else o.value[k]
    vc.assume(s(k) + z(k) <= ln(bits))
    vc.ensure("size", ln(got) == z(k))
    j = vc.int("j", 0)
    vc.assume(j < z(k))
    at = (lambda q, i: q.getitem(i)) if vc.symbolic else (lambda q, i: q[i])
    vc.ensure("bit", at(got, j) == at(bits, s(k) + j))


class _Def:
    """A COLUMN definition, reduced to what the function may ask of it."""

    def __init__(self, bit_columns):
        self.b = bit_columns

    def getall(self, k):
        assert k == "BIT_COLUMN"
        return self.b


def _bitcol(vc, t):
    """One BIT_COLUMN definition, and (count, start(i), size)."""
    from multidict import MultiDict
    s = vc.int(t + ".start", 1, r=(1, 40))
    m = MultiDict({"NAME": "B", "BIT_DATA_TYPE": "MSB_UNSIGNED_INTEGER",
                   "START_BIT": s})
    if not vc.flag(t + ".hasitems"):
        w = vc.int(t + ".bits", 1, r=(1, 12))
        m["BITS"] = w
        return m, (1, lambda i: s, w)
    n, w = vc.int(t + ".items", 1, r=(1, 5)), vc.int(t + ".ibits", 1, r=(1, 9))
    m["ITEMS"], m["ITEM_BITS"], step = n, w, w
    if vc.flag(t + ".hasoffset"):
        step = w + vc.int(t + ".over", 0, r=(0, 3))
        m["ITEM_OFFSET"] = step
    return m, (n, lambda i: s + i * step, w)


def _positions(ncols):
    def h(vc):
        f = vc.f(B + "get_bit_start_and_size")
        cols = [_bitcol(vc, f"b{i}") for i in range(ncols)]
        d = _Def([c[0] for c in cols])
        if vc.symbolic:
            from pyvc.hooks import Invariant, SymList, vc_same

            def state(entry, i, seq):
                out = {}
                p = entry["pvl_obj"]
                step = p.get("ITEM_OFFSET", p["ITEM_BITS"])
                for v, g in (("start_bit_list", lambda j: p["START_BIT"]
                              + j * step),
                             ("bit_size_list", lambda j: p["ITEM_BITS"])):
                    e = entry[v]
                    b = SymList()
                    b.extend(e if isinstance(e, list) else
                             SymList(e.n, e.elem))
                    from pyvc.values import SSeq
                    b.extend(SSeq(i, g, list))
                    out[v] = b
                return out
            vc.invariant("get_bit_start_and_size", 1, Invariant(state))
        obj = {"NAME": "C", "DATA_TYPE": "MSB_BIT_STRING"}
        o = vc.run(f, obj, d, IDS)
        vc.ensure("no error", o.ok, lambda: repr(o.exc))
        starts, sizes = o.value["start_bit_list"], o.value["bit_size_list"]
        from pyvc.hooks import m_len
        ln = m_len if vc.symbolic else len
        at = (lambda q, i: q.getitem(i) if hasattr(q, "getitem")
              else q[i]) if vc.symbolic else (lambda q, i: q[i])
        total = 0
        for i, (m, (n, pos, w)) in enumerate(cols):
            k = vc.index(f"k{i}", n)
            for q in (starts, sizes):
                vc.ensure("enough runs", ln(q) >= total + n)
            from pyvc.hooks import getitem
            g = getitem if vc.symbolic else at
            vc.ensure("start bit", g(starts, total + k) == pos(k))
            vc.ensure("size", g(sizes, total + k) == w)
            total = total + n
        vc.ensure("no other runs", And(ln(starts) == total,
                                       ln(sizes) == total))
        vc.ensure("rest of the definition kept", o.value["NAME"] == "C")
    h.__doc__ = (f"With {ncols} BIT_COLUMN definition(s) of any item counts "
                 "and widths, the runs are the declared items in order, each "
                 "at its declared 1-based bit and size")
    return h


contract("C06", "positions-1", [B + "get_bit_start_and_size"])(_positions(1))
contract("C06", "positions-2", [B + "get_bit_start_and_size"],
         bounded="two BIT_COLUMN definitions (any items, widths and "
         "offsets)")(_positions(2))


@contract("C06", "pieces", [B + "factor_to_dtype",
                            B + "convert_byte_column_to_bits"],
          bounded="concrete: byte strings of 1 to 24 bytes, both byte orders, "
          "up to 6 rows", secs=6)
def pieces(vc):
    """Bytes become bits most significant first, whatever their number and
    byte order, row by row."""
    import pandas as pd
    n = vc.int("n", 1, 24)
    order = vc.choice("order", ["<", ">"])
    rows = [vc.bytes(f"r{i}", n) for i in range(vc.int("rows", 1, 6))]
    s = pd.Series(rows)
    o = vc.run(vc.f(B + "convert_byte_column_to_bits"), s, order)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    want = [bin(int.from_bytes(r, "big" if order == ">" else "little"))[2:]
            .zfill(8 * n) for r in rows]
    vc.ensure("bits", list(o.value) == want,
              lambda: f"{rows} {order}: {list(o.value)} want {want}")


@contract("C06", "bit-type", ["pdr.loaders.handlers:add_bit_column_info",
                              B + "set_bit_string_data_type"])
def bit_type(vc):
    """The byte order used for a column's bits is the one its own type
    declares when it is a bit string, else that of its bit columns; columns
    without bit columns are left alone."""
    f = vc.f("pdr.loaders.handlers:add_bit_column_info")
    from multidict import MultiDict
    own = vc.choice("own", ["MSB_BIT_STRING", "LSB_BIT_STRING",
                            "LSB BIT STRING", "MSB_UNSIGNED_INTEGER",
                            "LSB_INTEGER", "UNSIGNED_INTEGER"])
    bt = vc.choice("bt", ["MSB_UNSIGNED_INTEGER", "LSB_UNSIGNED_INTEGER",
                          "MSB_INTEGER", "VAX_INTEGER", "UNSIGNED_INTEGER",
                          "PC_INTEGER"])
    bc, (n, pos, w) = _bitcol(vc, "b")
    vc.assume("ITEMS" not in bc)
    bc["BIT_DATA_TYPE"] = bt
    d = MultiDict({"NAME": "C", "DATA_TYPE": own, "BYTES": 2})
    if vc.flag("has"):
        d.add("BIT_COLUMN", bc)
    obj = dict(d)
    o = vc.run(f, obj, d, IDS)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    r = o.value
    if "BIT_COLUMN" not in d:
        vc.ensure("left alone", "start_bit_list" not in r
                  and r["DATA_TYPE"] == own)
        return
    little = own.startswith("LSB") if "BIT" in own else bt.startswith(
        ("LSB", "VAX", "PC"))
    vc.ensure("byte order", r["DATA_TYPE"] == ("LSB" if little else "MSB")
              + "_BIT_STRING", lambda: r["DATA_TYPE"])
    vc.ensure("positions", And(r["start_bit_list"][0] == pos(0),
                               r["bit_size_list"][0] == w))


@contract("C06", "e2e-bits", [
    "pdr:read", B + "expand_bit_strings", B + "convert_to_full_bit_string",
    B + "splice_bit_string", B + "split_bits", B + "get_bit_start_and_size",
    B + "convert_byte_column_to_bits"],
    bounded="concrete: random tables with up to three bit-string columns "
    "among ordinary ones, up to 6 rows", secs=15)
def e2e_bits(vc):
    """Each bit column of each row, end to end, is the declared run of that
    row's own bytes."""
    from . import e2e, tables
    rows = vc.count("rows", 1, 6, 90)
    ncol = vc.int("ncol", 1, 4)
    pos, kids, want = vc.choice("lead", [0, 0, 1]), [], []
    for c in range(ncol):
        t = f"c{c}"
        nm = vc.choice(t + ".nm", ["X", "Y", f"C{c}"])
        isbits = vc.flag(t + ".bits")
        if not isbits:
            typ, size, dt = vc.choice(t + ".type", tables.COLS)
            kids.append(("OBJECT COLUMN", [
                ("NAME", e2e.Raw(nm)), ("DATA_TYPE", e2e.Raw(typ)),
                ("START_BYTE", pos + 1), ("BYTES", size)]))
            want.append(("col", pos, size, dt))
            pos += size
            continue
        size = vc.int(t + ".size", 1, 9)
        order = vc.choice(t + ".order", ["MSB", "LSB"])
        own = vc.choice(t + ".own", [f"{order}_BIT_STRING",
                                     f"{order}_UNSIGNED_INTEGER"])
        b = [("NAME", e2e.Raw(nm)), ("DATA_TYPE", e2e.Raw(own)),
             ("START_BYTE", pos + 1), ("BYTES", size)]
        runs = []
        for k in range(vc.int(t + ".nb", 1, 3)):
            u = f"{t}.{k}"
            w = vc.int(u + ".w", 1, 8 * size)
            st = vc.int(u + ".s", 1, 8 * size - w + 1)
            bb = [("NAME", e2e.Raw(f"B{k}")), ("START_BIT", st),
                  ("BIT_DATA_TYPE", e2e.Raw(f"{order}_UNSIGNED_INTEGER"))]
            room = (8 * size - st + 1) // w
            if vc.flag(u + ".items"):
                n = min(room, vc.int(u + ".n", 1, 4))
                step = w
                if vc.flag(u + ".off"):
                    step = w + 1
                    n = min(n, (8 * size - st + 1 - w) // step + 1)
                    bb.append(("ITEM_OFFSET", step))
                bb += [("ITEMS", n), ("ITEM_BITS", w), ("BITS", n * w)]
                runs += [(st - 1 + i * step, w) for i in range(n)]
            else:
                bb.append(("BITS", w))
                runs.append((st - 1, w))
            b.append(("OBJECT BIT_COLUMN", bb))
        kids.append(("OBJECT COLUMN", b))
        want.append(("bits", pos, size, order, runs))
        pos += size
    rowlen = pos + vc.choice("tail", [0, 2])
    b = [("INTERCHANGE_FORMAT", e2e.Raw("BINARY")), ("ROWS", rows),
         ("COLUMNS", ncol), ("ROW_BYTES", rowlen)]
    data = vc.bytes("d", rows * rowlen + 3)
    if vc.flag("zero"):
        data = bytes(len(data))
    e2e.write(vc, "t.dat", data)
    lbl = tables.label(("t.dat", 1), b + kids, 10)
    e2e.write(vc, "t.lbl", lbl)
    import warnings

    def go():
        with warnings.catch_warnings():
            warnings.filterwarnings("ignore", message=".*incompatible for bit")
            return e2e.load(e2e.read(vc, "t.lbl"), "TABLE")
    o = vc.run(go)
    vc.ensure("loads", o.ok, lambda: f"{o.exc!r}\n{lbl}")
    t = o.value
    vc.ensure("shape", t.shape == (rows, ncol), lambda: f"{t.shape}\n{lbl}")
    for i, w in enumerate(want):
        got = list(t.iloc[:, i])
        if w[0] == "col":
            exp = tables.column_bytes(data, 0, rows, rowlen, w[1], w[3])
            vc.ensure("other columns", tables.same_column(t.iloc[:, i], exp),
                      lambda: f"{got} want {list(exp)}\n{lbl}")
            continue
        _, off, size, order, runs = w
        exp = []
        for r in range(rows):
            raw = data[r * rowlen + off:r * rowlen + off + size]
            s = bin(int.from_bytes(raw, "big" if order == "MSB" else "little")
                    )[2:].zfill(8 * size)
            exp.append([s[a:a + n] for a, n in runs])
        vc.ensure("declared bits", got == exp,
                  lambda: f"column {i}: {got} want {exp}\n{lbl}")
