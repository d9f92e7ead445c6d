"""Random binary table definitions with an independent reference layout."""
import numpy as np

from . import e2e

COLS = [("MSB_INTEGER", 2, ">i2"), ("LSB_INTEGER", 4, "<i4"),
        ("MSB_UNSIGNED_INTEGER", 1, "u1"), ("LSB_UNSIGNED_INTEGER", 2, "<u2"),
        ("IEEE_REAL", 4, ">f4"), ("PC_REAL", 8, "<f8"),
        ("CHARACTER", 3, "S3"), ("CHARACTER", 1, "S1"),
        ("MSB_UNSIGNED_INTEGER", 8, ">u8"), ("VAX_INTEGER", 2, "<i2")]
MORE = COLS + [("BOOLEAN", 1, "?"), ("EBCDIC_CHARACTER", 4, "V4"),
               ("DATE", 10, "S10"), ("TIME", 5, "S5"), ("INTEGER", 2, ">i2"),
               ("UNSIGNED_INTEGER", 4, ">u4"), ("MAC_REAL", 4, ">f4"),
               ("SUN_REAL", 8, ">f8"), ("PC_INTEGER", 1, "i1"),
               ("LSB_INTEGER", 8, "<i8"), ("SUN_INTEGER", 4, ">i4"),
               ("VOID", 3, "V3"), ("FLOAT", 4, ">f4"), ("REAL", 8, ">f8")]


class Opts:
    gaps = containers = items = offsets = nested = dupes = True
    lead_gap = True


def gen(vc, tag, opt, depth=0, n=None):
    """[(pvl items, layout)] children of one block, and the bytes they span.
    layout: list of (name, offset, dtype) in definition order."""
    pos, kids, parts = 0, [], []
    n = n or vc.count(f"{tag}.n", 1, 4, 4 if depth else 14)
    for k in range(n):
        t = f"{tag}.{k}"
        if opt["gaps"] and (k or opt.get("lead", True)):
            pos += vc.choice(f"{t}.gap", [0, 0, 1, 3])
        kinds = ["col", "col"]
        if opt["items"]:
            kinds += ["items"]
        if opt["containers"] and depth < opt.get("depth", 1):
            kinds += ["cont"]
        kind = vc.choice(f"{t}.kind", kinds)
        name = vc.choice(f"{t}.name", ["X", "Y", "RESERVED"]) if opt["dupes"] and \
            vc.flag(f"{t}.dup") else f"N{depth}_{tag.replace('.', '_')}_{k}"
        if kind == "cont":
            sub, sublay, span = gen(vc, t, opt, depth + 1)
            span += vc.choice(f"{t}.tail", [0, 0, 2]) if opt["gaps"] else 0
            reps = vc.choice(f"{t}.reps", [1, 2, 3])
            b = [("NAME", e2e.Raw(name)), ("START_BYTE", pos + 1),
                 ("BYTES", span)]
            if reps > 1 or vc.flag(f"{t}.sayreps"):
                b.append(("REPETITIONS", reps))
            kids.append(("OBJECT CONTAINER", b + sub))
            parts.append([(m, pos + r * span + o, dt) for r in range(reps)
                          for m, o, dt in sublay])
            pos += reps * span
            continue
        typ, size, dt = vc.choice(f"{t}.type", MORE if opt.get("types")
                                  else COLS)
        b = [("NAME", e2e.Raw(name)), ("DATA_TYPE", e2e.Raw(typ)),
             ("START_BYTE", pos + 1)]
        if kind == "items":
            m = vc.count(f"{t}.items", 1, 3, 13)
            step = size
            b += [("ITEMS", m), ("ITEM_BYTES", size)]
            if opt["offsets"] and vc.flag(f"{t}.off"):
                step = size + vc.choice(f"{t}.step", [0, 1, 2])
                b.append(("ITEM_OFFSET", step))
            total = step * (m - 1) + size
            b.append(("BYTES", total))
            parts.append([(name, pos + i * step, dt) for i in range(m)])
            pos += total
        else:
            b.append(("BYTES", size))
            parts.append([(name, pos, dt)])
            pos += size
        kids.append(("OBJECT COLUMN", b))
    if opt.get("shuffle") and len(kids) > 1 and vc.flag(f"{tag}.shuffle"):
        i = vc.index(f"{tag}.swap", len(kids) - 1)
        kids[i], kids[i + 1] = kids[i + 1], kids[i]
        parts[i], parts[i + 1] = parts[i + 1], parts[i]
    return kids, [x for p in parts for x in p], pos


def table(vc, opt, name="TABLE"):
    kids, lay, span = gen(vc, "c", opt)
    pre = vc.choice("prefix", [0, 0, 2]) if opt.get("sides") else 0
    suf = vc.choice("suffix", [0, 0, 3]) if opt.get("sides") else 0
    row = span + (vc.choice("tail", [0, 0, 1, 4]) if opt["gaps"] else 0)
    rows = vc.count("rows", 1, 5, 300)
    b = [("INTERCHANGE_FORMAT", e2e.Raw("BINARY")), ("ROWS", rows),
         ("COLUMNS", len(kids)), ("ROW_BYTES", row)]
    if pre:
        b.append(("ROW_PREFIX_BYTES", pre))
    if suf:
        b.append(("ROW_SUFFIX_BYTES", suf))
    return b, kids, [(n, o + pre, dt) for n, o, dt in lay], rows, \
        pre + row + suf


def label(ptr, blocks, rec, name="TABLE"):
    return e2e.pvl([("PDS_VERSION_ID", e2e.Raw("PDS3")),
                    ("RECORD_TYPE", e2e.Raw("FIXED_LENGTH")),
                    ("RECORD_BYTES", rec), (f"^{name}", ptr),
                    (f"OBJECT {name}", blocks)]) + "END\r\n"


def column_bytes(data, start, rows, rowlen, off, dt):
    dt = np.dtype(dt)
    if dt.kind == "b":
        return np.array([data[start + r * rowlen + off] != 0
                         for r in range(rows)])
    return np.array([np.frombuffer(data, dt, 1, start + r * rowlen + off)[0]
                     for r in range(rows)])


def same_column(got, want):
    if want.dtype.kind == "V":
        return [x.encode("cp500") if isinstance(x, str) else bytes(x)
                for x in got] == [bytes(x) for x in want]
    got = np.asarray(got)
    if want.dtype.kind == "b":
        return got.dtype == bool and list(got) == list(want)
    if want.dtype.kind == "S":
        return all(bytes(a) == bytes(b) for a, b in zip(got, want)) \
            and len(got) == len(want)
    return e2e.same(got, want)
