"""C21: PDS4 arrays, tables and headers hold what their labels declare."""
import itertools
import os
import warnings

from pyvc.api import contract, And, Or, Not, Implies
from contracts.C17 import product
from contracts.C22 import patched, restore

RT = "pdr.pds4_tools.reader.read_tables:"
RA = "pdr.pds4_tools.reader.read_arrays:"
RH = "pdr.pds4_tools.reader.read_headers:"
CO = "pdr.pds4_tools.reader.core:"
TO = "pdr.pds4_tools.reader.table_objects:"
DT = "pdr.pds4_tools.reader.data_types:"
E2E = ["pdr:read", RT + "read_table_data", RT + "new_table",
       "pdr.pd_utils:structured_array_to_df"]


# ------------------------------------------------- positions in fixed records
class Piece:
    """bytes [a, b) of the table"""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def vc_same(self, o):
        return And(self.a == o.a, self.b == o.b)

    def __repr__(self):
        return f"bytes {self.a}:{self.b}"


class Bytes:
    """stands for the bytes of a table: says which are taken"""

    def __getitem__(self, s):
        assert isinstance(s, slice) and s.step in (None, 1)
        return Piece(s.start, s.stop)

    getitem = __getitem__


def table_bytes(vc):
    if not vc.symbolic:
        return Bytes()
    from pyvc.values import SymObj
    return type("Bytes", (Bytes, SymObj), {"pytype": bytes})()


SHAPES = [(), (1,), (2,), (3,), (2, 3), (3, 1), (1, 2), (2, 2, 2)]


@contract("C21", "fixed-fields", [RT + "_extract_fixed_width_field_data"],
          bounded="symbolic: any number of records, any positions and "
          "widths; up to three nested groups of up to three repetitions",
          secs=4, weight=2)
def fixed_fields(vc):
    """Element (record; repetitions) of a field is the bytes at record *
    record length + each group's location and its repetition's share of the
    group's length + the field's location, as many as the field's width; the
    elements come in order of record, then of repetitions, last fastest."""
    f = vc.f(RT + "_extract_fixed_width_field_data")
    dims = vc.choice("shape", SHAPES)
    R = vc.int("records", 0, r=(0, 5))
    w, loc = vc.int("length", 1, r=(1, 9)), vc.int("location", 0, r=(0, 9))
    rec = vc.int("record", 1, r=(1, 200))
    glocs = [vc.int(f"g{i}", 0, pool=[0], r=(0, 9))
             for i in range(len(dims))]
    reps = [vc.int(f"l{i}", 1, pool=[2, 3, 4, 6], r=(1, 40))
            for i in range(len(dims))]
    N = 1
    for d in dims:
        N *= d
    strides = []
    n = N
    for d in dims:
        n //= d
        strides.append(n)

    def piece(k):
        a = (k // N) * rec + loc
        e = k % N
        for g, rl, d, s in zip(glocs, reps, dims, strides):
            a = a + g + rl * ((e // s) % d)
        return Piece(a, a + w)
    args = (w, loc, rec, (R,) + dims, list(glocs), list(reps))
    if not vc.symbolic:
        out = []
        o = vc.run(f, out, table_bytes(vc), *args)
        vc.ensure("no error", o.ok, lambda: repr(o.exc))
        want = [piece(k) for k in range(R * N)]
        vc.ensure("every element of the field, in order",
                  [(p.a, p.b) for p in out] == [(p.a, p.b) for p in want])
        return
    from pyvc.hooks import Invariant, SymList
    from pyvc.values import SSeq

    def first(n):
        s = SymList()
        s.extend(SSeq(n, piece, list))
        return s

    class Inv(Invariant):
        def enter(self, frame, new):
            box[0] = new["extracted_data"]
            super().enter(frame, new)
    box = [SymList()]
    each = Inv(lambda entry, i, seq: {"extracted_data": first(i * N)})
    q = "_extract_fixed_width_field_data"
    vc.invariant(q, 0, each)
    vc.invariant(q, 2, each)
    vc.invariant(q, 4, Inv(lambda entry, i, seq:
                           {"extracted_data": first(i)}))

    def positions(*ranges):
        if not ranges or not isinstance(ranges[0], SSeq):
            return itertools.product(*ranges)
        ds = [len(r) for r in ranges[1:]]
        m = 1
        for d in ds:
            m *= d

        def at(k):
            e, out, s = k % m, [ranges[0].elem(k // m)], m
            for r, d in zip(ranges[1:], ds):
                s //= d
                out.append((e // s) % d + r.start)
            return tuple(out)
        return SSeq(ranges[0].n * m, at, list)
    vc.ctx.stubs[itertools.product] = positions
    o = vc.run(f, box[0], table_bytes(vc), *args)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    got = box[0]
    vc.ensure("as many elements as the field has", got.length() == R * N)
    k = vc.index("k", R * N)
    vc.ensure("every element of the field, in order",
              got.getitem(k).vc_same(piece(k)))


# ----------------------------------------------------------- bytes of objects
class Holder:
    def __init__(self, meta, name):
        self.meta_data, self.parent_filename, self.type = meta, name, "x"


def data_file(vc, size):
    """(name, its bytes or None, SymFile or None)"""
    if not vc.symbolic:
        data = bytes(i * 37 % 251 for i in range(size))
        p = os.path.join(vc.tmp(), "x.dat")
        with open(p, "wb") as g:
            g.write(data)
        return p, data, None
    import builtins
    import io
    from pyvc.nparr import SymFile
    src = SymFile(size, "plain", "content")
    opened = []

    def opening(n, mode="r", *a, **k):
        assert n == "x.dat" and "b" in mode and "w" not in mode
        opened.append(n)
        assert len(opened) == 1
        return src
    for o in (builtins.open, io.open):
        vc.ctx.stubs[o] = opening
    return "x.dat", None, src


@contract("C21", "table-bytes", [RT + "_read_table_byte_data",
                                 CO + "read_byte_data"], secs=2)
def table_window(vc):
    """The bytes of a fixed-width table are exactly its records' from its
    offset on; those of a delimited table start at its offset and include its
    declared extent (everything to the end of the file if it declares none)."""
    f = vc.f(RT + "_read_table_byte_data")
    Meta = vc.f(TO + "Meta_TableStructure")
    size = vc.int("size", 0, 900)
    at, n = vc.int("offset", 0, 400), vc.int("records", 1, r=(1, 30))
    reclen = vc.int("record_length", 1, r=(1, 40))
    kind = vc.choice("kind", ["Binary", "Character", "Delimited"])
    m = Meta()
    m["offset"], m["records"], m.type = at, n, kind
    if kind != "Delimited":
        m.record, length = {"record_length": reclen}, n * reclen
    elif vc.flag("object_length"):
        length = m["object_length"] = vc.int("olen", 1, r=(1, 900))
        m.record = {"maximum_record_length": reclen} if vc.flag("also") else {}
    elif vc.flag("maximum"):
        m.record, length = {"maximum_record_length": reclen}, n * reclen
    else:
        m.record, length = {}, None
    name, data, src = data_file(vc, size)
    o = vc.run(f, Holder(m, name))
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    if src is None:
        want = data[at:] if length is None else data[at:at + length]
        vc.ensure("its declared bytes", o.value == want)
        return
    b, left = o.value, size - at
    vc.ensure("bytes of the file", b.src is src)
    vc.ensure("from its offset", Or(b.n == 0, b.off == at))
    short = True if length is None else left <= length
    vc.ensure("its declared bytes", And(
        Implies(left <= 0, b.n == 0),
        Implies(And(left > 0, short), b.n == left),
        Implies(And(left > 0, Not(short)), b.n == length)))


@contract("C21", "header-bytes", [RH + "_read_header_byte_data",
                                  CO + "read_byte_data"], secs=2)
def header_window(vc):
    """A header is the declared number of bytes from its offset on."""
    f = vc.f(RH + "_read_header_byte_data")
    size, at = vc.int("size", 0, 900), vc.int("offset", 0, 400)
    n = vc.int("length", 1, r=(1, 900))
    name, data, src = data_file(vc, size)
    o = vc.run(f, Holder({"offset": at, "object_length": n}, name))
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    if src is None:
        vc.ensure("its declared bytes", o.value == data[at:at + n])
        return
    b, left = o.value, size - at
    vc.ensure("from its offset", And(b.src is src, Or(b.n == 0, b.off == at)))
    vc.ensure("its declared bytes", And(
        Implies(left <= 0, b.n == 0),
        Implies(And(left > 0, left <= n), b.n == left),
        Implies(left > n, b.n == n)))


TYPES = {"SignedMSB2": ">i2", "UnsignedLSB4": "<u4", "SignedByte": "i1",
         "UnsignedByte": "u1", "IEEE754MSBSingle": ">f4",
         "IEEE754LSBDouble": "<f8", "SignedLSB8": "<i8",
         "UnsignedMSB8": ">u8", "SignedMSB4": ">i4", "UnsignedLSB2": "<u2",
         "IEEE754LSBSingle": "<f4", "IEEE754MSBDouble": ">f8",
         "UnsignedMSB2": ">u2", "SignedLSB2": "<i2", "SignedLSB4": "<i4",
         "UnsignedMSB4": ">u4", "SignedMSB8": ">i8", "UnsignedLSB8": "<u8",
         "ComplexLSB8": "<c8", "ComplexMSB16": ">c16"}


@contract("C21", "array-bytes", [RA + "_read_array_byte_data",
                                 "pdr.pds4_tools.reader.array_objects:"
                                 "Meta_ArrayStructure.get_axis_arrays"],
          secs=3, bounded="symbolic: arrays of up to three axes of any lengths")
def array_window(vc):
    """The bytes of an array are, from its offset on, as many as its elements
    (the product of its axes) and their type take."""
    f = vc.f(RA + "_read_array_byte_data")
    Meta = vc.f("pdr.pds4_tools.reader.array_objects:Meta_ArrayStructure")
    axes = [vc.int(f"axis{i}", 1, r=(1, 7))
            for i in range(vc.choice("axes", [1, 2, 3]))]
    t = vc.choice("type", ["UnsignedByte", "SignedMSB2", "IEEE754LSBSingle",
                           "IEEE754MSBDouble", "ComplexMSB16"])
    import numpy as np
    w = np.dtype(TYPES[t]).itemsize
    size, at = vc.int("size", 0, 6000), vc.int("offset", 0, 400)
    m = Meta()
    m["offset"], m["Element_Array"] = at, {"data_type": t}
    ax = [{"axis_name": f"a{i}", "elements": n, "sequence_number": i + 1}
          for i, n in enumerate(axes)]
    m["Axis_Array"] = ax[0] if len(ax) == 1 else \
        [ax[i] for i in vc.choice("order", list(itertools.permutations(
            range(len(ax)))))]
    name, data, src = data_file(vc, size)
    o = vc.run(f, Holder(m, name), as_string=False)
    d = vc.run(m.dimensions)
    vc.ensure("dimensions in order of the axes' numbers",
              d.ok and And(*[a == b for a, b in zip(d.value, axes)]) and
              len(d.value) == len(axes))
    total = w
    for n in axes:
        total = total * n
    if src is None:
        vc.ensure("no error", o.ok, lambda: repr(o.exc))
        vc.ensure("its declared bytes", bytes(o.value) == data[at:at + total])
        return
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    a, left = o.value, size - at
    vc.ensure("as many bytes", And(len(a.shape) == 1, np.dtype(
        a.dtype).itemsize == 1, Implies(left >= total, a.shape[0] == total)))
    k = vc.index("k", a.shape[0])
    el = a.getitem(k)
    vc.ensure("its declared bytes", And(el.src is src, el.off == at + k))


# ------------------------------------------------ columns of delimited tables
F = None                # a field; a list is a group of what it holds
TREES = [[F], [F, F], [[F]], [F, [F], F], [[F, F]], [[F, F], F, [F]],
         [F, [F, [F, F], F], F], [[[F]]], [[[F], F], [[F]]],
         [[F, F, [F]], [F, [F], [F, F]], F], [[[[F]]]],
         [F, [[F, [F], F]], F]]


def manifest_of(vc, tree):
    """(the manifest's items, [(index of a field, path to it)])"""
    Field = vc.f(TO + "Meta_Field")
    Group = vc.f(TO + "Meta_Group")
    items, fields, reps = [], [], {}

    def add(nodes, level, path):
        for i, node in enumerate(nodes):
            here = path + (i,)
            x = Field() if node is F else Group()
            x["name"] = f"n{len(items)}"
            x.group_level = level
            items.append(x)
            if node is F:
                fields.append((len(items) - 1, here))
            else:
                t = "r" + "".join(map(str, here))
                x["repetitions"] = reps[here] = vc.int(t, 1, r=(1, 4))
                add(node, level + 1, here)
    add(tree, 0, ())
    return items, fields, reps


def width(tree, path, reps):
    if tree is F:
        return 1
    n = 0
    for i, node in enumerate(tree):
        n = n + width(node, path + (i,), reps)
    return n * reps[path] if path in reps else n


def column(tree, path, at, reps):
    """column of the field at path, its groups at the repetitions `at`"""
    col, here = 0, ()
    at = list(at)
    for i in path:
        for j in range(i):
            col = col + width(tree[j], here + (j,), reps)
        tree, here = tree[i], here + (i,)
        if here in reps:
            one = 0
            for j, node in enumerate(tree):
                one = one + width(node, here + (j,), reps)
            col = col + at.pop(0) * one
    return col


@contract("C21", "columns-of-groups",
          [TO + "TableManifest.get_field_offset",
           TO + "TableManifest.get_field_skip_factors",
           TO + "TableManifest.get_parents_by_idx",
           TO + "TableManifest.get_children_by_idx"],
          bounded="symbolic: any numbers of repetitions, twelve structures of "
          "fields and groups nested up to four deep", secs=6, weight=2)
def columns_of_groups(vc):
    """In a record cut at its delimiters, the value of a field at given
    repetitions of its groups is found after all values of what the label
    lists before it: the offset of the field, plus its repetition's number
    counted in the field itself, plus the skips of each group."""
    Manifest = vc.f(TO + "TableManifest")
    tree = vc.choice("tree", TREES)
    items, fields, reps = manifest_of(vc, tree)
    m = Manifest(items)
    if vc.symbolic:     # items are compared by identity
        from collections.abc import Sequence
        vc.ctx.stubs[Sequence.index] = Sequence.index
    idx, path = vc.choice("field", fields)
    groups = [path[:k] for k in range(1, len(path))]
    at = [vc.index(f"p{i}", reps[g]) for i, g in enumerate(groups)]
    o = vc.run(m.get_field_offset, idx)
    s = vc.run(m.get_field_skip_factors, idx)
    ps = vc.run(m.get_parents_by_idx, idx)
    vc.ensure("no error", o.ok and s.ok and ps.ok, lambda: f"{o!r} {s!r}")
    vc.ensure("groups of the field, innermost first", len(ps.value) ==
              len(groups) and all(a is items[index_of(tree, g)]
                                  for a, g in zip(ps.value, groups[::-1])))
    vc.ensure("one skip per group", len(s.value) == len(groups))
    e = 0
    for g, p in zip(groups, at):
        e = e * reps[g] + p
    got = o.value + e
    for k, p in zip(s.value, at):
        got = got + k * p
    vc.ensure("its column", got == column(tree, path, at, reps))


def index_of(tree, path):
    """index in the manifest of the item at path"""
    n = [-1]

    def walk(nodes, here):
        for i, node in enumerate(nodes):
            n[0] += 1
            if here + (i,) == path:
                return n[0]
            if node is not F:
                r = walk(node, here + (i,))
                if r is not None:
                    return r
    return walk(tree, ())


# ------------------------------------------------------------------ products
def xml(tag, **k):
    return f"<{tag}>" + "".join(
        f"<{a}{u}>{v}</{a}>" for a, v in k.items() if v is not None
        for u in [' unit="byte"' if a in (
            "offset", "field_location", "field_length", "group_location",
            "group_length", "record_length", "object_length",
            "maximum_record_length") else ""]) + "%s" + f"</{tag}>"


def random_tree(vc, t, depth=0):
    """nodes: ('field', name) or ('group', name or None, reps, nodes)"""
    out = []
    for i in range(vc.count(t + ".n", 1, 4 if depth == 0 else 2,
                            2 if depth else 14)):
        u = f"{t}.{i}"
        name = vc.choice(u + ".name", ["x", "y", "flux", "a b", "x_0"])
        if depth < 2 and vc.choice(u + ".g", [0, 0, 1]):
            out.append(("group", vc.choice(u + ".gn", [None, None, "obs"]),
                        vc.choice(u + ".reps", [1, 2, 2, 3] if depth else
                                  [1, 2, 3, 4]),
                        random_tree(vc, u, depth + 1)))
        else:
            out.append(("field", name))
    return out


def leaves(nodes, reps=()):
    for node in nodes:
        if node[0] == "field":
            yield node, reps
        else:
            yield from leaves(node[3], reps + (node[2],))


ASCII = ["ASCII_Integer", "ASCII_Real", "ASCII_String",
         "ASCII_NonNegative_Integer", "ASCII_Boolean", "ASCII_Numeric_Base16",
         "ASCII_Numeric_Base2", "ASCII_Numeric_Base8", "ASCII_Date_YMD",
         "ASCII_Time", "UTF8_String"]
TEXTS = ["ASCII_String", "ASCII_Date_YMD", "ASCII_Time", "UTF8_String"]


def text_of(vc, t, typ, width=None):
    """(text in the file, value meant) of a value of an ASCII type"""
    rng = vc.choice(t, range(10 ** 6))
    r = __import__("random").Random(rng)
    if typ == "ASCII_Real":
        v = r.choice(["1.5", "-2.25e3", "0.1", "7", "1e-10", "-0.0", "3.",
                      ".5", "12345.678"])
        return v, float(v)
    if typ == "ASCII_Boolean":
        v = r.choice(["true", "false", "1", "0"])
        return v, v in ("true", "1")
    if typ == "ASCII_String":
        v = r.choice(["Mars", "a b", "X", "n/a", "007", "e5", "12:30", "NaN"])
        return v, v
    if typ in TEXTS:
        v = r.choice({"ASCII_Date_YMD": ["2001-02-03", "1999", "2020-12"],
                      "ASCII_Time": ["12:34:56", "00:00:00Z", "23:59"],
                      "UTF8_String": ["\u00b5m", "caf\u00e9", "plain", "1"]}[
            typ])
        return v, v
    if "_Base" in typ:
        base = int(typ.split("_Base")[1])
        v = r.choice({16: ["ff", "0", "1F", "10", "7", "FFFFFFFF"],
                      8: ["17", "0", "10", "7", "777", "00012"],
                      2: ["1", "0", "10", "11111111", "000010"]}[base])
        return v, int(v, base)
    v = str(r.choice([0, 1, 7, 127, 128, 255, 256, 40000, 99999, 123456])
            * (1 if "NonNegative" in typ else r.choice([1, -1])))
    return v, int(v)


def equal(got, want):
    import math
    if want is None:
        return got is None or got != got
    if isinstance(want, float):
        return got == want or (got != got and want != want)
    if isinstance(want, (str, bytes)):
        return type(got) is type(want) and got == want
    if isinstance(want, bool):
        return bool(got) == want
    return not isinstance(got, (str, bytes)) and got == want


def compare(vc, o, tree, values):
    """values[record] = [[value per repetition] per field]"""
    vc.ensure("loads", o.ok, lambda: repr(o.exc))
    df = o.value
    cols = list(df.columns)
    vc.ensure("columns have distinct names", len(set(cols)) == len(cols),
              lambda: repr(cols))
    fs = list(leaves(tree))
    n = [1] * len(fs)
    for i, (node, reps) in enumerate(fs):
        for r in reps:
            n[i] *= r
    vc.ensure("a column per field and repetition", len(cols) == sum(n),
              lambda: f"{cols} for {tree}")
    vc.ensure("a row per record", len(df) == len(values))
    names = [node[1] for node, reps in fs]
    at = 0
    for i, (node, reps) in enumerate(fs):
        got = cols[at:at + n[i]]
        if not reps and names.count(node[1]) == 1 and not any(
                x != node[1] and x.startswith(node[1]) or
                node[1].startswith(x) and x != node[1] for x in names):
            vc.ensure("field keeps its name", got == [node[1]],
                      lambda: f"{got} not {node[1]}")
        vc.ensure("column is named after its field",
                  all(node[1] in c for c in got), lambda: repr((got, node)))
        for r, row in enumerate(values):
            vals = df.iloc[r, at:at + n[i]].tolist() if n[i] != 1 else \
                [df.iloc[r, at]]
            for g, w in zip(vals, row[i]):
                vc.ensure("value of its field, record and repetition",
                          equal(g, w), lambda: f"{node} record {r}: "
                          f"{vals} not {row[i]}")
        at += n[i]


def load(vc, data, area):
    from . import e2e
    e2e.write(vc, "x.dat", data)
    e2e.write(vc, "x.xml", product(
        "<File_Area_Observational><File><file_name>x.dat</file_name></File>"
        + area + "</File_Area_Observational>"))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        d = e2e.read(vc, "x.xml")
    return e2e.load(d, "DATA_OBJECT")


@contract("C21", "fixed-tables", E2E + [
    RT + "_extract_fixed_width_field_data", DT +
    "data_type_convert_table_binary", DT + "data_type_convert_table_ascii"],
    bounded="concrete: random binary and character tables of fields and "
    "groups nested up to two deep, with gaps", secs=14, random=300)
def fixed_tables(vc):
    """Every field of a binary or character table holds, per record and
    repetition of its groups, the value stored at its declared bytes."""
    import numpy as np
    kind = vc.choice("kind", ["Binary", "Character"])
    tree = random_tree(vc, "t")
    fields = []                      # (type, width, [positions in a record])

    def lay(nodes, t):
        """(xml, length) of the nodes laid out from location 1"""
        out, end = [], 0
        for i, node in enumerate(nodes):
            u = f"{t}.{i}"
            end += vc.choice(u + ".gap", [0, 0, 0, 1, 3])
            if node[0] == "field":
                if kind == "Binary":
                    typ = vc.choice(u + ".type", sorted(TYPES) + [
                        "ASCII_Integer", "ASCII_String"])
                else:
                    typ = vc.choice(u + ".type", ASCII)
                w = np.dtype(TYPES[typ]).itemsize if typ in TYPES else \
                    vc.int(u + ".w", 10, 12)
                fields.append((typ, w, [end]))
                out.append(xml("Field_" + kind, name=node[1],
                               field_location=end + 1, data_type=typ,
                               field_length=w) % "")
                end += w
            else:
                at = len(fields)
                inner, n = lay(node[3], u)
                n += vc.choice(u + ".pad", [0, 0, 0, 2])
                for k in range(at, len(fields)):
                    typ, w, ps = fields[k]
                    fields[k] = typ, w, [end + r * n + p for r in
                                         range(node[2]) for p in ps]
                out.append(xml("Group_Field_" + kind, name=node[1],
                               repetitions=node[2], fields=1, groups=0,
                               group_location=end + 1,
                               group_length=n * node[2]) % inner)
                end += n * node[2]
        return "".join(out), end
    body, reclen = lay(tree, "l")
    reclen += vc.choice("tail", [0, 2, 5])
    n, at = vc.int("records", 1, 4), vc.choice("at", [0, 1, 7])
    seed = vc.choice("seed", range(10 ** 6))
    rng = __import__("random").Random(seed)
    data = bytearray(rng.randbytes(at + n * reclen + rng.choice([0, 3])))
    values = []
    for r in range(n):
        row = []
        for k, (typ, w, ps) in enumerate(fields):
            vals = []
            for j, p in enumerate(ps):
                a = at + r * reclen + p
                if typ in TYPES:
                    vals.append(np.frombuffer(bytes(data[a:a + w]),
                                              TYPES[typ])[0].item())
                else:
                    s, v = text_of(vc, f"v{r}.{k}.{j}", typ)
                    b = s.encode()
                    data[a:a + w] = b.rjust(w) if typ not in TEXTS else \
                        b.ljust(w)
                    vals.append(b.ljust(w).decode() if typ in TEXTS else v)
            row.append(vals)
        values.append(row)
    area = xml("Table_" + kind, local_identifier="DATA_OBJECT", offset=at, records=n) % (xml(
        "Record_" + kind, fields=1, groups=0, record_length=reclen) % body)
    o = vc.run(load, vc, bytes(data), area)
    compare(vc, o, tree, values)


@contract("C21", "delimited-tables", E2E + [
    RT + "_extract_delimited_field_data",
    RT + "_get_delimited_records_and_start_bytes",
    DT + "data_type_convert_table_ascii"],
    bounded="concrete: random delimited tables of fields and groups nested "
    "up to two deep, up to several hundred columns", secs=14, random=300)
def delimited_tables(vc):
    """Every field of a delimited table holds, per record and repetition of
    its groups, the text between the delimiters it is listed at, quotation
    marks around it dropped and delimiters within them kept; no value is made
    up where there is none."""
    tree = random_tree(vc, "t")
    if vc.choice("wide", [0, 0, 0, 1]):
        tree.append(("group", None, vc.choice("many", [
            100, 125, 126, 127, 128, 200, 253, 254, 255, 256, 300]),
            [("field", "w")]))
    fs = list(leaves(tree))
    types = [vc.choice(f"type{i}", ASCII) for i in range(len(fs))]
    delim = vc.choice("delimiter", ["Comma", "Horizontal Tab", "Semicolon",
                                    "Vertical Bar"])
    c = {"Comma": ",", "Horizontal Tab": "\t", "Semicolon": ";",
         "Vertical Bar": "|"}[delim]
    eol = vc.choice("eol", ["Carriage-Return Line-Feed", "Line-Feed"])
    e = "\r\n" if "Carriage" in eol else "\n"
    n, at = vc.int("records", 1, 4), vc.choice("at", [0, 1, 7])
    holes = vc.flag("holes")
    values, lines = [], []
    rng = __import__("random").Random(vc.choice("seed", range(10 ** 6)))

    def fill(nodes, row, texts, k):
        for node in nodes:
            if node[0] == "field":
                typ = types[k]
                if holes and rng.random() < .15:
                    s, v = rng.choice(["", "", " "]), None
                    if typ in TEXTS:
                        v = s
                elif typ == "ASCII_String" and rng.random() < .5:
                    v = rng.choice(["a" + c + "b", "", c, "x" + c + c, "q",
                                    " padded "])
                    s = f'"{v}"'
                else:
                    s, v = text_of(Fixed(rng), "", typ)
                    if rng.random() < .1:
                        s = f'"{s}"'
                texts.append(s)
                row[k].append(v)
                k += 1
            else:
                k0 = k
                for r in range(node[2]):
                    k = fill(node[3], row, texts, k0)
        return k
    for r in range(n):
        row, texts = [[] for _ in fs], []
        fill(tree, row, texts, 0)
        values.append(row)
        lines.append(c.join(texts) + e)
    data = "".join(lines).encode()
    longest = max(len(x.encode()) for x in lines)
    extent = vc.choice("extent", ["none", "object", "maximum"])

    def body(nodes):
        out = []
        for node in nodes:
            if node[0] == "field":
                out.append(xml("Field_Delimited", name=node[1], data_type=
                               types[body.k]) % "")
                body.k += 1
            else:
                out.append(xml("Group_Field_Delimited", name=node[1],
                               repetitions=node[2], fields=1, groups=0)
                           % body(node[3]))
        return "".join(out)
    body.k = 0
    area = xml("Table_Delimited", local_identifier="DATA_OBJECT", offset=at, object_length=len(data) if
               extent == "object" else None,
               parsing_standard_id="PDS DSV 1", records=n,
               record_delimiter=eol, field_delimiter=delim) % (xml(
                   "Record_Delimited", fields=1, groups=0,
                   maximum_record_length=longest if extent == "maximum"
                   else None) % body(tree))
    o = vc.run(load, vc, b"#" * at + data + vc.choice(
        "after", [b"", b"more,lines\r\n"]), area)
    compare(vc, o, tree, values)


class Fixed:
    """choices made by a random source of one's own"""

    def __init__(self, rng):
        self.rng = rng

    def choice(self, name, options):
        return self.rng.choice(options)


@contract("C21", "arrays-and-headers", [
    "pdr:read", RA + "read_array_data", RA + "new_array",
    RH + "read_header_data"],
    bounded="concrete: random arrays of one to four axes and headers",
    secs=10, random=250)
def arrays(vc):
    """Element (i, j, ...) of a PDS4 array is the value stored at its offset
    plus its place, the last axis fastest, in its declared type; a header is
    its declared bytes."""
    import numpy as np
    from . import e2e
    dims = [vc.int(f"n{i}", 1, 5) for i in range(vc.int("axes", 1, 4))]
    t = vc.choice("type", sorted(TYPES))
    dt = np.dtype(TYPES[t])
    n = int(np.prod(dims)) * dt.itemsize
    hat, hlen = vc.choice("hat", [0, 1, 30]), vc.int("hlen", 1, 20)
    at = vc.choice("at", [0, 3, 64])
    rng = __import__("random").Random(vc.choice("seed", range(10 ** 6)))
    data = bytearray(rng.randbytes(max(at + n, hat + hlen) + rng.choice(
        [0, 9])))
    if not at <= hat < at + n and not hat <= at < hat + hlen:
        data[hat:hat + hlen] = bytes(rng.choice(b"KEY = 5\r\n") for _ in
                                     range(hlen))
    data = bytes(data)
    tag = {1: "Array", 2: "Array_2D_Image", 3: "Array_3D_Spectrum",
           4: "Array"}[len(dims)]
    axes = [xml("Axis_Array", axis_name=f"A{i}", elements=d,
                sequence_number=i + 1) % "" for i, d in enumerate(dims)]
    if vc.flag("shuffled"):
        rng.shuffle(axes)
    area = xml("Header", local_identifier="THE_HEADER", offset=hat, object_length=hlen,
               parsing_standard_id="7-Bit ASCII Text") % "" + xml(
        tag, local_identifier="DATA_OBJECT", offset=at, axes=len(dims), axis_index_order="Last Index Fastest"
        ) % (xml("Element_Array", data_type=t, scaling_factor=vc.choice(
            "scale", [None, 2.5])) % "" + "".join(axes))
    e2e.write(vc, "x.dat", data)
    e2e.write(vc, "x.xml", product(
        "<File_Area_Observational><File><file_name>x.dat</file_name></File>"
        + area + "</File_Area_Observational>"))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        d = e2e.read(vc, "x.xml")
    o = vc.run(e2e.load, d, "DATA_OBJECT")
    vc.ensure("loads", o.ok, lambda: repr(o.exc))
    want = np.frombuffer(data[at:at + n], dt).reshape(dims)
    vc.ensure("values at their places", e2e.same(o.value, want),
              lambda: f"{np.asarray(o.value).dtype} {np.shape(o.value)}")
    h = vc.run(e2e.load, d, "THE_HEADER")
    vc.ensure("header loads", h.ok, lambda: repr(h.exc))
    v = h.value
    if isinstance(v, str):
        v = v.encode("latin1", "replace")
        vc.ensure("header's bytes", v == data[hat:hat + hlen] or
                  data[hat:hat + hlen].decode("utf8", "replace") == h.value)
    else:
        vc.ensure("header's bytes", bytes(v) == data[hat:hat + hlen],
                  lambda: repr((v, data[hat:hat + hlen])))


@contract("C21", "uniformly-sampled", E2E + [
    RT + "_make_uniformly_sampled_field"], bounded="concrete: random tables "
    "of two fields and up to two uniformly sampled ones", secs=4, random=150)
def uniformly_sampled(vc):
    """A uniformly sampled field is a column of its own that holds the samples
    its first value, interval and scale declare, and the other fields are
    where they are without it."""
    import numpy as np
    n, at = vc.int("records", 1, 12), vc.choice("at", [0, 3])
    data = vc.bytes("data", at + n * 5 + 2)
    areas, want = [], []
    for i in range(vc.int("sampled", 1, 2)):
        t = f"u{i}"
        scale = vc.choice(t + ".scale", [None, "Linear", "Linear",
                                         "Logarithmic", "Exponential"])
        real = vc.flag(t + ".real")
        x1 = vc.int(t + ".first", -20 if scale in (None, "Linear") else 1, 40)
        d = vc.int(t + ".interval", -6 if scale in (None, "Linear") else 1, 7)
        base = None
        if real:
            x1, d = x1 / 4, d / 8
        if scale == "Logarithmic":
            d = 1 + d / 8
            xs = [x1 * d ** j for j in range(n)]
        elif scale == "Exponential":
            base = vc.choice(t + ".base", [2, 10])
            x1, d = x1 / 16, d
            xs = [np.log(base ** x1 + j * d) / np.log(base) for j in range(n)]
        else:
            xs = [x1 + j * d for j in range(n)]
        name = vc.choice(t + ".name", ["time", "freq"]) + str(i)
        areas.append(xml("Uniformly_Sampled", sampling_parameter_name=name,
                         sampling_parameter_interval=repr(d),
                         sampling_parameter_first_value=repr(x1),
                         sampling_parameter_last_value=repr(float(xs[-1])),
                         sampling_parameter_scale=scale,
                         sampling_parameter_base=base) % "")
        want.append((name, xs))
    rec = xml("Field_Binary", name="a", field_location=1, field_length=2,
              data_type="UnsignedMSB2") % "" + xml(
        "Field_Binary", name="b", field_location=4, field_length=2,
        data_type="SignedLSB2") % ""
    area = xml("Table_Binary", local_identifier="DATA_OBJECT", offset=at,
               records=n) % ("".join(areas) + xml(
                   "Record_Binary", fields=2, groups=0, record_length=5) % rec)
    o = vc.run(load, vc, data, area)
    vc.ensure("loads", o.ok, lambda: repr(o.exc))
    t = o.value
    raw = np.frombuffer(data, "u1")[at:at + n * 5].reshape(n, 5)
    col = lambda k, dt: np.ascontiguousarray(raw[:, k:k + 2]).view(
        dt)[:, 0].tolist()
    want += [("a", col(0, ">u2")), ("b", col(3, "<i2"))]
    vc.ensure("a column per field", sorted(t.columns) == sorted(
        x for x, _ in want) and len(t) == n, lambda: repr(t))
    for name, xs in want:
        got = t[name].tolist()
        vc.ensure("declared values", np.allclose(got, xs, rtol=1e-9, atol=1e-9)
                  if name not in "ab" else got == xs,
                  lambda: f"{name}: {got} not {xs}")
