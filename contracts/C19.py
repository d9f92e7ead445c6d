"""C19: special-case handling applies only to the products it names.

special_cases.json lists, for each point of the library at which a special case
may take over, the products (by identifiers, object name, file name, block)
that it is for.  Every checker is run on arbitrary metadata: it must not raise,
and where it takes over the metadata must be those of a listed product."""
import importlib
import json
import os
import pkgutil
import types

from pyvc.api import contract, And, Or, Not, Implies
from pyvc.aname import has, matches, own
from contracts import e2e

HERE = os.path.dirname(os.path.abspath(__file__))
CASES = json.load(open(os.path.join(HERE, "special_cases.json")))
TEXT = ("DATA_SET_ID", "DATA_SET_NAME", "DATA_QUALITY_DESC", "FILE_NAME",
        "INSTRUMENT_ID", "INSTRUMENT_HOST_NAME", "INSTRUMENT_NAME", "NOTE",
        "PRODUCT_ID", "PRODUCT_TYPE", "RECORD_TYPE", "SPACECRAFT_NAME",
        "STANDARD_DATA_PRODUCT_ID")
NUMBERS = ("FILE_RECORDS", "LABEL_RECORDS", "RECORD_BYTES", "ROW_BYTES",
           "ROWS")
C = "pdr.formats.checkers:"


def words(field, cond):
    """the texts the conditions on a field mention"""
    if cond[0] in ("and", "or", "not"):
        for x in cond[1:]:
            yield from words(field, x)
    elif len(cond) > 2 and cond[1] == field:
        for w in cond[2:]:
            if isinstance(w, str):
                yield w


def pool(field, checker=None):
    out = ["", "X", "NOT SUCH A PRODUCT"]
    for k, rows in CASES.items():
        if checker in (None, k):
            for c in rows:
                for w in words(field, c):
                    out += [w, w, w + "_2", w[:-1], "X" + w, w.lower()]
    return out


def looks_up(c):
    """does a condition need more than identifiers and names?"""
    if c[0] in ("and", "or", "not"):
        return any(looks_up(x) for x in c[1:])
    return c[0] == "clock" or c[0] != "trivial" and (
        c[1] in ("keys", "^IMAGE") or c[1].startswith("block"))


class Product:
    """stands for the Data object and everything looked up about a product"""

    def __init__(self, vc, checker):
        self.vc = vc
        self.ids = {}
        for k in TEXT:
            self.ids[k] = vc.name(k, pool=pool("@" + k, checker))
        for k in NUMBERS:
            self.ids[k] = "" if vc.mode == "symbolic" and k != \
                "FILE_RECORDS" else vc.int(k, 0, pool=[1025, 1024, 0])
        self.name = vc.name("name", pool=pool("name", checker))
        self.fn = vc.name("fn", pool=pool("fn", checker) + pool(
            "fn.own", checker) + ["/d/A.IMG"])
        self.sample_type = vc.name("SAMPLE_TYPE",
                                   pool=["N/A", "MSB_INTEGER"])
        self.cache = {}
        self.block = self.make_block("block") if "block" in KEYWORDS[
            checker].split() else None

    def make_block(self, label):
        """None, or a block in which any keyword may be missing"""
        vc, cache = self.vc, {}
        keys = {"block": ("^STRUCTURE", "INTERCHANGE_FORMAT", "CONTAINER"),
                "block.CONTAINER": ("^STRUCTURE",)}[label]

        def value(k):
            if k == "CONTAINER":
                return self.make_block("block.CONTAINER")
            kind = vc.choice(f"{label}.{k}?", ["text", "number"])
            return vc.name(f"{label}.{k}", pool=pool(f"{label}.{k}")) \
                if kind == "text" else 5

        def look(k):
            """(present, value)"""
            if k not in cache:
                cache[k] = (value(k),) if k in keys and vc.flag(
                    f"{label} has {k}") else ()
            return cache[k]
        if not vc.symbolic:
            if not vc.flag(f"{label} given"):
                return None
            from multidict import MultiDict
            return MultiDict({k: look(k)[0] for k in keys if look(k)})
        from pyvc.values import SymObj
        from multidict import MultiDict

        class Block(SymObj):
            pytype = MultiDict

            def get(self, k, default=None):
                return look(k)[0] if look(k) else default

            def getitem(self, k):
                if not look(k):
                    raise KeyError(k)
                return look(k)[0]

            def contains(self, k):
                return bool(look(k))

            def look(self, k):
                return look(k)
        self.cache[label] = cache
        if not vc.flag(f"{label} given"):
            return None
        return Block()

    # ---- what the checkers may ask a Data object
    def metaget_(self, k, default=None):
        if k in self.ids:
            return self.ids[k]
        if k not in self.cache:
            vc = self.vc
            if k == "SPACECRAFT_CLOCK_STOP_COUNT":
                kind = vc.choice("clock?", ["none", "text", "number"])
                self.cache[k] = {
                    "none": lambda: None,
                    "text": lambda: vc.name("clock text", pool=[
                        "1/13 59", "UNK", ""]),
                    "number": lambda: vc.real("clock", pool=[
                        1359362956, 1359362955.5, 1363539029, 1363539029.5,
                        1.36e9])}[kind]()
            elif k == "^IMAGE":
                kind = vc.choice("pointer?", ["none", "text", "pair", "empty",
                                              "number", "first"])
                n = vc.name("^IMAGE", pool=["A.DAT", "B.DA", "C.IMG"])
                self.cache[k] = {"none": None, "text": n, "pair": (n, 3),
                                 "empty": (), "number": 4,
                                 "first": (4, n)}[kind]
            else:
                self.cache[k] = None
        v = self.cache[k]
        return default if v is None else v

    metaget = metaget_

    def keys(self):
        return ["IMAGE", "FREQ_OFFSET_TABLE"] if self.vc.flag(
            "FREQ_OFFSET_TABLE listed") else ["IMAGE"]

    @property
    def filename(self):
        return self.fn

    @property
    def identifiers(self):
        return self.ids

    # ---- the terms of the conditions
    def term(self, t):
        if t[0] == "@":
            return self.ids[t[1:]]
        if t in ("name", "fn"):
            return getattr(self, t)
        if t == "fn.own":
            return own(self.fn)
        if t == "fn.lower":
            return self.fn.lower()
        if t == "SAMPLE_TYPE":
            return self.sample_type
        if t == "keys":
            return self.keys()
        if t == "^IMAGE":
            v = self.metaget_("^IMAGE")
            return v[0] if isinstance(v, tuple) and v and v[0] != 4 else ""
        b = self.block
        for k in t.split(".")[1:]:
            if b is None:
                return ""
            b = b.get(k)
        return "" if b is None or b == 5 else b

    def impossible(self, c):
        if isinstance(c, bool):
            return not c
        from pyvc.values import to_bool_expr
        return self.vc.ctx.must(to_bool_expr(Not(c)))

    def holds(self, c):
        k = c[0]
        if k == "and":
            out = True
            for x in sorted(c[1:], key=looks_up):
                # look things up only where it matters
                if self.impossible(out):
                    return False
                out = And(out, self.holds(x))
            return out
        if k == "or":
            return Or(*[self.holds(x) for x in c[1:]])
        if k == "not":
            return Not(self.holds(c[1]))
        if k == "trivial":
            from contracts.C16 import trivial_name
            return trivial_name(self.name)
        if k == "clock":
            x = self.metaget_("SPACECRAFT_CLOCK_STOP_COUNT")
            from pyvc.aname import Name
            if x is None:
                return False
            if isinstance(x, (str, Name)):
                try:
                    x = self.vc.call(float, x)
                except ValueError:
                    return False
            return And(c[1] <= x, x <= c[2])
        v = self.term(c[1])
        if k == "is":
            return Or(*[v == w for w in c[2:]])
        if k == "has":
            return has(v, c[2]) if not isinstance(v, list) else c[2] in v
        if k in ("starts", "ends"):
            return Or(*[getattr(v, k + "with")(w) for w in c[2:]])
        if k in ("match", "search"):
            return matches(v, c[2], k)
        raise ValueError(k)


class Handlers:
    """replaces the special-case handlers of pdr.formats by a recorder"""

    def __init__(self, vc):
        self.vc, self.log = vc, []
        import pdr.formats as F
        vc.f(C + "check_special_block")
        self.found = []
        for m in pkgutil.iter_modules(F.__path__):
            if m.name == "checkers":
                continue
            mod = importlib.import_module("pdr.formats." + m.name)
            for k, f in list(vars(mod).items()):
                if isinstance(f, types.FunctionType):
                    self.found.append((mod, k, f))

    def record(self, f):
        def handler(*a, **k):
            self.log.append(f)
            return True, "special"
        handler.__name__ = f.__name__
        return handler

    def __enter__(self):
        for mod, k, f in self.found:
            own_ = f.__module__ == mod.__name__
            if not own_:
                continue
            if self.vc.symbolic:
                self.vc.ctx.stubs[f] = self.record(f)
            else:
                setattr(mod, k, self.record(f))
        if self.vc.symbolic:
            self.vc.ctx.assumed.add("the handlers of pdr.formats.* are "
                                    "replaced by recorders")
        return self

    def __exit__(self, *a):
        if not self.vc.symbolic:
            for mod, k, f in self.found:
                setattr(mod, k, f)


NONE = {"check_trivial_case": False, "special_image_constants": {},
        "check_special_pds4_cases": None, "special_pointer_dispatch": None}
KEYWORDS = {
    "check_special_offset": "name data identifiers fn",
    "check_special_table_reader": "identifiers name fn fmtdef_dt block "
                                  "start_byte",
    "check_special_structure": "name block fn data identifiers",
    "check_special_position": "identifiers block target name fn start_byte",
    "check_special_sample_type": "identifiers base_samp_info",
    "check_special_bit_column_case": "identifiers",
    "check_special_bit_start_case":
        "identifiers list_of_pvl_objects_for_bit_columns start_bit_list",
    "check_special_bit_format": "obj definition identifiers",
    "check_special_block": "name data identifiers",
    "check_trivial_case": "pointer identifiers fn",
    "special_image_constants": "identifiers",
    "check_special_fn": "data object_name identifiers",
    "check_special_qube_band_storage": "identifiers",
    "check_special_fits_start_byte": "identifiers name hdulist",
    "check_special_objects": "identifiers",
    "check_special_compressed_file_reader": "identifiers fn",
    "check_special_pds4_cases": "structure filename object_name",
    "check_special_label": "fn",
    "special_pointer_dispatch": "pointer identifiers",
}


def checker(fname, where=C, weight=1, secs=2):
    extra = ["pdr.loaders.utility:is_trivial"] if fname == \
        "check_trivial_case" else []

    def body(vc):
        vc.merge()
        p = Product(vc, fname)
        args = {"name": p.name, "object_name": p.name, "pointer": p.name,
                "data": p, "identifiers": p.ids, "fn": p.fn,
                "filename": p.fn, "block": p.block, "start_byte": 0,
                "fmtdef_dt": (), "target": ("A", 1),
                "base_samp_info": {"SAMPLE_TYPE": p.sample_type,
                                   "BYTES_PER_PIXEL": 2},
                "obj": {}, "definition": {}, "start_bit_list": [1],
                "list_of_pvl_objects_for_bit_columns": [], "hdulist": (),
                "structure": None}
        # positional: the calling convention of each checker
        f = vc.f(where + fname)
        with Handlers(vc) as h:
            o = vc.run(f, *[args[k] for k in KEYWORDS[fname].split()])
        vc.ensure("never raises", o.ok, lambda: repr(o.exc))
        nothing = NONE.get(fname, (False, None))
        applied = bool(h.log) or not (
            o.value == nothing if not isinstance(o.value, tuple)
            else o.value[0] is False and o.value[1] is None)
        vc.ensure("nothing else than special or not special",
                  isinstance(o.value, type(nothing)) or applied,
                  lambda: repr(o.value))
        if applied:
            vc.ensure("takes over only for products it names",
                      Or(*[p.holds(c) for c in CASES[fname]]),
                      lambda: f"{[x.__name__ for x in h.log]} {o.value!r}")
    body.__doc__ = f"{fname}: never raises; takes over only for products " \
        "it names."
    contract("C19", fname.replace("check_", "").replace("special_", ""),
             [where + fname] + extra, weight=weight, secs=secs,
             max_paths=20000)(body)


for _n in CASES:
    if _n == "special_pointer_dispatch":
        checker(_n, "pdr.loaders.dispatch:")
    else:
        checker(_n, weight=3 if len(CASES[_n]) > 20 else 1)


M = "pdr.pdr:Metadata."
KINDS = ["text", "int", "real", "none", "tuple", "set", "dict", "absent"]


@contract("C19", "identifiers", [M + "_init_identifiers"], random=400)
def identifiers(vc):
    """Whatever a label gives for an identifier, the checkers get text where
    they expect text, and the given text unchanged."""
    cls = vc.f(M + "_init_identifiers") and vc.f("pdr.pdr:Metadata")
    fields = TEXT + NUMBERS
    # symbolic: one identifier at a time is arbitrary, the others absent
    one = vc.choice("which", fields)
    given = {}
    for k in fields:
        if vc.symbolic and k != one:
            continue
        kind = vc.choice(k + " kind", KINDS)
        if kind != "absent":
            given[k] = {
                "text": lambda: vc.name(k, pool=["X", "", "A_1"]),
                "int": lambda: vc.int(k + " n", pool=[0, 1, 1024]),
                "real": lambda: 1.5, "none": lambda: None,
                "tuple": lambda: ("A", 1), "set": lambda: {"A"},
                "dict": lambda: {"value": 1, "units": "X"}}[kind]()

    class Fake:
        def metaget_(self, k, default=None):
            v = given.get(k)
            return default if v is None else v
        metaget = metaget_
    o = vc.run(cls._init_identifiers, Fake())
    vc.ensure("never raises", o.ok, lambda: repr(o.exc))
    from pyvc.values import SStr
    from pyvc.aname import Name
    vc.ensure("every identifier is there", all(k in o.value for k in fields),
              lambda: repr(o.value))
    for k in TEXT:
        v = o.value[k]
        vc.ensure("textual identifiers are text",
                  isinstance(v, (str, Name, SStr)), lambda: f"{k} {v!r}")
        if isinstance(given.get(k), (str, Name)):
            vc.ensure("given text is unchanged", v is given[k], lambda: k)
        elif given.get(k) is None:
            vc.ensure("missing ones are empty", v == "", lambda: k)
    for k in NUMBERS:
        if k not in given or given[k] is None:
            vc.ensure("missing ones are empty", o.value[k] == "", lambda: k)
        elif isinstance(given[k], float) or not isinstance(
                given[k], (str, Name, tuple, set, dict)):
            vc.ensure("given numbers are unchanged", o.value[k] == given[k],
                      lambda: k)


class Written(Product):
    """a product as written to disk"""

    def __init__(self, vc, ids, fn, name, block):
        self.vc, self.name, self.fn, self.block = vc, name, fn, block
        self.ids = {k: ids.get(k, "") for k in TEXT + NUMBERS}
        self.sample_type = block.get("SAMPLE_TYPE", "")
        self.cache = {}

    def keys(self):
        return ["LABEL", "IMAGE", "TABLE"]

    def metaget_(self, k, default=None):
        return self.fn if k == "^IMAGE" else default


WORDS = {k: [x for x in pool("@" + k) if x and '"' not in x] for k in TEXT}
FILES = sorted({x for x in pool("fn") + pool("fn.own")
                if x and "/" not in x and len(x) < 40 and all(
                    c.isalnum() or c in "._-" for c in x)})


@contract("C19", "generic", ["pdr:read"], random=150, secs=8,
          weight=2, bounded="concrete: products with an image and a binary "
          "table, up to four identifiers and a file name near the listed ones")
def generic(vc):
    """A product that is none of the listed ones is read by the general
    rules."""
    import numpy as np
    ids = {}
    for j in range(vc.int("n ids", 1, 4)):
        k = vc.choice(f"id{j}", [t for t in TEXT if t != "FILE_NAME"])
        ids[k] = vc.choice(f"id{j} text", WORDS[k])
    near = vc.choice("file", FILES)
    stem = near.rstrip(".").split(".")[0] or "A"
    fn = stem + vc.choice("ext", [".IMG", ".DAT", ".img", ".QUB"])
    if vc.flag("file name given"):
        ids["FILE_NAME"] = fn
    img = {"LINES": 2, "LINE_SAMPLES": 3, "SAMPLE_BITS": 16,
           "SAMPLE_TYPE": "MSB_INTEGER"}
    tab = {"ROWS": 2, "ROW_BYTES": 6, "COLUMNS": 2,
           "INTERCHANGE_FORMAT": "BINARY"}
    full = dict(ids, ROWS=2, ROW_BYTES=6, RECORD_TYPE=ids.get(
        "RECORD_TYPE", "UNDEFINED"), RECORD_BYTES=1)
    for name, block in (("IMAGE", img), ("TABLE", tab), ("LABEL", {})):
        for c in CASES.values():
            for x in c:
                p = Written(vc, full, os.path.join(vc.tmp(), fn), name, block)
                vc.assume(x[0] != "trivial" and not p.holds(x) if x[0] !=
                          "trivial" else True)
    cols = [("A", 1, 2, "MSB_INTEGER"), ("B", 3, 4, "LSB_INTEGER")]
    items = [("PDS_VERSION_ID", e2e.Raw("PDS3")),
             ("RECORD_TYPE", full["RECORD_TYPE"]), ("RECORD_BYTES", 1)]
    items += [(k, v) for k, v in ids.items() if k != "RECORD_TYPE"]
    items += [("^IMAGE", (fn, e2e.Q(1))), ("^TABLE", (fn, e2e.Q(13))),
              ("OBJECT IMAGE", list(img.items())),
              ("OBJECT TABLE", list(tab.items()) + [
                  ("OBJECT COLUMN", [("NAME", n), ("START_BYTE", s),
                                     ("BYTES", b), ("DATA_TYPE", t)])
                  for n, s, b, t in cols])]
    data = vc.bytes("data", 24)
    e2e.write(vc, fn, data)
    e2e.write(vc, "generic_label.lbl", e2e.pvl(items) + "END\r\n")
    o = vc.run(lambda: e2e.read(vc, "generic_label.lbl"))
    vc.ensure("opens", o.ok, lambda: repr(o.exc))
    d = o.value
    o = vc.run(lambda: (e2e.load(d, "IMAGE"), e2e.load(d, "TABLE")))
    vc.ensure("loads", o.ok, lambda: f"{o.exc!r} {items}")
    i, t = o.value
    vc.ensure("the image by the general rules", e2e.same(
        i, np.frombuffer(data, ">i2", 6).reshape(2, 3)),
        lambda: f"{i!r} {items}")
    rows = np.frombuffer(data, np.dtype([("A", ">i2"), ("B", "<i4")]), 2, 12)
    vc.ensure("the table by the general rules", list(t.columns) == ["A", "B"]
              and t["A"].tolist() == rows["A"].tolist()
              and t["B"].tolist() == rows["B"].tolist(),
              lambda: f"{t} {items}")
