"""C12: loading objects is lazy, isolated and remembered."""
import os
import warnings

from pyvc.api import contract, And, Or, Not, Implies
from contracts import e2e

D = "pdr.pdr:"
NAMES = ["ALPHA", "BETA_IMAGE", "GAMMA_TABLE"]
IGNORED = "INSTRUMENT_DESC"


class Token:
    """a loaded value, compared by identity"""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"<value {self.n}>"


class Boom(Exception):
    pass


class State:
    """A Data object in an arbitrary reachable state: any of its listed
    objects loaded, any file found before or not."""

    def __init__(self, vc, standard="PDS3", names=NAMES):
        self.vc = vc
        cls = vc.f(D + "Data")
        for m in ("load", "load_from_pointer", "_target_path", "unloaded",
                  "_add_loaded_objects", "load_all"):
            vc.f(f"{D}Data.{m}")         # gone: the contract does not apply
        self.cls = cls
        d = cls.__new__(cls)
        self.d = d
        put = object.__setattr__
        self.index = list(names)
        put(d, "index", list(names))
        put(d, "standard", standard)
        put(d, "debug", False)
        put(d, "filename", "/x/PROD.LBL")
        put(d, "_scaleflags", {})
        put(d, "loaders", {})
        put(d, "specials", {})
        self.blocks = {n: Token("block " + n) for n in names}
        self.calls, self.warned, self.found = [], [], []
        self.state = {}
        fm = {}
        for n in names:
            if vc.flag("loaded." + n):
                self.state[n] = Token(n)
                put(d, n, self.state[n])
                fm[n] = "/x/" + n
        put(d, "file_mapping", fm)
        put(d, "metaget_", lambda n, default=None: self.blocks.get(n, default))
        put(d, "metaget", lambda n, default=None, warn=True: (
            default if n == "n_frames" else self.blocks.get(n, default)))
        put(d, "_object_to_filename", lambda n: "/x/" + n)
        put(d, "_target_path", self.target)
        put(d, "load_from_pointer", self.loader)
        put(d, "_load_primary_fits", lambda n: self.loader(n))
        if vc.symbolic:
            vc.ctx.stubs[warnings.warn] = lambda *a, **k: self.warned.append(
                str(a[0]))
        self.outcomes = {}
        self.results = {}

    def outcome(self, n):
        if n not in self.outcomes:
            self.outcomes[n] = self.vc.choice("outcome." + n, [
                "value", "value", "extra", "missing", "unsupported",
                "nofile", "fails"])
        return self.outcomes[n]

    def target(self, n, cached=True, raise_missing=False):
        self.found.append(n)
        if self.outcome(n) == "missing":
            return None
        return "/x/" + n

    def loader(self, n, **k):
        self.calls.append((n, dict(k)))
        w = self.outcome(n)
        if w == "unsupported":
            raise NotImplementedError("no such thing")
        if w == "nofile":
            raise FileNotFoundError("gone")
        if w in ("fails", "missing"):
            raise Boom("broken")
        v = Token("new " + n)
        self.results[n] = v
        out = {n: v}
        if w == "extra":
            out[n + "_HEADER"] = Token("header of " + n)
            self.results[n + "_HEADER"] = out[n + "_HEADER"]
        return out

    def run(self, f, *a, **k):
        if self.vc.symbolic:
            return self.vc.run(f, *a, **k)
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            o = self.vc.run(f, *a, **k)
        self.warned += [str(w.message) for w in ws]
        return o

    # ---- what is observable
    def value(self, n):
        return vars_of(self.d).get(n, None)

    def listed(self):
        return list(vars_of(self.d)["index"])

    def others_unchanged(self, *but):
        return all(self.value(n) is self.state.get(n)
                   for n in self.index if n not in but) and \
            self.listed()[:len(self.index)] == self.index

    def partition(self):
        """every listed object is loaded or unloaded, not both"""
        o = self.vc.run(self.cls.unloaded, self.d)
        if not o.ok:
            return False
        return sorted(o.value) == sorted(
            n for n in self.listed() if n not in vars_of(self.d))

    def after_load(self, n, what):
        """the state a load of n must leave"""
        vc = self.vc
        w = self.outcomes.get(n)
        calls = [c for c in self.calls if c[0] == n]
        if w == "missing":
            vc.ensure(what + ": a missing file is reported, not loaded",
                      not calls and any(n in x for x in self.warned))
        else:
            vc.ensure(what + ": loaded exactly once", len(calls) == 1)
        if w in ("value", "extra"):
            vc.ensure(what + ": holds the loaded value",
                      self.value(n) is self.results[n])
            vc.ensure(what + ": no report of failure", not any(
                "Unable to" in x or n in x for x in self.warned))
        elif w is not None:
            vc.ensure(what + ": the failure is reported, naming the object",
                      any(n in x for x in self.warned))
        extra = [n + "_HEADER"] if w == "extra" else []
        return extra


def vars_of(d):
    return object.__getattribute__(d, "__dict__")


@contract("C12", "load", [D + "Data.load", D + "Data._add_loaded_objects",
                          D + "Data._file_not_found", D + "Data.unloaded"],
          random=300)
def load(vc):
    """From every state: load() of a listed, unloaded object (or a reload)
    runs its loader exactly once and stores its value or reports its failure;
    a loaded object is not loaded again; an unlisted name is an error; nothing
    else changes."""
    s = State(vc)
    n = vc.choice("name", NAMES + ["NOT_LISTED"])
    reload = vc.flag("reload")
    was = n in s.state
    o = s.run(s.cls.load, s.d, n, reload) if reload else s.run(
        s.cls.load, s.d, n)
    if n == "NOT_LISTED":
        vc.ensure("an unlisted name is an error", not o.ok and isinstance(
            o.exc, KeyError))
        vc.ensure("and changes nothing", s.others_unchanged() and s.listed()
                  == s.index and not s.calls)
        return
    if was and not reload:
        vc.ensure("already loaded", not o.ok and type(o.exc).__name__ ==
                  "AlreadyLoadedError")
        vc.ensure("not loaded again", not s.calls and s.others_unchanged())
        return
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    # a file already found for the object is not looked for again
    if n in vars_of(s.d)["file_mapping"] and was and s.outcomes.get(
            n) == "missing":
        s.outcomes[n] = "fails"
    extra = s.after_load(n, "load")
    vc.ensure("other objects keep their state and values",
              s.others_unchanged(n))
    vc.ensure("the list of objects only grows by what was loaded with it",
              s.listed() == s.index + extra)
    vc.ensure("each object is loaded or unloaded", s.partition())


@contract("C12", "access", [D + "Data.__getattribute__",
                            D + "Data.__getitem__", D + "Data.load"],
          random=300)
def access(vc):
    """From every state: the first access to an object loads it exactly once,
    every later access gives the same value and loads nothing, and accessing
    an unlisted name is an error."""
    s = State(vc)
    n = vc.choice("name", NAMES + ["NOT_LISTED"])
    how = vc.choice("how", ["item", "attribute"])

    def get():
        if how == "item":
            return s.run(s.cls.__getitem__, s.d, n)
        return s.run(getattr, s.d, n)
    was = s.state.get(n)
    o = get()
    if n == "NOT_LISTED":
        vc.ensure("an unlisted name is an error", not o.ok and isinstance(
            o.exc, (AttributeError, KeyError)))
        vc.ensure("and changes nothing", s.others_unchanged()
                  and not s.calls)
        return
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    if was is not None:
        vc.ensure("the remembered value", o.value is was and not s.calls)
    else:
        extra = s.after_load(n, "access")
        if s.outcomes.get(n) in ("value", "extra"):
            vc.ensure("the loaded value", o.value is s.results[n])
        vc.ensure("the list of objects only grows by what was loaded with it",
                  s.listed() == s.index + extra)
    before = len(s.calls)
    o2 = get()
    vc.ensure("again the same value", o2.ok and o2.value is o.value)
    vc.ensure("without loading", len(s.calls) == before)
    vc.ensure("other objects keep their state and values",
              s.others_unchanged(n))
    vc.ensure("each object is loaded or unloaded", s.partition())


@contract("C12", "listing", [D + "Data.keys", D + "Data.__contains__",
                             D + "Data.__len__", D + "Data.unloaded"],
          random=100)
def listing(vc):
    """In every state, the listed objects are those of the label: keys() gives
    them in order, `in` holds of exactly them, len() counts them; asking loads
    nothing."""
    s = State(vc)
    k = s.run(s.cls.keys, s.d)
    vc.ensure("keys are the listed objects", k.ok and list(k.value) ==
              s.index)
    n = vc.choice("name", NAMES + ["NOT_LISTED", "index", "load", ""])
    c = s.run(s.cls.__contains__, s.d, n)
    vc.ensure("contains exactly the listed objects", c.ok and bool(
        c.value) == (n in s.index))
    m = s.run(s.cls.__len__, s.d)
    vc.ensure("counts the listed objects", m.ok and m.value == len(s.index))
    vc.ensure("nothing is loaded and nothing changes", not s.calls and
              s.others_unchanged() and s.listed() == s.index)


@contract("C12", "all", [D + "Data.load_all", D + "Data.load"],
          random=300, max_paths=20000)
def load_all(vc):
    """From every state: loading everything runs the loader of every unloaded
    object once, in the listed order, whatever the others do; reference
    descriptions are left alone; loaded values are kept."""
    names = NAMES[:2] + [IGNORED]
    s = State(vc, names=names)
    via = vc.choice("via", ["load_all", "load"])
    o = s.run(s.cls.load_all, s.d) if via == "load_all" else s.run(
        s.cls.load, s.d, "all")
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    for n in names:
        if n in s.state:
            vc.ensure("loaded objects are kept", s.value(n) is s.state[n]
                      and not [c for c in s.calls if c[0] == n])
        elif n == IGNORED:
            vc.ensure("reference descriptions are not loaded",
                      s.value(n) is None and not [
                          c for c in s.calls if c[0] == n])
        else:
            w = s.outcomes.get(n)
            calls = [c for c in s.calls if c[0] == n]
            vc.ensure("each unloaded object is loaded once",
                      len(calls) == (0 if w == "missing" else 1))
            if w in ("value", "extra"):
                vc.ensure("and holds its value", s.value(n) is s.results[n])
            elif w is not None:
                vc.ensure("or its failure is reported",
                          any(n in x for x in s.warned))
    vc.ensure("each object is loaded or unloaded", s.partition())


# ------------------------------------------------------------- whole products
def _make(vc):
    """A product with several objects, some of them broken."""
    import numpy as np
    items, blocks, good, bad = [], [], {}, set()
    for k, name in enumerate(["IMAGE", "A_IMAGE", "X_TABLE", "NOTE_TEXT",
                              "ODD_THING"]):
        if not vc.flag("has." + name):
            continue
        state = vc.choice("state." + name, ["good", "good", "missing",
                                            "truncated", "badtype"])
        fn = f"F{k}.DAT"
        items.append((f"^{name}", fn))
        L, S = vc.int(f"L{k}", 1, 3), vc.int(f"S{k}", 1, 3)
        raw = vc.bytes(f"d{k}", L * S * 2)
        typ = "MSB_INTEGER"
        if "IMAGE" in name:
            if state == "badtype":
                typ = "NOT_A_TYPE"
            blocks.append((f"OBJECT {name}", [
                ("LINES", L), ("LINE_SAMPLES", S), ("SAMPLE_BITS", 16),
                ("SAMPLE_TYPE", e2e.Raw(typ))]))
            value = np.frombuffer(raw, ">i2").reshape(L, S)
        elif "TABLE" in name:
            if state == "badtype":
                typ = "NOT_A_TYPE"
            blocks.append((f"OBJECT {name}", [
                ("INTERCHANGE_FORMAT", e2e.Raw("BINARY")), ("ROWS", L * S),
                ("COLUMNS", 1), ("ROW_BYTES", 2), ("OBJECT COLUMN", [
                    ("NAME", "C"), ("DATA_TYPE", e2e.Raw(typ)),
                    ("START_BYTE", 1), ("BYTES", 2)])]))
            value = np.frombuffer(raw, ">i2")
            if state == "truncated":
                state = "good"
        elif "TEXT" in name:
            blocks.append((f"OBJECT {name}", [("NOTE", "x")]))
            raw = b"some text"
            value = "some text"
            if state != "missing":
                state = "good"
        else:
            blocks.append((f"OBJECT {name}", [("NOTE", "x")]))
            value = None
            state = "missing" if state == "missing" else "unsupported"
        if state == "truncated":
            raw = raw[:-1]
        if state != "missing":
            e2e.write(vc, fn, raw)
        if state == "good":
            good[name] = value
        else:
            bad.add(name)
    e2e.write(vc, "P.LBL", e2e.pvl([
        ("PDS_VERSION_ID", e2e.Raw("PDS3"))] + items + blocks) + "END\r\n")
    return good, bad


def _eq(name, got, want):
    import numpy as np
    if "TABLE" in name:
        return hasattr(got, "columns") and e2e.same(
            got["C"].to_numpy(), np.asarray(want))
    if isinstance(want, str):
        return got == want
    return e2e.same(got, want)


@contract("C12", "history", ["pdr:read"], bounded="concrete: random histories "
          "of up to 8 accesses, loads, reloads and load-alls over products "
          "with good, missing, truncated, ill-typed and unsupported objects",
          secs=10, weight=2)
def history(vc):
    """Over any history, opening loads nothing, every access to an object
    gives the value first loaded, good objects are unaffected by broken ones,
    and failures are reported."""
    good, bad = _make(vc)
    names = list(good) + sorted(bad)
    from pdr.errors import AlreadyLoadedError
    d = e2e.read(vc, "P.LBL")
    order = list(d.keys())
    vc.ensure("the listed objects", sorted(order) == sorted(
        names + ["LABEL"]), lambda: str(order))
    vc.ensure("opening loads nothing", set(d.unloaded()) == set(order))
    seen = {}
    for step in range(vc.int("steps", 1, 8)):
        op = vc.choice(f"op{step}", ["item", "item", "attr", "load",
                                     "reload", "all", "bogus"])
        n = vc.choice(f"n{step}", order)
        was = n not in d.unloaded()
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            try:
                if op == "item":
                    v = d[n]
                elif op == "attr":
                    v = getattr(d, n)
                elif op == "load":
                    d.load(n)
                elif op == "reload":
                    d.load(n, reload=True)
                elif op == "all":
                    d.load("all")
                else:
                    try:
                        d.load("BOGUS")
                        ok = False
                    except KeyError:
                        ok = True
                    try:
                        d["BOGUS"]
                        ok = False
                    except (KeyError, AttributeError):
                        pass
                    vc.ensure("an unlisted name is an error", ok)
                    continue
            except AlreadyLoadedError:
                vc.ensure("already loaded", op == "load" and was)
                continue
            except Exception as ex:
                vc.ensure("no error", False, f"{op} {n}: {ex!r}")
        told = " ".join(str(w.message) for w in ws)
        vc.ensure("a loaded object is loaded again only on reload",
                  not (op == "load" and was))
        touched = [n] if op != "all" else order
        for t in touched:
            if t in bad and (op == "reload" or t not in seen):
                vc.ensure("failures are reported", t in told,
                          lambda: f"{t}: {told!r}")
        if op == "reload":
            seen.pop(n, None)
        for t in order:
            loaded = t not in d.unloaded()
            vc.ensure("loaded exactly when asked for", loaded ==
                      (t in seen or t in touched), lambda: t)
            if not loaded:
                continue
            v = object.__getattribute__(d, t)
            if t in seen:
                vc.ensure("the value first loaded", v is seen[t])
            seen[t] = v
            if t in good:
                vc.ensure("good objects are unaffected", _eq(
                    t, v, good[t]), lambda: t)
        vc.ensure("the list of objects is fixed", list(d.keys()) == order)


@contract("C12", "reload", ["pdr:read", D + "Data.load",
                            D + "Data._load_pds4",
                            D + "Data._load_primary_fits"], random=200, secs=6,
          bounded="concrete: PDS3, FITS and PDS4 products with images, tables, "
          "vectors and text")
def reload(vc):
    """An object requested again (or deleted, then accessed) is read from its
    file again, whatever was done to the one loaded before; without such a
    request it is the same one."""
    import numpy as np
    import pandas as pd
    from .C25 import make, quiet
    kind, stem, name = make(vc)
    ref = quiet(e2e.read, vc, name)
    for k in list(ref.keys()):
        quiet(lambda: ref[k])
    d = quiet(e2e.read, vc, name)
    for k in list(d.keys()):
        x = quiet(lambda: d[k])
        if isinstance(x, np.ndarray) and x.size:
            x += vc.choice("add." + k, [1, 3])
        elif isinstance(x, pd.DataFrame):
            x.iloc[0, 0] = 77777
        vc.ensure("the same one", quiet(lambda: d[k]) is x)
        vc.ensure("not loaded twice unasked", type(vc.run(
            quiet, d.load, k).exc).__name__ == "AlreadyLoadedError")
        if vc.flag("delete." + k):
            delattr(d, k)
        else:
            quiet(d.load, k, reload=True)
        y, r = quiet(lambda: d[k]), ref[k]
        if isinstance(r, np.ndarray):
            vc.ensure("as in its file", e2e.same(y, r), lambda: f"{k} {y} {r}")
        elif isinstance(r, pd.DataFrame):
            vc.ensure("as in its file", y.equals(r), lambda: f"{k} {y} {r}")
        elif not hasattr(r, "to_string"):
            vc.ensure("as in its file", str(y) == str(r))
