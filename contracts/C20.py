"""C20: looking a keyword up gives its first value, or the default."""
import warnings

from pyvc.api import contract, And, Or, Not, Implies, Iff
from contracts import e2e

D = "pdr.pdr:"
M = D + "Metadata."
P = "pdr.parselabel.pds3:"
KEYS = ["A", "B", "NAME", "OBJECT_X", "LINES", "LINE", "^A", "a", "A_0"]
LEAVES = [0, "", "N/A", False, 1, 2.5, "text", ("a", "b"), (), {"u"},
          ["x", 1], "A", -1]


# ------------------------------------------------------------------ proofs
@contract("C20", "keyword", [M + "metaget", M + "metaget_",
                             D + "_metaget_factory"], random=600)
def keyword(vc):
    """However often a keyword occurs, and whatever its value, metaget gives
    the value found first, or the given default when it is absent; it warns
    exactly when asked to and the keyword occurs more than once."""
    md, absent, count, value = subject(vc, LEAVES + ["block", None])
    kind = vc.choice("default", range(6))
    default = [None, 0, False, [1], {"a": 1}, object()][kind]
    how = vc.choice("how", ["metaget", "positional", "quiet", "quiet_",
                            "bare"])
    k = "K"
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        heard = listen(vc)
        if how == "metaget":
            o = vc.run(md.metaget, k, default=default, warn=True)
        elif how == "positional":
            o = vc.run(md.metaget, k, default, False)
        elif how == "quiet":
            o = vc.run(md.metaget, k, default)
        elif how == "quiet_":
            o = vc.run(md.metaget_, k, default)
        else:
            default = None
            o = vc.run(md.metaget, k)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    if absent or value is None:
        vc.ensure("the default when absent", o.value is default,
                  lambda: f"{o.value!r} for {default!r}")
    else:
        vc.ensure("the first value", o.value is value,
                  lambda: f"{o.value!r} for {value!r}")
    warned(vc, ws, heard, And(not absent, count > 1,
                              how in ("metaget", "quiet", "bare")))
    o2 = vc.run(md.metaget_, k, default)
    vc.ensure("asked again, the same", o2.ok and o2.value is o.value)
    other = object()
    o3 = vc.run(md.metaget_, k, other)
    vc.ensure("asked with another default", o3.ok and o3.value is (
        other if absent or value is None else value))


@contract("C20", "block", [M + "metablock", M + "metablock_",
                           D + "_metablock_factory"], random=600)
def block(vc):
    """metablock gives the block found first under a name, nothing where the
    name is absent, and the metadata as a whole where it names no block."""
    md, absent, count, value = subject(vc, LEAVES + ["block"] * 4)
    how = vc.choice("how", ["loud", "warn", "quiet", "quiet_"])
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        heard = listen(vc)
        o = {"loud": lambda: vc.run(md.metablock, "K"),
             "warn": lambda: vc.run(md.metablock, "K", warn=True),
             "quiet": lambda: vc.run(md.metablock, "K", False),
             "quiet_": lambda: vc.run(md.metablock_, "K")}[how]()
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    if absent:
        vc.ensure("nothing where absent", o.value is None,
                  lambda: repr(o.value))
    elif hasattr(value, "keys"):
        vc.ensure("the block itself", o.value is value,
                  lambda: f"{o.value!r} for {value!r}")
    else:
        vc.ensure("the whole where no block", o.value is md,
                  lambda: f"{o.value!r} for {value!r}")
    warned(vc, ws, heard, And(not absent, count > 1, how in ("loud", "warn")))
    o2 = vc.run(md.metablock_, "K")
    vc.ensure("asked again, the same", o2.ok and o2.value is o.value)


def subject(vc, values):
    """Metadata in which K is absent, or occurs `count` times, the first time
    with `value`: (metadata, absent, count, value)"""
    cls = vc.f(D + "Metadata")
    absent = vc.flag("absent")
    i = vc.choice("value", range(len(values)))
    value = values[i]
    if value == "block":
        value = vc.multidict([("X", 1)] if i % 2 else [])
    if not vc.symbolic:
        count = vc.choice("count", [1, 1, 2, 3])
        deep = vc.flag("deep")
        items, params = [("J", 0), ("KK", 1), ("k", 2)], ["J", "KK", "k"]
        if not absent:
            inner = [("Z", 5), ("K", value)] if deep else [("K", value)]
            items += [("B", vc.multidict(inner))] if deep else inner
            params += ["B"] * deep + [k for k, _ in inner]
            for j in range(count - 1):
                items.append(("K", object()) if not deep else
                             ("C", vc.multidict([("K", object())])))
                params += ["K"] if not deep else ["C", "K"]
        return cls((vc.multidict(items), params)), absent, count, value
    import dustgoggles.structures as s
    md = cls((vc.multidict([("J", 0)]), ["J"]))
    count = vc.int("count", 1)

    def dig(mapping, ref, *a, mtypes=(dict,), match="key", **k):
        from multidict import MultiDict
        from pyvc.core import Unsupported
        if a or k or match != "key" or mapping is not md or ref != "K":
            raise Unsupported("search of another kind")
        vc.ensure("searches nested blocks of every kind", issubclass(
            dict, mtypes) and issubclass(MultiDict, mtypes))
        return None if absent else value
    vc.ctx.stubs[s.dig_for_value] = dig
    vc.ctx.assumed.add("dustgoggles dig_for_value finds the first item "
                       "(contract trees, bounded)")
    md.fieldcounts = {"J": 1} if absent else {"J": 1, "K": count}
    md.refresh_cache()
    return md, absent, count, value


def listen(vc):
    """what is warned about"""
    heard = []
    if vc.symbolic:
        vc.ctx.stubs[warnings.warn] = lambda m, *a, **k: heard.append((m, a))
    return heard


def warned(vc, ws, heard, should):
    n = len(heard) if vc.symbolic else sum(
        "More than one" in str(w.message) for w in ws)
    vc.ensure("one warning at most", n <= 1)
    vc.ensure("warns when ambiguous", Iff(n == 1, should))


@contract("C20", "index", [P + "set_key_index"], random=300)
def index(vc):
    """Names are numbered by the numbers given, each used once, in order; a
    name for which none is left stays as it is."""
    f = vc.f(P + "set_key_index")
    n = vc.choice("n", [0, 1, 2, 3])
    given = [vc.int(f"i{k}", 0, pool=[0, 1, 2, 7, 10]) for k in range(n)]
    key = vc.str("key", pool=KEYS)
    left = list(given)
    o = vc.run(f, left, key)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    if not n:
        vc.ensure("unchanged", o.value == key)
    else:
        from pyvc import hooks
        vc.ensure("numbered by the first number", o.value == hooks.fstr(
            (key, -1, ""), "_", (given[0], -1, "")) if vc.symbolic else
            o.value == f"{key}_{given[0]}", lambda: repr(o.value))
    vc.ensure("the others are left", len(left) == max(n - 1, 0) and all(
        a is b for a, b in zip(left, given[1:])))


# ----------------------------------------------------------------- bounded
def random_tree(vc, t, depth, keys, leaves=LEAVES):
    """[(key, leaf or [...])]"""
    out = []
    for i in range(vc.count(t + ".n", 0 if depth else 1, 5 if depth < 2 else 3,
                            3 if depth else 14)):
        k = vc.choice(f"{t}.{i}.k", keys)
        if depth < 3 and vc.choice(f"{t}.{i}.b", [0, 0, 1]):
            out.append((k, random_tree(vc, f"{t}.{i}", depth + 1, keys,
                                       leaves)))
        else:
            out.append((k, (vc.choice(f"{t}.{i}.v", leaves),)))
    return out


def build(vc, tree, how="multi"):
    pairs = [(k, build(vc, v, how) if isinstance(v, list) else v[0])
             for k, v in tree]
    if how == "dict" and len({k for k, _ in pairs}) == len(pairs):
        return dict(pairs)
    return vc.multidict(pairs)


def flat(m):
    """nested [(key, value)] lists"""
    return [(k, flat(v) if hasattr(v, "items") else v) for k, v in m.items()]


def names_of(tree):
    for k, v in tree:
        yield k
        if isinstance(v, list):
            yield from names_of(v)


def search(m, key):
    """the first value: a level's own keywords, then each nested block"""
    for k, v in m.items():
        if k == key:
            return True, v
    for k, v in m.items():
        if hasattr(v, "items"):
            hit = search(v, key)
            if hit[0]:
                return hit
    return False, None


@contract("C20", "trees", [M + "metaget", M + "metaget_", M + "metablock",
                           M + "metablock_", M + "metaget_fuzzy",
                           M + "__init__"],
          bounded="concrete: random metadata nested up to four deep", secs=10)
def trees(vc):
    """Lookups in any nested metadata give what a search by hand finds, never
    change it, and agree with one another."""
    cls = vc.f(D + "Metadata")
    tree = random_tree(vc, "t", 0, KEYS)
    m = build(vc, tree, vc.choice("inner", ["multi", "multi", "dict"]))
    if not hasattr(m, "getall"):
        m = vc.multidict(list(m.items()))
    params = list(names_of(tree))
    md = cls((m, params))
    before = repr(flat(md)), dict(md.fieldcounts)
    default = vc.choice("default", [None, 0, [1], "d"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for rnd in range(2):
            for k in KEYS + ["MISSING", "LIN"]:
                found, v = search(md, k)
                o = vc.run(md.metaget, k, default)
                vc.ensure("no error", o.ok, lambda: f"{k} {o.exc!r}")
                vc.ensure("first value or default", o.value is (
                    v if found else default),
                    lambda: f"{k}: {o.value!r}, not {v!r}, in {before[0]}")
                o = vc.run(md.metablock, k)
                want = None if not found else v if hasattr(v, "items") else md
                vc.ensure("first block", o.ok and o.value is want,
                          lambda: f"{k}: {o.value!r}, not {want!r}, in "
                          f"{before[0]}")
        for k in ["A", "LINE", "LINEZ", "MISSING", "", "B_X", "OBJECT_A"]:
            o = vc.run(md.metaget_fuzzy, k)
            vc.ensure("fuzzy: no error", o.ok, lambda: f"{k} {o.exc!r}")
            import Levenshtein as lev
            best = max(lev.ratio(q, k) for q in params)
            vc.ensure("fuzzy: a closest name", any(
                o.value is search(md, q)[1] for q in params
                if lev.ratio(q, k) == best), lambda: f"{k}: {o.value!r} in "
                f"{before[0]}")
            if k in params:
                vc.ensure("fuzzy: the name itself", o.value is
                          search(md, k)[1], lambda: f"{k} in {before[0]}")
            vc.ensure("fuzzy: again the same", md.metaget_fuzzy(k) is o.value,
                      lambda: f"{k} in {before[0]}")
    vc.ensure("nothing changes", before == (repr(flat(md)),
                                            dict(md.fieldcounts)),
              lambda: f"{before[0]} became {flat(md)}")


WORDS = ["IMAGE", "TABLE", "DOCUMENT", "TEXT", "HEADER", "QUBE", "DATA",
         "SERIES", "CATALOG", "A", "FILE", "ARRAY", "BROWSE"]
PN = ["^IMAGE", "^TABLE", "^A_DESCRIPTION", "^DESCRIPTION", "^STRUCTURE",
      "^PDS_OBJECT", "IMAGE", "TABLE", "IMAGE_0", "^IMAGE_1", "TABLE_1",
      "DESCRIPTION", "STRUCTURE", "X", "^TABLE_0", "A_DESCRIPTION"]


@contract("C20", "indexed", [P + "index_duplicate_pointers",
                             P + "multidict_dig_and_edit", P +
                             "set_key_index", P + "depointerize"],
          bounded="concrete: random metadata nested up to four deep with "
          "repeated pointers and definitions", secs=10)
def indexed(vc):
    """Repeated pointers and the definitions they point to are numbered, in
    order and without clashes; everything else stays as it is."""
    f = vc.f(P + "index_duplicate_pointers")
    few = vc.choice("names", [PN, PN, ["^IMAGE", "IMAGE", "IMAGE_0"],
                              ["^IMAGE", "IMAGE", "^IMAGE_1", "X"], None])
    if few is None:
        pool = e2e.words(P + "index_duplicate_pointers") + WORDS
        few = [e2e.compound(vc, f"n{i}", pool) for i in range(2)]
        few += ["^" + x for x in few]
    tree = random_tree(vc, "t", 0, few, [1, 2, "v"])
    m = build(vc, tree)
    params = list(names_of(tree))
    pointers = vc.f(P + "get_pds3_pointers")(m)
    o = vc.run(lambda: quiet(f, pointers, m, list(params)))
    vc.ensure("no error", o.ok, lambda: f"{o.exc!r} {tree}")
    new, newp = o.value
    vc.ensure("the metadata given is not changed", flat(m) == shape(tree),
              lambda: f"{flat(m)} {tree}")
    numbers = {}
    for p in {k for k in params if k.startswith("^")}:
        n = params.count(p)
        if n < 2 or "STRUCTURE" in p or "PDS_OBJECT" in p:
            continue
        numbers[p] = n
    seen, ren = {}, {}

    def check(old, got):
        vc.ensure("nothing lost or added", isinstance(got, list) and len(old)
                  == len(got), lambda: f"{tree} became {flat(new)}")
        for (k, v), (k2, v2) in zip(old, got):
            i = seen[k] = seen.get(k, -1) + 1
            obj = "^" + k in numbers and "DESCRIPTION" not in k \
                and i < numbers["^" + k]
            if k in numbers or obj:
                a, _, b = k2.rpartition("_")
                vc.ensure("numbered", a == k and b.isdigit(),
                          lambda: f"{k} became {k2} in {tree}")
                ren.setdefault(k, []).append(int(b))
            else:
                vc.ensure("other names stay", k == k2,
                          lambda: f"{k} became {k2} in {tree}")
            if isinstance(v, list):
                check(v, v2)
            else:
                vc.ensure("values stay", v == v2, lambda: f"{k} in {tree}")
    check(shape(tree), flat(new))
    for k, ix in ren.items():
        vc.ensure("numbers ascend", ix == sorted(set(ix)),
                  lambda: f"{k}: {ix} in {tree}")
        if k[:1] != "^":
            p = ren["^" + k]
            vc.ensure("objects are numbered like their pointers",
                      ix == p[:len(ix)], lambda: f"{k}: {ix} {p} in {tree}")
        vc.ensure("no other name is the same", all(list(names_of(retree(
            new))).count(f"{k}_{i}") == 1 for i in ix),
            lambda: f"{k}: {ix} in {tree}")
        if not any(q.strip("^").startswith(k.strip("^") + "_")
                   for q in params):
            vc.ensure("from 0 on", ix == list(range(len(ix))),
                      lambda: f"{k}: {ix} in {tree}")
    vc.ensure("the list of names matches", sorted(newp) == sorted(
        names_of(retree(new))), lambda: f"{newp} for {flat(new)}")


RESERVED = ("OBJECT", "GROUP", "BEGIN_OBJECT", "BEGIN_GROUP", "END",
            "END_OBJECT", "END_GROUP", "PDS_VERSION_ID", "RECORD_BYTES",
            "LABEL")


def shape(tree):
    return [(k, shape(v) if isinstance(v, list) else v[0]) for k, v in tree]


def retree(m):
    return [(k, retree(v) if hasattr(v, "items") else (v,))
            for k, v in m.items()]


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


@contract("C20", "columns", ["pdr.pd_utils:reindex_df_values"], bounded=
          "concrete: up to eight (now and then thirty) columns with repeated names", secs=5)
def columns(vc):
    """Repeated names in a table definition are numbered in order, without
    clashes; the others stay, and nothing moves."""
    import pandas as pd
    f = vc.f("pdr.pd_utils:reindex_df_values")
    pool = vc.choice("pool", [
        ["A", "B", "C", "RESERVED"], ["A", "A_0", "A_1", "A_2"],
        ["A", "A_0_0", "A_0", "RESERVED_1_0", "RESERVED"],
        ["A", "a", "", " ", "7"], ["A", 7, "7", "RESERVED"], [1, 2, 3]])
    n = vc.count("n", 0, 8, 30)
    names = [vc.choice(f"c{i}", pool) for i in range(n)]
    starts = [i * 3 + 1 for i in range(n)]
    column = vc.choice("column", ["NAME", "NAME", "NAME", "OTHER"])
    if all(isinstance(x, int) for x in names):
        return
    df = pd.DataFrame({column: pd.Series(names, dtype=object),
                       "START_BYTE": starts})
    if vc.flag("index"):
        df.index = [2 * i for i in range(n)]
    ix = list(df.index)
    o = vc.run(lambda: f(df) if column == "NAME" else f(df, column))
    vc.ensure("no error", o.ok, lambda: f"{names} {o.exc!r}")
    g = o.value
    got = list(g[column])
    vc.ensure("nothing moves", list(g["START_BYTE"]) == starts and
              list(g.index) == ix, lambda: f"{names} {g}")
    vc.ensure("distinct names", len(set(got)) == n, lambda: f"{names} {got}")
    for x in set(names):
        at = [i for i in range(n) if names[i] == x]
        if len(at) == 1:
            vc.ensure("other names stay", got[at[0]] == x,
                      lambda: f"{names} {got}")
            continue
        stem = f"RESERVED_{starts[at[0]]}" if x == "RESERVED" else str(
            x)
        free = [f"{stem}_{i}" for i in range(80) if f"{stem}_{i}" not in names]
        used = [got[i] for i in at]
        # names made for another group may be in the way
        others = {got[i] for i in range(n) if i not in at}
        vc.ensure("numbered in order", all(u.startswith(f"{stem}_") and
                  u[len(stem) + 1:].isdigit() for u in used) and
                  [int(u[len(stem) + 1:]) for u in used] == sorted(
                      int(u[len(stem) + 1:]) for u in used),
                  lambda: f"{names} {got}")
        if not others & set(free[:len(at)]):
            vc.ensure("from 0 on", used == free[:len(at)],
                      lambda: f"{names} {got}")


@contract("C20", "products", ["pdr:read", D + "Data._find_objects",
                              D + "Data.keys"], random=150, secs=10,
          bounded="concrete: PDS3 labels with up to five (now and then "
          "fourteen) pointers, repeated "
          "or not")
def products(vc):
    """The objects of a product have distinct names, in label order, and each
    is described by its own block."""
    n = vc.count("n", 1, 5, 14)
    pool = ["IMAGE", "IMAGE", "TABLE", "IMAGE_0", "A_IMAGE", "IMAGE_1"]
    if vc.flag("words"):
        some = e2e.words(P + "index_duplicate_pointers") + WORDS
        pool = [e2e.compound(vc, f"n{i}", some) for i in range(3)]
        trivial = vc.f("pdr.loaders.utility:is_trivial")
        vc.assume(not any(map(trivial, pool)))
        vc.assume(not any("DESCRIPTION" in x or x in RESERVED for x in pool))
    names = [vc.choice(f"o{i}", pool) for i in range(n)]
    items = [("PDS_VERSION_ID", e2e.Raw("PDS3")), ("RECORD_BYTES", 1)]
    for i, x in enumerate(names):
        items.append(("^" + x, ("x.dat", i + 1)))
    for i, x in enumerate(names):
        items.append((f"OBJECT {x}", [("NOTE", i), ("LINES", 1)]))
    e2e.write(vc, "x.dat", bytes(range(40)))
    e2e.write(vc, "x.lbl", e2e.pvl(items) + "END\r\n")
    o = vc.run(lambda: quiet(e2e.read, vc, "x.lbl"))
    vc.ensure("opens", o.ok, lambda: f"{names} {o.exc!r}")
    d = o.value
    keys = [k for k in d.keys() if k != "LABEL"]
    vc.ensure("distinct names, one per pointer", len(set(keys)) == n ==
              len(keys), lambda: f"{names} {keys}")
    notes = []
    for k in keys:
        b = d.metablock_(k)
        vc.ensure("each has its block", b is not None and "NOTE" in b,
                  lambda: f"{k} of {keys} for {names}: {b!r}")
        notes.append(b["NOTE"])
        t = d.metaget_("^" + k)
        vc.ensure("block and pointer belong together", t[1] == b["NOTE"] + 1,
                  lambda: f"{k} of {keys} for {names}: {t} {b}")
        own = names[b["NOTE"]]
        vc.ensure("named after the pointer", k == own or k.startswith(
            own + "_"), lambda: f"{k} for {names}")
    vc.ensure("in label order", notes == list(range(n)),
              lambda: f"{names} {keys} {notes}")


# ------------------------------------------------ editing, by induction
def edit(vc):
    """By induction over the items, for mappings of any size, depth and
    content: each item is kept once, in order; exactly the keys (or values)
    that match are edited, in label order, a key before what is nested in its
    value; nested mappings are edited likewise (the induction hypothesis)."""
    import inspect
    name = P + "multidict_dig_and_edit"
    f = vc.f(name)
    if not vc.symbolic:
        return edit_by_hand(vc, f)
    from multidict import MultiDict
    from pyvc.core import z3, Unsupported
    from pyvc.values import mkbool, mkint, int_expr, SymObj
    from pyvc import zseq as Z
    vc.ctx.abstract.add("opaque values")
    mtypes = vc.choice("mtypes", [(MultiDict,), (dict, MultiDict)])
    how = vc.choice("match", ["key", "predicate"])
    keys, keep = vc.flag("key_editor"), vc.flag("keep_values")
    stateful = vc.flag("setter")
    env = Z.Env([("dict", dict), ("multi", MultiDict), ("leaf", str)])
    maps = [n for n, t in env.kinds if issubclass(t, mtypes)]
    I = z3.IntSort()
    out = z3.Function("edited", Z.SI, I, Z.SI)
    cnt = z3.Function("edits", Z.SI, I, I)
    redit = z3.Function("edited_value", Z.V, I, Z.V)
    rcnt = z3.Function("edits_in", Z.V, I, I)
    S = z3.Function("set_to", I, Z.V, Z.V)
    pred = z3.Function("chosen", Z.V, Z.V, z3.BoolSort())
    target = env.any(env.fresh(Z.V, "target"))

    class Counter(SymObj):
        """the setter's own state: how often it has been called"""
        def __init__(self, n):
            self.n = n

        def vc_same(self, o):
            return mkbool(self.n == o.n)
    n0 = env.fresh(I, "before")
    given = Counter(n0) if stateful else env.any(env.fresh(Z.V, "given"))

    def setter(state, x):
        if not isinstance(state, Counter):
            raise Unsupported("setter with another state")
        v = env.any(S(state.n, env.enc(x)))
        state.n = z3.simplify(state.n + 1)
        return v

    def predicate(k, v, t):
        return mkbool(pred(k.e, v.e)) if t is target else None

    def spec(x, n):
        """(items, count) for one item"""
        k, v = Z.Item.key(x), Z.Item.val(x)
        m = k == target.e if how == "key" else pred(k, v)
        one = lambda k, v: z3.Unit(Z.Item.item(k, v))
        step = (lambda n: n + 1) if stateful else (lambda n: n)
        new = (lambda n, x: S(n, x)) if stateful else (lambda n, x: given.e)
        ismap = Z.kind(env, v, *maps)
        n1 = z3.If(m, step(n), n) if keys else n
        v2 = z3.If(ismap, redit(v, n1), v)
        n2 = z3.If(ismap, rcnt(v, n1), n1)
        kept = one(k, v2) if keep else z3.If(
            ismap, one(k, v2), z3.Empty(Z.SI))
        if keys:
            return z3.If(m, one(new(n, k), v2), kept), n2
        return z3.If(m, one(k, new(n2, v2)), kept), z3.If(m, step(n2), n2)
    vc.ctx.add(out(z3.Empty(Z.SI), n0) == z3.Empty(Z.SI))
    vc.ctx.add(cnt(z3.Empty(Z.SI), n0) == n0)

    def facts(P_, x):
        if not stateful:        # nothing to count
            a, b = spec(x, n0)
        else:
            a, b = spec(x, cnt(P_, n0))
        Q = z3.Concat(P_, z3.Unit(x))
        vc.ctx.add(out(Q, n0) == z3.Concat(out(P_, n0), a))
        vc.ctx.add(cnt(Q, n0) == b)
    args = dict(target=target, input_object=given,
                predicate=predicate if how == "predicate" else None,
                setter_function=setter if stateful else None,
                key_editor=keys, keep_values=keep, mtypes=mtypes)
    sig = inspect.signature(f)

    def again(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        b = b.arguments
        v = b["input_multidict"]
        for q, x in args.items():
            if q in ("input_object", "setter_function"):
                continue
            if b[q] is not x and b[q] != x:
                raise Unsupported("recursion of another kind")
        if not isinstance(v, Z.Any):
            raise Unsupported("recursion of another kind")
        n = n0
        if stateful:
            if b["setter_function"] is not setter:
                raise Unsupported("recursion of another kind")
            n = b["input_object"].n
            b["input_object"].n = rcnt(v.e, n)
        elif b["input_object"] is not given:
            raise Unsupported("recursion of another kind")
        return env.any(redit(v.e, n))
    vc.stub(name, again, "induction hypothesis: nested mappings are edited "
            "likewise")
    vc.ctx.stubs[MultiDict] = lambda: Z.ZDict(env)
    from dustgoggles.func import constant
    vc.ctx.stubs[constant] = lambda v: lambda *a, **k: v

    def state(entry, P_):
        s = {"output_multidict": Z.ZDict(env, out(P_, n0))}
        if stateful:
            s["input_object"] = Counter(cnt(P_, n0))
        return s
    vc.invariant("multidict_dig_and_edit", 0, Z.Prefix(state, facts))
    top = env.any(env.fresh(Z.V, "label"))
    vc.ctx.add(Z.kind(env, top.e, "multi"))
    bindable(f, top, **args)
    o = vc.run(lambda: f(top, **args))
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    if not isinstance(o.value, Z.ZDict):
        raise Unsupported("edited in another way")
    vc.ensure("every item edited as specified, in order", mkbool(
        o.value.e == out(Z.itemsof(top.e), n0)))


def bindable(f, *a, **k):
    import inspect
    from pyvc.core import Unsupported
    try:
        inspect.signature(f).bind(*a, **k)
    except TypeError as ex:
        raise Unsupported(f"{f.__qualname__}: the signature under contract "
                          f"is gone: {ex}")


def edit_by_hand(vc, f):
    """the same, on one mapping"""
    from multidict import MultiDict
    mtypes = vc.choice("mtypes", [(MultiDict,), (dict, MultiDict)])
    how = vc.choice("match", ["key", "predicate"])
    keys, keep = vc.flag("key_editor"), vc.flag("keep_values")
    stateful = vc.flag("setter")
    tree = random_tree(vc, "t", 0, ["A", "B", "C"], [1, 2, "A"])
    m = build(vc, tree, vc.choice("inner", ["multi", "multi", "dict"]))
    m = MultiDict(list(m.items()))
    before = repr(flat(m))
    want_calls, calls = [], []

    def setter(state, x):
        calls.append((state, x))
        return (len(calls), str(x)) if not keys else f"{len(calls)}.{x}"
    odd = (lambda k, v, t: k == "B" or v == 1) if how == "predicate" else None

    def spec(m):
        out = []
        for k, v in m.items():
            hit = odd(k, v, "A") if odd else k == "A"
            ismap = isinstance(v, mtypes)

            def new(x):
                if not stateful:
                    return "G"
                want_calls.append(x)
                n = len(want_calls)
                return (n, x) if not keys else f"{n}.{x}"
            if hit and keys:
                k = new(k)
            nested = spec(v) if ismap else v
            if not hit and (keep or ismap) or hit and keys:
                out.append((k, nested))
            elif hit:
                out.append((k, new(v if not ismap else nested)))
        return out
    want = spec(m)
    for i, x in enumerate(want_calls):
        if not isinstance(x, str):
            want_calls[i] = None
    o = vc.run(f, m, target="A", input_object="G", predicate=odd,
               setter_function=setter if stateful else None,
               key_editor=keys, keep_values=keep, mtypes=mtypes)
    vc.ensure("no error", o.ok, lambda: f"{o.exc!r} {tree}")

    def same(got, want):
        if isinstance(want, list) and hasattr(got, "items"):
            return len(got) == len(want) and all(
                k == q and same(v, w) for (k, v), (q, w) in zip(
                    got.items(), want))
        if isinstance(want, tuple) and len(want) == 2 and isinstance(
                want[0], int) and stateful and not keys:
            return got[0] == want[0] and (isinstance(want[1], list) or
                                          got[1] == str(want[1]))
        return got == want
    vc.ensure("edited as specified, in order", same(o.value, want),
              lambda: f"{o.value!r}, not {want!r}, of {m!r}")
    vc.ensure("the mapping given is not changed", repr(flat(m)) == before)


EDIT = [P + "multidict_dig_and_edit"]
contract("C20", "edit", EDIT, secs=5)(edit)
