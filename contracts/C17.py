"""C17: PDS4 labels unpack completely, in order; identifiers find the object
that carries them."""
import os
import warnings

from pyvc.api import contract, And, Or, Not, Implies, Iff
from contracts import e2e

L4 = "pdr.parselabel.pds4:"
D = "pdr.pdr:"
NS = ('xmlns="http://pds.nasa.gov/pds4/pds/v1" '
      'xmlns:img="http://pds.nasa.gov/pds4/img/v1" '
      'xmlns:own="http://example.org/own"')
TAGS = ["a", "b", "img:a", "offset", "own:b", "c"]
TEXTS = [("x", "x"), ("5", "5"), ("  two   words ", "two words"), ("", None),
         ("   ", None), ("0", "0"), ("&lt;&amp;", "<&"), ("\n  x\n ", "x"),
         ("one\n two", "one\n two"), ("^&#181;m", "^\u00b5m"), ("None", "None")]


# ------------------------------------------------------------------ bounded
def random_xml(vc, t="t", depth=0, tags=TAGS):
    """[(tag, children or (text as written, text meant), attribute?)]"""
    out = []
    for i in range(vc.int(t + ".n", 1, 5 if depth < 2 else 3)):
        u = f"{t}.{i}"
        tag = vc.choice(u + ".t", tags)
        attr = vc.choice(u + ".@", ["", "", "", ' unit="m"'])
        if depth < 3 and vc.choice(u + ".d", [0, 0, 1]):
            out.append((tag, random_xml(vc, u, depth + 1, tags), attr))
        else:
            out.append((tag, vc.choice(u + ".v", TEXTS), attr))
    return out


def written(nodes, style=0):
    out = []
    for tag, v, attr in nodes:
        if isinstance(v, list):
            out.append(f"<{tag}{attr}>{written(v, style)}</{tag}>")
        elif not v[0]:
            out.append(f"<{tag}{attr}/>")
        else:
            out.append(f"<{tag}{attr}>{v[0]}</{tag}>")
        if style:
            out.append("\n  <!-- c -->\n")
    return "".join(out)


def meant(nodes):
    """[(tag, text or children)], equal siblings next to one another"""
    order, groups = [], {}
    for tag, v, attr in nodes:
        if tag not in groups:
            order.append(tag)
        groups.setdefault(tag, []).append(
            meant(v) if isinstance(v, list) else v[1] if v[1] or not attr
            else [])
    return [(t, v) for t in order for v in groups[t]]


def flat(m):
    return [(k, flat(v) if hasattr(v, "items") else v) for k, v in m.items()]


def tags_of(tree):
    for k, v in tree:
        yield k
        if isinstance(v, list):
            yield from tags_of(v)


def search(tree, key):
    for k, v in tree:
        if k == key:
            return True, v
    for k, v in tree:
        if isinstance(v, list):
            hit = search(v, key)
            if hit[0]:
                return hit
    return False, None


def product(area, extra="", root="Product_Observational"):
    return f'''<?xml version="1.0" encoding="UTF-8"?>
<{root} {NS}><Identification_Area><logical_identifier>urn:x</logical_identifier
></Identification_Area>{extra}{area}</{root}>'''


ARRAY = """<Array_2D_Image>{id}<offset unit="byte">{at}</offset><axes>2</axes>
<axis_index_order>Last Index Fastest</axis_index_order><Element_Array>
<data_type>SignedMSB2</data_type></Element_Array><Axis_Array><axis_name>Line
</axis_name><elements>{n}</elements><sequence_number>1</sequence_number>
</Axis_Array><Axis_Array><axis_name>Sample</axis_name><elements>2</elements>
<sequence_number>2</sequence_number></Axis_Array></Array_2D_Image>"""
TABLE = """<Table_Binary>{id}<offset unit="byte">{at}</offset><records>{n}
</records><Record_Binary><fields>2</fields><groups>0</groups><record_length
unit="byte">4</record_length><Field_Binary><name>x</name><field_location
unit="byte">1</field_location><data_type>SignedMSB2</data_type><field_length
unit="byte">2</field_length></Field_Binary><Field_Binary><name>y</name>
<field_location unit="byte">3</field_location><data_type>SignedMSB2</data_type>
<field_length unit="byte">2</field_length></Field_Binary></Record_Binary>
</Table_Binary>"""
HEADER = """<Header>{id}<offset unit="byte">{at}</offset><object_length
unit="byte">{n}</object_length><parsing_standard_id>{std}</parsing_standard_id>
</Header>"""


@contract("C17", "labels", ["pdr:read", L4 + "unpack_to_multidict", L4 +
                            "reformat_pds4_tools_label",
                            "pdr.pds4_tools.utils.helpers:xml_to_dict"],
          bounded="concrete: PDS4 labels with random elements nested up to "
          "five deep", secs=12, random=400)
def labels(vc):
    """Every element of a PDS4 label appears in the metadata exactly once, at
    its level, repeated ones in document order, with its text; and lookups
    find what a search by hand finds."""
    tree = random_xml(vc)
    style = vc.choice("style", [0, 1])
    area = "<File_Area_Observational><File><file_name>x.dat</file_name>" \
        "</File>" + ARRAY.format(id="", at=0, n=1) + \
        "</File_Area_Observational>"
    text = product(area, f"<Observation_Area>{written(tree, style)}"
                   "</Observation_Area>")
    e2e.write(vc, "x.xml", text)
    e2e.write(vc, "x.dat", bytes(8))
    o = vc.run(lambda: e2e.read(vc, "x.xml"))
    vc.ensure("opens", o.ok, lambda: f"{o.exc!r}\n{text}")
    d = o.value
    got = flat(d.metadata)
    vc.ensure("one root", [k for k, v in got] == ["Product_Observational"],
              lambda: repr(got))
    vc.ensure("the areas in order", [k for k, v in got[0][1]] == [
        "Identification_Area", "Observation_Area", "File_Area_Observational"],
        lambda: repr(got))
    want = meant(tree)
    vc.ensure("every element, once, in its place", got[0][1][1][1] == want,
              lambda: f"{got[0][1][1][1]}\nwant {want}\n{text}")
    every = list(tags_of(got))
    from collections import Counter
    vc.ensure("counted", dict(d.metadata.fieldcounts) == dict(Counter(every)),
              lambda: f"{d.metadata.fieldcounts} {got}")
    for t in TAGS + ["missing"]:
        o = vc.run(d.metaget_, t, "absent")
        found, v = search(got, t)
        if hasattr(o.value, "items"):
            o.value = flat(o.value)
        vc.ensure("lookup", o.value == ("absent" if not found or v is None
                                        else v), lambda: f"{t} {got}")


@contract("C17", "unpack", [L4 + "unpack_to_multidict"], bounded="concrete: "
          "mappings of mappings, lists and tuples nested up to five deep",
          secs=5)
def unpack(vc):
    """unpack_to_multidict on any mapping: lists become repeated keys."""
    from collections import OrderedDict
    f = vc.f(L4 + "unpack_to_multidict")
    types = vc.choice("types", ["default", "ordered", "both"])

    def value(u, depth):
        k = vc.choice(u + ".k", ["leaf", "leaf", "map", "list"]
                      if depth < 5 else ["leaf"])
        if k == "leaf":
            v = vc.choice(u + ".v", [0, None, "", "x", 1.5, {"s"}])
            return v, [v]
        if k == "map":
            cls = vc.choice(u + ".c", [dict, OrderedDict])
            m, e = mapping(u, depth + 1, cls)
            if types == "ordered" and cls is dict:
                return m, [m]
            return m, [e]
        n = vc.int(u + ".n", 0, 3)
        vs = [value(f"{u}.{i}", depth + 1) for i in range(n)]
        seq = vc.choice(u + ".s", [list, tuple])(v for v, e in vs)
        return seq, [x for v, e in vs for x in e]

    def mapping(u, depth, cls):
        m, out = cls(), []
        for i in range(vc.int(u + ".m", 0 if depth else 1, 4)):
            k = vc.choice(f"{u}.{i}.key", ["a", "b", "c", "d"]) + str(i % 3)
            if k in m:
                continue
            m[k], es = value(f"{u}.{i}", depth)
            out += [(k, e) for e in es]
        return m, out
    m, want = mapping("t", 0, dict)
    before = repr(m)
    o = vc.run(f, m) if types == "default" else vc.run(
        f, m, (OrderedDict,) if types == "ordered" else (OrderedDict, dict))
    vc.ensure("no error", o.ok, lambda: f"{o.exc!r} {m}")

    def same(got, want):
        if isinstance(want, list):
            return hasattr(got, "getall") and len(got) == len(want) and all(
                k == q and same(v, w) for (k, v), (q, w) in zip(
                    got.items(), want))
        return got is want or got == want and type(got) is type(want)
    vc.ensure("every value, once, in order", same(o.value, want),
              lambda: f"{o.value!r} for {m}")
    vc.ensure("the mapping is not changed", repr(m) == before)


IDS = ["", "", "IMG", "T 1", "T_1", "label", "IMG_0", "h"]
NAMES_ = ["", "IMG", "my image", "my_image", "tab", "HEADER"]


def ident(vc, t):
    """(XML, identifier) of a structure"""
    i, n = vc.choice(t + ".id", IDS), vc.choice(t + ".name", NAMES_)
    x = (f"<name>{n}</name>" if n else "") + (
        f"<local_identifier>{i}</local_identifier>" if i else "")
    return x, i or n


@contract("C17", "identifiers", ["pdr:read", D + "Data._init_pds4", D +
                                 "Data._load_pds4"], random=250,
          bounded="concrete: up to five (now and then thirteen) arrays and "
          "tables in up to two files, "
          "with or without names and identifiers, repeated or not", secs=10)
def identifiers(vc):
    """The objects of a PDS4 product are listed in label order under their own
    identifiers, and each gives its own data, whatever else is loaded."""
    files = [[], []]
    for i in range(vc.count("n", 1, 5, 13)):
        files[vc.choice(f"f{i}", [0, 0, 1])].append(i)
    xml, want, num = "", [], {"ARRAY": 0, "TABLE": 0, "HEADER": 0}
    for j, objs in enumerate(files):
        if not objs:
            continue
        name = f"f{j}.dat"
        body, data = "", b""
        for i in objs:
            kind = vc.choice(f"kind{i}", ["ARRAY", "TABLE"])
            x, id_ = ident(vc, f"o{i}")
            n = vc.int(f"n{i}", 1, 3)
            at = len(data) + vc.int(f"gap{i}", 0, 2)
            data = data.ljust(at, b"\xff")
            vals = [[10 * i + 2 * r, 10 * i + 2 * r + 1] for r in range(n)]
            data += b"".join(v.to_bytes(2, "big") for r in vals for v in r)
            body += {"ARRAY": ARRAY, "TABLE": TABLE}[kind].format(
                id=x, at=at, n=n)
            want.append((id_ or f"{kind}_{num[kind]}", bool(id_), vals))
            num[kind] += 1
        e2e.write(vc, name, data)
        xml += "<File_Area_Observational><File><file_name>" \
            f"{name}</file_name></File>{body}</File_Area_Observational>"
    e2e.write(vc, "x.xml", product(xml))
    o = vc.run(lambda: e2e.read(vc, "x.xml"))
    vc.ensure("opens", o.ok, lambda: f"{o.exc!r}")
    d = o.value
    keys = list(d.keys())
    vc.ensure("the label last", keys.pop() == "label", lambda: repr(keys))
    own = [w[0].replace(" ", "_") for w in want]
    vc.ensure("one name each", len(set(keys)) == len(keys) == len(want)
              and "label" not in keys, lambda: f"{keys} for {own}")
    for k, w in zip(keys, own):
        vc.ensure("their own names, numbered if repeated",
                  k == w if own.count(w) == 1 and w != "label" else
                  k.startswith(w + "_") and k[len(w) + 1:].isdigit(),
                  lambda: f"{keys} for {own}")
    order = list(range(len(keys)))
    for i in range(len(order) - 1, 0, -1):
        j = vc.int(f"order{i}", 0, i)
        order[i], order[j] = order[j], order[i]
    import numpy as np
    if vc.flag("all"):
        d.load("all")
    for i in order:
        o = vc.run(lambda: d[keys[i]])
        vc.ensure("loads", o.ok, lambda: f"{keys[i]}: {o.exc!r}")
    for k, w in zip(keys, want):
        vc.ensure("its own data", np.asarray(d[k]).tolist() == w[2],
                  lambda: f"{k} of {keys} for {own}: {d[k]!r}, not {w[2]}")


@contract("C17", "fits", ["pdr:read", D + "Data._load_pds4", D +
                          "Data._find_fits_header_pds4_id"], random=150,
          bounded="concrete: up to two FITS files of up to three HDUs each, "
          "with any of their parts described by the label", secs=12)
def fits_products(vc):
    """In PDS4 products stored in FITS files, identifiers give the header or
    data at the place the label declares for them, in that file."""
    import io
    import numpy as np
    from astropy.io import fits
    xml, want, n = "", [], 0
    for j in range(vc.choice("files", [1, 1, 2])):
        hdus = []
        for i in range(vc.int(f"h{j}", 1, 3)):
            a = (np.arange(4, dtype=">i2") + 10 * i + 100 * j).reshape(2, 2)
            h = (fits.PrimaryHDU if not i else fits.ImageHDU)(a)
            h.header["MARK"] = 10 * i + 100 * j
            hdus.append((h, a))
        b = io.BytesIO()
        fits.HDUList([h for h, a in hdus]).writeto(b)
        e2e.write(vc, f"f{j}.fits", b.getvalue())
        with fits.open(io.BytesIO(b.getvalue())) as f:
            at = [(h.fileinfo()["hdrLoc"], h.fileinfo()["datLoc"]) for h in f]
        body = ""
        for i, (h, d) in enumerate(at):
            for part in (0, 1):
                if not vc.choice(f"has{j}.{i}.{part}", [0, 1, 1]):
                    continue
                name = vc.choice(f"id{j}.{i}.{part}", [
                    f"o{n}", f"o{n}", f"o{n - 1}_HEADER", f"o{n + 1}_HEADER"])
                if name in [w[0] for w in want]:
                    name = f"p{n}"
                n += 1
                x = f"<local_identifier>{name}</local_identifier>"
                if part:
                    body += ARRAY.format(id=x, at=d, n=2)
                else:
                    body += HEADER.format(id=x, at=h, n=d - h, std="FITS 3.0")
                want.append((name, part, hdus[i][1], 10 * i + 100 * j))
        if body:
            xml += "<File_Area_Observational><File><file_name>" \
                f"f{j}.fits</file_name></File>{body}</File_Area_Observational>"
    if not want:
        return
    e2e.write(vc, "x.xml", product(xml))
    o = vc.run(lambda: e2e.read(vc, "x.xml"))
    vc.ensure("opens", o.ok, lambda: f"{o.exc!r}")
    d = o.value
    names = [w[0] for w in want]
    vc.ensure("listed in order", list(d.keys()) == names + ["label"],
              lambda: f"{d.keys()} for {names}")
    order = list(range(len(names)))
    for i in range(len(order) - 1, 0, -1):
        j = vc.int(f"order{i}", 0, i)
        order[i], order[j] = order[j], order[i]
    for i in order:
        o = vc.run(lambda: d[names[i]])
        vc.ensure("loads", o.ok, lambda: f"{names[i]}: {o.exc!r}")
    for name, part, a, mark in want:
        v = d[name]
        if part:
            vc.ensure("its own data", np.asarray(v).tolist() == a.tolist(),
                      lambda: f"{name} of {names}: {v!r}, not {a!r}")
        else:
            vc.ensure("its own header", hasattr(v, "keys") and v.get("MARK")
                      == mark, lambda: f"{name} of {names}: {v!r}")


# -------------------------------------------------------------------- proof
@contract("C17", "unpack-proof", [L4 + "unpack_to_multidict"], random=0)
def unpack_proof(vc):
    """By induction over the pending items, for mappings of any size, depth
    and content: every value appears once, in order, under its key; lists and
    tuples become repeated keys, and nested mappings are unpacked likewise
    (the induction hypothesis)."""
    f = vc.f(L4 + "unpack_to_multidict")
    if not vc.symbolic:
        return unpack(vc)
    from collections import OrderedDict
    from multidict import MultiDict
    from pyvc.core import z3, Unsupported
    from pyvc.values import mkbool
    from pyvc import zseq as Z
    vc.ctx.abstract.add("opaque values")
    types = vc.choice("types", [(dict,), (OrderedDict, MultiDict)])
    env = Z.Env([("list", list), ("tuple", tuple), ("dict", dict),
                 ("ordered", OrderedDict), ("multi", MultiDict),
                 ("leaf", str)])
    rec = z3.Function("unpacked", Z.V, Z.V)
    flat = z3.Function("flattened", Z.SI, Z.SI)
    maps = [n for n, t in env.kinds if issubclass(t, types)]

    def unit(x):
        k, v = Z.Item.key(x), Z.Item.val(x)
        return z3.If(Z.kind(env, v, "list", "tuple"),
                     flat(Z.pairs(k, Z.elems(v))),
                     z3.If(Z.kind(env, v, *maps),
                           z3.Unit(Z.Item.item(k, rec(v))), z3.Unit(x)))
    env.hom(Z.SI, flat, unit, z3.Empty(Z.SI))
    top = env.any(env.fresh(Z.V, "label"))
    vc.ctx.add(Z.kind(env, top.e, "ordered"))
    every = flat(Z.itemsof(top.e))

    def again(v, *a, **k):
        got = a + tuple(k.values())
        if not isinstance(v, Z.Any) or (got or ((dict,),))[0] is not types \
                and (got or ((dict,),))[0] != types:
            raise Unsupported("recursion of another kind")
        return env.any(rec(v.e))
    vc.stub(L4 + "unpack_to_multidict", again, "induction hypothesis: nested "
            "mappings are unpacked likewise")
    vc.ctx.stubs[MultiDict] = lambda: Z.ZDict(env)

    def fresh(entry):
        if not isinstance(entry.get("items"), Z.ZSeq):
            raise Unsupported("pending items kept in another way")
        return {"items": Z.ZSeq(env.fresh(Z.SI, "pending"), env,
                                entry["items"].rev),
                "unpacked": Z.ZDict(env, env.fresh(Z.SI, "done"))}
    vc.invariant("unpack_to_multidict", "w0", Z.While(fresh, lambda now: mkbool(
        z3.Concat(now["unpacked"].e, flat(now["items"].e)) == every)))
    from contracts.C20 import bindable
    bindable(f, top, types)
    o = vc.run(lambda: f(top, types))
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    if not isinstance(o.value, Z.ZDict):
        raise Unsupported("unpacked in another way")
    vc.ensure("every value, once, in order", mkbool(o.value.e == every))
