"""C23: text objects hold exactly the text their labels point to."""
import itertools
import re
import warnings

from pyvc.api import contract, And, Or, Not, Implies

X = "pdr.loaders.text:"
H = "pdr.loaders._helpers:"
Q = "pdr.loaders.queries:"
CAP = 80000


def orthodox(t):
    """line endings of a text made \\n"""
    out, i = [], 0
    while i < len(t):
        if t[i] == "\r":
            out.append("\n")
            i += 2 if t[i + 1:i + 2] == "\n" else 1
        else:
            out.append(t[i])
            i += 1
    return "".join(out)


class Canon:
    def __init__(self, v):
        self.v = v


@contract("C23", "header-bytes", [X + "skeptically_load_header",
                                  X + "read_header"], secs=2)
def header_bytes(vc):
    """A header located by bytes is the Latin-1 text of exactly its declared
    bytes (of the first 80000 of them, or as many as the file has), with
    line endings made \\n."""
    f = vc.f(X + "read_header")
    size = vc.int("size", 0, 90000)
    start = vc.int("start", 0, 90500)
    length = vc.int("length", 0, 90500)
    props = {"start": start, "length": length, "as_rows": False}
    kind = vc.choice("kind", ["plain", "gzip", "bz2"])
    if vc.symbolic:
        from pyvc.nparr import SymFile
        from pyvc.sbytes import Decoded
        src = SymFile(size, kind)
        vc.stub("pdr.utils:check_cases", lambda fn: fn, "C11: the file itself")
        vc.stub("pdr.utils:decompress", lambda fn: src,
                "C11: yields the file's uncompressed bytes")
        vc.stub(H + "canonicalize_line_endings", Canon,
                "contract line-endings")
        o = vc.run(f, "h.txt", props)
        vc.ensure("no error", o.ok, lambda: repr(o.exc))
        vc.ensure("line endings are made orthodox", isinstance(o.value, Canon))
        t = o.value.v
        while isinstance(t, Canon):
            t = t.v
        vc.ensure("Latin-1 text of the file", isinstance(t, Decoded) and
                  t.bytes.src is src and t.encoding.lower().replace(
                      "_", "-") in ("iso-8859-1", "latin-1", "latin1"))
        b, left = t.bytes, size - start
        for n, ok in ((left, And(left > 0, left <= length, left <= CAP)),
                      (length, And(length <= CAP, Or(length < left))),
                      (CAP, And(CAP < length, CAP < left)),
                      (0, left <= 0)):
            vc.ensure("as many bytes as declared", Implies(ok, b.n == n))
        vc.ensure("from the declared start", Or(b.n == 0, b.off == start))
        return
    import os
    from . import e2e
    rng = __import__("random").Random(size)
    data = bytes(rng.choice(b"ab\r\n\xe9 ") for _ in range(min(
        size, 500))) * (size // 500 + 1)
    data = data[:size]
    fn = os.path.join(vc.tmp(), e2e.write(vc, "h.txt", data, kind))
    o = vc.run(f, fn, props)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    want = orthodox(data[start:][:min(length, CAP)].decode("latin1"))
    vc.ensure("as many bytes as declared", o.value == want, lambda:
              f"{str(o.value)[:60]!r} not {want[:60]!r}")


@contract("C23", "header-rows", [X + "skeptically_load_header"],
          bounded="concrete: random files of up to nine lines", secs=4,
          random=300)
def header_rows(vc):
    """A header located by lines is exactly its declared lines, whatever
    follows them, with line endings made \\n."""
    import os
    from . import e2e
    f = vc.f(X + "read_header")
    n = vc.count("lines", 0, 9, 60)
    eols = [b"\r\n", b"\n", b"\r"]
    mixed = vc.flag("mixed")
    e0 = vc.choice("eol", eols)
    data = b""
    for i in range(n):
        data += b" ".join(vc.choice(f"w{i}{j}", [
            b"alpha", b"x=1", b"", b"\xc3\xa9t\xc3\xa9", b"B", b"a\x0cb",
            b"\x0b\x1c\x1d\x1e", b"\xc2\x85\xe2\x80\xa8"]) for j in (0, 1))
        data += vc.choice(f"e{i}", eols) if mixed else e0
    tail = vc.choice("tail", [b"", b"no newline", b"\xff\xfe\x00\r\n\x80"])
    start, length = vc.count("start", 0, 9, 50), \
        vc.count("length", 0, 9, 50)
    kind = vc.choice("kind", ["plain", "plain", "gzip", "bz2", "zip"])
    fn = os.path.join(vc.tmp(), e2e.write(vc, "h.txt", data + tail, kind))
    o = vc.run(f, fn, {"start": start, "length": length, "as_rows": True})
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    text = orthodox((data + tail).decode("utf-8", "replace"))
    # nothing but line feeds and carriage returns ends a line
    want = "".join(re.findall(r"[^\n]*\n|[^\n]+$", text)[
        start:start + length])
    vc.ensure("declared lines", o.value == want,
              lambda: f"{o.value!r} not {want!r}")


@contract("C23", "line-endings", [H + "canonicalize_line_endings",
                                  H + "canonicalized"],
          bounded="concrete: every text of up to 8 characters of CR, LF and "
          "one other, and lists and tuples of them", secs=3, random=3)
def line_endings(vc):
    """Line endings are made \\n, nothing else of a text changes, and values
    that are no texts are returned as they are."""
    f = vc.f(H + "canonicalize_line_endings")
    texts = ["".join(t) for n in range(9)
             for t in itertools.product("\r\nx", repeat=n)]
    bad = [t for t in texts if f(t) != orthodox(t)]
    vc.ensure("texts", not bad, lambda: repr(bad[0]))
    sub = texts[::97]
    o = object()
    for make in (list, tuple):
        got = f(make(sub + [3, None, o, [("\r",)]]))
        vc.ensure("lists and tuples of texts", type(got) is make and
                  got == make([orthodox(t) for t in sub] +
                              [3, None, o, [("\r",)]]))
    for v in (None, 3, b"\r\n", {"a": "\r"}, o):
        vc.ensure("other values", f(v) is v)
    g = vc.f(H + "canonicalized")(lambda a, b=0: f"{a}\r{b}\r\n")
    vc.ensure("the decorated function", g(1, b=2) == "1\n2\n")


TXT = ["one line", "a\tb ", "", "END", "KEY = 5", "  x", '"q"']


def _text(vc, t):
    eol = vc.choice(f"{t}.eol", ["\r\n", "\n", "\r"])
    n = vc.count(f"{t}.n", 0, 6, 60)
    s = eol.join(vc.choice(f"{t}.{i}", TXT) for i in range(n))
    return s + (eol if vc.flag(f"{t}.last") else "")


@contract("C23", "e2e-text", ["pdr:read", X + "read_text",
                              X + "ignore_if_pdf"],
          bounded="concrete: random text objects", secs=3, random=200)
def e2e_text(vc):
    """A text object is the text of its file; a PDF is reported, not read."""
    from . import e2e
    _texts(vc, 1)


@contract("C23", "e2e-texts", ["pdr:read", X + "read_text"],
          bounded="concrete: one fixed product", secs=1, random=2)
def e2e_texts(vc):
    """A text object of several files is the list of their texts."""
    from . import e2e
    e2e.write(vc, "A.TXT", "alpha")
    e2e.write(vc, "B.TXT", "beta")
    lbl = e2e.pvl([("PDS_VERSION_ID", e2e.Raw("PDS3")),
                   ("RECORD_TYPE", e2e.Raw("STREAM")),
                   ("^TEXT", ("A.TXT", "B.TXT"))]) + "END\r\n"
    e2e.write(vc, "t.lbl", lbl)
    o = vc.run(lambda: e2e.load(e2e.read(vc, "t.lbl"), "TEXT"))
    vc.ensure("texts", o.ok and o.value == ["alpha", "beta"],
              lambda: repr(o))


@contract("C23", "texts", [X + "read_text", X + "ignore_if_pdf"],
          bounded="concrete: random lists of one to four files", secs=2,
          random=150)
def texts(vc):
    """Several files are read to the list of their texts, in order."""
    import os
    from . import e2e
    f = vc.f(X + "read_text")
    n = vc.count("files", 1, 4, 13)
    names, want = [], []
    for i in range(n):
        nm = f"T{i}." + vc.choice(f"ext{i}", ["TXT", "ASC", "TXT", "PDF"])
        t = _text(vc, f"t{i}")
        e2e.write(vc, vc.choice(f"case{i}", [nm, nm.lower()]), t)
        names.append(os.path.join(vc.tmp(), nm))
        want.append(None if nm.endswith("PDF") else orthodox(t))
    if vc.flag("gone"):
        names.insert(vc.int("where", 0, n), os.path.join(vc.tmp(), "no.txt"))
        o = vc.run(f, "TEXT", names)
        vc.ensure("a missing file is reported", not o.ok and
                  isinstance(o.exc, FileNotFoundError))
        return
    o = vc.run(f, "TEXT", names)
    vc.ensure("texts in order", o.ok and o.value == want,
              lambda: f"{o!r} not {want!r}")


def _texts(vc, n):
    from . import e2e
    names, texts = [], []
    for i in range(n):
        nm = f"T{i}." + vc.choice(f"ext{i}", ["TXT", "ASC", "TXT", "PDF"])
        t = _text(vc, f"t{i}")
        e2e.write(vc, vc.choice(f"case{i}", [nm, nm.lower()]), t)
        names.append(nm)
        texts.append(None if nm.endswith("PDF") else orthodox(t))
    obj = vc.choice("obj", ["TEXT", "DESCRIPTION_TEXT"])
    ptr = names[0] if n == 1 else tuple(names)
    lbl = e2e.pvl([("PDS_VERSION_ID", e2e.Raw("PDS3")),
                   ("RECORD_TYPE", e2e.Raw("STREAM")), (f"^{obj}", ptr)]) \
        + "END\r\n"
    e2e.write(vc, "t.lbl", lbl)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        get = (lambda d, x: d[x]) if names[0].endswith("PDF") else e2e.load
        o = vc.run(lambda: get(e2e.read(vc, "t.lbl"), obj))
    if names[0].endswith("PDF"):
        vc.ensure("a PDF is reported, not read", (
            not o.ok or o.value is None) and any(
            "t0.pdf" in str(w.message).lower() for w in ws))
        return
    vc.ensure("loads", o.ok, lambda: f"{o.exc!r}\n{lbl}")
    vc.ensure("text", o.value == texts[0],
              lambda: f"{o.value!r} not {texts[0]!r}")


@contract("C23", "e2e-header", ["pdr:read", X + "read_header",
                                Q + "table_position",
                                H + "_check_delimiter_stream"],
          bounded="concrete: random headers located by records, bytes or "
          "lines", secs=4, random=200)
def e2e_header(vc):
    """A HEADER object is exactly the text its label declares."""
    from . import e2e
    how = vc.choice("how", ["records", "bytes", "rows"])
    rec = vc.int("rec", 5, 30)
    skip = vc.int("skip", 0, 2) if how != "rows" else 0
    n = vc.int("n", 1, 4)
    obj = vc.choice("obj", ["HEADER", "IMAGE_HEADER", "TABLE_HEADER"])
    eol = vc.choice("eol", ["\r\n", "\n"])
    pool = "abcXYZ 0123=#\xe9\xb5"
    items = [("PDS_VERSION_ID", e2e.Raw("PDS3"))]
    b = [("HEADER_TYPE", e2e.Raw("TEXT"))]
    if how == "rows":
        lines = ["".join(pool[vc.index(f"c{i}.{j}", len(pool) - 2)]
                         for j in range(vc.int(f"w{i}", 0, 8))) + eol
                 for i in range(n + 3)]
        data = "".join(lines).encode()
        want = "".join(lines[:n])
        b += [(vc.choice("key", ["ROWS", "RECORDS"]), n)]
        ptr = vc.choice("ptr", [("h.txt", 1), "h.txt"])
        items += [("RECORD_TYPE", e2e.Raw("STREAM"))]
    else:
        text = "".join(pool[vc.index(f"c{j}", len(pool))]
                       if j % rec < rec - len(eol) else
                       eol[j % rec - rec + len(eol)]
                       for j in range(rec * (n + 1)))
        data = b"@" * (rec * skip) + text.encode("latin1") + b"\xff\0\r"
        items += [("RECORD_TYPE", e2e.Raw("FIXED_LENGTH")),
                  ("RECORD_BYTES", rec)]
        if how == "records":
            ptr, want = ("h.txt", skip + 1), text[:rec * n]
            b += [("RECORDS", n)]
            if vc.flag("both"):
                b.append(("BYTES", rec * n))
        else:
            off, k = vc.int("off", 0, 9), vc.int("k", 1, rec * n)
            ptr = ("h.txt", e2e.Raw(f"{rec * skip + off + 1} <BYTES>"))
            b += [("BYTES", k)]
            want = data[rec * skip:][off:off + k].decode("latin1")
    e2e.write(vc, "h.txt", data)
    lbl = e2e.pvl(items + [(f"^{obj}", ptr), (f"OBJECT {obj}", b)]) \
        + "END\r\n"
    e2e.write(vc, "t.lbl", lbl)
    o = vc.run(lambda: e2e.load(e2e.read(vc, "t.lbl"), obj))
    vc.ensure("loads", o.ok, lambda: f"{o.exc!r}\n{lbl}")
    want = orthodox(want)
    vc.ensure("text", o.value == want,
              lambda: f"{o.value!r} not {want!r}\n{lbl}")


@contract("C23", "e2e-label", ["pdr:read", X + "read_label"],
          bounded="concrete: random detached labels, three line endings",
          secs=3, random=100)
def e2e_label(vc):
    """The LABEL object of a product is its label's text up to its end."""
    from . import e2e
    eol = vc.choice("eol", ["\r\n", "\n", "\r"])
    items = [("PDS_VERSION_ID", e2e.Raw("PDS3"))]
    for i in range(vc.int("n", 0, 5)):
        items.append((f"K{i}", vc.choice(f"v{i}", [
            5, "some text", e2e.Raw("/* x */ 1"), "", (1, 2)])))
    text = e2e.pvl(items, eol=eol)
    e2e.write(vc, "t.lbl", text + "END" + eol + vc.choice(
        "after", ["", "JUNK = 1" + eol]))
    o = vc.run(lambda: e2e.load(e2e.read(vc, "t.lbl"), "LABEL"))
    vc.ensure("loads", o.ok, lambda: repr(o.exc))
    vc.ensure("text", o.value.startswith(orthodox(text)) and
              o.value[len(orthodox(text)):].strip() in ("", "END"),
              lambda: f"{o.value!r} not {text!r}")
