"""C10: attached labels are cut at their first end marker, wherever it is."""
import bz2
import gzip
import io
import os
import random
import zipfile

from pyvc.api import contract, And, Or, Not, Implies

U = "pdr.parselabel.utils:"
CHUNK = 50 * 1024
LIMIT = 1000 * 1024

# The end markers, as the library documents them: a line consisting of END
# (up to eight spaces may follow it before the end of the line; nine or more
# spaces after it count as the end of the line), or a run of null bytes.
FORMS = [[b"\r\n", b"E", b"N", b"D"] + [b" "] * k + [b"\r\n"]
         for k in range(9)] + \
        [[b"\r\n", b"E", b"N", b"D"] + [b" "] * 8, [b"\0"] * 3]
# ... and how far a marker may extend (padding up to the next 8 spaces)
LONG = FORMS + [[b"\r\n", b"E", b"N", b"D"] + [b" "] * k
                for k in range(9, 17)]


def _alts(forms):
    return [tuple(frozenset(c) for c in f) for f in forms]


def _matches(data, p, forms):
    for f in forms:
        if p + len(f) <= len(data) and all(
                data[p + i] in c for i, c in enumerate(f)):
            yield p + len(f)


class Src:
    """An open file of arbitrary content with its first marker at `at` (or
    with none)."""

    def __init__(self, vc, marked):
        self.vc = vc
        size = vc.int("size", 0, LIMIT + 20, pool=[
            0, 1, 3, 19, 20, 21, 22, 23, 40, 100, CHUNK - 1, CHUNK,
            CHUNK + 19, CHUNK + 20, CHUNK + 21, CHUNK + 60, 2 * CHUNK + 20,
            3 * CHUNK], r=(0, 4 * CHUNK))
        if marked:
            at = vc.int("at", 0, pool=[0, 1, 5, 15, 16, 17, 18, 19, 20, 21] + [
                n * CHUNK + 20 - d for n in (1, 2, 3) for d in range(-1, 9)],
                r=(0, 4 * CHUNK))
            kind = vc.int("kind", 0, len(FORMS) - 1)
            nl = vc.int("nl", 0, 1)
        self.size = size
        if vc.symbolic:
            from pyvc.nparr import SymFile
            from pyvc.core import z3
            from pyvc import sbytes as B
            f = SymFile(size, "plain", "content")
            self.file = f
            sz = size.e
            forms = _alts(FORMS)
            if marked:
                p = at.e
                vc.ctx.add(p >= 0)
                for i, a in enumerate(forms):
                    vc.ctx.add(z3.Implies(kind.e == i, z3.And(
                        p + len(a) <= sz, B.match_alt(f, p, a))))
                # at least the last byte read makes the marker visible
                B.add_universal(lambda q: z3.Not(z3.And(
                    q >= 0, q < p, B.match_at(f, q, forms, sz))))
                B.add_point(p)
                self.at = at
            else:
                B.add_universal(lambda q: z3.Not(z3.And(
                    q >= 0, B.match_at(f, q, forms, sz))))
            return
        rng = random.Random(size)
        fill = bytearray(rng.choice(b"AZ =9\nEND\r") for _ in range(
            min(size, 3000))) * (size // 3000 + 1)
        data = fill[:size]
        if marked:
            form = FORMS[kind]
            m = bytes(c[min(nl, len(c) - 1)] for c in form)
            vc.assume(at + len(m) <= size)
            data[at:at + len(m)] = m
        # no other marker before it
        q = 0
        while q < len(data):
            if marked and q >= at:
                break
            nxt = [x for x in (data.find(b"END", q), data.find(b"\0\0\0", q))
                   if x >= 0]
            if not nxt:
                break
            q = min(nxt)
            for d in (-1, 0):
                if q + d >= 0 and (not marked or q + d < at) and any(
                        _matches(data, q + d, FORMS)):
                    data[q] = ord("X")
            q += 1
        vc.assume(not marked or next(
            (True for _ in _matches(data, at, FORMS)), False))
        vc.assume(not any(any(_matches(data, q, FORMS)) for q in range(
            max(0, at - 20), at)) if marked else True)
        self.data = bytes(data)
        self.file = io.BytesIO(self.data)
        self.at = at if marked else None

    def is_prefix(self, got, lo, ends):
        """got is the text of the file's first n bytes, lo <= n, n <= some end
        that holds"""
        if self.vc.symbolic:
            from pyvc.core import z3
            from pyvc import sbytes as B
            if not isinstance(got, B.Decoded) or got.bytes.src is not \
                    self.file:
                return False
            return And(got.bytes.off == 0, got.bytes.n >= lo,
                       ends(got.bytes.n))
        if not isinstance(got, str):
            return False
        return len(got) >= lo and self.data[:len(got)] == got.encode(
            "latin1") and bool(ends(len(got)))

    def within(self, n):
        """n does not go beyond the marker"""
        if self.vc.symbolic:
            from pyvc.core import z3
            from pyvc import sbytes as B
            from pyvc.values import mkbool, int_expr
            p, ne = self.at.e, int_expr(n)
            return mkbool(z3.Or(*[
                z3.And(ne <= p + len(a), p + len(a) <= self.size.e,
                       B.match_alt(self.file, p, a)) for a in _alts(LONG)]))
        return any(n <= e for e in _matches(self.data, self.at, LONG))


@contract("C10", "first-marker", [U + "trim_label",
                                  U + "_scan_to_end_of_label"],
          weight=3, random=150, max_paths=6000, depth=900)
def first_marker(vc):
    """For every file content with a marker, wherever its first marker falls,
    the text is everything before that marker and nothing after it."""
    f = vc.f(U + "trim_label")
    s = Src(vc, True)
    strict = vc.bool("must")
    o = vc.run(f, s.file, raise_no_ending=strict)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    vc.ensure("the text up to the first marker, and nothing after it",
              s.is_prefix(o.value, s.at, s.within),
              lambda: f"marker at {s.at}; got {len(o.value)} characters")


@contract("C10", "no-marker", [U + "trim_label",
                               U + "_scan_to_end_of_label"],
          random=100, max_paths=3000, depth=900)
def no_marker(vc):
    """A file without any marker is all label, or reported as having no end
    when the caller asks for one."""
    f = vc.f(U + "trim_label")
    s = Src(vc, False)
    must = vc.flag("must")
    o = vc.run(f, s.file, raise_no_ending=must)
    if must:
        vc.ensure("reported", not o.ok and type(o.exc).__name__ ==
                  "InvalidAttachedLabel")
        return
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    vc.ensure("the whole text", s.is_prefix(o.value, s.size,
                                            lambda n: n == s.size))


ENDS = [b"END\r\n", b"END\n", b"END \r\n", b"END    \r\n", b"END \n",
        b"END        \r\n", b"END" + b" " * 40, b"END\r", b"\0\0\0",
        b"\0" * 40]


def _product(vc, eol, end, edge, delta):
    """An attached-label image whose END line starts `delta` bytes from
    `edge`.  Returns (file bytes, label text up to the marker, statements,
    image)."""
    import numpy as np
    from contracts import e2e
    L, S = vc.int("L", 1, 5), vc.int("S", 1, 5)
    n = eol.decode()
    items = [("PDS_VERSION_ID", e2e.Raw("PDS3")),
             ("RECORD_TYPE", e2e.Raw("FIXED_LENGTH")),
             ("RECORD_BYTES", e2e.Raw("@@@@@@@")),
             ("FILE_RECORDS", e2e.Raw("*******")),
             ("^IMAGE", e2e.Raw("(#######)")),
             ("PRODUCT_ID", "P"), ("NOTE", "The END is near")]
    block = [("OBJECT IMAGE", [
        ("LINES", L), ("LINE_SAMPLES", S), ("SAMPLE_BITS", 16),
        ("SAMPLE_TYPE", e2e.Raw("MSB_INTEGER"))])]
    head, tail = e2e.pvl(items, eol=n), e2e.pvl(block, eol=n)
    target = edge + delta
    pad = target - len(head) - len(tail)
    extra, body = [], ""
    i = 0
    while pad >= 100:
        extra.append((f"KEY_{i:06d}", "v" * 40))
        body += f'KEY_{i:06d} = "{"v" * 40}"{n}'
        pad, i = target - len(head) - len(tail) - len(body), i + 1
    w = "w" * max(0, pad - 9 - len(n))
    extra.append(("LAST", w))
    body += f'LAST = "{w}"{n}'
    text = head + body + tail
    start = len(text) + len(end) + vc.int("gap", 0, 30)
    text = text.replace("@@@@@@@", f"{start:7d}").replace("*******", f"{2:7d}")
    text = text.replace("#######", "2".rjust(7)).replace("(      2)",
                                                         "2        ")
    arr = np.frombuffer(vc.bytes("pixels", L * S * 2), ">i2").reshape(L, S)
    raw = text.encode() + end
    filler = (b"\r\nEND\r\nJUNK = 5\r\nEND\r\n" + vc.bytes("junk", 30))[
        :start - len(raw)]
    raw = raw + filler
    after = b"\r\nSTRAY = 6\r\nEND\r\n\xff\xfe" + bytes(range(128, 160))
    return raw + arr.tobytes() + after, text, items + extra, arr


@contract("C10", "attached", ["pdr:read"], bounded="concrete: attached-label "
          "images, END line at and around 0..20 bytes before/after each "
          "50 KiB boundary, ten end styles, three line endings, four "
          "compressions, label-like text after the marker", secs=12, weight=2)
def attached(vc):
    """The metadata of a product with an attached label is what its label
    says, its image is intact and its LABEL object is the label's text."""
    from contracts import e2e
    eol = vc.choice("eol", [b"\r\n", b"\r\n", b"\n", b"\r"])
    end = vc.choice("end", ENDS)
    edge = vc.choice("edge", [0, 700, CHUNK + 20, CHUNK, 2 * CHUNK + 20,
                              5 * CHUNK + 20])
    delta = vc.int("delta", -24, 6)
    if edge < 1000:
        edge, delta = 700, vc.int("delta0", 0, 300)
    kind = vc.choice("compression", ["plain", "plain", "gzip", "bz2", "zip"])
    data, text, items, arr = _product(vc, eol, end, edge, delta)
    name = e2e.write(vc, "prod.img", data, kind)
    try:
        d = e2e.read(vc, name)
        meta, params = d.metadata, list(d.metadata.keys())
        img = e2e.load(d, "IMAGE")
        label = e2e.load(d, "LABEL")
    except Exception as ex:
        vc.ensure("the product opens", False, repr(ex))
        return
    vc.ensure("keywords", params == [k for k, _ in items] + ["IMAGE"],
              lambda: f"{params[-4:]} for {[k for k, _ in items][-3:]}")
    bad = [(k, v, meta[k]) for k, v in items
           if isinstance(v, str) and meta[k] != v]
    vc.ensure("values", not bad, lambda: str(bad)[:200])
    vc.ensure("image", e2e.same(img, arr))
    want = text.replace("\r\n", "\n").replace("\r", "\n").rstrip()
    label = label.replace("\r\n", "\n").replace("\r", "\n")
    vc.ensure("label text", label.startswith(want)
              and len(label) <= len(want) + 20,
              lambda: f"{label[-60:]!r}")
