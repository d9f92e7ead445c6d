"""C03: declared sample types decode with their width, sign and byte order."""
import struct

from pyvc.api import contract, And, Or, Not, Implies

D = "pdr.datatypes:"
LITTLE = ("PC", "LSB", "VAX")
INTS = ["MSB_INTEGER", "LSB_INTEGER", "PC_INTEGER", "VAX_INTEGER",
        "MAC_INTEGER", "SUN_INTEGER", "INTEGER", "MSB_UNSIGNED_INTEGER",
        "LSB_UNSIGNED_INTEGER", "PC_UNSIGNED_INTEGER", "UNSIGNED_INTEGER",
        "VAX_UNSIGNED_INTEGER", "MAC_UNSIGNED_INTEGER",
        "SUN_UNSIGNED_INTEGER", "BOOLEAN", "LSB UNSIGNED INTEGER",
        "SUN INTEGER"]
FLOATS = {"IEEE_REAL": ">", "PC_REAL": "<", "FLOAT": ">", "REAL": ">",
          "MAC_REAL": ">", "SUN_REAL": ">", "IEEE REAL": ">"}
TEXTS = ["ASCII_REAL", "ASCII_INTEGER", "DATE", "CHARACTER", "TIME",
         "ASCII INTEGER"]
VOIDS = ["MSB_BIT_STRING", "LSB_BIT_STRING", "VOID", "BCD",
         "BINARY_CODED_DECIMAL"]
EBCDIC = ["EBCDIC", "EBCDIC_CHARACTER"]


def _order(dt):
    """'<' or '>' of a numpy dtype of itemsize > 1"""
    import sys
    o = dt.byteorder
    return {"=": "<" if sys.byteorder == "little" else ">"}.get(o, o)


def _is(vc, got, kind, size, order):
    """does the numpy type code `got` mean kind/size/order?"""
    import numpy as np
    if not isinstance(got, str):
        return False
    try:
        dt = np.dtype(got)
    except TypeError:
        return False
    return dt.kind == kind and dt.itemsize == size and (
        size == 1 or order is None or _order(dt) == order)


def _width(vc):
    """a declared width: each small width, or any other positive number"""
    w = vc.choice("width", [1, 2, 3, 4, 5, 6, 7, 8, 10, 16, None])
    if w is None:
        w = vc.int("w", 1, r=(9, 40))
        vc.assume(And(*[w != k for k in (1, 2, 3, 4, 5, 6, 7, 8, 10, 16)]))
        return w, False
    return w, True


@contract("C03", "integers", [D + "sample_types", D + "integer_code",
                              D + "determine_byte_order"])
def integers(vc):
    """Integer types have the declared width, sign and order for 1, 2, 4 and 8
    bytes, in numpy and in struct notation; other widths are rejected."""
    f = vc.f(D + "sample_types")
    name = vc.choice("name", INTS)
    w, small = _width(vc)
    npy = vc.flag("for_numpy")
    o = vc.run(f, name, w, npy) if npy else vc.run(f, name, w)
    fits = small and w in (1, 2, 4, 8)
    if not o.ok:
        vc.ensure("rejects only unrepresentable", And(
            not fits, isinstance(o.exc, NotImplementedError)))
        return
    vc.ensure("accepts only representable", fits)
    kind = "u" if "UNSIGNED" in name else "i"
    if name == "BOOLEAN":
        kind = "i"
    order = "<" if name.startswith(LITTLE) else ">"
    if npy:
        vc.ensure("type", _is(vc, o.value, kind, w, order),
                  lambda: f"{name} {w} -> {o.value}")
    else:
        c = o.value
        vc.ensure("struct type", c[0] == order and len(c) == 2
                  and struct.calcsize(c) == w
                  and (c[1].isupper()) == (kind == "u"),
                  lambda: f"{name} {w} -> {o.value}")


def _in(sub, s):
    from pyvc.values import Sym
    return s.contains(sub) if isinstance(s, Sym) else sub in s


def _starts(s, sub):
    from pyvc.values import Sym
    return s.startswith(sub) if isinstance(s, Sym) else s.startswith(sub)


@contract("C03", "any-integer-name", [D + "sample_types", D + "integer_code",
                                      D + "determine_byte_order"],
          branch_ms=60)
def any_integer_name(vc):
    """Whatever an integer type is called, it is little-endian exactly when
    its name starts with PC, LSB or VAX, and unsigned exactly when it says
    so."""
    f = vc.f(D + "sample_types")
    name = vc.str("name", pool=INTS + ["X_INTEGER", "VAXG_INTEGER",
                                       "A_LSB_INTEGER", "PC_X_INTEGER_PC"])
    vc.assume(_in("INTEGER", name))
    vc.assume(Not(_in("ASCII", name)))
    vc.assume(Not(_in(" ", name)))
    w = vc.choice("w", [1, 2, 4, 8])
    o = vc.run(f, name, w, True)
    vc.ensure("accepted", o.ok)
    uns = _in("UNSIGNED", name)
    le = Or(*[_starts(name, p) for p in LITTLE])
    for u, k in ((True, "u"), (False, "i")):
        for l, od in ((True, "<"), (False, ">")):
            here = And(uns if u else Not(uns), le if l else Not(le))
            vc.ensure("type", Implies(here, _is(vc, o.value, k, w, od)))


@contract("C03", "byte-order", [D + "determine_byte_order"])
def byte_order(vc):
    """Little-endian exactly for names starting with PC, LSB or VAX."""
    name = vc.str("name", pool=INTS + list(FLOATS) + ["", "P", "VA", "XPC"])
    o = vc.run(vc.f(D + "determine_byte_order"), name)
    le = Or(*[_starts(name, p) for p in LITTLE])
    vc.ensure("order", And(o.ok, Implies(le, o.value == "<"),
                           Implies(Not(le), o.value == ">")))


@contract("C03", "reals", [D + "sample_types"])
def reals(vc):
    """Real types are 4- or 8-byte floats of the declared order; IBM and VAX
    reals are raw words of the declared width; other widths are rejected."""
    f = vc.f(D + "sample_types")
    name = vc.choice("name", list(FLOATS) + ["VAX_REAL", "IBM_REAL"])
    w, small = _width(vc)
    npy = vc.flag("for_numpy")
    o = vc.run(f, name, w, npy)
    fits = small and w in ((4,) if name == "VAX_REAL" else (4, 8))
    if not o.ok:
        vc.ensure("rejects only unrepresentable", And(
            not fits, isinstance(o.exc, NotImplementedError)))
        return
    vc.ensure("accepts only representable", fits)
    if name in FLOATS:
        vc.ensure("type", _is(vc, o.value, "f", w, FLOATS[name]),
                  lambda: f"{name} {w} -> {o.value}")
        if not npy:
            vc.ensure("struct type", struct.calcsize(o.value) == w)
    else:
        vc.ensure("raw word", _is(vc, o.value, "u", w,
                                  "<" if name == "VAX_REAL" else ">"))


def _cat(letter, w):
    from pyvc import hooks
    return hooks.fstr(letter, (w, -1, "")) if not isinstance(w, int) else \
        f"{letter}{w}"


@contract("C03", "raw-and-text", [D + "sample_types"])
def raw_and_text(vc):
    """Text types are byte strings and bit strings, BCD, EBCDIC and void are
    raw bytes, of exactly the declared width, whatever it is."""
    f = vc.f(D + "sample_types")
    name = vc.choice("name", TEXTS + VOIDS + EBCDIC)
    w, small = _width(vc)
    o = vc.run(f, name, w, True)
    vc.ensure("accepted", o.ok)
    letter = "S" if name in TEXTS else "V"
    vc.ensure("code", o.value == _cat(letter, w))
    if small:
        vc.ensure("type", _is(vc, o.value, letter, w, None))


@contract("C03", "unknown-name", [D + "sample_types"])
def unknown_name(vc):
    """A name that is not a PDS3 data type is rejected."""
    f = vc.f(D + "sample_types")
    known = set(INTS) | set(FLOATS) | set(TEXTS) | set(VOIDS) | set(EBCDIC) \
        | {"VAX_REAL", "IBM_REAL"}
    name = vc.str("name", pool=["", "N/A", "COMPLEX", "IEEE_COMPLEX", "REALS",
                                "CHAR", "XIEEE_REAL", "PC_FLOAT", "VAXG_REAL",
                                "VAX_DOUBLE", "DATETIME"])
    vc.assume(Not(_in("INTEGER", name)))
    vc.assume(Not(_in(" ", name)))
    for k in known:
        vc.assume(name != k)
    o = vc.run(f, name, vc.choice("w", [1, 2, 4, 8, 12]), True)
    vc.ensure("rejected", not o.ok and isinstance(
        o.exc, (KeyError, NotImplementedError)))
