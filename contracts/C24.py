"""C24: images in standard ('desktop') formats hold their file's pixels."""
import os

from pyvc.api import contract, And, Or, Not, Implies
from . import e2e

H = "pdr.loaders.handlers:"

# (format, extensions, pillow modes that the format stores without loss)
FORMATS = [
    ("PNG", [".png", ".PNG"], ["L", "RGB", "RGBA", "P", "I;16", "LA"]),
    ("BMP", [".bmp"], ["L", "RGB", "P"]),
    ("TIFF", [".tif", ".TIFF"], ["L", "RGB", "RGBA", "P", "F", "I", "I;16"]),
    ("GIF", [".gif", ".Gif"], ["P"]),
    ("WEBP", [".webp"], ["RGB", "RGBA"]),
    ("JPEG2000", [".jp2"], ["L", "RGB"]),
]
DEPTH = {"L": ("u1", ()), "RGB": ("u1", (3,)), "RGBA": ("u1", (4,)),
         "LA": ("u1", (2,)), "F": ("f4", ()), "I": ("i4", ()),
         "I;16": ("u2", ()), "P": ("u1", ())}


def picture(vc, t, mode, L, S, palette):
    """(pillow image, the array it should be read as)"""
    import numpy as np
    from PIL import Image
    dt, ch = DEPTH[mode]
    seed = vc.choice(t + ".seed", range(10 ** 6))
    r = np.random.default_rng(seed)
    shape = (L, S) + ch
    if mode == "P":
        a = r.integers(0, len(palette), shape).astype("u1")
        im = Image.fromarray(a, "P")
        im.putpalette([x for c in palette for x in c])
        want = np.array(palette, "u1")[a]
    else:
        a = r.integers(0, 256 if dt == "u1" else 30000, shape).astype(dt)
        if mode in ("RGBA", "LA"):
            # fully transparent pixels may lose their colour
            a[..., -1] = r.integers(1, 256, (L, S))
        if mode == "F":
            a = a / np.float32(8)
        im = Image.fromarray(a, mode) if mode != "I;16" else \
            Image.fromarray(a)
        want = a
    if want.ndim == 3:
        want = want.transpose(2, 0, 1)
    return im, want


@contract("C24", "files", ["pdr:read", "pdr:Data", H + "handle_compressed_image",
                           "pdr.pil_utils:skim_image_data",
                           "pdr.utils:check_primary_fmt"],
          bounded="concrete: random images in every format stored without "
          "loss, up to 9 by 9 pixels and five frames", random=300, secs=8)
def files(vc):
    """Every pixel of an image file is returned unchanged, one band per
    colour channel; the frames of a multi-frame file are distinct objects,
    numbered in file order, whatever order they are loaded in."""
    import warnings
    import numpy as np
    fmt, exts, modes = vc.choice("format", FORMATS)
    mode = vc.choice("mode", modes)
    L, S = vc.int("L", 1, 9), vc.int("S", 1, 9)
    colours = [(vc.int(f"p{i}.r", 0, 255), vc.int(f"p{i}.g", 0, 255), i * 9)
               for i in range(vc.choice("colours", [2, 3, 8]))]
    n = 1
    if fmt == "GIF" or fmt == "WEBP" and mode == "RGB":
        n = vc.choice("frames", [1, 1, 2, 3, 5])
    ims = [picture(vc, f"im{i}", mode, L, S, colours) for i in range(n)]
    # equal frames in a row may be stored once
    for (_, a), (_, b) in zip(ims, ims[1:]):
        vc.assume(not np.array_equal(a, b))
    name = vc.choice("file", ["x", "im.v1", "a b"]) + vc.choice("ext", exts)
    opt = {}
    if n > 1:
        opt = dict(save_all=True, append_images=[i for i, _ in ims[1:]],
                   duration=100)
        if fmt == "GIF":
            opt.update(disposal=1, optimize=False)
    if fmt == "WEBP":
        opt.update(lossless=True, exact=True)
    if fmt == "JPEG2000":
        opt.update(irreversible=False)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ims[0][0].save(os.path.join(vc.tmp(), name), fmt, **opt)
    what = f"{fmt} {mode} {L}x{S} {n}"
    if n == 1 and fmt != "WEBP" and vc.flag("labelled"):
        e2e.write(vc, "p.lbl", e2e.pvl([
            ("PDS_VERSION_ID", e2e.Raw("PDS3")), ("^IMAGE", name),
            ("OBJECT IMAGE", [("LINES", L), ("LINE_SAMPLES", S)])]) +
            "END\r\n")
        o = vc.run(lambda: e2e.load(e2e.read(vc, "p.lbl"), "IMAGE"))
        vc.ensure("loads", o.ok, lambda: f"{what} {o.exc!r}")
        vc.ensure("pixels", e2e.same(o.value, ims[0][1]),
                  lambda: f"{what} {o.value} not {ims[0][1]}")
        return
    o = vc.run(lambda: e2e.read(vc, name))
    vc.ensure("opens", o.ok, lambda: f"{what} {o.exc!r}")
    d = o.value
    names = ["IMAGE"] if n == 1 else [f"FRAME_{i}" for i in range(n)]
    vc.ensure("objects", list(d.keys()) == names,
              lambda: f"{what} {list(d.keys())}")
    vc.ensure("size", (d.metaget("width"), d.metaget("height")) == (S, L) and
              d.metaget("format") == fmt and d.standard == fmt)
    for i in vc.choice("order", [list(range(n)), list(range(n))[::-1]]):
        o = vc.run(lambda: e2e.load(d, names[i]))
        vc.ensure("loads", o.ok, lambda: f"{what} {o.exc!r}")
        vc.ensure("pixels", e2e.same(o.value, ims[i][1]),
                  lambda: f"{what} frame {i}: {o.value} not {ims[i][1]}")
    for i in range(n):
        vc.ensure("remembered", e2e.same(d[names[i]], ims[i][1]))


D = "pdr.pdr:"


class _Data:
    """the parts of a Data object these functions use"""


def _state(vc, standard, n, entries=None):
    cls = vc.f(D + "Data")
    d = cls.__new__(cls)
    put = object.__setattr__
    put(d, "index", [])
    put(d, "standard", standard)
    put(d, "debug", False)
    put(d, "filename", "/x/F.GIF")
    put(d, "_scaleflags", {})
    put(d, "loaders", {})
    put(d, "file_mapping", {})
    meta = {"n_frames": n, "MPEntry": entries}
    put(d, "metaget", lambda k, default=None, warn=True: default
        if meta.get(k) is None else meta[k])
    put(d, "metaget_", lambda k, default=None: default)
    return cls, d


@contract("C24", "pixels", [H + "handle_compressed_image"], random=200)
def pixels(vc):
    """For every image of any size and number of channels, element (band,
    line, sample) is channel `band` of the pixel in that line and column of
    the frame asked for -- and of the palette's colour where the image has a
    palette."""
    import numpy as np
    f = vc.f(H + "handle_compressed_image")
    vc.merge()
    mode = vc.choice("mode", ["L", "RGB", "RGBA", "P", "I;16", "F"])
    rank = 2 if mode in ("L", "I;16", "F", "P") else 3
    L, S = vc.int("L", 1, None if vc.symbolic else 5), \
        vc.int("S", 1, None if vc.symbolic else 5)
    B = vc.int("B", 1, None if vc.symbolic else 4)
    frame = vc.choice("frame", [None, 0, "some"])
    if frame == "some":
        frame = vc.int("k", 1, None if vc.symbolic else 9)

    if not vc.symbolic:
        return _real_pixels(vc, f, mode, min(L, 40), min(S, 40), frame)
    from pyvc.nparr import SArr
    from pyvc.values import SymObj

    class Im(SymObj):
        def __init__(self, mode, rank, tag):
            self.mode, self.palette = mode, "palette of " + tag
            self.seeks = []
            self.tag = tag
            self.a = SArr.from_get((L, S) + ((B,) if rank == 3 else ()),
                                   lambda ix: (tag,) + tuple(ix))

        def copy(self):
            return self.a

        @property
        def shape(self):
            return self.a.shape

        def __array__(self, dtype=None, copy=None):
            return self.a

        def __enter__(self):
            return self

        def __exit__(self, *_):
            return False

        def close(self):
            pass

        load = close

        def seek(self, k):
            self.seeks.append(k)

        def convert(self, m, palette=None, **k):
            vc.ensure("colours of the image's own palette", m == "RGB" and
                      palette == self.palette)
            return Im("RGB", 3, "coloured " + self.tag)
    im = Im(mode, rank, "file")
    from .C22 import patched, restore
    opened = []

    def fopen(fn, *a, **k):
        opened.append(fn)
        return im
    patched(vc, "PIL.Image:open", fopen, "pillow: the image of a file")
    try:
        o = vc.run(f, "x.png", frame) if frame is not None else vc.run(
            f, "x.png")
    finally:
        restore(vc)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    vc.ensure("the file itself", opened == ["x.png"])
    vc.ensure("the frame asked for", len(im.seeks) == (frame is not None) and
              And(*[k == frame for k in im.seeks]))
    a = o.value
    if mode == "P":
        rank = 3
    tag = "coloured file" if mode == "P" else "file"
    vc.ensure("rank", len(a.shape) == rank)
    b, l, s = vc.index("b", B), vc.index("l", L), vc.index("s", S)
    if rank == 3:
        vc.ensure("band first", And(a.shape[0] == B, a.shape[1] == L,
                                    a.shape[2] == S))
        got, want = a[b, l, s], (tag, l, s, b)
    else:
        vc.ensure("lines by samples", And(a.shape[0] == L, a.shape[1] == S))
        got, want = a[l, s], (tag, l, s)
    vc.ensure("pixel", len(got) == len(want) and got[0] == want[0] and
              And(*[x == y for x, y in zip(got[1:], want[1:])]),
              lambda: f"{got} not {want}")


def _real_pixels(vc, f, mode, L, S, frame):
    """the contract, on a real file of as many frames as needed"""
    n = 1 if frame is None else min(frame, 9) + 1 + vc.choice("more", [0, 1])
    if frame is not None:
        frame = min(frame, 9)
    palette = [(9 * i % 256, 255 - i, i) for i in range(256)]
    ims = [picture(vc, f"f{i}", mode, L, S, palette) for i in range(n)]
    # (only the kinds of picture are of interest here, not the formats)
    path = os.path.join(vc.tmp(), "x.tif")
    ims[0][0].save(path, "TIFF", save_all=True,
                   append_images=[im for im, _ in ims[1:]])
    o = vc.run(f, path, frame) if frame is not None else vc.run(f, path)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    want = ims[frame or 0][1]
    vc.ensure("rank", o.value.ndim == want.ndim)
    vc.ensure("band first" if want.ndim == 3 else "lines by samples",
              o.value.shape == want.shape,
              lambda: f"{o.value.shape} not {want.shape}")
    vc.ensure("pixel", e2e.same(o.value, want),
              lambda: f"{o.value} not {want}")


@contract("C24", "frames", [D + "Data._add_compressed_image_objects"],
          random=100)
def frames(vc):
    """A file of any number of frames has one object per frame, numbered from
    zero in file order; a file of one image has just that."""
    std = vc.choice("standard", ["GIF", "WEBP", "PNG", "TIFF", "BMP",
                                 "JPEG", "JPEG2000"])
    one = vc.flag("one")
    n = 1 if one else vc.int("n", 2, None if vc.symbolic else 40)
    cls, d = _state(vc, std, None if one and vc.flag("unsaid") else n)
    if vc.symbolic:
        from pyvc.values import SymObj

        class Index(SymObj):
            """an empty list, to which sequences of any length are added"""
            parts = ()

            def __iadd__(self, x):
                self.parts += (x,)
                return self

            def extend(self, x):
                self.parts += (x,)

            def append(self, x):
                self.parts += ([x],)
        object.__setattr__(d, "index", Index())
    o = vc.run(cls._add_compressed_image_objects, d)
    index = object.__getattribute__(d, "index")
    if vc.symbolic:
        parts = index.parts if isinstance(index, Index) else (index,)
    else:
        parts = (index,) if index else ()
    if one:
        vc.ensure("one image", o.ok and len(parts) == 1 and list(
            parts[0]) == ["IMAGE"])
        return
    if std not in ("GIF", "WEBP"):
        vc.ensure("refused", not o.ok and not parts and isinstance(
            o.exc, NotImplementedError))
        return
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    vc.ensure("frames", len(parts) == 1)
    seq = parts[0]
    k = vc.index("k", n)
    if vc.symbolic:
        import z3
        from pyvc.values import mkbool, int_expr, str_expr
        vc.ensure("one object per frame", seq.length() == n)
        want = z3.Concat(z3.StringVal("FRAME_"), z3.IntToStr(int_expr(k)))
        vc.ensure("numbered in file order", mkbool(str_expr(
            seq.getitem(k)) == want))
    else:
        vc.ensure("one object per frame", len(seq) == n)
        vc.ensure("numbered in file order", seq[k] == f"FRAME_{k}")


@contract("C24", "frame-number", [D + "Data.load"], random=300,
          bounded="symbolic: frame numbers 0-12 and around 99 and 999, of any "
          "number of frames")
def frame_number(vc):
    """Frame k of a file, for every k, is loaded from frame k; the one image
    of a file is loaded without asking for a frame; the frames of an MPO file
    are loaded by their numbers and its primary image from frame 0."""
    std = vc.choice("standard", ["GIF", "WEBP", "PNG", "TIFF", "MPO"])
    one = std in ("PNG", "TIFF") or vc.flag("one")
    k = 0 if one else vc.choice("k", [*range(13), 99, 100, 101, 999, 1000])
    n = 1 if one else vc.int("n", 2, None if vc.symbolic else 1200)
    if one:
        name, want = "IMAGE", None
    elif std == "MPO":
        name = vc.choice("name", ["IMAGE", "Undefined_", "Large_Thumbnail_"])
        want = k
        if name == "IMAGE":
            want = 0
        else:
            name += str(k)
    else:
        want = k
        name = f"FRAME_{k}"
    if not one:
        vc.assume(k < n)
    cls, d = _state(vc, std, None if one and vc.flag("unsaid") else n)
    object.__setattr__(d, "index", [name])
    calls = []

    def image(fn, frame=None):
        calls.append((fn, frame))
        return "pixels"
    from .C22 import patched, restore
    patched(vc, H + "handle_compressed_image", image, "contract pixels")
    put = []
    object.__setattr__(d, "_add_loaded_objects", put.append)
    try:
        o = vc.run(cls.load, d, name)
    finally:
        restore(vc)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    vc.ensure("one image is read, from the file", len(calls) == 1 and
              calls[0][0] == "/x/F.GIF")
    got = calls[0][1]
    if want is None:
        vc.ensure("the image", got is None)
    else:
        vc.ensure("the frame of that number", got is not None and
                  got == want, lambda: f"{got} not {want}")
    vc.ensure("kept under its name", put == [{name: "pixels"}])


MPTYPES = ["Undefined", "Large Thumbnail (VGA Equivalent)", "Unknown",
           "Large Thumbnail (Full HD Equivalent)", "Multi-Frame Image (Disparity)",
           "Multi-Frame Image (Multi-Angle)", "Baseline MP Primary Image"]


@contract("C24", "mpo", [D + "Data._add_compressed_image_objects",
                         D + "Data.load"], random=200,
          bounded="symbolic: files of two or three images of any of four "
          "kinds; concrete: up to five images of all kinds")
def mpo(vc):
    """Every image of an MPO file is an object of its own name, the primary
    image first, and each name is loaded from the frame it is listed for."""
    n = vc.choice("count", [2, 3] if vc.symbolic else [2, 3, 4, 5])
    types = [vc.choice(f"type{i}", MPTYPES[:4] if vc.symbolic else MPTYPES)
             for i in range(1, n)]
    entries = [{"Attribute": {"MPType": t}} for t in
               ["Baseline MP Primary Image"] + types]
    cls, d = _state(vc, "MPO", n, entries)
    o = vc.run(cls._add_compressed_image_objects, d)
    vc.ensure("no error", o.ok, lambda: repr(o.exc))
    index = list(object.__getattribute__(d, "index"))
    vc.ensure("one object per image", len(index) == n and len(set(index)) == n
              and index[0] == "IMAGE", lambda: repr(index))
    calls = []
    from .C22 import patched, restore
    patched(vc, H + "handle_compressed_image",
            lambda fn, frame=None: calls.append(frame) or f"frame {frame}",
            "contract pixels")
    put = []
    object.__setattr__(d, "_add_loaded_objects", put.append)
    try:
        for i, name in enumerate(index):
            o = vc.run(cls.load, d, name)
            vc.ensure("each name loads its frame", o.ok and calls[i:] == [i]
                      and put[i:] == [{name: f"frame {i}"}],
                      lambda: f"{name}: {calls} {o.exc!r}")
    finally:
        restore(vc)
