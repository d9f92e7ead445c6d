SEEDS = []


def seed(id, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=id.split("-")[0], edits=edits,
                      needs=needs, breaks=breaks, demo=demo))


P = "pdr/pdr.py"
H = "pdr/loaders/handlers.py"
Q = "pdr/loaders/queries.py"
U = "pdr/utils.py"

GIF = '''
from mini import *
from PIL import Image
import numpy as np


def gif(n):
    pal = [(i * 7 % 256, 255 - i, i) for i in range(64)]
    ims = []
    for k in range(n):
        a = (np.arange(12).reshape(3, 4) + k) % 64
        im = Image.fromarray(a.astype("u1"), "P")
        im.putpalette([x for c in pal for x in c])
        ims.append((im, np.array(pal, "u1")[a].transpose(2, 0, 1)))
    ims[0][0].save(os.path.join(DIR, "a.gif"), save_all=n > 1, duration=50,
                   append_images=[i for i, _ in ims[1:]], disposal=1,
                   optimize=False)
    return [w for _, w in ims]

'''
seed("C24-frame-digit", [(P, '''                seek = int(name.split("_")[-1])
''', '''                seek = int(name[-1])
''')],
     "a file of more than ten frames",
     "frame 12 is loaded from frame 2", GIF + '''
w = gif(13)
d = read("a.gif")
same(d["FRAME_2"], w[2])
same(d["FRAME_12"], w[12])
''')
seed("C24-first-frame", [(H, '''    if im.mode == 'P':
        # images with imbedded palettes (usually GIFs)
''', '''    if im.mode == 'P' and frame is None:
        # images with imbedded palettes (usually GIFs)
''')],
     "the first frame of a multi-frame file with a palette",
     "the frame's palette numbers are returned in place of its colours",
     GIF + '''
w = gif(3)
d = read("a.gif")
same(d["FRAME_1"], w[1])
same(d["FRAME_0"], w[0])
''')
seed("C24-channel-axis", [(H, '''        return np.ascontiguousarray(np.rollaxis(image, 2))
''', '''        return np.ascontiguousarray(np.swapaxes(image, 0, 2))
''')],
     "an image of several channels that is not square (or not symmetric)",
     "lines and samples are exchanged", '''
from mini import *
from PIL import Image
import numpy as np
a = np.arange(24, dtype="u1").reshape(2, 4, 3)
Image.fromarray(a, "RGB").save(os.path.join(DIR, "a.png"))
same(read("a.png")["IMAGE"], a.transpose(2, 0, 1))
''')
seed("C18-unsigned-beside-vector", [(H, '''            if arr.ndim == 1:
                dtype.append((body.dtype.names[i], arr.dtype))
''', '''            if arr.ndim == 1:
                dtype.append((body.dtype.names[i], body.dtype[i]))
''')],
     "a FITS table with a column of unsigned (or scaled) numbers beside a "
     "column of vectors",
     "large unsigned values come out negative", '''
from mini import *
from astropy.io import fits
import numpy as np
u = np.array([1, 40000, 65535], "u2")
v = np.arange(6, dtype="f4").reshape(3, 2)
t = fits.BinTableHDU.from_columns([
    fits.Column("U", "I", bzero=32768, array=u), fits.Column("V", "2E", array=v)],
    name="T")
fits.HDUList([fits.PrimaryHDU(), t]).writeto(os.path.join(DIR, "a.fits"))
d = read("a.fits")["T"]
assert d["U"].tolist() == [1, 40000, 65535], d
''')
seed("C18-falsy-cards", [(H, '''            if len(key) == 0:
                # placeholder card records
''', '''            if len(key) == 0 or val == "":
                # placeholder card records
''')],
     "a header with a card whose value is empty text",
     "the card is missing from the header", '''
from mini import *
from astropy.io import fits
import numpy as np
h = fits.PrimaryHDU(np.zeros((2, 2), "i2"))
h.header["NOTE"] = ("", "none given")
h.header["OTHER"] = 3
h.writeto(os.path.join(DIR, "a.fits"))
d = read("a.fits")
m = d.metaget("PRIMARY")
assert "NOTE" in m and m["NOTE"] == "" and m["OTHER"] == 3, m
''')
seed("C11-compressed-only", [(P, '''            blocks = filter(None, [self.metaget_(k) for k in compkeys])
''', '''            blocks = filter(None, [self.metaget_(min(compkeys))])
''')],
     "a product whose label describes a compressed file of which only the "
     "uncompressed copy is there",
     "the object is reported as missing", '''
from mini import *
import numpy as np
raw = np.arange(6, dtype=">i2")
put("a.img", raw.tobytes())
label("""
OBJECT = COMPRESSED_FILE
FILE_NAME = "a.zip"
END_OBJECT = COMPRESSED_FILE
OBJECT = UNCOMPRESSED_FILE
FILE_NAME = "a.img"
^IMAGE = "a.img"
OBJECT = IMAGE
LINES = 2
LINE_SAMPLES = 3
SAMPLE_TYPE = MSB_INTEGER
SAMPLE_BITS = 16
END_OBJECT = IMAGE
END_OBJECT = UNCOMPRESSED_FILE""")
same(read()["IMAGE"], raw.reshape(2, 3))
''')
seed("C05-prefix-rows", [(Q, '''    if "ROWS" not in block.keys():
        block["ROWS"] = block["LINES"]
''', '''    if "ROWS" not in block.keys():
        block["ROWS"] = block["LINE_SAMPLES"]
''')],
     "an implicitly defined line prefix table of an image with fewer lines "
     "than samples (or more)",
     "the table has a row per sample: rows are missing, or are read from "
     "beyond the image", '''
from mini import *
import numpy as np
L, S = 4, 2
rows = b"".join(bytes([i, 100 + i]) + bytes([7, 8]) for i in range(L))
put("a.img", rows)
put("pre.fmt", """OBJECT = COLUMN\\r
NAME = N\\r
DATA_TYPE = MSB_UNSIGNED_INTEGER\\r
START_BYTE = 1\\r
BYTES = 1\\r
END_OBJECT = COLUMN\\r
OBJECT = COLUMN\\r
NAME = M\\r
DATA_TYPE = MSB_UNSIGNED_INTEGER\\r
START_BYTE = 2\\r
BYTES = 1\\r
END_OBJECT = COLUMN\\r
END\\r
""")
label("""
^IMAGE = "a.img"
OBJECT = IMAGE
INTERCHANGE_FORMAT = BINARY
LINES = 4
LINE_SAMPLES = 2
LINE_PREFIX_BYTES = 2
SAMPLE_TYPE = MSB_UNSIGNED_INTEGER
SAMPLE_BITS = 8
ROW_BYTES = 2
^LINE_PREFIX_STRUCTURE = "pre.fmt"
END_OBJECT = IMAGE""")
t = read()["IMAGE_LINE_PREFIX_TABLE"]
same(t.values, [[i, 100 + i] for i in range(L)])
''')
seed("C12-contains-attributes", [(P, '''        return name in self.index
''', '''        return name in self.index or name in vars(self)
''')],
     "asking whether a product has an object of the name of one of Data's own "
     "attributes",
     "names that are not objects are reported as objects", '''
from mini import *
put("a.img", bytes(4))
label("""
^IMAGE = "a.img"
OBJECT = IMAGE
LINES = 2
LINE_SAMPLES = 2
SAMPLE_TYPE = MSB_UNSIGNED_INTEGER
SAMPLE_BITS = 8
END_OBJECT = IMAGE""")
d = read()
assert "IMAGE" in d
assert "filename" not in d and "specials" not in d
''')
