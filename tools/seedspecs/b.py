SEEDS = []


def seed(id, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=id.split("-")[0], edits=edits,
                      needs=needs, breaks=breaks, demo=demo))


PU = "pdr/parselabel/utils.py"
U = "pdr/utils.py"
D = "pdr/pdr.py"
F = "pdr/func.py"
S = "pdr/_scaling.py"
B = "pdr/browsify.py"
IMG = '''^IMAGE = %s
OBJECT = IMAGE
LINES = 2
LINE_SAMPLES = 2
SAMPLE_TYPE = UNSIGNED_INTEGER
SAMPLE_BITS = 8
END_OBJECT = IMAGE'''

seed("C10-word-end", [(PU, r'''    b"\nEND\n",  # mostly''',
                       r'''    b"END\n",  # mostly''')],
     "a label with bare line feeds and a line whose last word ends in END",
     "the label is cut at that line instead of at its end marker", '''
from mini import *
from pdr.parselabel.utils import trim_label
t = "PDS_VERSION_ID = PDS3\\nMISSION = ORBITAL_LEGEND\\nTARGET = MOON\\nEND\\n"
p = put("x.img", t.encode() + b"\\x80\\x81data")
got = trim_label(p)
assert got.strip() == t.strip(), got
''')
seed("C10-bigger-chunks", [(PU,
     '''        text, length = text + chunk, length + 50 * 1024''',
     '''        text, length = text + chunk, length + 64 * 1024''')],
     "an attached label longer than 800 kB",
     "the scan stops before the end marker and binary data are kept", '''
from mini import *
from pdr.parselabel.utils import trim_label
body = "PDS_VERSION_ID = PDS3\\r\\n" + "NOTE = ABC\\r\\n" * 75000
t = body + "END\\r\\n"
p = put("x.img", t.encode() + b"data" * 40000)
got = trim_label(p)
assert got.strip() == t.strip(), (len(got), len(t))
''')
seed("C11-zip-upper", [(U, '''    suffix = Path(filename).suffix.lower()
''', '''    suffix = Path(filename).suffix
''')],
     "a compressed data file whose extension is in upper case",
     "the compressed bytes are read as if they were the data", '''
from mini import *
import gzip
from pdr.utils import decompress
p = put("A.IMG.GZ", gzip.compress(b"abcdefgh"))
with decompress(p) as f:
    assert f.read() == b"abcdefgh"
''')
seed("C11-subfolders", [(U, '''                path.parent.iterdir(),''',
                         '''                path.parent.rglob("*"),''')],
     "a missing file, and a file of the same name in a subfolder",
     "another product's file is read instead of reporting a missing file", '''
from mini import *
from pdr.utils import check_cases
put("old/x.img", b"1234")
try:
    got = check_cases(DIR + "/X.IMG")
except FileNotFoundError:
    got = None
assert got is None, got
''')
seed("C12-load-all-stops", [(D, '''            try:
                self.load(name)
            except AlreadyLoadedError:
                continue''', '''            try:
                self.load(name)
            except AlreadyLoadedError:
                break''')],
     "loading everything after one object was already accessed",
     "objects listed after the loaded one stay unloaded", '''
from mini import *
put("x.img", bytes(range(8)))
label("""^A_IMAGE = "x.img"
^B_IMAGE = ("x.img", 5 <BYTES>)
""" + "\\n".join(f"""OBJECT = {o}_IMAGE
LINES = 2
LINE_SAMPLES = 2
SAMPLE_TYPE = UNSIGNED_INTEGER
SAMPLE_BITS = 8
END_OBJECT = {o}_IMAGE""" for o in "AB"))
d = read()
d["A_IMAGE"]
d.load("all")
assert d.unloaded() == (), d.unloaded()
same(d.B_IMAGE, [[4, 5], [6, 7]])
''')
seed("C12-reload-kept", [(D, '''            if v is not None:
                setattr(self, k, v)''', '''            if v is not None:
                self.__dict__.setdefault(k, v)''')],
     "a reload of an object after its file has changed",
     "a requested reload keeps the old value", '''
from mini import *
put("x.img", b"\\1\\2\\3\\4")
label("""^IMAGE = "x.img"
OBJECT = IMAGE
LINES = 2
LINE_SAMPLES = 2
SAMPLE_TYPE = UNSIGNED_INTEGER
SAMPLE_BITS = 8
END_OBJECT = IMAGE""")
d = read()
same(d["IMAGE"], [[1, 2], [3, 4]])
put("x.img", b"\\5\\6\\7\\7")
d.load("IMAGE", reload=True)
same(d["IMAGE"], [[5, 6], [7, 7]])
''')
seed("C13-explicit-none", [(F,
     '''        if qname not in args_to_get.intersection(querydict):
            continue''', '''        if qname not in require_args or (
            kwargdict.get(qname) is not None
        ):
            continue''')],
     "a parameter explicitly supplied as None",
     "the explicitly supplied value is overridden by a query", '''
from mini import *
from pdr.func import softquery
got = softquery(lambda a, b: None, {"a": lambda: 1, "b": lambda a: 2},
                {"a": None})
assert got["a"] is None and got["b"] == 2, got
''')
seed("C13-special-none", [(F, '''            if is_special is True:
                return special_result
''', '''            if is_special is True and special_result is not None:
                return special_result
''')],
     "a special case whose answer is None",
     "the general answer replaces the special case's", '''
from mini import *
from pdr.func import specialize
f = specialize(lambda x: x, lambda x: (x > 2, None))
assert f(1) == 1
assert f(3) is None
''')
seed("C14-infinity", [(S, '''    if np.any(~np.isfinite(obj.data)):''',
                       '''    if np.any(np.isnan(obj.data)):''')],
     "a float image containing infinities but no NaN",
     "infinite pixels are not masked", '''
from mini import *
a = np.array([[1, 2], [np.inf, 4]], dtype=">f4")
put("x.img", a.tobytes())
label("""^IMAGE = "x.img"
OBJECT = IMAGE
LINES = 2
LINE_SAMPLES = 2
SAMPLE_TYPE = IEEE_REAL
SAMPLE_BITS = 32
SCALING_FACTOR = 2
END_OBJECT = IMAGE""")
g = read().get_scaled("IMAGE")
assert np.ma.getmaskarray(g).tolist() == [[False, False], [True, False]], g
''')
seed("C14-negative-offset", [(S, '''    if (scale == 1) and (offset == 0):''',
                              '''    if scale == 1 and not offset > 0:''')],
     "an image with a negative OFFSET and no scaling factor",
     "the offset is not applied", '''
from mini import *
put("x.img", b"\\1\\2\\3\\4")
label("""^IMAGE = "x.img"
OBJECT = IMAGE
LINES = 2
LINE_SAMPLES = 2
SAMPLE_TYPE = UNSIGNED_INTEGER
SAMPLE_BITS = 8
OFFSET = -3
END_OBJECT = IMAGE""")
same(read().get_scaled("IMAGE"), [[-2, -1], [0, 1]])
''')
seed("C15-fill-channel", [(B,
     '''        [masked_array[:, :, ix].filled(color[ix]) for ix in range(3)]
    )''', '''        [masked_array[:, :, ix].filled(color[min(ix, 1)])
         for ix in range(3)]
    )''')],
     "a masked three-band image and a fill colour whose last two differ",
     "masked pixels are drawn in another colour", '''
from mini import *
from pdr.browsify import colorfill_maskedarray
m = np.ma.masked_array(np.zeros((2, 2, 3), "u1"),
                       np.ones((2, 2, 3), bool))
got = colorfill_maskedarray(m, (9, 8, 7))
assert got[0, 0].tolist() == [9, 8, 7], got
''')
seed("C15-float-in-place", [(B, '''        if inplace is True:
            image = np.clip(image, minimum, maximum, out=image)''',
     '''        if inplace is True or image.dtype.kind == "f":
            image = np.clip(image, minimum, maximum, out=image)''')],
     "a float array rendered with clipping",
     "rendering modifies the caller's array", '''
from mini import *
from pdr.browsify import eightbit
a = np.arange(200, dtype="f4").reshape(10, 20)
b = a.copy()
eightbit(a, (10, 10))
same(a, b)
''')
seed("C16-folder-suffix", [("pdr/loaders/utility.py",
     '''    return any(map(is_this_kind_of_extension, Path(filename.lower()).suffixes))''',
     '''    return any(map(is_this_kind_of_extension,
                   Path(filename.lower()).suffixes)) or any(
        filename.lower().startswith(ext, -len(ext) - 3)
        for ext in kind_extensions
    )''')],
     "a file name without a separator after something like an extension",
     "a file is taken for another kind on account of part of its suffix", '''
from mini import *
from pdr.loaders.utility import looks_like_this_kind_of_file as f
from pdr.loaders.utility import FITS_EXTENSIONS
assert not f("table.fitted", FITS_EXTENSIONS)
assert not f("/a.fit/ab", FITS_EXTENSIONS)
assert f("x.FIT", FITS_EXTENSIONS)
''')
seed("C16-tiff-document", [("pdr/loaders/utility.py",
     '''        and ("IMAGE" not in pointer)
        and ("DOCUMENT" not in pointer)
''', '''        and not ("IMAGE" in pointer and "DOCUMENT" in pointer)
''')],
     "an object whose name has TIFF in it, and IMAGE or DOCUMENT",
     "such an object is no longer listed", '''
from mini import *
put("x.img", b"\\1\\2\\3\\4")
label("""^TIFF_DOCUMENT = "x.tif"
^IMAGE = "x.img"
OBJECT = IMAGE
LINES = 2
LINE_SAMPLES = 2
SAMPLE_TYPE = UNSIGNED_INTEGER
SAMPLE_BITS = 8
END_OBJECT = IMAGE""")
assert "TIFF_DOCUMENT" in read().keys()
''')
seed("C17-identical-siblings", [("pdr/parselabel/pds4.py",
     '''            items += [(k, e) for e in reversed(v)]''',
     '''            # the same text several times says nothing new
            texts = dict.fromkeys(v) if all(
                isinstance(e, str) for e in v) else v
            items += [(k, e) for e in reversed(list(texts))]''')],
     "repeated siblings with the same text",
     "repetitions are dropped", '''
from mini import *
from collections import OrderedDict as O
from pdr.parselabel.pds4 import unpack_to_multidict
got = unpack_to_multidict(O(a=O(b=["x", "y", "x"])), (O,))
assert got["a"].getall("b") == ["x", "y", "x"], got
''')
seed("C17-first-header", [(D,
     '''            if meta['offset'] + meta['object_length'] == start_byte:''',
     '''            if meta['offset'] + meta['object_length'] <= start_byte:''')],
     "a product with a header object before that of the loaded data",
     "a header is stored under the identifier of another one", '''
from mini import *
from pdr.pdr import Data
from pdr.pds4_tools.reader.header_objects import HeaderStructure


class D:
    _pds4_structures = {}


for n, o in (("h1", 0), ("h2", 5760)):
    h = HeaderStructure.__new__(HeaderStructure)
    h.meta_data = {"offset": o, "object_length": 2880}
    h.parent_filename = "x.fits"
    D._pds4_structures[n] = h
got = Data._find_fits_header_pds4_id(D, "x.fits", 8640)
assert got == "h2", got
''')
seed("C18-stub-data", [("pdr/loaders/handlers.py",
     '''        info[hinfo['hdrLoc']] = baserec | {'part': 'header'}''',
     '''        info.setdefault(hinfo['hdrLoc'], baserec | {'part': 'header'})''')],
     "a label pointing to the header of the HDU after one without data",
     "the empty data of the HDU before are returned", '''
from mini import *
from astropy.io import fits
from pdr.loaders.handlers import hdu_byte_index
fits.HDUList([fits.PrimaryHDU(), fits.ImageHDU(np.ones((2, 2)), name="Q")]
             ).writeto(DIR + "/x.fits")
got = hdu_byte_index(DIR + "/x.fits")
assert got[2880]["ix"] == 1 and got[2880]["part"] == "header", got
''')
seed("C18-second-match", [("pdr/loaders/queries.py",
     '''        return matches[0]
''', '''        return max(matches)
''')],
     "consecutive HDUs without data, located by block number",
     "the header of the HDU after is returned", '''
from mini import *
from pdr.loaders.queries import get_fits_start_byte
from astropy.io import fits
fits.HDUList([fits.PrimaryHDU(), fits.ImageHDU(name="A"),
              fits.ImageHDU(name="B")]).writeto(DIR + "/x.fits")
hd = fits.open(DIR + "/x.fits")
got = get_fits_start_byte("A_HEADER", ("x.fits", 2), DIR + "/x.fits", hd)
assert got == 2880, got
''')
seed("C19-instrument-only", [("pdr/formats/checkers.py",
     '''        identifiers["INSTRUMENT_ID"] == "DLRE"
        and identifiers["PRODUCT_TYPE"] in ("GCP", "PCP", "PRP")''',
     '''        identifiers["INSTRUMENT_ID"] == "DLRE"
        and identifiers["PRODUCT_TYPE"] in "GCP, PCP, PRP"''')],
     "a DLRE product with no product type",
     "the loader of another product type is used", '''
from mini import *
from unittest import mock
from collections import defaultdict
from pdr.formats import checkers
ids = defaultdict(str, INSTRUMENT_ID="DLRE")
with mock.patch("pdr.formats.diviner.diviner_l4_table_loader") as m:
    got = checkers.check_special_table_reader(ids, "TABLE", "x.tab", None,
                                              {}, 0)
assert got == (False, None), got
''')
seed("C19-places", [("pdr/formats/checkers.py",
     '''        identifiers["DATA_SET_ID"] == "ODY-M-GRS-5-ELEMENTS-V1.0"
        and name == "TABLE"''',
     '''        identifiers["DATA_SET_ID"].startswith("ODY-M-GRS-5-ELEMENTS")
        and "TABLE" in name''')],
     "a product of another version of the data set",
     "its tables are read by the special loader", '''
from mini import *
from unittest import mock
from collections import defaultdict
from pdr.formats import checkers
for dsid, name in (("ODY-M-GRS-5-ELEMENTS-V2.0", "TABLE"),
                   ("ODY-M-GRS-5-ELEMENTS-V1.0", "MAP_TABLE")):
    ids = defaultdict(str, DATA_SET_ID=dsid)
    with mock.patch("pdr.formats.odyssey.map_table_loader"):
        got = checkers.check_special_table_reader(ids, name, "x.tab", None,
                                                  {}, 0)
    assert got == (False, None), got
''')
seed("C20-column-reserved", [("pdr/pd_utils.py",
     '''            name = f"RESERVED_{field_group['START_BYTE'].iloc[0]}"''',
     '''            df.loc[field_group.index, column] = [
                f"RESERVED_{b}" for b in field_group["START_BYTE"]
            ]
            continue''')],
     "reserved columns of two containers with the same START_BYTE",
     "two columns get the same name", '''
from mini import *
import pandas as pd
from pdr.pd_utils import reindex_df_values
df = pd.DataFrame({"NAME": ["RESERVED", "A", "RESERVED"],
                   "START_BYTE": [1, 2, 1]})
got = reindex_df_values(df)["NAME"].tolist()
assert len(set(got)) == 3, got
''')
seed("C20-pointer-count", [("pdr/parselabel/pds3.py",
     '''                        ["STRUCTURE", "PDS_OBJECT"]):''',
     '''                        ["STRUCTURE", "PDS_OBJECT", "DOCUMENT"]):''')],
     "a label with two pointers of one name",
     "the second object of that name can not be reached", '''
from mini import *
from pdr.parselabel.pds3 import parse_pvl
import warnings
m, p = parse_pvl("""PDS_VERSION_ID = PDS3
^TEXT_DOCUMENT = "A.TXT"
^TEXT_DOCUMENT = "B.TXT"
END
""")
assert list(m.keys())[1:] == ["^TEXT_DOCUMENT_0", "^TEXT_DOCUMENT_1"], m
''')
