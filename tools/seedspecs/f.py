SEEDS = []


def seed(id, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=id.split("-")[0], edits=edits,
                      needs=needs, breaks=breaks, demo=demo))


T = "pdr/datatypes.py"
BH = "pdr/bit_handling.py"
DF = "pdr/pd_utils.py"
PV = "pdr/parselabel/pds3.py"
PU = "pdr/parselabel/utils.py"
F = "pdr/func.py"
SC = "pdr/_scaling.py"
DI = "pdr/loaders/dispatch.py"
Q = "pdr/loaders/queries.py"
P = "pdr/pdr.py"
LT = "pdr/loaders/text.py"

seed("C03-pc-unsigned", [(T, '''    if any(sample_type.startswith(s) for s in ("PC", "LSB", "VAX")):
''', '''    if sample_type.startswith(("PC_INTEGER", "PC_REAL", "LSB", "VAX")):
''')], "unsigned integers in PC order, wider than a byte",
     "PC_UNSIGNED_INTEGER is decoded big-endian", '''
from mini import *
from pdr.datatypes import sample_types
assert np.dtype(sample_types("PC_UNSIGNED_INTEGER", 2, True)) == "<u2"
assert np.dtype(sample_types("PC_INTEGER", 2, True)) == "<i2"
''')

seed("C03-wide-vax", [(T, '''    if sample_type == "VAX_REAL" and sample_bytes != 4:
''', '''    if sample_type == "VAX_REAL" and sample_bytes not in (4, 8):
''')], "a VAX_REAL of eight bytes",
     "a type that cannot be decoded is accepted", '''
from mini import *
from pdr.datatypes import sample_types
try:
    got = sample_types("VAX_REAL", 8, True)
except Exception:
    pass
else:
    raise AssertionError(got)
''')

TAB = '''
from mini import *


def table(data, rows, width, cols):
    put("t.dat", data)
    label("""RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = %d
^TABLE = "t.dat"
OBJECT = TABLE
INTERCHANGE_FORMAT = BINARY
ROWS = %d
ROW_BYTES = %d
COLUMNS = %d
%s
END_OBJECT = TABLE""" % (width, rows, width, cols.count("= COLUMN"), cols))
    return read().TABLE

'''
seed("C07-zero-hides", [(DF, '''            nonzero = absolute[absolute > 0]
            if len(nonzero) > 0:
                small = nonzero.min() < 1e-44
            else:
                small = False
''', '''            small = 0 < absolute.min() < 1e-44
''')], "a column with a zero and a number too small for a float32",
     "the small number becomes zero", TAB + '''
v = (0).to_bytes(4, "big") + (0x01100000).to_bytes(4, "big")
t = table(v, 2, 4, """OBJECT = COLUMN
NAME = A
DATA_TYPE = IBM_REAL
START_BYTE = 1
BYTES = 4
END_OBJECT = COLUMN""")
assert t["A"].tolist() == [0, 16.0 ** -64], t
''')

seed("C08-quantity-in-sequence", [(PV, '''            if ("<" in obj) and (">" in obj):
                return parse_pvl_quantity_statement(obj)
            elif obj[0] in ('(', '{'):
''', '''            if obj.rstrip().endswith(">"):
                return parse_pvl_quantity_statement(obj)
            elif obj[0] in ('(', '{'):
''')], "a quantity inside a sequence", "the quantity is kept as text", '''
from mini import *
from pdr.parselabel.pds3 import parse_pvl
m, _ = parse_pvl('A = ("x.dat", 5 <BYTES>)\\nB = 5 <KM>\\nEND\\n')
assert m["A"] == ("x.dat", {"value": 5, "units": "BYTES"}), m["A"]
assert m["B"] == {"value": 5, "units": "KM"}, m["B"]
''')

seed("C10-three-nulls", [(PU, '''    re.compile(b"\\x00{3}"),  # just null bytes, for odder cases
''', '''    re.compile(b"\\x00{4,}"),  # just null bytes, for odder cases
''')], "a label ended by exactly three null bytes",
     "the label is not cut and includes the data", '''
from mini import *
from pdr.parselabel.utils import trim_label
p = put("a.img", b"PDS_VERSION_ID = PDS3\\r\\nA = 5\\r\\n" + bytes(3) +
        b"DATA = 7\\r\\n" + b"x" * 500 + b"\\r\\nEND\\r\\n")
got = trim_label(p)
assert "DATA" not in got and "A = 5" in got, got
''')

seed("C14-plane-mask", [(SC, '''            stacked = np.rollaxis(np.ma.dstack(planes), 2)
''', '''            stacked = np.rollaxis(np.dstack(planes), 2)
''')], "an image scaled plane by plane that holds a special constant",
     "the pixels that equal the constant are no longer masked", '''
from mini import *
a = np.array([[[1, -9], [3, 4]], [[5, 6], [7, 8]]], ">i2")
put("x.img", a.tobytes())
label("""^IMAGE = "x.img"
OBJECT = IMAGE
LINES = 2
LINE_SAMPLES = 2
BANDS = 2
BAND_STORAGE_TYPE = BAND_SEQUENTIAL
SAMPLE_BITS = 16
SAMPLE_TYPE = MSB_INTEGER
SCALING_FACTOR = (2, 3)
OFFSET = (1, 0)
MISSING_CONSTANT = -9
END_OBJECT = IMAGE""")
got = read().get_scaled("IMAGE")
assert np.ma.getmaskarray(got).sum() == 1 and np.ma.getmaskarray(
    got)[0, 0, 1], got
assert got[1, 1, 1] == 24 and got[0, 1, 0] == 7, got
''')

seed("C16-series-header", [(DI, '''        and not any(val+"_HEADER" in pointer for val in table_words)
''', '''        and "TABLE_HEADER" not in pointer
''')], "a header of a spreadsheet, series or file",
     "the header is read as a table", '''
from mini import *
put("s.dat", "one line\\r\\nsecond line\\r\\n")
label("""RECORD_TYPE = STREAM
^SPREADSHEET_HEADER = ("s.dat", 1 <BYTES>)
OBJECT = SPREADSHEET_HEADER
BYTES = 10
HEADER_TYPE = TEXT
END_OBJECT = SPREADSHEET_HEADER""")
got = read()["SPREADSHEET_HEADER"]
assert isinstance(got, str) and got.strip() == "one line", repr(got)
''')

seed("C16-histogram-image", [(DI, '''        and "HISTOGRAM_IMAGE" not in pointer
''', '''        and pointer != "HISTOGRAM_IMAGE"
''')], "a histogram image with a qualified name",
     "the image is read as a table", '''
from mini import *
put("s.dat", bytes(range(6)))
label("""RECORD_TYPE = UNDEFINED
^RED_HISTOGRAM_IMAGE = "s.dat"
OBJECT = RED_HISTOGRAM_IMAGE
LINES = 2
LINE_SAMPLES = 3
SAMPLE_BITS = 8
SAMPLE_TYPE = MSB_UNSIGNED_INTEGER
END_OBJECT = RED_HISTOGRAM_IMAGE""")
same(read()["RED_HISTOGRAM_IMAGE"], [[0, 1, 2], [3, 4, 5]])
''')

seed("C20-fuzzy-zero", [(P, '''        for k, v in filter(lambda kv: kv[1] == peak, levratio.items()):
            return self.metaget(k)
''', '''        for k, v in filter(lambda kv: kv[1] == peak, levratio.items()):
            return self.metaget(k) or None
''')], "a closest keyword whose value is zero",
     "a fuzzy lookup loses a value of zero", '''
from mini import *
put("s.dat", bytes(6))
label("""^IMAGE = "s.dat"
MISSING_LINES = 0
OBJECT = IMAGE
LINES = 2
LINE_SAMPLES = 3
SAMPLE_BITS = 8
SAMPLE_TYPE = MSB_UNSIGNED_INTEGER
END_OBJECT = IMAGE""")
assert read().metadata.metaget_fuzzy("MISSING_LINE") == 0
''')

seed("C09-many-repeats", [(PV, '''    indexed_key = f"{key}_{pointer_range[0]}"
    pointer_range.pop(0)
''', '''    indexed_key = f"{key}_{pointer_range[0]}"
    if len(pointer_range) > 1:
        pointer_range.pop(0)
''')], "more definitions than pointers of the same repeated name",
     "two definitions get the same number", '''
from mini import *
from pdr.parselabel.pds3 import parse_pvl
m, _ = parse_pvl("^TABLE = 1\\n^TABLE = 2\\n" + "".join(
    f"OBJECT = TABLE\\nROWS = {i}\\nEND_OBJECT = TABLE\\n"
    for i in range(3)) + "END\\n")
assert [k for k, v in m.items() if not k.startswith("^")] == [
    "TABLE_0", "TABLE_1", "TABLE"], list(m.items())
''')
