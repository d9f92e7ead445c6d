SEEDS = []


def seed(id, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=id.split("-")[0], edits=edits,
                      needs=needs, breaks=breaks, demo=demo))


IM = "pdr/loaders/image.py"
Q = "pdr/loaders/queries.py"
seed("C01-bil-suffix-band", [(IM, '''        image = image.reshape(lines, bands, samples)
        image = np.moveaxis(image, 0, 1)''', '''        image = image.reshape(bands, lines, samples) \\
            if lines == bands else np.moveaxis(
                image.reshape(lines, bands, samples), 0, 1)''')],
     "a line-interleaved image with as many lines as bands",
     "bands and lines of a square BIL image are exchanged", '''
from mini import *
a = np.arange(3 * 3 * 4, dtype="u1").reshape(3, 3, 4)   # line, band, sample
put("x.img", a.tobytes())
label("""RECORD_BYTES = 4
^IMAGE = "x.img"
OBJECT = IMAGE
LINES = 3
LINE_SAMPLES = 4
BANDS = 3
BAND_STORAGE_TYPE = LINE_INTERLEAVED
SAMPLE_TYPE = UNSIGNED_INTEGER
SAMPLE_BITS = 8
END_OBJECT = IMAGE""")
same(read()["IMAGE"], np.moveaxis(a, 0, 1))
''')
seed("C01-two-axplanes", [(IM, '''                aslice.append(slice(None, -count))''',
     '''                aslice.append(slice(
                    None, image.shape[axn] - count
                    - (props.get(f"prefix_{ax}s") or 0)))''')],
     "a qube with both prefix and suffix planes on the same axis",
     "too many planes are cut off at the end", '''
from mini import *
a = np.arange(5 * 3 * 2, dtype=">i2").reshape(5, 3, 2)  # band line sample
put("x.qub", a.tobytes())
label("""RECORD_BYTES = 2
^QUBE = "x.qub"
OBJECT = QUBE
AXES = 3
AXIS_NAME = (SAMPLE, LINE, BAND)
CORE_ITEMS = (2, 3, 2)
CORE_ITEM_BYTES = 2
CORE_ITEM_TYPE = MSB_INTEGER
PREFIX_ITEMS = (0, 0, 2)
SUFFIX_ITEMS = (0, 0, 1)
BAND_PREFIX_ITEM_BYTES = 2
BAND_SUFFIX_ITEM_BYTES = 2
END_OBJECT = QUBE""")
same(read()["QUBE"], a[2:4])
''')
seed("C01-linefix-reshape", [(IM, '''        suffix = image[:, -props["line_suffix_pix"] :]
        image = image[:, : -props["line_suffix_pix"]]
    if props.get("line_prefix_pix", 0) > 0:''', '''        suffix = image[:, props["ncols"] :]
        image = image[:, : props["ncols"]]
    if props.get("line_prefix_pix", 0) > 0:''')],
     "a single-band image with both a line prefix and a line suffix",
     "the image is cut at the wrong columns", '''
from mini import *
a = np.arange(4 * 9, dtype="u1").reshape(4, 9)
put("x.img", a.tobytes())
label("""RECORD_BYTES = 9
^IMAGE = "x.img"
OBJECT = IMAGE
LINES = 4
LINE_SAMPLES = 4
LINE_PREFIX_BYTES = 3
LINE_SUFFIX_BYTES = 2
SAMPLE_TYPE = UNSIGNED_INTEGER
SAMPLE_BITS = 8
END_OBJECT = IMAGE""")
same(read()["IMAGE"], a[:, 3:7])
''')
seed("C02-axname-by-position", [(Q, '''            fixbytes = itemcount[props["axnames"].index(ax)] * itembytes''',
     '''            fixbytes = itemcount[
                ("SAMPLE", "LINE", "BAND").index(ax)
                if isinstance(itemcount, tuple) and len(itemcount) == 3
                else props["axnames"].index(ax)
            ] * itembytes''')],
     "a qube with suffix planes whose axes are not in (SAMPLE, LINE, BAND) order",
     "the number of suffix planes is taken from another axis", '''
from mini import *
a = np.arange(4 * 3 * 3, dtype=">i2").reshape(3, 3, 4)  # line band sample+1
put("x.qub", a.tobytes())
label("""RECORD_BYTES = 2
^QUBE = "x.qub"
OBJECT = QUBE
AXES = 3
AXIS_NAME = (SAMPLE, BAND, LINE)
CORE_ITEMS = (4, 2, 3)
CORE_ITEM_BYTES = 2
CORE_ITEM_TYPE = MSB_INTEGER
SUFFIX_ITEMS = (0, 1, 0)
BAND_SUFFIX_ITEM_BYTES = 2
END_OBJECT = QUBE""")
same(read()["QUBE"], np.moveaxis(a[:, :2], 1, 0))
''')
seed("C02-misaligned-linefix", [(Q, '''        if fix_pix != int(fix_pix):
            raise NotImplementedError(
                "Line pre''', '''        if fix_pix != int(fix_pix) and fixbytes % 2 == 1:
            raise NotImplementedError(
                "Line pre''')],
     "4-byte samples with a line prefix of 4n+2 bytes",
     "a prefix that is no whole number of samples is rounded down", '''
from mini import *
from multidict import MultiDict
from pdr.loaders.queries import generic_image_properties
try:
    p = generic_image_properties(MultiDict(
        SAMPLE_BITS=32, SAMPLE_TYPE="IEEE_REAL", LINES=2, LINE_SAMPLES=5,
        LINE_PREFIX_BYTES=6), ">f")
except NotImplementedError:
    raise SystemExit(0)
raise SystemExit(f"accepted: {p}")
''')
seed("C02-bands-one-bst", [(Q, '''                ("LINE", "BAND", "SAMPLE"): "LINE_INTERLEAVED",
            }[tuple(reversed(props["axnames"]))]''', '''                ("LINE", "BAND", "SAMPLE"): "LINE_INTERLEAVED",
            }[tuple(reversed(props["axnames"]))]
            if 1 in (props["nrows"], props["ncols"]):
                props["band_storage_type"] = "BAND_SEQUENTIAL"''')],
     "a qube one sample wide or one line high with its bands fastest",
     "the storage order no longer follows the axis order", '''
from mini import *
a = np.arange(6, dtype="u1").reshape(1, 3, 2)  # line, sample, band
put("x.qub", a.tobytes())
label("""RECORD_BYTES = 2
^QUBE = "x.qub"
OBJECT = QUBE
AXES = 3
AXIS_NAME = (BAND, SAMPLE, LINE)
CORE_ITEMS = (2, 3, 1)
CORE_ITEM_BYTES = 1
CORE_ITEM_TYPE = UNSIGNED_INTEGER
END_OBJECT = QUBE""")
same(read()["QUBE"], np.moveaxis(a, 2, 0))
''')
D = "pdr/datatypes.py"
seed("C03-vax-endian", [(D, '''    if any(sample_type.startswith(s) for s in ("PC", "LSB", "VAX")):''',
     '''    if sample_type.split("_")[0] in ("PC", "LSB", "VAX") and (
            sample_type.count("_") == 1 or "UNSIGNED" in sample_type) \\
            or sample_type.startswith("VAX_UN"):'''),],
     "a little-endian type name with more than one qualifier (LSB_SIGNED_INTEGER)",
     "LSB_SIGNED_INTEGER decodes big-endian", '''
from pdr.datatypes import sample_types
import numpy as np
assert np.dtype(sample_types("LSB_SIGNED_INTEGER", 2, True)).byteorder in "<="
''')
H = "pdr/loaders/_helpers.py"
seed("C04-tuple-quantity", [(Q, '''    if isinstance(target, (list, tuple)):
        target = target[-1]
    if isinstance(target, int):
        if target == 1:
            start_byte = 0''', '''    if isinstance(target, (list, tuple)):
        if isinstance(target[-1], dict) and target[-1]["value"] == 0:
            return 0
        target = target[-1]
    if isinstance(target, int):
        if target <= 1 or target == record_bytes:
            start_byte = (target - 1) * (target == record_bytes)''')],
     "a record number equal to the record length",
     "record N of an N-byte-record file is taken for byte N", '''
from mini import *
put("x.img", bytes(range(64)))
label("""RECORD_TYPE = FIXED_LENGTH
RECORD_BYTES = 4
^IMAGE = ("x.img", 4)
OBJECT = IMAGE
LINES = 2
LINE_SAMPLES = 4
SAMPLE_TYPE = UNSIGNED_INTEGER
SAMPLE_BITS = 8
END_OBJECT = IMAGE""")
same(read()["IMAGE"], np.arange(12, 20).reshape(2, 4))
''')
seed("C04-suffix-length", [(Q, '''                record_length += block.get("ROW_SUFFIX_BYTES", 0)''',
     '''                if "ROW_PREFIX_BYTES" not in block:
                    record_length += block.get("ROW_SUFFIX_BYTES", 0)''')],
     "a table with both row prefix and row suffix bytes",
     "the table's byte length leaves out the suffixes", '''
from mini import *
from multidict import MultiDict
from pdr.loaders.queries import table_position
b = MultiDict(ROWS=10, ROW_BYTES=7, ROW_PREFIX_BYTES=3, ROW_SUFFIX_BYTES=2)
r = table_position({"RECORD_BYTES": 20, "RECORD_TYPE": "FIXED_LENGTH"}, b, 1,
                   "TABLE", 0)
assert r["length"] == 120, r
''')
P = "pdr/pd_utils.py"
seed("C05-container-prefix", [(P, '''            fmtdef.loc[fmt_block.index, "SB_OFFSET"] -= fmtdef["ROW_PREFIX_BYTES"]
        count =''', '''            if fmt_block["BLOCK_REPETITIONS"].iloc[0] == 1:
                fmtdef.loc[fmt_block.index, "SB_OFFSET"] -= fmtdef[
                    "ROW_PREFIX_BYTES"]
        count =''')],
     "a repeated CONTAINER in a table with row prefixes",
     "the row prefix is counted twice for the container's columns", '''
from mini import *
rows = [[9, 9, 1, 2, 3], [9, 9, 4, 5, 6]]
put("x.dat", np.array(rows, dtype="u1").tobytes() + bytes(2))
label("""RECORD_BYTES = 5
^TABLE = "x.dat"
OBJECT = TABLE
ROWS = 2
ROW_BYTES = 3
ROW_PREFIX_BYTES = 2
COLUMNS = 2
INTERCHANGE_FORMAT = BINARY
OBJECT = COLUMN
NAME = A
DATA_TYPE = UNSIGNED_INTEGER
START_BYTE = 1
BYTES = 1
END_OBJECT = COLUMN
OBJECT = CONTAINER
NAME = C
START_BYTE = 2
BYTES = 1
REPETITIONS = 2
OBJECT = COLUMN
NAME = B
DATA_TYPE = UNSIGNED_INTEGER
START_BYTE = 1
BYTES = 1
END_OBJECT = COLUMN
END_OBJECT = CONTAINER
END_OBJECT = TABLE""")
t = read()["TABLE"]
same(t.values, np.array(rows)[:, 2:])
''')
N = "pdr/np_utils.py"
B = "pdr/bit_handling.py"
seed("C06-zfill-width", [(B, '''            .str.zfill(dtype[rec_ix].itemsize * 8)''',
     '''            .str.zfill(dtype[min(rec_ix, 1)].itemsize * 8)''')],
     "a bit column in a parent of seven bytes (read in three pieces)",
     "the last piece is padded to the wrong width", '''
import pandas as pd
from pdr.bit_handling import convert_byte_column_to_bits
b = [bytes([1, 2, 3, 4, 5, 6, 7]), bytes(7)]
r = convert_byte_column_to_bits(pd.Series(b), ">")
want = ["".join(f"{x:08b}" for x in row) for row in b]
assert list(r) == want, list(r)
''')
seed("C07-narrow-max", [(P, '''            big = absolute.max() > np.finfo(np.float32).max''',
     '''            big = converted.max() > np.finfo(np.float32).max''')],
     "a large negative IBM real without an equally large positive one",
     "values below the float32 range are narrowed to -inf", '''
from mini import *
put("x.dat", bytes([0xff, 0x50, 0, 0, 0x41, 0x10, 0, 0]))
label("""RECORD_BYTES = 4
^TABLE = "x.dat"
OBJECT = TABLE
ROWS = 2
ROW_BYTES = 4
COLUMNS = 1
INTERCHANGE_FORMAT = BINARY
OBJECT = COLUMN
NAME = A
DATA_TYPE = IBM_REAL
START_BYTE = 1
BYTES = 4
END_OBJECT = COLUMN
END_OBJECT = TABLE""")
same(read()["TABLE"]["A"], [-(0x50 / 256) * 16.0 ** 63, 1.0])
''')
seed("C07-sign", [(N, '''    sign = 1 - (2 * ibm_sign).astype('int8')
    return sign * mantissa * exponent''', '''    sign = np.where(ibm_exponent > 0, 1 - 2 * ibm_sign, 1)
    return sign * mantissa * exponent''')],
     "a negative IBM real with the smallest exponent",
     "negative numbers of exponent field 0 lose their sign", '''
import numpy as np
from pdr.np_utils import ibm32_to_np_f32
assert ibm32_to_np_f32(np.array([0x80100000], "u4"))[0] == -2.0**-4 * 16.0**-64
''')
L = "pdr/parselabel/pds3.py"
seed("C08-quoted-comma", [(L, '''        map(parse_non_base_10, obj.strip('{}()').replace(" ", '').split(','))''',
     '''        map(parse_non_base_10, sorted(
            obj.strip('{}()').replace(" ", '').split(','), key=len))''')],
     "a sequence of based integers of different lengths",
     "the elements are reordered", '''
from pdr.parselabel.pds3 import literalize_pvl
assert literalize_pvl("(16#FFFF#, 2#1#, 16#A#)") == (65535, 1, 10)
''')
seed("C08-one-quantity", [(L, '''    if len(output) == 1:
        return output[0]
    return tuple(output)''', '''    if len(output) == 1 or output.count(output[0]) == len(output):
        return output[0]
    return tuple(output)''')],
     "a sequence of equal quantities", "equal elements are merged into one", '''
from pdr.parselabel.pds3 import literalize_pvl
q = {"value": 5, "units": "km"}
assert literalize_pvl("(5 <km>, 5 <km>)") == (q, q)
''')
seed("C09-deep-blocks", [(L, '''                if len(self.names) > 0:
                    self._step_out()''', '''                if len(self.names) > 0 and (
                    value in ("", *self.names)
                ):
                    self._step_out()
                    if value in self.names[:-1]:
                        self._step_out()''')],
     "a group that contains a group that contains an object of its own name",
     "two blocks are closed at once", '''
from pdr.parselabel.pds3 import BlockParser
p = BlockParser()
m, _ = p.parse_statements([
    ("OBJECT", "A"), ("OBJECT", "B"), ("OBJECT", "A"), ("END_OBJECT", "A"),
    ("X", "1"), ("END_OBJECT", "B"), ("END_OBJECT", "A")])
assert m["A"]["B"]["X"] == "1", m
''')
seed("C05-item-offsets", [(P, '''    item_offsets.loc[offset.index] = offset["ITEM_OFFSET"]''',
     '''    item_offsets.loc[offset.index] = offset["ITEM_OFFSET"].max()''')],
     "two multiple-item columns with different item offsets",
     "every column gets the largest item offset", '''
from mini import *
a = np.arange(20, dtype="u1").reshape(2, 10)
put("x.dat", a.tobytes())
col = """OBJECT = COLUMN
NAME = %s
DATA_TYPE = UNSIGNED_INTEGER
START_BYTE = %d
BYTES = %d
ITEMS = 2
ITEM_BYTES = 1
ITEM_OFFSET = %d
END_OBJECT = COLUMN
"""
label("""RECORD_BYTES = 10
^TABLE = "x.dat"
OBJECT = TABLE
ROWS = 2
ROW_BYTES = 10
COLUMNS = 2
INTERCHANGE_FORMAT = BINARY
""" + col % ("A", 1, 3, 2) + col % ("B", 5, 5, 4) + "END_OBJECT = TABLE")
same(read()["TABLE"].values, a[:, [0, 2, 4, 8]])
''')
seed("C05-ibm-reindex", [(P, '''    boolean_columns = fmtdef.loc[fmtdef["DATA_TYPE"] == "BOOLEAN", "NAME"]
    table[boolean_columns] = table[boolean_columns].astype(bool)''',
     '''    boolean_columns = fmtdef.loc[
        fmtdef["DATA_TYPE"].str.startswith("BOOL"), "NAME"]
    for col in boolean_columns:
        table[col] = table[col] == 1''')],
     "a boolean column that stores true as something other than 1",
     "true values stored as e.g. 255 read as false", '''
from mini import *
put("x.dat", bytes([0, 1, 255]))
label("""RECORD_BYTES = 1
^TABLE = "x.dat"
OBJECT = TABLE
ROWS = 3
ROW_BYTES = 1
COLUMNS = 1
INTERCHANGE_FORMAT = BINARY
OBJECT = COLUMN
NAME = A
DATA_TYPE = BOOLEAN
START_BYTE = 1
BYTES = 1
END_OBJECT = COLUMN
END_OBJECT = TABLE""")
same(read()["TABLE"]["A"], [False, True, True])
''')
seed("C06-shared-order", [(B, '''            byte_order = determine_byte_order(fmtdef.DATA_TYPE[column])''',
     '''            byte_order = determine_byte_order(
                fmtdef.DATA_TYPE[fmtdef.start_bit_list.first_valid_index()])''')],
     "two bit columns of different byte orders in one table",
     "both are read in the first one's byte order", '''
from mini import *
put("x.dat", bytes([1, 2, 3, 4]))
col = """OBJECT = COLUMN
NAME = %s
DATA_TYPE = %s_BIT_STRING
START_BYTE = %d
BYTES = 2
OBJECT = BIT_COLUMN
NAME = X
BIT_DATA_TYPE = %s_UNSIGNED_INTEGER
START_BIT = 1
BITS = 16
END_OBJECT = BIT_COLUMN
END_OBJECT = COLUMN
"""
label("""RECORD_BYTES = 4
INSTRUMENT_NAME = "X"
^TABLE = "x.dat"
OBJECT = TABLE
ROWS = 1
ROW_BYTES = 4
COLUMNS = 2
INTERCHANGE_FORMAT = BINARY
""" + col % ("A", "MSB", 1, "MSB") + col % ("B", "LSB", 3, "LSB")
      + "END_OBJECT = TABLE")
t = read()["TABLE"]
assert t["A"][0] == [f"{0x0102:016b}"] and t["B"][0] == [f"{0x0403:016b}"], t
''')
seed("C09-edit-repeat", [(L, '''            if keep_values is True or is_map is True:
                output_multidict.add(key, value)''',
     '''            if is_map is True and len(value) == 0:
                continue
            if keep_values is True or is_map is True:
                output_multidict.add(key, value)''')],
     "an empty block", "an object without statements disappears", '''
from pdr.parselabel.pds3 import parse_pvl
m, _ = parse_pvl("""OBJECT = T
OBJECT = COLUMN
END_OBJECT = COLUMN
END_OBJECT = T
A = 1
""")
assert list(m["T"].keys()) == ["COLUMN"], m
''')
