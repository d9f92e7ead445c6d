SEEDS = []


def seed(id, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=id.split("-")[0], edits=edits,
                      needs=needs, breaks=breaks, demo=demo))


RT = "pdr/pds4_tools/reader/read_tables.py"
RA = "pdr/pds4_tools/reader/array_objects.py"
TB = "pdr/pds4_tools/reader/table_objects.py"
T = "pdr/loaders/table.py"
X = "pdr/loaders/text.py"
H = "pdr/loaders/_helpers.py"

seed("C21-nested-tail", [(RT, '''        if length * array_shape[i+2] != repetition_lengths[i]:
            has_contiguous_end_bytes = False
''', '''        if length * array_shape[i+2] > repetition_lengths[i]:
            has_contiguous_end_bytes = False
''')],
     "a group nested in a repeated group that has spare bytes at its end",
     "the elements of all but the first outer repetition are read from the "
     "spare bytes on", '''
from pdr.pds4_tools.reader.read_tables import _extract_fixed_width_field_data
out = []
# 2 records of 2 outer repetitions of (3 inner of one byte, one spare byte)
_extract_fixed_width_field_data(out, b"abc-def-ghi-jkl-", 1, 0, 8, [2, 2, 3],
                                [0, 0], [4, 1])
assert b"".join(out) == b"abcdefghijkl", out
''')
seed("C21-quote-join", [(RT, '''                            split_record_len -= next_quote_idx - column_idx
''', '''                            split_record_len = len(split_record) - (
                                next_quote_idx - column_idx)
''')],
     "a record of a delimited table with a quoted value that contains the "
     "delimiter, followed by another quoted value",
     "the last values of the record keep their quotation marks or are taken "
     "from the wrong place", '''
import numpy as np
from pdr.pds4_tools.reader import read_tables as r


class S:
    meta_data = {"field_delimiter": "Comma"}


class F:
    group_level = 0


class M:
    def fields(self):
        return [F(), F(), F(), F()]

    def index(self, f):
        return 0


recs, at = r._get_delimited_records_and_start_bytes(
    [b'"a,b,c",x,"y","z"'], S(), M())
got = [recs[0][at[i][0]:at[i + 1][0] - 1] for i in range(4)]
assert got == [b"a,b,c", b"x", b"y", b"z"], got
''')
seed("C21-axis-order", [(RA, '''            axis_arrays = sorted(axis_arrays, key=lambda x: x['sequence_number'])
''', '''            axis_arrays = sorted(axis_arrays, key=lambda x: -x['elements'])
''')],
     "an array whose first axis is shorter than a later one",
     "the array comes out with its axes exchanged", '''
from pdr.pds4_tools.reader.array_objects import Meta_ArrayStructure
m = Meta_ArrayStructure({"Axis_Array": [
    {"axis_name": "Sample", "elements": 5, "sequence_number": 2},
    {"axis_name": "Line", "elements": 3, "sequence_number": 1}]})
assert [a["elements"] for a in m.get_axis_arrays()] == [3, 5]
''')
seed("C22-item-width", [(T, '''            col_length = int(record["ITEM_BYTES"])
''', '''            col_length = int(record.get("ITEM_OFFSET") or record["ITEM_BYTES"])
''')],
     "a text column of several items with declared separators between them, "
     "that are not blanks",
     "the separator becomes part of the item's text", '''
import io
import pandas as pd
from pdr.loaders.table import _read_fwf_with_colspecs
f = pd.DataFrame([{"NAME": f"A_{i}", "BYTES": 7, "ITEM_BYTES": 3,
                   "ITEM_OFFSET": 4, "SB_OFFSET": 4 * i} for i in range(2)])
t = _read_fwf_with_colspecs(f, io.StringIO("abc/def\\r\\nghi/jkl\\r\\n"))
assert t.values.tolist() == [["abc", "def"], ["ghi", "jkl"]], t
''')
seed("C22-stream-rows", [(T, '''                lines = [next(f) for _ in range(table_props["length"])]
''', '''                lines = [
                    next(f) for _ in range(
                        table_props["length"] - table_props["start"])
                ]
''')],
     "a delimited stream table that begins after other lines of its file",
     "the last rows of the table are lost", '''
from mini import *
put("t.csv", "x\\r\\ny\\r\\n1,2\\r\\n3,4\\r\\n5,6\\r\\n")
import pandas as pd
from multidict import MultiDict
from pdr.loaders.table import _interpret_as_ascii
import os
f = pd.DataFrame([{"NAME": "A"}, {"NAME": "B"}])
t = _interpret_as_ascii(os.path.join(DIR, "t.csv"), f, MultiDict(),
                        {"as_rows": True, "start": 2, "length": 3})
assert t.values.tolist() == [[1, 2], [3, 4], [5, 6]], t
''')
seed("C22-scale-shift", [(T, '''                table[col] = table[col]+offset
''', '''                table[col] = table[col]+offset*record.get(
                    "SCALING_FACTOR", 1)
''')],
     "a column with both a scaling factor and an offset",
     "the offset is scaled, too", '''
from mini import *
put("t.tab", " 10\\r\\n 20\\r\\n")
label("""
^TABLE = "t.tab"
OBJECT = TABLE
INTERCHANGE_FORMAT = ASCII
ROWS = 2
ROW_BYTES = 5
COLUMNS = 1
OBJECT = COLUMN
NAME = A
DATA_TYPE = ASCII_INTEGER
START_BYTE = 1
BYTES = 3
SCALING_FACTOR = 0.5
OFFSET = 100
END_OBJECT = COLUMN
END_OBJECT = TABLE""")
same(read()["TABLE"]["A"], [105, 110])
''')
seed("C23-long-header", [(X, '''                text = file.read(min(table_props["length"], 80000)).decode(
''', '''                text = file.read(min(table_props["length"], 8000)).decode(
''')],
     "a header longer than 8000 bytes",
     "the header is cut off", '''
from mini import *
from pdr.loaders.text import read_header
p = put("h.txt", "A = 12345\\r\\n" * 1000 + "binary")
got = read_header(p, {"as_rows": False, "start": 0, "length": 11000})
assert got == "A = 12345\\n" * 1000, len(got)
''')
seed("C23-form-feed", [(X, '''                decoded_f = TextIOWrapper(f, encoding="UTF-8", errors="replace")
                for i, line in enumerate(decoded_f):
''', '''                decoded_f = TextIOWrapper(f, encoding="UTF-8", errors="replace")
                for i, line in enumerate(
                    decoded_f.read().splitlines(keepends=True)
                ):
''')],
     "a header located by lines in a file with form feeds or other control "
     "characters",
     "form feeds count as line ends: the header stops early", '''
from mini import *
from pdr.loaders.text import read_header
p = put("h.txt", "a\\x0cb\\r\\nc\\r\\nd\\r\\n")
got = read_header(p, {"as_rows": True, "start": 0, "length": 2})
assert got == "a\\x0cb\\nc\\n", got
''')
seed("C23-cr-pair", [(H, '''HETERODOX_ENDING = re.compile(r"\\r\\n?")''',
                      '''HETERODOX_ENDING = re.compile(r"\\r+\\n?")''')],
     "a text with blank lines whose lines end in carriage returns only",
     "blank lines disappear from the text", '''
from pdr.loaders._helpers import canonicalize_line_endings as c
assert c("a\\r\\rb\\r") == "a\\n\\nb\\n", c("a\\r\\rb\\r")
''')
seed("C05-item-runs", [("pdr/pd_utils.py",
     '''        column_groups = fmtdef.loc[fmtdef["ITEM_SIZE"].notna()]
''', '''        column_groups = fmtdef.loc[fmtdef["ITEM_SIZE"] > 1]
''')],
     "a multiple-item column of one-byte items",
     "all items of the column are read from its first byte", '''
from mini import *
put("t.dat", bytes(range(8)))
label("""
^TABLE = "t.dat"
OBJECT = TABLE
INTERCHANGE_FORMAT = BINARY
ROWS = 2
ROW_BYTES = 4
COLUMNS = 2
OBJECT = COLUMN
NAME = A
DATA_TYPE = MSB_UNSIGNED_INTEGER
START_BYTE = 1
BYTES = 3
ITEMS = 3
ITEM_BYTES = 1
END_OBJECT = COLUMN
OBJECT = COLUMN
NAME = B
DATA_TYPE = MSB_UNSIGNED_INTEGER
START_BYTE = 4
BYTES = 1
END_OBJECT = COLUMN
END_OBJECT = TABLE""")
t = read()["TABLE"]
same(t.values, [[0, 1, 2, 3], [4, 5, 6, 7]])
''')
