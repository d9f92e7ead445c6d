From ba40336bd336a137da90817db0060feda7222281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 01/76] fix: read arrays from zip-compressed files

decompress() opens zip members as ZipExtFile, which np.fromfile cannot read;
also accept dtype strings for all compressed streams.
---
 pdr/np_utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pdr/np_utils.py b/pdr/np_utils.py
index 644f098..ba6e459 100644
--- a/pdr/np_utils.py
+++ b/pdr/np_utils.py
@@ -9,7 +9,7 @@ from gzip import GzipFile
 from io import BufferedIOBase, BytesIO
 from numbers import Number
 from typing import Optional, Union
-from zipfile import ZipFile
+from zipfile import ZipExtFile, ZipFile
 
 import numpy as np
 
@@ -79,10 +79,12 @@ def np_from_buffered_io(
     """
     if offset is not None:
         buffered_io.seek(offset)
-    if isinstance(buffered_io, (BZ2File, ZipFile, GzipFile, BytesIO)):
+    if isinstance(
+        buffered_io, (BZ2File, ZipFile, ZipExtFile, GzipFile, BytesIO)
+    ):
         # we need to read the appropriate amount into a new buffer, especially
         # if it's monolithically compressed
-        n_bytes = None if count is None else count * dtype.itemsize
+        n_bytes = None if count is None else count * np.dtype(dtype).itemsize
         stream = BytesIO(buffered_io.read(n_bytes))
         return np.frombuffer(stream.getbuffer(), dtype=dtype)
     count = -1 if count is None else count
-- 
2.43.0


From ac75415dcc4c1b61b1b2b91c541bd6bf48852873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 02/76] fix: do not empty an image whose declared suffix item
 count is zero

---
 pdr/loaders/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/loaders/image.py b/pdr/loaders/image.py
index 51fbb58..5b19d2d 100644
--- a/pdr/loaders/image.py
+++ b/pdr/loaders/image.py
@@ -182,7 +182,7 @@ def extract_axplanes(
     axplanes = {}
     for side, ax in product(("prefix", "suffix"), ("row", "col", "band")):
         # noinspection PyTypedDict
-        if (count := props.get(f"{side}_{ax}s")) is None:
+        if (count := props.get(f"{side}_{ax}s")) in (None, 0):
             continue
         axn, axname = {
             "band": (0, "BAND"),
-- 
2.43.0


From 28a1cb5ca20093303ac7d07a2cf2092687ef4623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 03/76] fix: read single-band qubes that have backplanes

---
 pdr/loaders/image.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdr/loaders/image.py b/pdr/loaders/image.py
index 5b19d2d..b551293 100644
--- a/pdr/loaders/image.py
+++ b/pdr/loaders/image.py
@@ -24,7 +24,7 @@ def read_image(
     f.seek(start_byte)
     try:
         # Make sure that single-band images are 2-dim arrays.
-        if props["nbands"] == 1:
+        if props["nbands"] == 1 and props["bandpad"] == 0:
             image, axplanes, pre, suf = process_single_band_image(f, props)
         else:
             image, axplanes, pre, suf = process_multiband_image(f, props)
@@ -172,6 +172,8 @@ def process_multiband_image(f: BufferedIOBase, props: ImageProps) -> tuple[
         image = image.reshape(lines, bands, samples)
         image = np.moveaxis(image, 0, 1)
     image, axplanes = extract_axplanes(image, props)
+    if props["nbands"] == 1:  # single-band image with back/topplanes
+        image = image[0]
     return make_c_contiguous(image), axplanes, prefix, suffix
 
 
-- 
2.43.0


From 695932f16e817fb628ba246e9d05b7c8b096b76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 04/76] fix: count line prefixes/suffixes of BIL images once
 per line

The element count included the padding once per band, so images followed by
other data in the same file were misread.
---
 pdr/loaders/queries.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 154ad93..4465249 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -192,8 +192,11 @@ def get_image_properties(gen_props: ImageProps) -> ImageProps:
     check_fix_validity(props)
     props["pixels"] = (
         (props["nrows"] + props["rowpad"])
-        * (props["ncols"] + props["colpad"] + props["linepad"])
-        * (props["nbands"] + props["bandpad"])
+        * (
+            (props["ncols"] + props["colpad"])
+            * (props["nbands"] + props["bandpad"])
+            + props["linepad"]
+        )
     )
     return props
 
-- 
2.43.0


From d19a706c41dc5216fe8642d767c865fe58d052d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 05/76] fix: read 4-byte integer qubes at 4 bytes per sample

---
 pdr/loaders/queries.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 4465249..83aa216 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -48,9 +48,8 @@ def generic_qube_properties(
     props = {}
     use_block = block if "CORE" not in block.keys() else block["CORE"]
     props["BYTES_PER_PIXEL"] = int(use_block["CORE_ITEM_BYTES"])  # / 8)
-    # TODO: this should probably have for_numpy set to True
     props["sample_type"] = sample_types(
-        use_block["CORE_ITEM_TYPE"], props["BYTES_PER_PIXEL"]
+        use_block["CORE_ITEM_TYPE"], props["BYTES_PER_PIXEL"], for_numpy=True
     )
     props["is_vax_real"] = use_block["CORE_ITEM_TYPE"] == "VAX_REAL"
     if "AXIS_NAME" in set(block.keys()).union(use_block.keys()):
-- 
2.43.0


From d376de37841dd1f01925a659e8ececa5a984133a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 06/76] fix: reject integer widths that cannot be decoded

---
 pdr/datatypes.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pdr/datatypes.py b/pdr/datatypes.py
index 0ce89bf..08762d9 100644
--- a/pdr/datatypes.py
+++ b/pdr/datatypes.py
@@ -24,13 +24,18 @@ def integer_code(
     Translation from integer width, signedness, and byteorder to struct or
     numpy dtype string.
     """
-    # TODO: add struct letter for longlong
-    if sample_bytes == 4:
+    if sample_bytes == 8:
+        letter = "q"
+    elif sample_bytes == 4:
         letter = "l"
     elif sample_bytes == 2:
         letter = "h"
-    else:
+    elif sample_bytes == 1:
         letter = "b"
+    else:
+        raise NotImplementedError(
+            f"{sample_bytes}-byte integers are not supported."
+        )
     if signed is False:
         letter = letter.upper()
     if for_numpy is True and sample_bytes in (4, 8):
-- 
2.43.0


From 1d4928a9d1659e3556d8d16eed0d42051476f5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 07/76] fix: treat an undeclared record length as unknown when
 sizing tables

---
 pdr/loaders/queries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 83aa216..4fa9014 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -477,7 +477,7 @@ def _table_length(block, identifiers, n_records):
             elif "ROW_BYTES" in block.keys():
                 record_length = block["ROW_BYTES"]
                 record_length += block.get("ROW_SUFFIX_BYTES", 0)
-            elif identifiers["RECORD_BYTES"] is not None:
+            elif identifiers["RECORD_BYTES"] not in (None, ""):
                 # TODO, probably, and applicable many more places than here:
                 #  ideally we don't use identifiers for anything but special
                 #  case checks.
-- 
2.43.0


From 3865929514d08a2a4401341dadc0e3fe8456ccd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:17 +0000
Subject: [PATCH 08/76] fix: count row prefixes in the byte length of a table

---
 pdr/loaders/queries.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 4fa9014..d1f50d1 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -476,6 +476,7 @@ def _table_length(block, identifiers, n_records):
                 record_length = block["RECORD_BYTES"]
             elif "ROW_BYTES" in block.keys():
                 record_length = block["ROW_BYTES"]
+                record_length += block.get("ROW_PREFIX_BYTES", 0)
                 record_length += block.get("ROW_SUFFIX_BYTES", 0)
             elif identifiers["RECORD_BYTES"] not in (None, ""):
                 # TODO, probably, and applicable many more places than here:
-- 
2.43.0


From 2d59ad1c81477f2fd93db9807a52365e70e31d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:20 +0000
Subject: [PATCH 09/76] fix: find the start byte of the object asked for

---
 pdr/loaders/queries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index d1f50d1..6085cf7 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -926,6 +926,6 @@ def standalone_start_byte(
     result = softquery(
         lambda fn, start_byte: None,
         START_BYTE_QUERIES,
-        kwargdict={"data": data, "name": "IMAGE"},
+        kwargdict={"data": data, "name": object_name},
     )
     return result['fn'], result['start_byte']
-- 
2.43.0


From 3c75f89ec220e2809813c90a30f6f8d576671181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:58 +0000
Subject: [PATCH 10/76] fix: pad table rows to their full declared length

---
 pdr/formats/rosetta.py | 6 ++----
 pdr/pd_utils.py        | 9 ++++++++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/pdr/formats/rosetta.py b/pdr/formats/rosetta.py
index 7a43945..1f13f69 100644
--- a/pdr/formats/rosetta.py
+++ b/pdr/formats/rosetta.py
@@ -91,10 +91,8 @@ def fix_pad_length_structure(block, name, filename, data, identifiers):
         if length is not None:
             fmtdef[f"ROW{end}_BYTES"] = length
 
-    # to calculate end_byte correctly in compute_offsets()
+    # the BYTES values in the labels are wrong
     fmtdef["BYTES"] = fmtdef["ITEM_BYTES"]
-    # to calculate pad_length correctly in compute_offsets()
-    fmtdef["ROW_BYTES"] = fmtdef["ROW_BYTES"] + fmtdef["ROW_PREFIX_BYTES"]
-    
+
     fmtdef = compute_offsets(fmtdef)
     return insert_sample_types_into_df(fmtdef, identifiers)
diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index d919ab3..527e264 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -135,9 +135,16 @@ def compute_offsets(fmtdef: pd.DataFrame) -> pd.DataFrame:
             position += gl
         fmtdef.loc[column_groups.index, 'SB_OFFSET'] = gix_list
     pad_length = 0
-    end_byte = fmtdef["SB_OFFSET"].iloc[-1] + fmtdef["BYTES"].iloc[-1]
+    # each item of a multiple-item column occupies only its own bytes
+    widths = fmtdef["BYTES"]
+    if "ITEM_BYTES" in fmtdef.columns:
+        widths = fmtdef["ITEM_BYTES"].fillna(widths)
+    end_byte = int((fmtdef["SB_OFFSET"] + widths).max())
     if "ROW_BYTES" in fmtdef.columns:
         pad_length += fmtdef["ROW_BYTES"].iloc[0] - end_byte
+    if "ROW_PREFIX_BYTES" in fmtdef.columns:
+        # ROW_BYTES does not include the row prefix, but offsets do
+        pad_length += fmtdef["ROW_PREFIX_BYTES"].iloc[0]
     if "ROW_SUFFIX_BYTES" in fmtdef.columns:
         pad_length += fmtdef["ROW_SUFFIX_BYTES"].iloc[0]
     if pad_length > 0:
-- 
2.43.0


From f53ce22e84bf7179a887de765bcd5222bd53cf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:02 +0000
Subject: [PATCH 11/76] fix: offset items of columns defined out of position
 order

---
 pdr/pd_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index 527e264..adae0a7 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -3,7 +3,7 @@ Methods for working with pandas objects, primarily intended for use in
 TABLE/ARRAY/SPREADSHEET/HISTOGRAM-loading workflows.
 """
 from __future__ import annotations
-from itertools import chain
+from itertools import chain, groupby
 import re
 from typing import Hashable, TYPE_CHECKING
 import warnings
@@ -127,9 +127,10 @@ def compute_offsets(fmtdef: pd.DataFrame) -> pd.DataFrame:
     if "ITEM_BYTES" in fmtdef.columns:
         fmtdef["ITEM_SIZE"] = _apply_item_offsets(fmtdef)
         column_groups = fmtdef.loc[fmtdef["ITEM_SIZE"].notna()]
-        group_offs = column_groups['SB_OFFSET'].value_counts().sort_index()
         gix_list, position = [], 0
-        for off, gl in zip(group_offs.index, group_offs.values):
+        # columns are not necessarily defined in order of position
+        for off, items in groupby(column_groups['SB_OFFSET'].tolist()):
+            gl = len(tuple(items))
             itemsize = int(column_groups['ITEM_SIZE'].iloc[position])
             gix_list += [(i * itemsize) + off for i in range(gl)]
             position += gl
-- 
2.43.0


From 629a584d4cb8156170bda5a17e15933e9a8631f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:20 +0000
Subject: [PATCH 12/76] fix: apply the JIRAM bit offset correction to JIRAM
 products only

---
 pdr/formats/checkers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/formats/checkers.py b/pdr/formats/checkers.py
index 7002d8c..184b914 100644
--- a/pdr/formats/checkers.py
+++ b/pdr/formats/checkers.py
@@ -770,7 +770,7 @@ def check_special_bit_start_case(
     Special case checker used by get_bit_start_and_size() to fix
     incorrectly-defined bit offsets.
     """
-    if identifiers["INSTRUMENT_NAME"] in "JOVIAN INFRARED AURORAL MAPPER":
+    if identifiers["INSTRUMENT_NAME"] == "JOVIAN INFRARED AURORAL MAPPER":
         return formats.juno.bit_start_find_and_fix(
             list_of_pvl_objects_for_bit_columns, start_bit_list
         )
-- 
2.43.0


From d33807368657368b1840e3acdfb329ef1daff344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:23 +0000
Subject: [PATCH 13/76] fix: order the pieces of little-endian bit strings by
 significance

---
 pdr/bit_handling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdr/bit_handling.py b/pdr/bit_handling.py
index baeb33a..b1c3983 100644
--- a/pdr/bit_handling.py
+++ b/pdr/bit_handling.py
@@ -103,6 +103,9 @@ def convert_byte_column_to_bits(
             # make sure they're fixed-length
             .str.zfill(dtype[rec_ix].itemsize * 8)
         )
+    if byte_order == "<":
+        # the last piece of a little-endian byte string is the most significant
+        bit_series.reverse()
     # TODO: should probably be a single pd.concat operation
     bits = reduce(add, bit_series)
     return bits
-- 
2.43.0


From f5d4318e0058acaeb67f1921e3b302c673c05b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:27 +0000
Subject: [PATCH 14/76] fix: honour the item offset of multiple-item bit
 columns

---
 pdr/bit_handling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdr/bit_handling.py b/pdr/bit_handling.py
index b1c3983..6923a5e 100644
--- a/pdr/bit_handling.py
+++ b/pdr/bit_handling.py
@@ -207,9 +207,10 @@ def get_bit_start_and_size(
         if pvl_obj.get("ITEMS"):
             items = pvl_obj.get("ITEMS")
             item_bits = pvl_obj.get("ITEM_BITS")
+            item_offset = pvl_obj.get("ITEM_OFFSET", item_bits)
             first_item_start_bit = pvl_obj.get("START_BIT")
             for item_index in range(items):
-                start_bit = first_item_start_bit + item_index * item_bits
+                start_bit = first_item_start_bit + item_index * item_offset
                 start_bit_list.append(start_bit)
                 bit_size_list.append(item_bits)
         else:
-- 
2.43.0


From 7872fc2fefb281a0d0f4abdcb5b2bdf81d64adc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:32 +0000
Subject: [PATCH 15/76] fix: decode multiple-item IBM real columns at their
 item width

---
 pdr/pd_utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index adae0a7..5cc1f45 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -337,9 +337,12 @@ def convert_ibm_reals(df: pd.DataFrame, fmtdef: pd.DataFrame) -> pd.DataFrame:
     for _, field in fmtdef.iterrows():
         if not re.match(r'IBM.*REAL', field['DATA_TYPE']):
             continue
-        func = ibm32_to_np_f32 if field['BYTES'] == 4 else ibm64_to_np_f64
-        converted = func(df[field['NAME']].values)
-        if field['BYTES'] == 4:
+        values = df[field['NAME']].values
+        # NOTE: field['BYTES'] might be the width of several items
+        is_short = values.dtype.itemsize == 4
+        func = ibm32_to_np_f32 if is_short else ibm64_to_np_f64
+        converted = func(values)
+        if is_short:
             # IBM shorts are wider-range than IEEE shorts; check if we can
             # safely cast them back down to float32
             absolute = abs(converted)
-- 
2.43.0


From fba2b55882a231f12f4d81e0986541d288a41f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:50 +0000
Subject: [PATCH 16/76] fix: keep values literal_eval chokes on as text

---
 pdr/parselabel/pds3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index a51cd78..d2810ce 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -319,7 +319,8 @@ def literalize_pvl(
             if (not obj.startswith('"')) and ("#" in obj[1:3]):
                 return parse_non_base_10(obj)
             return literal_eval(obj)
-    except (SyntaxError, ValueError):
+    # literal_eval() can also raise the last three on odd or very deep nesting
+    except (SyntaxError, ValueError, TypeError, MemoryError, RecursionError):
         try:
             if ("<" in obj) and (">" in obj):
                 return parse_pvl_quantity_statement(obj)
-- 
2.43.0


From 920bfcd6b872bd67f64903aa7ca00b4c66b1ab6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:53 +0000
Subject: [PATCH 17/76] fix: take quoted label values literally and do not read
 Python-only literals

---
 pdr/parselabel/pds3.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index d2810ce..40e1878 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -23,6 +23,8 @@ from pdr.utils import decompress
 
 PVL_BLOCK_INITIALS = ("OBJECT", "GROUP", "BEGIN_OBJECT", "BEGIN_GROUP")
 PVL_BLOCK_TERMINAL = re.compile(r"END(_OBJECT|$)")
+PVL_QUOTED = re.compile(r"""\s*("[^"]*"|'[^']*')\s*""")
+PVL_NUMBER = re.compile(r"\s*[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\s*")
 PVL_QUANTITY_VALUE = re.compile(r"((\d|\.|-)+([eE]-?\d+)?)|NULL|UNK|N/A")
 PVL_QUANTITY_UNITS = re.compile(r"<(.*)>")
 
@@ -318,7 +320,16 @@ def literalize_pvl(
             warnings.simplefilter("ignore", SyntaxWarning)
             if (not obj.startswith('"')) and ("#" in obj[1:3]):
                 return parse_non_base_10(obj)
-            return literal_eval(obj)
+            # the contents of a quoted string are never interpreted
+            if re.fullmatch(PVL_QUOTED, obj) is not None:
+                return obj.strip()[1:-1]
+            if (
+                not obj.lstrip().startswith(("(", "{"))
+                and re.fullmatch(PVL_NUMBER, obj) is None
+            ):
+                # might be a Python literal, but not a PVL value
+                raise SyntaxError("not a PVL literal")
+            return literal_eval(obj.replace("\\", "\\\\"))
     # literal_eval() can also raise the last three on odd or very deep nesting
     except (SyntaxError, ValueError, TypeError, MemoryError, RecursionError):
         try:
-- 
2.43.0


From bac46974c7ed40d5ab361d429b1b7dc4d0113173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:31 +0000
Subject: [PATCH 18/76] fix: split label collections outside quotes and nested
 collections only

---
 pdr/parselabel/pds3.py | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 40e1878..64a1136 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -189,11 +189,18 @@ def parse_pvl_quantity_statement(statement: str) -> Any:
     quantities, notably including tuples of the form '("A5.DAT", 1000 <BYTES>)'
     that are commonly used to specify start byte offsets for data objects.
     """
-    objects = statement.strip("()").split(",")
+    if statement.lstrip().startswith(("(", "{")):
+        objects = split_pvl_collection(statement)
+    else:
+        objects = [statement]
     output = []
     for obj in objects:
         # TODO, maybe: a bit redundant
-        if ("<" in obj) and (">" in obj):
+        if (
+            ("<" in obj) and (">" in obj)
+            and not obj.lstrip().startswith(("(", "{"))
+            and re.fullmatch(PVL_QUOTED, obj) is None
+        ):
             try:
                 output.append(parse_pvl_quantity_object(obj))
             except AttributeError:
@@ -289,6 +296,31 @@ def parse_non_base_10_collection(
     )
 
 
+def split_pvl_collection(obj: str) -> list[str]:
+    """
+    Split the text of a PVL collection into the texts of its elements, leaving
+    quoted strings and nested collections intact.
+    """
+    text = obj.strip()[1:]
+    if text.endswith((")", "}")):
+        text = text[:-1]
+    elements, depth, quote = [""], 0, None
+    for char in text:
+        if quote is not None:
+            quote = None if char == quote else quote
+        elif char == '"' or (char == "'" and elements[-1].strip() == ""):
+            quote = char
+        elif char in "({":
+            depth += 1
+        elif char in ")}":
+            depth -= 1
+        elif char == "," and depth <= 0:
+            elements.append("")
+            continue
+        elements[-1] += char
+    return [element.strip() for element in elements]
+
+
 def parse_unusual_collection(
     obj: str
 ) -> Union[tuple[Union[int, str]], set[Union[int, str]]]:
@@ -299,7 +331,7 @@ def parse_unusual_collection(
             return parse_non_base_10_collection(class_, obj)
         except (SyntaxError, ValueError):
             pass
-    return class_([s.strip(' ') for s in obj.strip('{}()').split(',')])
+    return class_(split_pvl_collection(obj))
 
 
 def literalize_pvl(
@@ -337,7 +369,7 @@ def literalize_pvl(
                 return parse_pvl_quantity_statement(obj)
             elif obj[0] in ('(', '{'):
                 return parse_unusual_collection(obj)
-        except (SyntaxError, ValueError):
+        except (SyntaxError, ValueError, RecursionError):
             pass
         except IndexError:
             a = 1
-- 
2.43.0


From f0d5ec3bda5f8573b9c4d330fd08b684bc3823d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:35 +0000
Subject: [PATCH 19/76] fix: read the whole value of a quantity

---
 pdr/parselabel/pds3.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 64a1136..a319a65 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -25,8 +25,9 @@ PVL_BLOCK_INITIALS = ("OBJECT", "GROUP", "BEGIN_OBJECT", "BEGIN_GROUP")
 PVL_BLOCK_TERMINAL = re.compile(r"END(_OBJECT|$)")
 PVL_QUOTED = re.compile(r"""\s*("[^"]*"|'[^']*')\s*""")
 PVL_NUMBER = re.compile(r"\s*[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\s*")
-PVL_QUANTITY_VALUE = re.compile(r"((\d|\.|-)+([eE]-?\d+)?)|NULL|UNK|N/A")
-PVL_QUANTITY_UNITS = re.compile(r"<(.*)>")
+PVL_QUANTITY = re.compile(
+    r"""\s*["']?([+-]?[\d.][^\s<>"']*|NULL|UNK|N/A)["']?\s*<([^<>]*)>\s*"""
+)
 
 STRUCTUREPAT = re.compile(r"\^(?:(?:\w|_)+_)?STRUCTURE$")
 """regex pattern for format file pointers"""
@@ -176,9 +177,10 @@ def parse_pvl_quantity_object(obj: str) -> dict[str, Union[str, Number]]:
     """
     Parse a PVL quantity string into a dict like {'value': 2, 'units': 'km'}.
     """
+    quantity = re.fullmatch(PVL_QUANTITY, obj)
     return {
-        "value": literalize_pvl(re.search(PVL_QUANTITY_VALUE, obj).group()),
-        "units": literalize_pvl(re.search(PVL_QUANTITY_UNITS, obj).group(1)),
+        "value": literalize_pvl(quantity.group(1)),
+        "units": literalize_pvl(quantity.group(2)),
     }
 
 
-- 
2.43.0


From 04f9f306c893028c8277f5fbcd8603f7ccc12ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:39 +0000
Subject: [PATCH 20/76] fix: read signed based integers, reject unterminated
 ones

---
 pdr/parselabel/pds3.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index a319a65..9eff4ef 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -24,6 +24,7 @@ from pdr.utils import decompress
 PVL_BLOCK_INITIALS = ("OBJECT", "GROUP", "BEGIN_OBJECT", "BEGIN_GROUP")
 PVL_BLOCK_TERMINAL = re.compile(r"END(_OBJECT|$)")
 PVL_QUOTED = re.compile(r"""\s*("[^"]*"|'[^']*')\s*""")
+PVL_BASED_INTEGER = re.compile(r"([+-]?)(\d{1,2})#([+-]?[0-9A-Za-z]+)#")
 PVL_NUMBER = re.compile(r"\s*[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\s*")
 PVL_QUANTITY = re.compile(
     r"""\s*["']?([+-]?[\d.][^\s<>"']*|NULL|UNK|N/A)["']?\s*<([^<>]*)>\s*"""
@@ -280,9 +281,9 @@ def parse_non_base_10(text: str) -> int:
     integer.
     """
     try:
-        base, number = text[:-1].split("#")
-        return int(number, int(base))
-    except ValueError:
+        sign, base, number = re.fullmatch(PVL_BASED_INTEGER, text).groups()
+        return int(sign + "1") * int(number, int(base))
+    except (AttributeError, ValueError):
         raise SyntaxError("possible malformatted non-base-10 number")
 
 
@@ -352,7 +353,7 @@ def literalize_pvl(
         # warnings.simplefilter("always")
         with warnings.catch_warnings():
             warnings.simplefilter("ignore", SyntaxWarning)
-            if (not obj.startswith('"')) and ("#" in obj[1:3]):
+            if re.match(r"[+-]?\d{1,2}#", obj):
                 return parse_non_base_10(obj)
             # the contents of a quoted string are never interpreted
             if re.fullmatch(PVL_QUOTED, obj) is not None:
-- 
2.43.0


From a1c57364e4a38544f83254db00efc93303e53d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:46 +0000
Subject: [PATCH 21/76] fix: recognize short assignments of lowercase values

---
 pdr/parselabel/pds3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 9eff4ef..2d92d69 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -56,7 +56,7 @@ def is_an_assignment_line(line: str) -> bool:
         if extract_pvl_block_terminal(line) is not None:
             return True
         return False
-    start = line[:8]
+    start = line.partition("=")[0][:8]
     if start != start.upper():
         return False
     return True
-- 
2.43.0


From 3292fb6ba402b2ce94bf5cac97fd8e150ef1302a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 22/76] fix: end label comments at their own end and lines at
 any line ending

---
 pdr/parselabel/pds3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 2d92d69..6c31e27 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -144,9 +144,9 @@ def parse_pvl(
     label: str, deduplicate_pointers: bool = True
 ) -> tuple[MultiDict[str, Any], list[str]]:
     """Parse a PVL-text into a MultiDict and a flattened list of keys."""
-    uncommented_label = re.sub(r"/\*.*?(\r|\n|/\*)", "\n", label)
+    uncommented_label = re.sub(r"/\*.*?(\r|\n|\*/|$)", "\n", label)
     trimmed_lines = filter(
-        None, map(lambda line: line.strip(), uncommented_label.split("\n"))
+        None, map(lambda line: line.strip(), re.split(r"[\r\n]", uncommented_label))
     )
     statements = chunk_statements(trimmed_lines)
     mapping, params = BlockParser().parse_statements(statements)
-- 
2.43.0


From aaac27969c61d301ae2ce8dcd24b0595f89fb4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:08 +0000
Subject: [PATCH 23/76] fix: separate joined label lines by a space

---
 pdr/parselabel/pds3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 6c31e27..bca3c26 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -78,8 +78,8 @@ def chunk_statements(trimmed_lines: Iterable[str]) -> list[tuple[str, str]]:
             # i strongly suspect we will never make semantic use of
             # parameters like this and so we will just ignore them for now
             continue
-        value_head += " ".join(map(str.strip, statement[1:]))
-        statements.append((parameter, value_head))
+        value = " ".join([value_head, *map(str.strip, statement[1:])])
+        statements.append((parameter, value.strip()))
     return statements
 
 
-- 
2.43.0


From e380bcfb53477edd673e12e0f796fb1c95b63e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:11 +0000
Subject: [PATCH 24/76] fix: keep label assignments whose value contains an
 equals sign

---
 pdr/parselabel/pds3.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index bca3c26..81e15ed 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -71,12 +71,10 @@ def chunk_statements(trimmed_lines: Iterable[str]) -> list[tuple[str, str]]:
             statements.append((terminal, ""))
             continue
         try:
-            parameter, value_head = map(str.strip, assignment.split("="))
-        except ValueError:
             # some people like to put extra '='s on assignment lines,, like:
             # MRO:SPECIMEN_DESC      = "MONTMORILLONITE + FEOX, 100 % FECL2 SOL_N, PH=7,
-            # i strongly suspect we will never make semantic use of
-            # parameters like this and so we will just ignore them for now
+            parameter, value_head = map(str.strip, assignment.split("=", 1))
+        except ValueError:
             continue
         value = " ".join([value_head, *map(str.strip, statement[1:])])
         statements.append((parameter, value.strip()))
-- 
2.43.0


From 67e02d40d5fd6c73798e837eb73837ead67b60c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:14 +0000
Subject: [PATCH 25/76] fix: end label blocks at END, END_OBJECT and END_GROUP
 only

---
 pdr/parselabel/pds3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 81e15ed..8d74df3 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -22,7 +22,7 @@ from pdr.parselabel.utils import trim_label, DEFAULT_PVL_LIMIT
 from pdr.utils import decompress
 
 PVL_BLOCK_INITIALS = ("OBJECT", "GROUP", "BEGIN_OBJECT", "BEGIN_GROUP")
-PVL_BLOCK_TERMINAL = re.compile(r"END(_OBJECT|$)")
+PVL_BLOCK_TERMINAL = re.compile(r"END(_OBJECT\b|_GROUP\b|$)")
 PVL_QUOTED = re.compile(r"""\s*("[^"]*"|'[^']*')\s*""")
 PVL_BASED_INTEGER = re.compile(r"([+-]?)(\d{1,2})#([+-]?[0-9A-Za-z]+)#")
 PVL_NUMBER = re.compile(r"\s*[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\s*")
@@ -114,7 +114,7 @@ class BlockParser:
         for parameter, value in statements:
             if parameter in PVL_BLOCK_INITIALS:
                 self._step_in(value)
-            elif parameter.startswith("END"):
+            elif extract_pvl_block_terminal(parameter) is not None:
                 # not bothering with aggregation name verification
                 if len(self.names) > 0:
                     self._step_out()
-- 
2.43.0


From 66a2f438379668783d78e17a261ef30d02ef57b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:30 +0000
Subject: [PATCH 26/76] fix: read labels with more definitions than duplicate
 pointers

---
 pdr/parselabel/pds3.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 8d74df3..f35cd6e 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -448,27 +448,21 @@ def index_duplicate_pointers(
                 )
             else:
                 depoint = False
-            for ix in range(len(group)):
-                indexed_pointer = f"{pointer}_{ix}"
+            for target in (pointer, depointerize(pointer))[:1 + depoint]:
                 mapping = multidict_dig_and_edit(
                     input_multidict=mapping,
-                    target=pointer,
+                    target=target,
                     input_object=list(range(len(group))),
                     setter_function=set_key_index,
                     key_editor=True,
                 )
+            for ix in range(len(group)):
+                indexed_pointer = f"{pointer}_{ix}"
                 params.append(indexed_pointer)
                 params.remove(pointer)
                 if depoint:
                     depointer = depointerize(pointer)
                     indexed_depointer = f"{depointer}_{ix}"
-                    mapping = multidict_dig_and_edit(
-                        input_multidict=mapping,
-                        target=depointer,
-                        input_object=list(range(len(group))),
-                        setter_function=set_key_index,
-                        key_editor=True,
-                    )
                     params.append(indexed_depointer)
                     if depointer in params:
                         params.remove(depointer)
@@ -481,6 +475,8 @@ def set_key_index(pointer_range: list[int], key: str) -> str:
     utility setter function for `multidict_dig_and_edit()` as called by
     `index_duplicate_pointers()`; appends a number from a list to a string
     """
+    if len(pointer_range) == 0:  # more definitions than pointers
+        return key
     indexed_key = f"{key}_{pointer_range[0]}"
     pointer_range.pop(0)
     return indexed_key
-- 
2.43.0


From ab22dc0c3cc95b0d50d0da0908a1992aa927cf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 27/76] fix: do not read Python-only literals inside label
 collections

---
 pdr/parselabel/pds3.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index f35cd6e..01030a2 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -356,10 +356,12 @@ def literalize_pvl(
             # the contents of a quoted string are never interpreted
             if re.fullmatch(PVL_QUOTED, obj) is not None:
                 return obj.strip()[1:-1]
-            if (
-                not obj.lstrip().startswith(("(", "{"))
-                and re.fullmatch(PVL_NUMBER, obj) is None
-            ):
+            if obj.lstrip().startswith(("(", "{")):
+                unquoted = re.sub(r"\"[^\"]*\"|'[^']*'", "", obj)
+                literal = re.search(r"[^\s(){},\d.eE+-]", unquoted) is None
+            else:
+                literal = re.fullmatch(PVL_NUMBER, obj) is not None
+            if not literal:
                 # might be a Python literal, but not a PVL value
                 raise SyntaxError("not a PVL literal")
             return literal_eval(obj.replace("\\", "\\\\"))
-- 
2.43.0


From 5a5860d66f3c643db0478888af833617aad1bc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 28/76] fix: find the first end marker of an attached label
 wherever it falls

End markers in the first 20 bytes or straddling a 50 KiB chunk were
missed, a later marker of an earlier-listed kind was preferred to the
first one, and END lines preceded by CR or ended by spaces and LF were
not recognised.
---
 pdr/parselabel/utils.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pdr/parselabel/utils.py b/pdr/parselabel/utils.py
index eec1151..5cbb613 100644
--- a/pdr/parselabel/utils.py
+++ b/pdr/parselabel/utils.py
@@ -6,7 +6,7 @@ from typing import Union, IO
 
 
 KNOWN_LABEL_ENDINGS = (
-    re.compile(b"\nEND {0,8}(\r| {8})"),  # common PVL convention
+    re.compile(b"[\r\n]END {0,8}(\r|\n| {8})"),  # common PVL convention
     re.compile(b"\x00{3}"),  # just null bytes, for odder cases
     b"\nEND\n",  # mostly for Chang'e labels
 )
@@ -27,14 +27,20 @@ def _scan_to_end_of_label(
     buf: IO, max_size: int, text: bytes, raise_no_ending: bool
 ):
     """Subroutine of trim_label()"""
-    length = 0
+    length, start = 0, 0
     while length < max_size:
-        if (chunk := buf.read(50 * 1024)) == b'':
-            break
-        for ending in KNOWN_LABEL_ENDINGS:
-            if (endmatch := re.search(ending, chunk)) is not None:
-                return text + chunk[: endmatch.span()[1]]
+        chunk = buf.read(50 * 1024)
         text, length = text + chunk, length + 50 * 1024
+        endmatches = [
+            match for ending in KNOWN_LABEL_ENDINGS
+            if (match := re.compile(ending).search(text, start)) is not None
+        ]
+        if len(endmatches) > 0:
+            return text[: min(endmatches, key=lambda m: m.start()).end()]
+        if chunk == b'':
+            break
+        # endings may straddle chunks; the longest ending is 20 bytes long
+        start = max(len(text) - 20, 0)
     if raise_no_ending is True:
         raise InvalidAttachedLabel("Couldn't find a label ending.")
     return text
-- 
2.43.0


From 81a57f24fc29056fb537dd29ff1d3db54fee368d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:34 +0000
Subject: [PATCH 29/76] fix: keep the whole file name when matching names
 irrespective of case

stem_path dropped everything after a leading or before a trailing dot, so
that 'img.v1.' was taken for 'IMG'.
---
 pdr/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdr/utils.py b/pdr/utils.py
index dd8d10a..01b649a 100644
--- a/pdr/utils.py
+++ b/pdr/utils.py
@@ -61,15 +61,15 @@ def stem_path(path: Path):
     convert a Path to lowercase and remove any compression extensions
     from it to stem for loose matching
     """
-    lowercase = path.name.split('.')[0].lower()
+    lowercase = path.name.lower()
     exts = tuple(map(str.lower, path.suffixes))
     if len(exts) == 0:
         return lowercase
     looks_compressed = exts[-1] in SUPPORTED_COMPRESSION_EXTENSIONS
     # remove a trailing compression suffix, unless it's the only suffix
     if len(exts) > 1 and looks_compressed:
-        exts = exts[:-1]
-    return f"{lowercase}{''.join(exts)}"
+        return lowercase[:-len(exts[-1])]
+    return lowercase
 
 
 def check_cases(
-- 
2.43.0


From e38addafa10a622339445f00127427b514c710a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:38 +0000
Subject: [PATCH 30/76] fix: find off-case versions of files named with a
 compression suffix

---
 pdr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/utils.py b/pdr/utils.py
index 01b649a..2c3fbad 100644
--- a/pdr/utils.py
+++ b/pdr/utils.py
@@ -94,7 +94,7 @@ def check_cases(
             continue
         matches = tuple(
             filter(
-                lambda p: stem_path(p) == Path(filename).name.lower(),
+                lambda p: path.name.lower() in (stem_path(p), p.name.lower()),
                 path.parent.iterdir(),
             )
         )
-- 
2.43.0


From 635df4b4ebdaf48a0e96909639bd6a839cfc5d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:46 +0000
Subject: [PATCH 31/76] fix: read compressed files that end in a partial
 element like plain ones

---
 pdr/np_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdr/np_utils.py b/pdr/np_utils.py
index ba6e459..251f925 100644
--- a/pdr/np_utils.py
+++ b/pdr/np_utils.py
@@ -86,7 +86,9 @@ def np_from_buffered_io(
         # if it's monolithically compressed
         n_bytes = None if count is None else count * np.dtype(dtype).itemsize
         stream = BytesIO(buffered_io.read(n_bytes))
-        return np.frombuffer(stream.getbuffer(), dtype=dtype)
+        # like np.fromfile() below, ignore any partial element at the end
+        n_whole = stream.getbuffer().nbytes // np.dtype(dtype).itemsize
+        return np.frombuffer(stream.getbuffer(), dtype=dtype, count=n_whole)
     count = -1 if count is None else count
     # In this case, buffered_io is just an open file stream
     return np.fromfile(buffered_io, dtype=dtype, count=count)
-- 
2.43.0


From aca9ea7620b215a4a4445ad08e783162ff1484b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:33 +0000
Subject: [PATCH 32/76] fix: paramsort never puts a parameter with a default
 before one without

---
 pdr/func.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdr/func.py b/pdr/func.py
index d205398..d8336e4 100644
--- a/pdr/func.py
+++ b/pdr/func.py
@@ -114,11 +114,13 @@ def paramsort(params: Collection[Parameter]) -> list[Parameter]:
     for p in params:
         bins[p.kind.name].append(p)
 
-    # then put Optional variables at the end of each bin
+    # then put parameters with defaults, and Optional ones, at the end of each
+    # bin (a parameter with a default is not necessarily marked Optional, but
+    # may never precede one without a default)
     for kind, paramlist in bins.items():
         bins[kind] = sorted(
             paramlist,
-            key=lambda p: not_optional(p) is False
+            key=lambda p: (p.default is not _empty, not_optional(p) is False)
         )
 
     # noinspection PyTypeChecker
-- 
2.43.0


From 2bb522916c25cd9774a8809bac0fad4893d93807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 33/76] fix: mask special constants at the precision of the
 array

---
 pdr/_scaling.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 34122cc..5f017d2 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -55,12 +55,16 @@ def find_special_constants(
 def mask_specials(obj, specials):
     """"""
     obj = np.ma.masked_array(obj)
+    mask = np.zeros(obj.shape, dtype=bool)
+    # compare constants one at a time, and as Python numbers, so that each of
+    # them is considered at the precision of the array
+    for special in specials:
+        if isinstance(special, (Number, np.number)):
+            mask |= (obj.data == special)
     if np.nan in specials:
         # masks infs and nans as well
-        obj.mask = np.ma.mask_or(np.isin(obj.data, specials),
-                                 ~np.isfinite(obj.data))
-    else:
-        obj.mask = np.isin(obj.data, specials)
+        mask |= ~np.isfinite(obj.data)
+    obj.mask = mask
     return obj
 
 
-- 
2.43.0


From 7792c0a70162ca566580c7b6e949fbe571faae10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:25 +0000
Subject: [PATCH 34/76] fix: special constants with units or given as text

---
 pdr/_scaling.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 5f017d2..81b540e 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -4,7 +4,7 @@ import warnings
 from functools import wraps
 from itertools import product
 from numbers import Integral, Number, Real
-from typing import Optional, Sequence, Union
+from typing import Mapping, Optional, Sequence, Union
 
 import numpy as np
 
@@ -31,9 +31,17 @@ def find_special_constants(
         for name in PDS3_CONSTANT_NAMES
         if (name in block.keys()) and not (block[name] == "N/A")
     }
-    for k in specials.keys():
-        if isinstance(specials[k], Sequence):
+    for k in tuple(specials.keys()):
+        if isinstance(specials[k], Sequence) and not isinstance(
+            specials[k], str
+        ):
             specials[k] = specials[k][0]
+        if isinstance(specials[k], Mapping):
+            # a quantity with units
+            specials[k] = specials[k].get("value")
+        if not isinstance(specials[k], Number):
+            # a textual placeholder; does not define a constant
+            del specials[k]
     # ignore uint8 implicit constants (0, 255) for now -- too problematic
     # TODO: maybe add an override
     if obj.dtype.name == "uint8":
-- 
2.43.0


From c20260dfc7fe007b0e1a0506ae28e04cfe869b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:29 +0000
Subject: [PATCH 35/76] fix: implicit special constants never override declared
 ones

---
 pdr/_scaling.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 81b540e..32127ca 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -53,11 +53,13 @@ def find_special_constants(
     # in a value that won't conflict later
     if np.any(~np.isfinite(obj.data)):
         specials["INVALIDS"] = np.nan
-    return specials | {
+    # constants given in the label take precedence over implicit constants of
+    # the same name
+    return {
         possibility: constant
         for possibility, constant in implicit_possibilities.items()
         if constant in obj
-    }
+    } | specials
 
 
 def mask_specials(obj, specials):
-- 
2.43.0


From 24f4b02ed2d9346b171c56cbedc48f8c16e8a30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:33 +0000
Subject: [PATCH 36/76] fix: find_special_constants fails on types without
 implicit constants

---
 pdr/_scaling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 32127ca..f6136c1 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -47,7 +47,7 @@ def find_special_constants(
     if obj.dtype.name == "uint8":
         return specials
     # check for implicit constants appropriate to the sample type
-    implicit_possibilities = IMPLICIT_PDS3_CONSTANTS[obj.dtype.name]
+    implicit_possibilities = IMPLICIT_PDS3_CONSTANTS.get(obj.dtype.name, {})
     # can't check for nans with "in" because it's an equality check, so
     # we don't intend this to be used, just want to make the key and put
     # in a value that won't conflict later
-- 
2.43.0


From c31b17195bbf1bdc5950f6a00efcbbdc5ead9ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:37 +0000
Subject: [PATCH 37/76] fix: implicit N/A constant of 32-bit integers

---
 pdr/datatypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/datatypes.py b/pdr/datatypes.py
index 08762d9..956f207 100644
--- a/pdr/datatypes.py
+++ b/pdr/datatypes.py
@@ -176,12 +176,12 @@ IMPLICIT_PDS3_CONSTANTS = MappingProxyType(
         },
         # note that signed 32-bit integers don't seem to be considered in ISIS
         "int32": {
-            "N/A": -214743648,
+            "N/A": -2147483648,
             "UNK": 2147483647,
         },
         # TODO: dubious. when do we read 64-bit integers out of PDS3
         #  arrays anyway?
-        "int64": {"N/A": -214743648, "UNK": 2147483647},
+        "int64": {"N/A": -2147483648, "UNK": 2147483647},
         "uint32": {
             "N/A": 4294967293,
             "UNK": 4294967294,
-- 
2.43.0


From 517f719c58e21b357f5629b319669a671e4edff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 38/76] fix: scaling in place by a single factor and offset

---
 pdr/_scaling.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index f6136c1..185e506 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -136,12 +136,15 @@ def _copy_scale(obj, offset, scale):
 
 
 def _inplace_scale(obj, offset, scale):
-    if len(obj) == len(scale) == len(offset) > 1:
-        for ix, _ in enumerate(scale):
-            obj[ix] = obj[ix] * scale[ix] + offset[ix]
-    else:
-        obj *= scale
-        obj += offset
+    try:
+        if len(obj) == len(scale) == len(offset) > 1:
+            for ix, _ in enumerate(scale):
+                obj[ix] = obj[ix] * scale[ix] + offset[ix]
+            return obj
+    except TypeError:
+        pass  # len() is not usable on a float object
+    obj *= scale
+    obj += offset
     return obj
 
 
-- 
2.43.0


From 01daa7a07ccac7199226b71e4716805f87516eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:59 +0000
Subject: [PATCH 39/76] fix: per-plane scaling factors with a single offset,
 and the reverse

---
 pdr/_scaling.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 185e506..398f74e 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -176,6 +176,11 @@ def scale_array(
         if isinstance(offset, str):
             if offset.strip().upper() in {"NULL", "N/A", ""}:
                 offset = 0
+    # per-plane values for one parameter go with a single value for the other
+    if isinstance(scale, Sequence) and not isinstance(offset, Sequence):
+        offset = [offset] * len(scale)
+    elif isinstance(offset, Sequence) and not isinstance(scale, Sequence):
+        scale = [scale] * len(offset)
     # meaningfully better for enormous unscaled arrays
     if (scale == 1) and (offset == 0):
         return obj
-- 
2.43.0


From cb3151d9b341e6ac5bba13a15d1d857bec970ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 40/76] fix: scaling never rolls integers over

---
 pdr/_scaling.py | 68 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 53 insertions(+), 15 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 398f74e..ce271f4 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -85,54 +85,91 @@ def fit_to_scale(
 ) -> np.ndarray:
     """
     Return a version of `arr` cast to the minimum dtype that will hold its
-    range of values after multiplying by `offset` and adding `scale`.
+    range of values after multiplying by `scale` and adding `offset` (or `arr`
+    itself, if it is already of such a dtype).
 
     Supports:
 
     float32, float64, uint8, int8, uint16, int16, uint32, int32, uint64, int64.
     """
-    if arr.dtype.char not in 'bBhHiIlLqQnNpPf':
+    if arr.dtype.char not in 'bBhHiIlLqQnNpPfd':
         raise TypeError(f"This function does not support {arr.dtype.name}")
-    if arr.dtype.char in 'fd' or int(scale + offset) != scale + offset:
+    if arr.dtype.char in 'fd' or any(int(v) != v for v in (scale, offset)):
         bases, widths, infofunc = ('f',), (4, 8), np.finfo
     else:
         bases, widths, infofunc = ('u', 'i'), (1, 2, 4, 8), np.iinfo
-    amin, amax = map(int, (arr.min(), arr.max()))
-    smin, smax = amin * scale + offset, amax * scale + offset
-    for base, width in product(bases, widths):
-        candidate = np.dtype(f'{base}{width}')
+    if np.ma.count(arr) == 0:
+        limits = (0, 0)
+    else:
+        limits = tuple(map(int, (arr.min(), arr.max())))
+    scaled = tuple(limit * scale for limit in limits)
+    # all operands and intermediate values must also fit
+    values = limits + scaled + tuple(v + offset for v in scaled)
+    values += (scale, offset)
+    smin, smax = min(values), max(values)
+    candidates = [
+        np.dtype(f'{base}{width}') for base, width in product(bases, widths)
+    ]
+    if arr.dtype.kind in bases:
+        candidates.insert(0, arr.dtype)
+    for candidate in candidates:
         cinfo = infofunc(candidate)
         if smin >= cinfo.min and smax <= cinfo.max:
+            if candidate == arr.dtype:
+                return arr
             return arr.astype(candidate)
     raise TypeError("Unable to find a suitable data type for scaling.")
 
 
+def prevent_rollover(
+    arr: np.ndarray,
+    scale: Union[Integral, Real],
+    offset: Union[Integral, Real]
+) -> np.ndarray:
+    """
+    numpy does not report rollover of integer arrays. Cast integer arrays up if
+    scaling would roll them over.
+    """
+    if arr.dtype.kind not in 'iu' or not isinstance(scale, Integral):
+        return arr
+    return fit_to_scale(
+        arr, scale, offset if isinstance(offset, Integral) else 0
+    )
+
+
 def overflow_wrap(array_func):
     @wraps(array_func)
-    def with_upcasting(arr, scale, offset, *args, **kwargs):
+    def with_upcasting(arr, offset, scale, *args, **kwargs):
         with warnings.catch_warnings():
             warnings.filterwarnings("error", message=".*overflow enc.*")
+            arr = prevent_rollover(arr, scale, offset)
             try:
-                return array_func(arr, scale, offset, *args, **kwargs)
+                return array_func(arr, offset, scale, *args, **kwargs)
             except (OverflowError, RuntimeWarning):
                 arr = fit_to_scale(arr, scale, offset)
-                return array_func(arr, scale, offset, *args, **kwargs)
+                return array_func(arr, offset, scale, *args, **kwargs)
 
     return with_upcasting
 
 
+@overflow_wrap
+def _copy_scale_plane(obj, offset, scale):
+    return obj * scale + offset
+
+
 def _copy_scale(obj, offset, scale):
     try:
         # TODO: we should also be doing this per-plane scaling in inplace case
         if len(obj) == len(scale) == len(offset) > 1:
             planes = [
-                obj[ix] * scale[ix] + offset[ix] for ix in range(len(scale))
+                _copy_scale_plane(obj[ix], offset[ix], scale[ix])
+                for ix in range(len(scale))
             ]
             stacked = np.rollaxis(np.ma.dstack(planes), 2)
             return stacked
     except TypeError:
         pass  # len() is not usable on a float object
-    return obj * scale + offset
+    return _copy_scale_plane(obj, offset, scale)
 
 
 def _inplace_scale(obj, offset, scale):
@@ -143,8 +180,9 @@ def _inplace_scale(obj, offset, scale):
             return obj
     except TypeError:
         pass  # len() is not usable on a float object
-    obj *= scale
-    obj += offset
+    # masked arrays otherwise consider Python numbers to have the default dtype
+    obj *= obj.dtype.type(scale)
+    obj += obj.dtype.type(offset)
     return obj
 
 
@@ -194,7 +232,7 @@ def scale_array(
     if casting_to_float(obj, scale, offset):
         if float_dtype is not None:
             obj = obj.astype(float_dtype)
-    return overflow_wrap(_copy_scale)(obj, offset, scale)
+    return _copy_scale(obj, offset, scale)
 
 
 # TODO: shake this out much more vigorously
-- 
2.43.0


From ff6b5dff0a93ce9fa4dd0efec7fdaea596941a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:22 +0000
Subject: [PATCH 41/76] fix: browse image whose clipped limits coincide falls
 back to its full range instead of wrapping values modulo 256

---
 pdr/browsify.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index 7c21d12..23e23f7 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -88,7 +88,10 @@ def normalize_range(
     else:
         minimum, maximum = find_unmasked_bounds(image, cheat_low, cheat_high)
     if nice_clip is True and minimum == maximum:  # scaling was too intense
-        return image
+        if isinstance(image, np.ma.MaskedArray):
+            minimum, maximum = find_masked_bounds(image, 0, 0)
+        else:
+            minimum, maximum = find_unmasked_bounds(image, 0, 0)
     if not ((cheat_high is None) and (cheat_low is None)):
         if inplace is True:
             image = np.clip(image, minimum, maximum, out=image)
-- 
2.43.0


From a225b00691611ec25b399d03680b7a75ccdcf5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:24 +0000
Subject: [PATCH 42/76] fix: browse limits that coincide divide by zero (and
 mask every pixel of masked images rendered in place)

---
 pdr/browsify.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index 23e23f7..daf2690 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -97,6 +97,8 @@ def normalize_range(
             image = np.clip(image, minimum, maximum, out=image)
         else:
             image = np.clip(image, minimum, maximum)
+    if minimum == maximum:  # nothing to stretch
+        return np.clip(image, range_min, range_min)
     if inplace is True:
         # perform the operation in-place
         image -= minimum
-- 
2.43.0


From e623ce2215ad2fdb30766c9929698217095b3030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:27 +0000
Subject: [PATCH 43/76] fix: rendering integer images in place rolls over or
 fails for masked unsigned images

---
 pdr/browsify.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index daf2690..7b29713 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -99,19 +99,23 @@ def normalize_range(
             image = np.clip(image, minimum, maximum)
     if minimum == maximum:  # nothing to stretch
         return np.clip(image, range_min, range_min)
+    if inplace is True and image.dtype.char in np.typecodes["AllInteger"]:
+        span = (int(maximum) - int(minimum)) * (range_max - range_min)
+        # integers this narrow would roll over
+        inplace = span <= np.iinfo(image.dtype).max
     if inplace is True:
         # perform the operation in-place
+        masked, image = image, np.ma.getdata(image)
         image -= minimum
         image *= range_max - range_min
         if image.dtype.char in np.typecodes["AllInteger"]:
             # this loss of precision is probably better than
             # automatically typecasting it.
-            # TODO: detect rollover cases, etc.
             image //= maximum - minimum
         else:
             image /= maximum - minimum
         image += range_min
-        return image
+        return masked
     return (
         (image - minimum) *
         ((range_max - range_min) / (maximum - minimum))
-- 
2.43.0


From 789813c110b26d9adc04776236c0b75b14cc0d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:29 +0000
Subject: [PATCH 44/76] fix: browse rendering of wide signed integers wraps
 differences around

---
 pdr/browsify.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index 7b29713..30e34ab 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -116,6 +116,9 @@ def normalize_range(
             image /= maximum - minimum
         image += range_min
         return masked
+    if image.dtype.char in np.typecodes["AllInteger"]:
+        # differences of integers may not fit in their own type
+        minimum, maximum = float(minimum), float(maximum)
     return (
         (image - minimum) *
         ((range_max - range_min) / (maximum - minimum))
-- 
2.43.0


From 808255bc4046832436c25c37cd564c56dd81a299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 45/76] fix: browse limits of wide integer images wrap around
 inside np.percentile

---
 pdr/browsify.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index 30e34ab..359c60d 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -15,6 +15,13 @@ if TYPE_CHECKING:
     from PIL import Image
 
 
+def _widened(values: np.ndarray) -> np.ndarray:
+    """np.percentile interpolates between integers in their own type"""
+    if values.dtype.char in np.typecodes["AllInteger"]:
+        return values.astype(np.float64)
+    return values
+
+
 def find_masked_bounds(
     image: np.ma.MaskedArray, cheat_low: int, cheat_high: int
 ) -> tuple[Optional[Number], Optional[Number]]:
@@ -27,17 +34,17 @@ def find_masked_bounds(
         return None, None
     if (cheat_low != 0) and (cheat_high != 0):
         minimum, maximum = np.percentile(
-            valid, [cheat_low, 100 - cheat_high], overwrite_input=True
+            _widened(valid), [cheat_low, 100 - cheat_high], overwrite_input=True
         ).astype(image.dtype)
     elif cheat_low != 0:
         maximum = valid.max()
-        minimum = np.percentile(valid, cheat_low, overwrite_input=True).astype(
-            image.dtype
-        )
+        minimum = np.percentile(
+            _widened(valid), cheat_low, overwrite_input=True
+        ).astype(image.dtype)
     elif cheat_high != 0:
         minimum = valid.min()
         maximum = np.percentile(
-            valid, 100 - cheat_high, overwrite_input=True
+            _widened(valid), 100 - cheat_high, overwrite_input=True
         ).astype(image.dtype)
     else:
         minimum = valid.min()
@@ -51,11 +58,15 @@ def find_unmasked_bounds(
 ) -> tuple[Number, Number]:
     """straightforward way to find unmasked array bounds for normalize_range"""
     if cheat_low != 0:
-        minimum = np.percentile(image, cheat_low).astype(image.dtype)
+        minimum = np.percentile(_widened(image), cheat_low).astype(
+            image.dtype
+        )
     else:
         minimum = image.min()
     if cheat_high != 0:
-        maximum = np.percentile(image, 100 - cheat_high).astype(image.dtype)
+        maximum = np.percentile(_widened(image), 100 - cheat_high).astype(
+            image.dtype
+        )
     else:
         maximum = image.max()
     return minimum, maximum
-- 
2.43.0


From 2d65d44da8539e1193a69fe13ea29f7d3c72e786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:11 +0000
Subject: [PATCH 46/76] fix: tell the standard of a label by its own name, in
 any letter case

---
 pdr/pdr.py   | 9 +++++----
 pdr/utils.py | 4 +++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index d93891a..ebffd84 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -292,10 +292,11 @@ class Data:
                 # TODO: bad. need to not leave this open, although inefficient
                 self._hdulist = fits.open(self.filename)
         elif (
-            str(self.labelname).endswith(".xml") 
-            or str(self.labelname).endswith(".lblx")
-            or ("CE" in str(self.labelname) and
-                str(self.labelname).endswith((".2BL", ".2AL", ".2CL", ".01L")))
+            str(self.labelname).lower().endswith((".xml", ".lblx"))
+            or ("CE" in Path(str(self.labelname)).name.upper() and
+                str(self.labelname).upper().endswith(
+                    (".2BL", ".2AL", ".2CL", ".01L")
+                ))
         ):
             self.standard = "PDS4"
             self._pds4_structures = {}
diff --git a/pdr/utils.py b/pdr/utils.py
index 2c3fbad..0d2a851 100644
--- a/pdr/utils.py
+++ b/pdr/utils.py
@@ -237,7 +237,9 @@ def associate_label_file(
         return check_cases(data_filename)
     # a check for Chang'e labels, where the beginnings contain CEn with n
     # being the mission number
-    elif any(f"ce{m}" in data_filename.lower() for m in "123456") and\
+    elif any(
+        f"ce{m}" in Path(data_filename).name.lower() for m in "123456"
+    ) and\
             data_filename.lower().endswith(CHANG_LBL_EXTENSIONS):
         return check_cases(data_filename)
     for lext in LABEL_EXTENSIONS:
-- 
2.43.0


From 9fa750f65d1952a4068d742fb9c8abb94435e3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:14 +0000
Subject: [PATCH 47/76] fix: textual identifiers of a product are always text

---
 pdr/pdr.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index ebffd84..d14040b 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -190,10 +190,14 @@ class Metadata(MultiDict):
             field: self.metaget_(field, "")
             for field in get_annotations(DataIdentifiers)
         }
-        # it never does us any favors to have tuples or sets in here
+        # it never does us any favors to have tuples or sets in here; special
+        # case checks also rely on textual identifiers actually being text
+        annotations = get_annotations(DataIdentifiers)
         for k, v in identifiers.items():
             if isinstance(v, (tuple, set)):
                 identifiers[k] = str(v)
+            elif not isinstance(v, str) and "str" in str(annotations[k]):
+                identifiers[k] = "" if v is None else str(v)
         return identifiers
 
     def __str__(self):
-- 
2.43.0


From 63b702aab3fbd6990d46b44a0807adb1183e6f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:18 +0000
Subject: [PATCH 48/76] fix: apply the Huygens DISR offset only to Huygens
 products

---
 pdr/formats/checkers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdr/formats/checkers.py b/pdr/formats/checkers.py
index 184b914..3a82032 100644
--- a/pdr/formats/checkers.py
+++ b/pdr/formats/checkers.py
@@ -79,7 +79,9 @@ def check_special_offset(
     if (
         identifiers["INSTRUMENT_NAME"] == "DESCENT IMAGER SPECTRAL RADIOMETER"
         and identifiers["PRODUCT_TYPE"] == "RDR"
-        or disrsubs.search(identifiers["FILE_NAME"])
+    ) or (
+        identifiers["INSTRUMENT_HOST_NAME"] == "HUYGENS PROBE"
+        and disrsubs.search(identifiers["FILE_NAME"])
     ):
         return formats.cassini.get_offset(fn, identifiers)
     if (
-- 
2.43.0


From a724baaae88a7f29f31350402615763b98addaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:36 +0000
Subject: [PATCH 49/76] fix: recognize special cases whatever metadata is
 missing or malformed

---
 pdr/formats/checkers.py | 47 ++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/pdr/formats/checkers.py b/pdr/formats/checkers.py
index 3a82032..3018676 100644
--- a/pdr/formats/checkers.py
+++ b/pdr/formats/checkers.py
@@ -56,6 +56,28 @@ if TYPE_CHECKING:
     from pdr.pdrtypes import DataIdentifiers, PDRLike, PhysicalTarget
 
 
+def _lookup(block: Any, *keys: str) -> Any:
+    """Nested value of a block, or None if the block does not define it."""
+    for key in keys:
+        block = block.get(key) if isinstance(block, Mapping) else None
+    return block
+
+
+def _as_number(value: Any) -> float:
+    """Metadata value as a float, or NaN if it does not give a number."""
+    try:
+        return float(value)
+    except (TypeError, ValueError):
+        return float("nan")
+
+
+def _first_text(value: Any) -> str:
+    """First element of a sequence as text, or an empty string."""
+    if isinstance(value, (tuple, list)) and len(value) > 0:
+        return str(value[0])
+    return ""
+
+
 def check_special_offset(
     name: str, data: PDRLike, identifiers: DataIdentifiers, fn: str
 ) -> tuple[bool, Optional[int]]:
@@ -86,8 +108,9 @@ def check_special_offset(
         return formats.cassini.get_offset(fn, identifiers)
     if (
         identifiers["DATA_SET_ID"] == "CO-E/V/J-ISSNA/ISSWA-2-EDR-V1.0"
-        and 1359362956 <= float(data.metaget_("SPACECRAFT_CLOCK_STOP_COUNT"))
-        and float(data.metaget_("SPACECRAFT_CLOCK_STOP_COUNT")) <= 1363539029
+        and 1359362956 <= _as_number(
+            data.metaget_("SPACECRAFT_CLOCK_STOP_COUNT")
+        ) <= 1363539029
     ):
         return formats.cassini.coiss_1006_offset(data, name, identifiers)
     if (
@@ -214,7 +237,7 @@ def check_special_table_reader(
     if (
         identifiers["DATA_SET_ID"] == "ULY-J-GAS-5-SKY-MAPS-V1.0"
         and name == "TABLE"
-        and block["^STRUCTURE"] == "GASDATA.FMT"
+        and _lookup(block, "^STRUCTURE") == "GASDATA.FMT"
     ):
         return True, formats.ulysses.gas_table_loader(fn, fmtdef_dt)
     if (
@@ -264,7 +287,7 @@ def check_special_table_reader(
         return True, formats.voyager.lecp_table_loader(fn, fmtdef_dt)
     if (
         identifiers["DATA_SET_ID"] == "VG2-U-LECP-4-RDR-STEP-12.8MIN-V1.0"
-        and block["INTERCHANGE_FORMAT"] == "ASCII"
+        and _lookup(block, "INTERCHANGE_FORMAT") == "ASCII"
         and name == "TABLE"
     ):
         return True, formats.voyager.lecp_table_loader(fn, fmtdef_dt)
@@ -424,7 +447,7 @@ def check_special_structure(
         and (
             "HUY_DTWG_ENTRY_AERO" in fn
             or (
-                "HASI" in data.metaget_("FILE_NAME", "")
+                "HASI" in identifiers["FILE_NAME"]
                 and "PWA" not in identifiers["FILE_NAME"]
             )
         )
@@ -474,7 +497,7 @@ def check_special_structure(
     if (
         identifiers["DATA_SET_ID"] == "VG2-SS-PLS-4-SUMM-1HR-AVG-V1.0"
         and name == "TABLE"
-        and block["^STRUCTURE"] == "VGR_PLS_HR_2017.FMT"
+        and _lookup(block, "^STRUCTURE") == "VGR_PLS_HR_2017.FMT"
     ):
         return True, formats.voyager.get_structure(
             block, name, fn, data, identifiers
@@ -486,7 +509,7 @@ def check_special_structure(
     if (
         identifiers["DATA_SET_ID"] == "PHX-M-MECA-2-NIEDR-V1.0"
         and name == "TBL_TABLE"
-        and block["CONTAINER"]["^STRUCTURE"] == "TBL_0_STATE_DATA.FMT"
+        and _lookup(block, "CONTAINER", "^STRUCTURE") == "TBL_0_STATE_DATA.FMT"
     ):
         return True, formats.phoenix.elec_em6_structure(
             block, name, fn, data, identifiers
@@ -502,7 +525,7 @@ def check_special_structure(
     if (
         identifiers["DATA_SET_ID"] == "PHX-M-TEGA-2-LEDEDR-V1.0"
         and name == "TIME_SERIES"
-        and block["^STRUCTURE"] == "TEGA_LED.FMT"
+        and _lookup(block, "^STRUCTURE") == "TEGA_LED.FMT"
     ):
         return True, formats.phoenix.led_edr_structure(
             block, name, fn, data, identifiers
@@ -510,7 +533,7 @@ def check_special_structure(
     if (
         identifiers["DATA_SET_ID"] == "PHX-M-TEGA-4-SCRDR-V1.0"
         and name == "TIME_SERIES"
-        and block["^STRUCTURE"] == "TEGA_SCRDR.FMT"
+        and _lookup(block, "^STRUCTURE") == "TEGA_SCRDR.FMT"
     ):
         return True, formats.phoenix.sc_rdr_structure(
             block, name, fn, data, identifiers
@@ -725,7 +748,7 @@ def check_special_sample_type(
     if (
         identifiers["DATA_SET_ID"] == "MGN-V-RDRS-5-GVDR-V1.0"
         and "GVANF" in identifiers["PRODUCT_ID"]
-        and "N/A" in base_samp_info["SAMPLE_TYPE"]
+        and "N/A" in str(base_samp_info["SAMPLE_TYPE"])
     ):
         return True, formats.mgn.gvanf_sample_type()
     if identifiers["DATA_SET_ID"] == "LRO-L-CRAT-2-EDR-RAWDATA-V1.0":
@@ -843,7 +866,7 @@ def check_special_block(
         return True, formats.lro.lamp_rdr_histogram_image_loader(data)
     if (
         identifiers["DATA_SET_ID"] == "LRO-L-MRFLRO-5-GLOBAL-MOSAIC-V1.0"
-        and "GLOBAL_S4_32PPD" in data.metaget_("PRODUCT_ID")
+        and "GLOBAL_S4_32PPD" in identifiers["PRODUCT_ID"]
         and name == "IMAGE"
     ):
         # typo in one of the labels
@@ -944,7 +967,7 @@ def check_special_block(
     if (
         identifiers["DATA_SET_ID"] == "CO-CAL-ISS-2-V1.0"
         and name == "IMAGE"
-        and (".DA" in data.metaget_("^IMAGE")[0] 
+        and (".DA" in _first_text(data.metaget_("^IMAGE"))
              or identifiers["FILE_RECORDS"] == 1025)
     ):
         return formats.cassini.iss_calib_da_special_block(data, name)
-- 
2.43.0


From a24f0560c18a95d92253f83fa0551fbfd4cfe06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:40 +0000
Subject: [PATCH 50/76] fix: recognize special labels by file name only, given
 as text or Path

---
 pdr/formats/checkers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pdr/formats/checkers.py b/pdr/formats/checkers.py
index 3018676..51a9f63 100644
--- a/pdr/formats/checkers.py
+++ b/pdr/formats/checkers.py
@@ -1439,17 +1439,19 @@ def check_special_label(fn: Union[str, Path]):
     loaders.datawrap.ReadLabel's dispatch to `read_label()`. Also used in
     `read_pvl()`.
     """
+    # only the file's own name matters, not the directories it is in
+    own = Path(fn).name
     if (
-            any(tag in fn for tag in ['CE1', 'CE2', 'CE3'])
-            and any(sfx in fn for sfx in ['.1A', '.1B', '.1C',
+            any(tag in own for tag in ['CE1', 'CE2', 'CE3'])
+            and any(sfx in own for sfx in ['.1A', '.1B', '.1C',
                                                 '.2A', '.2B', '.2C',
                                                 '.3A', '.3B', '.3C',
                                                 '.01', '.02', '.03'])
     ):
         return True, formats.change.special_label(fn)
     if (
-            ".TAB" in fn and "_DOY" in fn and
-            ("MAG_" in fn or "BIO_" in fn) and "_V1" in fn
+            ".TAB" in own and "_DOY" in own and
+            ("MAG_" in own or "BIO_" in own) and "_V1" in own
     ):
         return True, formats.vex_mag.special_label(fn)
     return False, None
-- 
2.43.0


From ac0b7d2a79eab1b4620b828dd868270eebdaa314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:13 +0000
Subject: [PATCH 51/76] fix: metadata lookups accept any default and never mix
 up defaults

Defaults were part of a cache key, so an unhashable default (a list or
dict) raised TypeError and equal defaults (1, 1.0, True) were confused.
---
 pdr/pdr.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index d14040b..04b2d3e 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -132,7 +132,8 @@ class Metadata(MultiDict):
                 f"Returning only the first.",
                 DuplicateKeyWarning,
             )
-        return self._metaget_interior(text, default)
+        value = self._metaget_interior(text)
+        return default if value is None else value
 
     def metaget_(self, text: str, default: Any = None) -> Any:
         """quiet-by-default version of metaget"""
@@ -208,7 +209,7 @@ class Metadata(MultiDict):
         """"""
         return f"Metadata({prettify_multidict(self)})"
 
-    _metaget_interior: Callable[[str, Any], Any]
+    _metaget_interior: Callable[[str], Any]
     _metablock_interior: Callable[[str], Mapping]
 
 
@@ -1209,16 +1210,15 @@ class Data:
         for key in self.keys():
             yield self[key]
 
-    _metaget_interior: Callable[[str, Any], Any]
+    _metaget_interior: Callable[[str], Any]
     _metablock_interior: Callable[[str], Mapping]
 
 
-def _metaget_factory(metadata: Metadata) -> Callable[[str, Any], Any]:
+def _metaget_factory(metadata: Metadata) -> Callable[[str], Any]:
 
-    def metaget_interior(text, default):
+    def metaget_interior(text):
         """"""
-        value = dig_for_value(metadata, text, mtypes=(dict, MultiDict))
-        return default if value is None else value
+        return dig_for_value(metadata, text, mtypes=(dict, MultiDict))
 
     return cache(metaget_interior)
 
-- 
2.43.0


From e7707d5023bdc0c855089c259744107c90047917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:30 +0000
Subject: [PATCH 52/76] fix: fuzzy metadata lookup always gives the same answer

Keys equally close to the requested text were tried in the arbitrary
order of a set of strings, so the answer changed from run to run.
---
 pdr/pdr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 04b2d3e..706d7e6 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -143,7 +143,7 @@ class Metadata(MultiDict):
         """Like `metaget()`, but fuzzy-matches key names."""
         import Levenshtein as lev
         levratio = {
-            key: lev.ratio(key, text) for key in set(self.fieldcounts.keys())
+            key: lev.ratio(key, text) for key in self.fieldcounts.keys()
         }
         if levratio == {}:
             return None
-- 
2.43.0


From 3f539e05763744397633767ada9f5cb2e2720e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:08 +0000
Subject: [PATCH 53/76] fix: indexed names of repeated pointers never collide
 with other names

^IMAGE, ^IMAGE, ^IMAGE_0 became two ^IMAGE_0s and one ^IMAGE_1. Objects
that have a pointer but no definition were also counted as if they had
one, so that metablock() gave the whole label as their definition.
---
 pdr/parselabel/pds3.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 01030a2..830766f 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -450,23 +450,29 @@ def index_duplicate_pointers(
                 )
             else:
                 depoint = False
+            # skip indices that would produce a name the label already uses
+            indices = [
+                ix for ix in range(len(group) + len(params))
+                if f"{pointer}_{ix}" not in params
+                and f"{depointerize(pointer)}_{ix}" not in params
+            ][:len(group)]
             for target in (pointer, depointerize(pointer))[:1 + depoint]:
                 mapping = multidict_dig_and_edit(
                     input_multidict=mapping,
                     target=target,
-                    input_object=list(range(len(group))),
+                    input_object=indices.copy(),
                     setter_function=set_key_index,
                     key_editor=True,
                 )
-            for ix in range(len(group)):
+            for ix in indices:
                 indexed_pointer = f"{pointer}_{ix}"
                 params.append(indexed_pointer)
                 params.remove(pointer)
                 if depoint:
                     depointer = depointerize(pointer)
-                    indexed_depointer = f"{depointer}_{ix}"
-                    params.append(indexed_depointer)
+                    # there may be fewer definitions than pointers
                     if depointer in params:
+                        params.append(f"{depointer}_{ix}")
                         params.remove(depointer)
 
     return mapping, params
-- 
2.43.0


From a974194619b4fc008d768109c9573c31151d20ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:21 +0000
Subject: [PATCH 54/76] fix: repeated objects nested in one another are
 numbered in label order

The inner ones got the lower indices, so pointers and definitions that
are given in the same order were paired wrongly.
---
 pdr/parselabel/pds3.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 830766f..4e7e03c 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -247,6 +247,14 @@ def multidict_dig_and_edit(
     if setter_function is None:
         setter_function = constant(input_object)
     for key, value in input_multidict.items():
+        if predicate is None:
+            match = key == target
+        else:
+            match = predicate(key, value, target)
+        # name keys before the keys nested in their values, i.e., in the order
+        # in which they appear
+        if key_editor is True and match is not False:
+            key = setter_function(input_object, key)
         if (is_map := isinstance(value, mtypes)) is True:
             value = multidict_dig_and_edit(
                 value,
@@ -258,10 +266,6 @@ def multidict_dig_and_edit(
                 keep_values,
                 mtypes
             )
-        if predicate is None:
-            match = key == target
-        else:
-            match = predicate(key, value, target)
         if match is False:
             if keep_values is True or is_map is True:
                 output_multidict.add(key, value)
@@ -269,7 +273,7 @@ def multidict_dig_and_edit(
         if key_editor is False:
             output_multidict.add(key, setter_function(input_object, value))
         else:
-            output_multidict.add(setter_function(input_object, key), value)
+            output_multidict.add(key, value)
     return output_multidict
 
 
-- 
2.43.0


From 5f64cef3251fbc87d6767178a0deb06bb24f57d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:44 +0000
Subject: [PATCH 55/76] fix: indexed names of repeated table columns never
 collide with other names

Columns named A, A, and A_0 became A_0, A_1, and A_0, which is not a
legal set of column names, so the table could not be read.
---
 pdr/pd_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index 5cc1f45..4826b36 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -48,7 +48,10 @@ def reindex_df_values(df: pd.DataFrame, column="NAME") -> pd.DataFrame:
         # TODO: check what this is hitting.
         if name == "RESERVED":
             name = f"RESERVED_{field_group['START_BYTE'].iloc[0]}"
-        names = [f"{name}_{ix}" for ix in range(len(field_group))]
+        # skip indices that would produce a name already in use
+        taken = set(df[column])
+        names = (f"{name}_{ix}" for ix in range(len(df) + len(field_group)))
+        names = [n for n in names if n not in taken][:len(field_group)]
         df.loc[field_group.index, column] = names
     return df
 
-- 
2.43.0


From f9a681c4840b90e12fdf587cb2d03b31566b3144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:41 +0000
Subject: [PATCH 56/76] fix: HDUs of primary FITS files are listed in file
 order under distinct names

Repeated names were grouped together (A, B, A became A_0, A_1, B) and
could collide with other names (A, A, A_0), hiding HDUs.
---
 pdr/loaders/handlers.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/pdr/loaders/handlers.py b/pdr/loaders/handlers.py
index a413377..0838d1f 100644
--- a/pdr/loaders/handlers.py
+++ b/pdr/loaders/handlers.py
@@ -9,7 +9,6 @@ from __future__ import annotations
 from typing import Optional, TYPE_CHECKING, Union
 import warnings
 
-from cytoolz import groupby
 from multidict import MultiDict
 
 if TYPE_CHECKING:
@@ -305,17 +304,16 @@ def unpack_fits_headers(
     headerdict = MultiDict()
     if hdulist is None:
         hdulist = fits.open(filename)
-    namegroups = groupby(lambda hi: hi[1], hdulist.info(False))
-    for name, group in namegroups.items():
-        if len(group) == 1:
-            hdu_ix = group[0][0]
-            headerdict.add(name, handle_fits_header(hdulist, hdu_ix))
-            hdumap[name] = hdu_ix
-            continue
-        for ix, hdu in enumerate(group):
-            hdu_ix, hdu_name = hdu[0], f'{name}_{ix}'
-            headerdict.add(hdu_name, handle_fits_header(hdulist, hdu_ix))
-            hdumap[hdu_name] = hdu_ix
+    names = [hi[1] for hi in hdulist.info(False)]
+    for hdu_ix, name in enumerate(names):
+        if names.count(name) > 1:
+            # index HDUs with the same name, skipping names already in use
+            ix, hdu_name = 0, f"{name}_0"
+            while (hdu_name in names) or (hdu_name in hdumap):
+                ix, hdu_name = ix + 1, f"{name}_{ix + 1}"
+            name = hdu_name
+        headerdict.add(name, handle_fits_header(hdulist, hdu_ix))
+        hdumap[name] = hdu_ix
     params = []
     for hdu_name in headerdict.keys():
         # note that FITS headers aren't nested, so we only have to iterate
-- 
2.43.0


From 04a5df08c459858982554233b4b16a288d64f2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:44 +0000
Subject: [PATCH 57/76] fix: data of repeated HDUs with HEADER in their names
 are not dropped

Indexed names such as 'IMAGE HEADER_0' were taken for header objects, so
only the headers of these HDUs were accessible. As documented, HDUs
selected by index always give their data and header.
---
 pdr/loaders/handlers.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pdr/loaders/handlers.py b/pdr/loaders/handlers.py
index 0838d1f..46c11d1 100644
--- a/pdr/loaders/handlers.py
+++ b/pdr/loaders/handlers.py
@@ -75,11 +75,7 @@ def handle_fits_file(
         # This is a little sloppy, but it is more convenient to handle certain
         # things upstream. may want to collapse the two cases at some point.
         hdu_ix = hdu_id
-        is_header = (
-            "HEADER" in name
-            # cases where HDUs are named things like "IMAGE HEADER"
-            and name not in [h[1] for h in hdulist.info(False)]
-        )
+        is_header = False
     try:
         hdr_val = handle_fits_header(hdulist, hdu_ix)
     # astropy.io.fits does not call any verification on read. on 'output'
-- 
2.43.0


From 45d32d47e6cb8e0c6d865c67d26c129bace41fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:10 +0000
Subject: [PATCH 58/76] fix: indexed names of repeated FITS table columns never
 collide with other names

Columns named A, A, and A_0 became A_0, A_1, and A_0.
---
 pdr/loaders/handlers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdr/loaders/handlers.py b/pdr/loaders/handlers.py
index 46c11d1..b1d387e 100644
--- a/pdr/loaders/handlers.py
+++ b/pdr/loaders/handlers.py
@@ -167,8 +167,11 @@ def reindex_dupe_names(hdu: BinTableHDU):
     repeats = {n for n in names if names.count(n) > 1}
     for r in repeats:
         indices = [ix for ix, n in enumerate(names) if n == r]
-        for i, ix in enumerate(indices):
-            hdu.columns[ix].name += f"_{i}"
+        # skip indices that would produce a name already in use
+        new_names = (f"{r}_{i}" for i in range(2 * len(names)))
+        new_names = [n for n in new_names if n not in names]
+        for ix, new_name in zip(indices, new_names):
+            hdu.columns[ix].name = new_name
 
 
 def handle_compressed_image(
-- 
2.43.0


From 1271567a665cdbb045e0ab1de9237744936cee79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:41 +0000
Subject: [PATCH 59/76] fix: the header of one HDU no longer takes the place of
 another HDU

Loading an HDU named A also set A_HEADER to its header, even if the file
contains an HDU of that name.
---
 pdr/pdr.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 706d7e6..2854fe7 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -652,7 +652,11 @@ class Data:
         )
         if obj.__class__.__name__ == "ndarray":
             self._scaleflags[object_name] = True
-        return obj
+        # this HDU's header must not take the place of another HDU
+        return {
+            k: v for k, v in obj.items()
+            if k == object_name or k not in self._hdumap
+        }
 
     def _init_primary_format(self):
         """
-- 
2.43.0


From d17af0b66ffa18211b842d72b79f57c74c5ada3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:44 +0000
Subject: [PATCH 60/76] fix: FITS objects given by record number come from the
 declared record

Record numbers were tried as byte offsets first, so records 2880 and 2881
could select a neighboring HDU, and record numbers with units
(2 <RECORDS>) were taken for the record after the declared one.
---
 pdr/loaders/queries.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 6085cf7..0707966 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -344,14 +344,15 @@ def get_target(data: PDRLike, name: str) -> PhysicalTarget:
     return target
 
 
-def _agnostic_fits_index(is_header, target, hdulist):
+def _agnostic_fits_index(is_header, target, hdulist, factors=(1, 2880)):
     from pdr.loaders.handlers import hdu_byte_index
 
     hix = hdu_byte_index(hdulist)
     # check both byte and FITS record specification, attempting to weed out
     # the ambiguous edge case where data/header are separated by one record.
-    # this will not _always_ work.
-    for factor in (1, 2880):
+    # this will not _always_ work. the specification the label actually uses
+    # is the first of `factors`.
+    for factor in factors:
         matches = [
             t for t in ((target - 1) * factor, target * factor)
             if t in hix.keys()
@@ -378,12 +379,12 @@ def get_fits_start_byte(
             raise ValueError("This appears to point to the wrong file.")
     elif isinstance(target, (list, tuple)):
         target = target[1]
+    factors = (2880, 1)
     if isinstance(target, dict):
         if target['units'] == 'BYTES':
-            target = target['value']
-        else:
-            target = target['value'] * 2880
-    return _agnostic_fits_index('HEADER' in name, target, hdulist)
+            factors = (1, 2880)
+        target = target['value']
+    return _agnostic_fits_index('HEADER' in name, target, hdulist, factors)
 
 
 def get_hdulist(fn):
-- 
2.43.0


From bcae15fa0b51d36909c170548272c284ece9cc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:25 +0000
Subject: [PATCH 61/76] fix: headers of PDS4 FITS products are found under
 their own identifiers

The header loaded along with an array was given the name of its object
rather than its local identifier, so it could take the place of another
object (even the array itself) and the object carrying the identifier
was not the one found under it. Headers of other files that happened to
end at the same byte were also accepted.
---
 pdr/pdr.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 2854fe7..f5a1c92 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -696,12 +696,15 @@ class Data:
     #  duplicate header objects, one like "object_name_HEADER" and one like
     #  "HEADER_0", etc. This can also happen for PDS3, so maybe this is just
     #  an acceptable interface idiom.
-    def _find_fits_header_pds4_id(self, start_byte: int) -> Optional[str]:
+    def _find_fits_header_pds4_id(
+        self, filename: str, start_byte: int
+    ) -> Optional[str]:
         """
-        Given start byte for an HDU's data segment, check to see if the
-        PDS4 product associated with self includes that HDU's header as a
-        distinct data object with a local identifier. If it is, return the
-        PDS4 local identifier of that object. If not, return None.
+        Given the file that contains an HDU and the start byte of its data
+        segment, check to see if the PDS4 product associated with self
+        includes that HDU's header as a distinct data object. If it is, return
+        the PDS4 local identifier (or name) of that object -- specifically, as
+        it appears in our index. If not, return None.
         """
         from pdr.pds4_tools.reader.header_objects import HeaderStructure
 
@@ -714,10 +717,11 @@ class Data:
             meta = v.meta_data
             if 'object_length' not in meta.keys():
                 continue
+            if v.parent_filename != filename:
+                # another file may have a header of the same size
+                continue
             if meta['offset'] + meta['object_length'] == start_byte:
-                if 'name' not in meta.keys():
-                    return None
-                return meta['name'].replace(' ', '_')
+                return k
 
         return None
 
@@ -749,8 +753,14 @@ class Data:
             )
             if structure.is_header() is True:
                 return self._add_loaded_objects(result)
-            if (hid := self._find_fits_header_pds4_id(offset)) is not None:
+            hid = self._find_fits_header_pds4_id(
+                structure.parent_filename, offset
+            )
+            if hid is not None:
                 result[hid] = result.pop(f"{object_name}_HEADER")
+            elif f"{object_name}_HEADER" in self._pds4_structures:
+                # don't let it take the place of another object
+                result.pop(f"{object_name}_HEADER")
             if structure.is_array() is True:
                 self._scaleflags[object_name] = True
             self._add_loaded_objects(result)
-- 
2.43.0


From 26c21b8b565c5b03d97b93f1fb958b3ae5bf5863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:29 +0000
Subject: [PATCH 62/76] fix: PDS4 objects with the same name are all accessible

Objects without local identifiers may share a name (or differ only in
spaces and underscores); only the last one was accessible. Index them,
as is done for PDS3 pointers and FITS HDUs.
---
 pdr/pdr.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index f5a1c92..85957c1 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -346,9 +346,15 @@ class Data:
         structure_list = pds4.read(
             self.labelname, lazy_load=True, quiet=True, no_scale=True
         )
-        for structure in structure_list.structures:
-            self._pds4_structures[structure.id.replace(" ", "_")] = structure
-            self.index.append(structure.id.replace(" ", "_"))
+        ids = [s.id.replace(" ", "_") for s in structure_list.structures]
+        for structure, id_ in zip(structure_list.structures, ids):
+            if ids.count(id_) > 1 or id_ == "label":
+                # index repeated names, skipping names already in use
+                ix, base = 0, id_
+                while id_ in (*ids, *self.index, "label"):
+                    ix, id_ = ix + 1, f"{base}_{ix}"
+            self._pds4_structures[id_] = structure
+            self.index.append(id_)
         self._pds4_structures["label"] = structure_list.label
         self.index.append("label")
 
-- 
2.43.0


From 559c72b5b531650258f40f5764c344fd8dbb9ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:19 +0000
Subject: [PATCH 63/76] fix: columns of PDS4 tables keep their own, distinct
 names

Names of unnamed groups were removed from the names of fields, so that
fields with the same name in different groups got the same name, and a
field actually named like a group (GROUP_1) got an empty name.
---
 pdr/pdr.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 85957c1..47797d2 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -778,8 +778,13 @@ class Data:
             from pdr.pd_utils import structured_array_to_df
 
             df = structured_array_to_df(structure.data)
-            df.columns = df.columns.str.replace(r"GROUP_?\d+", "", regex=True)
-            df.columns = df.columns.str.strip(", ")
+            # shorten names of fields in unnamed groups, unless several of
+            # them would end up with the same name
+            short = df.columns.str.replace(
+                r"\bGROUP_?\d+, ", "", regex=True
+            ).str.strip(", ")
+            repeated = short.duplicated(keep=False)
+            df.columns = short.where(~repeated, df.columns)
             setattr(self, object_name, df)
         # TODO: do other important cases exist?
         else:
-- 
2.43.0


From 15a74877786e8b9b18f4b42a902ee28a5923d24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:00 +0000
Subject: [PATCH 64/76] fix: read exponents and bare fractions in ASCII ARRAY
 objects

---
 pdr/loaders/table.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index 94a4a05..f7c8d63 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -33,6 +33,9 @@ Characters we want to strip from the beginning/end of every element of an
 ASCII table.
 """
 
+ASCII_NUMBER = re.compile(r"[+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?")
+"""Pattern for numbers in ASCII arrays."""
+
 
 def read_array(fn, block, start_byte, fmtdef_dt):
     """
@@ -53,7 +56,7 @@ def read_array(fn, block, start_byte, fmtdef_dt):
     with open(fn) as stream:
         text = stream.read()
     try:
-        text = tuple(map(float, re.findall(r"[+-]?\d+\.?\d*", text)))
+        text = tuple(map(float, ASCII_NUMBER.findall(text)))
     except (TypeError, IndexError, ValueError):
         text = re.split(r"\s+", text)
     array = np.asarray(text).reshape(block["AXIS_ITEMS"])
-- 
2.43.0


From fd3e3fbd5ad5bf1dbd80fc3bc2add1c1b7611360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:03 +0000
Subject: [PATCH 65/76] fix: read ASCII ARRAY objects from where their label
 says they are

---
 pdr/loaders/table.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index f7c8d63..0e2c1fd 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -53,12 +53,15 @@ def read_array(fn, block, start_byte, fmtdef_dt):
             )
         return array.reshape(block["AXIS_ITEMS"])
     # assume objects without the optional interchange_format key are ascii
-    with open(fn) as stream:
-        text = stream.read()
+    with decompress(fn) as stream:
+        stream.seek(start_byte)
+        text = stream.read().decode()
     try:
         text = tuple(map(float, ASCII_NUMBER.findall(text)))
     except (TypeError, IndexError, ValueError):
         text = re.split(r"\s+", text)
+    # other things may follow the array in its file
+    text = text[:get_array_num_items(block)]
     array = np.asarray(text).reshape(block["AXIS_ITEMS"])
     if "DATA_TYPE" in block.keys():
         array = array.astype(
-- 
2.43.0


From 2a37d7dc66f27c5605c6beb9baec0114adf365b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:00 +0000
Subject: [PATCH 66/76] fix: PDS4 delimited tables with groups of over a
 hundred columns

---
 pdr/pds4_tools/reader/read_tables.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pdr/pds4_tools/reader/read_tables.py b/pdr/pds4_tools/reader/read_tables.py
index 91b5cc4..d464455 100644
--- a/pdr/pds4_tools/reader/read_tables.py
+++ b/pdr/pds4_tools/reader/read_tables.py
@@ -365,12 +365,10 @@ def _extract_delimited_field_data(extracted_data, table_byte_data, start_bytes,
         positions = itertools.product(*product_list)
 
         # Create an array that will store the indexes of *start_bytes* necessary to extract all the
-        # repetitions of this field for a single record (see below for details). To save memory, we use
-        # the smallest data  type that can contain all the needed indexes.
+        # repetitions of this field for a single record (see below for details). These take part in
+        # arithmetic below, where integers of a smaller data type would overflow.
         start_column = current_column
-        max_column = start_column + (num_group_columns-1) + ((group_shape-1) * skip_factors).sum()
-        array_dtype = get_min_integer_numpy_type([max_column])
-        columns = np.empty(num_group_columns, dtype=array_dtype)
+        columns = np.empty(num_group_columns, dtype='int64')
 
         # Extract the indexes of *start_bytes* that correspond to the correct columns for this field. This
         # is necessary for group fields, for which the column number in *start_bytes* (which are obtained
-- 
2.43.0


From 90276a12450639e5008defd6afbf298e0f7c463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:45 +0000
Subject: [PATCH 67/76] fix: empty numeric values of PDS4 delimited tables are
 missing, not 0

---
 pdr/pd_utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index 4826b36..97c2610 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -306,8 +306,16 @@ def structured_array_to_df(array: np.ndarray) -> pd.DataFrame:
     flattening any nested 1- or 2-D arrays into blocks of columns and
     typecasting as necessary for pandas compatibility. This does not attempt
     to flatten nested elements with dimensionality > 2, and will raise a
-    NotImplementedError if it encounters them.
+    NotImplementedError if it encounters them. Masked values become missing
+    values.
     """
+    if isinstance(array, np.ma.MaskedArray):
+        df = structured_array_to_df(np.asarray(array))
+        masks = structured_array_to_df(np.ma.getmaskarray(array))
+        for ix, masked in enumerate(masks.to_numpy().T):
+            if masked.any():
+                df.isetitem(ix, df.iloc[:, ix].mask(masked))
+        return df
     sub_dfs = []
     name_buffer = []
     for field in array.dtype.descr:
-- 
2.43.0


From 315ddd6f18940ed5c1e39a23919560f05602e002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:36 +0000
Subject: [PATCH 68/76] fix: lay out multiple-item columns that begin at the
 same byte separately

---
 pdr/pd_utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index 97c2610..70a4f88 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -132,7 +132,13 @@ def compute_offsets(fmtdef: pd.DataFrame) -> pd.DataFrame:
         column_groups = fmtdef.loc[fmtdef["ITEM_SIZE"].notna()]
         gix_list, position = [], 0
         # columns are not necessarily defined in order of position
-        for off, items in groupby(column_groups['SB_OFFSET'].tolist()):
+        # (and more than one of them may begin at the same position)
+        names = column_groups['NAME'].astype(str).str.replace(
+            r"_\d+$", "", regex=True
+        )
+        for (off, _), items in groupby(
+            zip(column_groups['SB_OFFSET'].tolist(), names)
+        ):
             gl = len(tuple(items))
             itemsize = int(column_groups['ITEM_SIZE'].iloc[position])
             gix_list += [(i * itemsize) + off for i in range(gl)]
-- 
2.43.0


From b1b620ff784ebc2d40404955344bce342076bfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:39 +0000
Subject: [PATCH 69/76] fix: do not repeat an ARRAY by the item count of the
 definition before it

---
 pdr/loaders/queries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 0707966..f0fd0c1 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -766,7 +766,7 @@ def read_format_block(
                 definition, object_name, fn, data, identifiers
             )
             if item_type == "ARRAY":
-                add_placeholder = True
+                add_placeholder, reps = True, None
             else:
                 reps = definition.get("REPETITIONS")
         else:
-- 
2.43.0


From 053911522a549b168476a56c1d07e416f3efe65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:50 +0000
Subject: [PATCH 70/76] fix: scale PDS4 arrays without changing the raw array,
 and mask all their special constants

---
 pdr/_scaling.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index ce271f4..a4cfc70 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -242,7 +242,8 @@ def scale_pds4_tools_struct(struct: object) -> np.ndarray:
     # TODO: apply bit_mask
     from pdr.pds4_tools.reader.data_types import apply_scaling_and_value_offset
 
-    array = struct.data
+    # plain copy, since scaling may happen in-place
+    array = np.array(struct.data)
     element_array = struct.meta_data["Element_Array"]
     scale_kwargs = {
         "scaling_factor": element_array.get("scaling_factor"),
@@ -251,10 +252,14 @@ def scale_pds4_tools_struct(struct: object) -> np.ndarray:
     # TODO: is this important?
     #     dtype = pds_to_numpy_type(struct.meta_data.data_type(),
     #     data=array, **scale_kwargs)
-    special_constants = struct.meta_data.get("Special_Constants")
-    array = apply_scaling_and_value_offset(
-        array, special_constants=special_constants, **scale_kwargs
-    )
+    special_constants = struct.meta_data.get("Special_Constants") or {}
+    # valid_minimum and valid_maximum are valid values
+    specials = [
+        v for k, v in special_constants.items() if not k.startswith("valid_")
+    ]
+    if len(specials) > 0:
+        array = mask_specials(array, specials)
+    array = apply_scaling_and_value_offset(array, **scale_kwargs)
     if hasattr(array, "mask"):
         return np.ma.masked_array(np.asarray(array.data), array.mask)
     return np.asarray(array)
-- 
2.43.0


From 35baaa01ec623ab8b10af97684e94d52b6332d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:11 +0000
Subject: [PATCH 71/76] fix: scale PDS4 integers by factors and offsets of
 another signedness

---
 pdr/pds4_tools/reader/data_types.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pdr/pds4_tools/reader/data_types.py b/pdr/pds4_tools/reader/data_types.py
index a1b442c..a8ce4ce 100644
--- a/pdr/pds4_tools/reader/data_types.py
+++ b/pdr/pds4_tools/reader/data_types.py
@@ -790,7 +790,12 @@ def apply_scaling_and_value_offset(data, scaling_factor=None, value_offset=None,
         if isinstance(scaling_factor, six.integer_types):
             scale_dtype = get_min_integer_numpy_type([scaling_factor])
 
-        data *= np.array(scaling_factor, dtype=scale_dtype)
+        scaling_factor = np.array(scaling_factor, dtype=scale_dtype)
+        if data.dtype.kind in 'iu':
+            # (the result fits this type, although e.g. a negative operand may not)
+            scaling_factor = scaling_factor.astype(data.dtype)
+
+        data *= scaling_factor
 
     if not no_offset:
 
@@ -798,7 +803,12 @@ def apply_scaling_and_value_offset(data, scaling_factor=None, value_offset=None,
         if isinstance(value_offset, six.integer_types):
             offset_dtype = get_min_integer_numpy_type([value_offset])
 
-        data += np.array(value_offset, dtype=offset_dtype)
+        value_offset = np.array(value_offset, dtype=offset_dtype)
+        if data.dtype.kind in 'iu':
+            # (the result fits this type, although e.g. a negative operand may not)
+            value_offset = value_offset.astype(data.dtype)
+
+        data += value_offset
 
     # Cast down integers if possible
     # (see note in `adjust_array_data_type` for why this can be necessary)
-- 
2.43.0


From 1bc68e79984846a3087c769997cb80fd100406cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:18 +0000
Subject: [PATCH 72/76] fix: look for implicitly-defined line prefix tables in
 the file of their image

---
 pdr/pdr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 47797d2..26d5df1 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -467,6 +467,9 @@ class Data:
         )
         if is_special is True:
             return self.get_absolute_paths(special_target)
+        if object_name in self._interleaved_objects:
+            # interleaved objects are in their parent objects' files
+            object_name = self._interleaved_objects[object_name]['parent']
         is_comp, comp_paths = self._check_compressed_file_pointer(object_name)
         if is_comp is True:
             return comp_paths
-- 
2.43.0


From 6b50286be440a29b8d2af38de02403ab2bd21558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:39 +0000
Subject: [PATCH 73/76] fix: count line suffixes in the rows of line prefix
 tables

---
 pdr/loaders/queries.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index f0fd0c1..910408c 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -305,6 +305,7 @@ def _fix_up_line_prefix_table_block(
     if "ROW_SUFFIX_BYTES" not in block.keys():
         block['ROW_SUFFIX_BYTES'] = (
             block['SAMPLE_BITS'] // 8 * block['LINE_SAMPLES']
+            + block.get('LINE_SUFFIX_BYTES', 0)
         )
     return block
 
-- 
2.43.0


From 54c15c1a1b0b3138b127087a3cdf6c9e77b64be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:17 +0000
Subject: [PATCH 74/76] fix: give the elements of vector columns names of their
 own

---
 pdr/pd_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index 70a4f88..a761bca 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -3,7 +3,7 @@ Methods for working with pandas objects, primarily intended for use in
 TABLE/ARRAY/SPREADSHEET/HISTOGRAM-loading workflows.
 """
 from __future__ import annotations
-from itertools import chain, groupby
+from itertools import chain, count, groupby, islice
 import re
 from typing import Hashable, TYPE_CHECKING
 import warnings
@@ -332,9 +332,10 @@ def structured_array_to_df(array: np.ndarray) -> pd.DataFrame:
                 sub_dfs.append(rectified_rec_df(array[name_buffer]))
                 name_buffer = []
             sub_df = rectified_rec_df(array[field[0]])
-            sub_df.columns = [
-                f"{field[0]}_{ix}" for ix in range(len(sub_df.columns))
-            ]
+            # skip indices that would produce another field's name
+            names = (f"{field[0]}_{ix}" for ix in count())
+            names = (n for n in names if n not in array.dtype.names)
+            sub_df.columns = list(islice(names, len(sub_df.columns)))
             sub_dfs.append(sub_df)
     if len(name_buffer) > 0:
         sub_dfs.append(rectified_rec_df(array[name_buffer]))
-- 
2.43.0


From 486cc01334e1baed319561eb4166e215dcf3cbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:43 +0000
Subject: [PATCH 75/76] fix: reload FITS images from their file, not from
 modified arrays

---
 pdr/pdr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 26d5df1..4621c40 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -661,6 +661,10 @@ class Data:
         )
         if obj.__class__.__name__ == "ndarray":
             self._scaleflags[object_name] = True
+        # the cached HDUList must not share its arrays: changes made to them
+        # would appear in objects loaded again
+        if obj[object_name].__class__.__name__ == "ndarray":
+            obj[object_name] = obj[object_name].copy()
         # this HDU's header must not take the place of another HDU
         return {
             k: v for k, v in obj.items()
-- 
2.43.0


From 25e5ad5de4b6e2829f5526a79d50343a471c0ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:48 +0000
Subject: [PATCH 76/76] fix: reload PDS4 objects from their files

---
 pdr/pdr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 4621c40..1658bb4 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -750,6 +750,10 @@ class Data:
         structure = self._pds4_structures[object_name]
         from pdr.pds4_tools.reader.label_objects import Label
 
+        if getattr(structure, "data_loaded", False):
+            # read it anew, as the loaded copy may have been modified
+            del structure.data
+
         if isinstance(structure, Label):
             setattr(self, "label", structure)
         elif check_special_pds4_cases(structure, self.filename,
-- 
2.43.0

