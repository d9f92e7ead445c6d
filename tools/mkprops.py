"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, pathlib
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "Every image pixel comes from the file position its label declares",
 "For a PDS3 image or qube, element (band, line, sample) of the returned array is exactly the file sample at the position implied by the declared start, band storage order, dimensions, line prefixes/suffixes and axis planes, and the array has exactly the declared shape (2-D for one band, 3-D band-first otherwise). "
 "Prefix and suffix pixels are never mixed into the image, are returned unchanged when asked for, and data stored after the image in the same file never affects it. "
 "Compressed and uncompressed copies of the same file give identical arrays.",
 ["inputs", "configurations"],
 "all dimension/prefix/suffix/axis-plane counts, all three band storage orders, all supported sample widths, all start offsets and all file contents",
 "Tests read one 2-D and one 3-D image with no padding; index arithmetic errors only show for particular combinations of storage order, padding and trailing data.",
 ["pdr/loaders/image.py", "pdr/loaders/queries.py", "pdr/np_utils.py", "pdr/utils.py"],
 [("read_image/process_*_image reshape+slice", "pdr/loaders/image.py"), ("get_image_properties element count", "pdr/loaders/queries.py"), ("np_from_buffered_io", "pdr/np_utils.py")],
 ["pdr.read(label)['IMAGE']", "pdr.loaders.image.read_image"])

prop("C02", "Image and qube geometry is derived exactly from the label",
 "The number of lines, samples, bands, bytes per pixel, storage order, and per-side padding used to read an image or qube equal what its label declares, with omitted optional keywords meaning one band and no padding. "
 "Storage order of a qube follows its declared axis order unless stated explicitly. "
 "Declarations that cannot be honoured (padding not a whole number of pixels, padding on several axes, both kinds of padding, several bands with no storage order) are rejected with an exception rather than read wrongly.",
 ["inputs", "configurations"],
 "all integer values and all presence/absence combinations of the geometry keywords of an image or qube definition",
 "Tests exercise two label fragments; the keyword presence combinations and numeric ranges are unbounded.",
 ["pdr/loaders/queries.py"],
 [("generic_image_properties, generic_qube_properties", "pdr/loaders/queries.py"), ("extract_axplane_metadata, extract_linefix_metadata", "pdr/loaders/queries.py"), ("check_fix_validity, base_sample_info", "pdr/loaders/queries.py")],
 ["shape of pdr.read(label)['IMAGE'] / ['QUBE']"])

prop("C03", "Declared sample types decode with the declared width, sign and byte order",
 "Every PDS3 data type name the library accepts is decoded as an element whose size is exactly the declared number of bytes, whose byte order is little-endian exactly for the PC, LSB and VAX families, and whose kind and signedness are the declared ones. "
 "A type name or type/width combination that cannot be represented is rejected with an exception; it is never silently decoded at a different width.",
 ["inputs"],
 "all sample type strings and all byte widths, in both the array and the record (table) encodings",
 "The tests list about a dozen type/width pairs; the guarantee ranges over all names and widths.",
 ["pdr/datatypes.py"],
 [("sample_types", "pdr/datatypes.py"), ("integer_code, determine_byte_order", "pdr/datatypes.py")],
 ["dtype of arrays and table columns returned by pdr.read"])

prop("C04", "Data objects are read from the byte their label points to",
 "The start of a data object equals what its pointer declares: record N means (N-1) records in, byte N means N-1 bytes in, an attached-label pointer given as a record number is counted in that file's records, and a pointer naming only a file means that file's beginning. A record number into a detached file for which no record length is declared is resolved by counting back from the file's end with the table's own declared rows and row bytes. "
 "The computed start is never negative, and the declared length and row window of a delimited or fixed-width table are computed from its own declared rows, row bytes and records. "
 "A pointer that cannot be interpreted yields an explicit error, never a silently wrong offset.",
 ["inputs", "configurations"],
 "all pointer forms (integer, file name, (file, offset), units dictionaries), all record sizes, row counts and file sizes",
 "Tests check a few literal pointers; arithmetic on optional, defaulted and mistyped keywords is not sampled.",
 ["pdr/loaders/queries.py", "pdr/loaders/_helpers.py"],
 [("data_start_byte", "pdr/loaders/queries.py"), ("quantity_start_byte, count_from_bottom_of_file", "pdr/loaders/_helpers.py"), ("table_position and its helpers", "pdr/loaders/queries.py")],
 ["values of the object returned by pdr.read(label)"])

prop("C05", "Binary table fields are read from their declared bytes",
 "In a binary table, field f of row r occupies exactly the bytes its definition declares: repeated items and containers expand in order with their declared offsets and strides, gaps and row prefixes/suffixes are skipped, and every field keeps its declared name (made unique), type and width. "
 "The bytes of one row sum to the declared row length, and no field ever reads bytes of another field unless the label says they overlap.",
 ["inputs", "configurations"],
 "all column/container/collection structures, all start bytes, widths, item counts and offsets, all row prefixes/suffixes",
 "The single binary table test has simple contiguous columns; layout arithmetic with gaps, items and nested containers is not reached.",
 ["pdr/loaders/queries.py", "pdr/utils.py", "pdr/pd_utils.py"],
 [("read_format_block, inject_format_files", "pdr/loaders/queries.py"), ("append_repeated_object", "pdr/utils.py"), ("compute_offsets, fmtdef_to_dtype handling", "pdr/pd_utils.py")],
 ["columns of pdr.read(label)['TABLE']"])

prop("C06", "Bit columns are exactly the declared bits of their parent column",
 "Each item of a bit column holds exactly the declared run of bits of the parent column's bytes, most significant bit first, in declared order and at the declared 1-based bit positions, for both byte orders. "
 "Every row of the parent column is converted, and rows are never mixed.",
 ["inputs", "configurations"],
 "all byte contents, all declared start bits, widths and item counts, both byte orders, all column widths",
 "One unit test covers one bit layout; the guarantee ranges over all layouts and contents.",
 ["pdr/bit_handling.py", "pdr/loaders/handlers.py"],
 [("get_bit_start_and_size, split_bits, splice_bit_string", "pdr/bit_handling.py"), ("convert_byte_column_to_bits, factor_to_dtype", "pdr/bit_handling.py"), ("add_bit_column_info", "pdr/loaders/handlers.py")],
 ["bit columns of pdr.read(label)['TABLE']"])

prop("C07", "IBM and VAX reals decode to the number they encode",
 "Each IBM System/360 single or double real in an array or table column decodes to sign x 0.mantissa x 16^(exponent-64) correctly rounded into the result type, and each VAX single real to the value of its VAX encoding, with zero decoding to zero. "
 "Narrowing the result to a smaller float happens only when no decoded value overflows or loses its magnitude.",
 ["inputs"],
 "all 2^32 / 2^64 bit patterns, all array lengths and mixes of magnitudes",
 "Tests check a handful of patterns; the boundary exponents and mantissas are not sampled.",
 ["pdr/np_utils.py", "pdr/pd_utils.py", "pdr/loaders/image.py"],
 [("ibm_to_np", "pdr/np_utils.py"), ("convert_ibm_reals, convert_vax_reals", "pdr/pd_utils.py")],
 ["values of IBM_REAL / VAX_REAL columns and images"])

prop("C08", "Any label value parses to its typed form or is kept as text",
 "Reading a PDS3 label value never raises: integers, reals, based integers, quoted strings, sequences, sets and values with units become the corresponding typed value, and anything that is not well formed is kept as its own text. "
 "Every element of a sequence or set is preserved (a sequence in order), quoting protects its content from interpretation, and a value with units keeps both value and unit.",
 ["inputs"],
 "all strings that can appear on the right-hand side of a label assignment",
 "The tests parse two labels; malformed or unusual values are unbounded and one failure makes the whole product unreadable.",
 ["pdr/parselabel/pds3.py"],
 [("literalize_pvl and its helpers", "pdr/parselabel/pds3.py"), ("read_pvl/parse_pvl", "pdr/parselabel/pds3.py")],
 ["pdr.Metadata values", "pdr.parselabel.pds3.literalize_pvl"])

prop("C09", "The parsed label keeps every statement, in order and at its nesting level",
 "Parsing a PDS3 label keeps every assignment (to a keyword in upper case) exactly once, in file order, inside the object or group that encloses it, including repeated names, and values continued over several lines are joined into one value. "
 "Comments and blank lines add nothing, and equal labels differing only in line endings, indentation or keyword-aligned whitespace parse equally.",
 ["inputs", "programs"],
 "all sequences of assignments, object/group begins and ends, comments and continuation lines, at any nesting depth",
 "Tests compare two fixed labels; nesting depth, duplicates and layout variation are unbounded.",
 ["pdr/parselabel/pds3.py", "pdr/parselabel/utils.py"],
 [("chunk_statements, BlockParser", "pdr/parselabel/pds3.py"), ("multidict_dig_and_edit, index_duplicate_pointers", "pdr/parselabel/pds3.py"), ("parse_pvl/split_pvl_lines", "pdr/parselabel/pds3.py")],
 ["pdr.Metadata", "pdr.parselabel.pds3.parse_pvl"])

prop("C10", "Attached labels are cut at their end marker wherever it falls",
 "The label text taken from a file is the text up to its first end marker (a line consisting of END, optionally padded with spaces, or a run of null bytes) and never includes data after it, wherever in the first megabyte of the file the marker falls. "
 "The text before the marker is complete and unchanged.",
 ["inputs"],
 "all file contents, all positions of the end marker including across internal read boundaries, all file lengths",
 "Test labels are short and the marker never falls near an internal buffer boundary.",
 ["pdr/parselabel/utils.py"],
 [("trim_label, _scan_to_end_of_label", "pdr/parselabel/utils.py")],
 ["pdr.Metadata of products with attached labels"])

prop("C11", "Files are found and decompressed without changing what is read",
 "A label's file reference resolves to the existing file of that name irrespective of letter case, an exactly named file is preferred, and a missing file is reported as missing rather than replaced by another. "
 "Opening a file through any supported compression yields the same bytes at the same offsets as the uncompressed file.",
 ["inputs", "configurations"],
 "all file names and case variants, all directory contents, all supported compressions, all file contents",
 "Tests run on uncompressed files with exact names.",
 ["pdr/utils.py", "pdr/np_utils.py", "pdr/loaders/queries.py"],
 [("check_cases, with_extension helpers", "pdr/utils.py"), ("decompress, stem_path", "pdr/utils.py"), ("np_from_buffered_io", "pdr/np_utils.py")],
 ["pdr.read / pdr.fastread results"])

prop("C12", "Loading objects is lazy, isolated and remembered",
 "Opening a product loads nothing; an object is loaded at most once on first access and afterwards the same value is returned, unless a reload is requested, which reads it from its file again. "
 "If loading one object fails, the failure is reported for that object and every other object stays loadable with unchanged values. "
 "The set of listed objects is fixed by the label, accessing an unlisted name is an error, and each listed object (whose name is not one of Data's own attributes) is at all times exactly one of loaded or unloaded.",
 ["histories", "inputs"],
 "all sequences of load, reload, attribute/item access and failing loads over any set of objects",
 "Tests load each object once in a fixed order with no failing loader.",
 ["pdr/pdr.py"],
 [("Data.load, load_all, _add_loaded_objects", "pdr/pdr.py"), ("__getattribute__, __getitem__, unloaded", "pdr/pdr.py")],
 ["pdr.Data attributes, items and keys()"])

prop("C13", "Loading parameters are resolved in order, each exactly once",
 "When an object's loading parameters are resolved, every query is answered exactly once, after all the parameters it depends on, and later answers see earlier ones; explicitly supplied parameters are never overridden. "
 "A special-case override replaces the general answer exactly when it applies, and a callee receives exactly those named arguments it accepts. "
 "A circular or unsatisfiable dependency is reported as an error rather than looping or passing a missing value.",
 ["inputs", "programs"],
 "all finite sets of query functions, all dependency graphs between them, all supplied parameter sets",
 "Tests use three-query examples; dependency order and shadowing over arbitrary graphs are not sampled.",
 ["pdr/func.py", "pdr/loaders/datawrap.py"],
 [("softquery", "pdr/func.py"), ("specialize, call_kwargfiltered, sig_union", "pdr/func.py"), ("Loader.__call__", "pdr/loaders/datawrap.py")],
 ["arguments received by a loader function"])

prop("C14", "Scaling and special constants change exactly the declared pixels",
 "A scaled array equals raw value x scaling factor + offset for every valid pixel, computed without integer wrap-around, and pixels equal to a declared special constant, or to one implied by the sample type unless the label declares the constant of that name itself, are masked and only those. An array whose scaled values no supported type can hold is rejected with an error. "
 "The stored raw array is not modified by asking for a scaled copy.",
 ["inputs", "configurations"],
 "all integer and float arrays, scaling factors, offsets and special constant sets",
 "Tests scale one array by one factor; dtype-range boundaries and negative factors are not sampled.",
 ["pdr/_scaling.py", "pdr/datatypes.py", "pdr/pdr.py"],
 [("scale_array, overflow_wrap, fit_to_scale", "pdr/_scaling.py"), ("find_special_constants, mask_specials", "pdr/_scaling.py"), ("IMPLICIT_PDS3_CONSTANTS", "pdr/datatypes.py"), ("Data.get_scaled", "pdr/pdr.py")],
 ["pdr.Data.get_scaled(name)"])

prop("C15", "Browse images keep order and stay within display range",
 "Rendering a non-empty two- or three-dimensional integer or float array for browsing maps values monotonically onto the full 0-255 range after clipping the requested percentiles (or onto the array's own full range where clipping would leave a single value), with every output value within that range and every masked or invalid pixel drawn in the fill colour only. "
 "Constant arrays, clip settings and multiband inputs never crash the renderer or change which band is which, and the input array is left unmodified unless the caller allows it.",
 ["inputs", "configurations"],
 "all finite arrays, clip percentages, mask patterns and band choices",
 "Tests use one or two small arrays; extreme values, constant arrays and mask patterns are not sampled.",
 ["pdr/browsify.py"],
 [("normalize_range, eightbit, find_*_bounds", "pdr/browsify.py"), ("colorfill_maskedarray, _format_multiband_image", "pdr/browsify.py")],
 ["files written by pdr.Data.dump_browse"])

prop("C16", "Every object pointer selects one loader, independent of unrelated metadata",
 "Every data object name is assigned exactly one kind of loader, determined by its name, file name and label in a fixed order of precedence, and the assignment never raises for any name. "
 "Objects designated as not loadable are never loaded, names of unsupported kinds fall back to the unsupported-object placeholder, and file-type detection from a file name depends on the name's own suffix only, independent of letter case and directory.",
 ["inputs"],
 "all object names, all file names and extensions, all label contents",
 "Tests cover only the handful of pointer names in their fixtures.",
 ["pdr/loaders/dispatch.py", "pdr/loaders/utility.py"],
 [("pointer_to_loader, image_lib_dispatch", "pdr/loaders/dispatch.py"), ("is_trivial, looks_like_this_kind_of_file", "pdr/loaders/utility.py")],
 ["loader chosen for each key of pdr.read(label)"])

prop("C17", "PDS4 labels unpack with every element, order and repetition preserved",
 "Unpacking a PDS4 label into metadata keeps every element of the XML tree and its text exactly once, at its nesting level, with repeated siblings of one name all kept in document order. Every object of the product is listed, in label order, under its own identifier or name, numbered where several share one. "
 "Loading by identifier gives the data or header of the object that carries that identifier and of no other, also where the data are stored in FITS files.",
 ["inputs"],
 "all finite label trees: any nesting, repetition and text content",
 "Tests compare a single fixed label.",
 ["pdr/parselabel/pds4.py"],
 [("unpack_to_multidict, reformat_pds4_tools_label", "pdr/parselabel/pds4.py")],
 ["pdr.Metadata of PDS4 products"])

prop("C18", "FITS objects come from the HDU the label points to",
 "An object of a FITS-backed product is taken from the HDU whose header or data starts at the byte the label declares (record numbers count the file's 2880-byte blocks; objects with HEADER in their name are headers, others data); where nothing starts there, loading reports failure: it is never a neighbouring HDU. "
 "HDUs of a file opened without a label each get a distinct name, in file order, and none is dropped; repeated columns of a FITS table likewise. A header holds every card of its HDU's header, a table every element of every column, in order, with the value the file encodes.",
 ["inputs", "configurations"],
 "all FITS layouts (number, order and sizes of HDUs), all declared offsets, all HDU names including duplicates and empty names",
 "Tests open one primary-HDU file.",
 ["pdr/loaders/handlers.py", "pdr/loaders/queries.py"],
 [("handle_fits_file, hdu byte index lookups", "pdr/loaders/handlers.py"), ("get_fits_start_byte, get_hdu_id", "pdr/loaders/queries.py")],
 ["pdr.read(fits)[name]"])

prop("C19", "Special-case handling applies only to the products it names",
 "A product whose identifying metadata, object name, file name and block keywords match none of the known special cases is read by the general rules: no special loader, block, offset, sample type, position, template or bit-start override is applied to it. "
 "Special-case recognition never raises, whatever metadata is present or missing.",
 ["inputs"],
 "all combinations of instrument, product, dataset and file identifiers, present or missing, of any type",
 "Tests read no products near the special-case criteria; accidental matches depend on particular identifier strings.",
 ["pdr/formats/checkers.py"],
 [("check_special_* functions", "pdr/formats/checkers.py")],
 ["result of pdr.read(label) for generic products"])

prop("C20", "Metadata lookup returns the first match or the default",
 "Looking up a keyword returns the value of its first occurrence at any nesting depth (at each level, its own keywords before those of nested blocks; blocks in label order), or the given default when it is absent; in fuzzy mode, that of a name closest to the one given. "
 "Looking up a named block returns it, nothing if the name is absent, or the whole metadata if the name is not that of a block. Lookups never modify the metadata, and names made unique (duplicate pointers or repeated columns) are pairwise distinct and numbered in their order, pointers and their definitions alike.",
 ["inputs"],
 "all nested metadata trees, all keywords and defaults, all multisets of names",
 "Tests look up a few names in one label.",
 ["pdr/pdr.py", "pdr/parselabel/pds3.py", "pdr/pd_utils.py"],
 [("Metadata.metaget, metablock", "pdr/pdr.py"), ("index_duplicate_pointers", "pdr/parselabel/pds3.py"), ("reindex_df_values", "pdr/pd_utils.py")],
 ["pdr.Metadata.metaget / metablock", "pdr.Data.keys()", "column names of tables"])

prop("C21", "PDS4 arrays, tables and headers hold what their labels declare",
 "Element (i, j, ...) of a PDS4 array is the value stored at the declared offset plus its place in the array, counted with the last axis fastest, in its declared type and byte order; axes are ordered by their sequence numbers. "
 "A table field holds, for each record and each repetition of the (nested) groups it is in, the value in the bytes, or between the delimiters, that its label declares; quotation marks around a delimited value are dropped, delimiters inside them kept, and an empty numeric value is missing, never a number. A uniformly sampled field holds the samples its first value, interval and scale declare. A header is exactly its declared bytes. Columns are in label order with distinct names.",
 ["inputs", "configurations"],
 "all offsets, record lengths, field and group locations, repetitions, nestings and data types, all file contents",
 "Tests read no PDS4 table with groups; position arithmetic errors show only for particular nestings, gaps and numbers of columns.",
 ["pdr/pds4_tools/reader/read_tables.py", "pdr/pds4_tools/reader/read_arrays.py", "pdr/pds4_tools/reader/table_objects.py", "pdr/pdr.py", "pdr/pd_utils.py"],
 [("_extract_fixed_width_field_data, _extract_delimited_field_data, _get_delimited_records_and_start_bytes", "pdr/pds4_tools/reader/read_tables.py"), ("TableManifest.get_field_offset, get_field_skip_factors", "pdr/pds4_tools/reader/table_objects.py"), ("_read_array_byte_data", "pdr/pds4_tools/reader/read_arrays.py"), ("structured_array_to_df", "pdr/pd_utils.py")],
 ["arrays, DataFrames and headers of PDS4 products returned by pdr.read"])

prop("C22", "Text table fields are read from their declared columns",
 "A text table is read from the part of the file its label declares, and from nothing before or after it. Field f of row r of a fixed-width table is the text at the columns its definition declares, in every row, whatever gaps, repeated items, row prefixes and suffixes or line endings there are; that of a delimited table is the text between its delimiters. "
 "Numbers are returned as the numbers written, text as written apart from the blanks and quotation marks around it. An ASCII ARRAY object holds the numbers written from its declared start on, as many as declared.",
 ["inputs", "configurations"],
 "all column positions, widths, items and gaps, all row contents, line endings, delimiters and table starts",
 "Tests read one small text table with contiguous columns.",
 ["pdr/loaders/table.py", "pdr/loaders/queries.py"],
 [("_interpret_as_ascii, _read_fwf_with_colspecs, _read_as_delimited, _read_table_from_stringio", "pdr/loaders/table.py"), ("compute_offsets of columns", "pdr/loaders/queries.py")],
 ["DataFrames of text tables returned by pdr.read"])

prop("C23", "Text objects hold exactly the text their labels point to",
 "A header or text object is exactly the text of its declared part of the file: located by bytes, its declared bytes (the first 80000 of them); located by lines, its declared lines; a pointer to a text file, the whole file. Line endings are made uniform and nothing else of the text changes, whether the file is compressed or not. "
 "Text that cannot be read is reported, and the label object of a product is its label.",
 ["inputs"],
 "all file contents and sizes, all starts and lengths, all line ending styles",
 "Tests read one header.",
 ["pdr/loaders/text.py", "pdr/loaders/_helpers.py"],
 [("read_header, skeptically_load_header, read_text", "pdr/loaders/text.py"), ("canonicalized", "pdr/loaders/_helpers.py")],
 ["text objects returned by pdr.read"])

prop("C24", "Images in standard formats hold their file's pixels",
 "An image file in a standard format (PNG, TIFF, GIF, BMP, WebP, JPEG 2000, ...), opened without a label or pointed to by one, is returned as the pixels the file encodes: lines by samples, one band per channel with bands first, colours of palette images looked up in the image's own palette. "
 "A file of one image has one object, IMAGE; a file of several frames has one object per frame, numbered from zero in file order, and each is loaded from its own frame, in whatever order they are asked for.",
 ["inputs", "histories"],
 "all image sizes, channel counts, palettes and numbers of frames; all orders of access",
 "Tests compare mean values of a few images.",
 ["pdr/loaders/handlers.py", "pdr/pil_utils.py", "pdr/pdr.py"],
 [("handle_compressed_image", "pdr/loaders/handlers.py"), ("Data._add_compressed_image_objects, Data.load", "pdr/pdr.py")],
 ["arrays returned by pdr.read for image files"])

prop("C25", "Browse products show the objects they are named for",
 "dump_browse writes, for every loaded object and for no other, its browse product under the name {prefix or file stem}_{object} in the requested folder, and no other file: for an array the pictures, as the browse image property describes them, of its scaled and masked values (of its raw values, or of both under their own names, where that is requested), one for each band of a burst; for a table a CSV file with its column names and the values of every row; for other objects their text. "
 "show returns the same pictures of the object asked for and writes nothing. Objects stay unmodified, and objects that were not loaded stay so, unless purging is requested, after which none is loaded and each can be loaded again as it is in its file.",
 ["inputs", "configurations", "histories"],
 "all products, sets of loaded objects and combinations of options",
 "Tests dump one image and look only at whether a file was written.",
 ["pdr/pdr.py", "pdr/browsify.py"],
 [("Data.dump_browse, Data.show", "pdr/pdr.py"), ("browsify, _browsify_array, _render_array", "pdr/browsify.py")],
 ["browse products written by Data.dump_browse", "pictures returned by Data.show"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
