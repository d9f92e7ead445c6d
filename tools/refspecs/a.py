Q='pdr/loaders/queries.py'; I='pdr/loaders/image.py'
refactor('image-axplanes-loop', [(I, '''        aslice, pslice = [], []
        for i in range(len(image.shape)):
            if i != axn:
                aslice.append(slice(None, None, None))
                pslice.append(slice(None, None, None))
            elif side == "prefix":
                aslice.append(slice(count, None))
                pslice.append(slice(None, count))
            else:
                aslice.append(slice(None, -count))
                pslice.append(slice(-count, None))
        axplanes[f"{side}_{ax}s"] = image[tuple(pslice)]
        image = image[tuple(aslice)]
''', '''        if side == "prefix":
            keep, drop = slice(count, None), slice(None, count)
        else:
            keep, drop = slice(None, -count), slice(-count, None)
        key = f"{side}_{ax}s"
        axplanes[key] = image[_axis_index(image.ndim, axn, drop)]
        image = image[_axis_index(image.ndim, axn, keep)]
'''), (I, '''def extract_axplanes(
''', '''def _axis_index(ndim, axis, index):
    """Index of a slice along one axis of an array."""
    full = [slice(None)] * ndim
    full[axis] = index
    return tuple(full)


def extract_axplanes(
''')], ['C01'])
refactor('image-single-order', [(I, '''    image, prefix, suffix = extract_single_band_linefix(image, props)
    image = convert_if_vax(image, props)
    image = image.reshape(
        (props["nrows"] + props["rowpad"], props["ncols"] + props["colpad"])
    )
''', '''    image, prefix, suffix = extract_single_band_linefix(image, props)
    shape = tuple(
        props[dim] + props[pad]
        for dim, pad in (("nrows", "rowpad"), ("ncols", "colpad"))
    )
    image = convert_if_vax(image.reshape(shape), props)
''')], ['C01','C07'])
refactor('image-linefix-split', [(I, '''    if props.get("line_suffix_pix", 0) > 0:
        suffix = image[:, -props["line_suffix_pix"] :]
        image = image[:, : -props["line_suffix_pix"]]
    if props.get("line_prefix_pix", 0) > 0:
        prefix = image[:, : props["line_prefix_pix"]]
        image = image[:, props["line_prefix_pix"] :]
    return image, prefix, suffix


def convert_if_vax''', '''    n_prefix = props.get("line_prefix_pix", 0)
    n_suffix = props.get("line_suffix_pix", 0)
    end = image.shape[1] - n_suffix
    if n_prefix > 0:
        prefix = image[:, :n_prefix]
    if n_suffix > 0:
        suffix = image[:, end:]
    return image[:, n_prefix:end], prefix, suffix


def convert_if_vax''')], ['C01'])
refactor('image-transpose', [(I, '''        image = image.reshape(lines, samples, bands)
        image = np.moveaxis(image, 2, 0)
''','''        image = image.reshape(lines, samples, bands).transpose(2, 0, 1)
'''),(I,'''        image = image.reshape(lines, bands, samples)
        image = np.moveaxis(image, 0, 1)
''','''        image = image.reshape(lines, bands, samples).swapaxes(0, 1)
'''),(I,'''    if props["nbands"] == 1:  # single-band image with back/topplanes
        image = image[0]
''','''    if props["nbands"] == 1:  # single-band image with back/topplanes
        image = image[0, :, :]
''')], ['C01'])
refactor('read-image-with', [(I,'''    f = decompress(fn)  # seamlessly deal with compression
    f.seek(start_byte)
    try:
        # Make sure that single-band images are 2-dim arrays.
        if props["nbands"] == 1 and props["bandpad"] == 0:
            image, axplanes, pre, suf = process_single_band_image(f, props)
        else:
            image, axplanes, pre, suf = process_multiband_image(f, props)
    except Exception as ex:
        raise ex
    finally:
        f.close()
''','''    # Make sure that single-band images are 2-dim arrays.
    is_flat = props["nbands"] == 1 and props["bandpad"] == 0
    process = process_single_band_image if is_flat else process_multiband_image
    with decompress(fn) as f:  # seamlessly deal with compression
        f.seek(start_byte)
        image, _axplanes, pre, suf = process(f, props)
''')], ['C01','C11'])
refactor('qube-props', [(Q,'''        ax_map = {"LINE": "nrows", "SAMPLE": "ncols", "BAND": "nbands"}
        for ax, count in zip(props["axnames"], use_block["CORE_ITEMS"]):
            props[ax_map[ax]] = count
''','''        counts = use_block["CORE_ITEMS"]
        ax_map = {"LINE": "nrows", "SAMPLE": "ncols", "BAND": "nbands"}
        props |= {ax_map[ax]: n for ax, n in zip(props["axnames"], counts)}
'''),(Q,'''    props["band_storage_type"] = band_storage_type
    if props["band_storage_type"] is None:
        if props.get("axnames") is not None:
            # noinspection PyTypeChecker
            # writing keys in last-axis-fastest for clarity. however,
            # ISIS always (?) uses first-axis-fastest, hence `reversed` below.
            props["band_storage_type"] = {
                ("BAND", "LINE", "SAMPLE"): "BAND_SEQUENTIAL",
                ("LINE", "SAMPLE", "BAND"): "SAMPLE_INTERLEAVED",
                ("LINE", "BAND", "SAMPLE"): "LINE_INTERLEAVED",
            }[tuple(reversed(props["axnames"]))]
        else:
            props["band_storage_type"] = "ISIS2_QUBE"
''','''    if band_storage_type is None and props.get("axnames") is None:
        band_storage_type = "ISIS2_QUBE"
    elif band_storage_type is None:
        # first axis is fastest
        band_storage_type = {
            ("SAMPLE", "LINE", "BAND"): "BAND_SEQUENTIAL",
            ("BAND", "SAMPLE", "LINE"): "SAMPLE_INTERLEAVED",
            ("SAMPLE", "BAND", "LINE"): "LINE_INTERLEAVED",
        }[tuple(props["axnames"])]
    props["band_storage_type"] = band_storage_type
''')], ['C02','C01'])
refactor('linefix-helper', [(Q,'''        fix_pix = fixbytes / props["BYTES_PER_PIXEL"]
        if fix_pix != int(fix_pix):
            raise NotImplementedError(
                "Line pre/suffixes not aligned with array element size are "
                "not supported."
            )
        linefix_metadata[f"line_{side.lower()}_pix"] = int(fix_pix)
        linefix_metadata["linepad"] += int(fix_pix)
''','''        fix_pix, remainder = divmod(fixbytes, props["BYTES_PER_PIXEL"])
        if remainder:
            raise NotImplementedError(
                "Line pre/suffixes not aligned with array element size are "
                "not supported."
            )
        linefix_metadata[f"line_{side.lower()}_pix"] = fix_pix
        linefix_metadata["linepad"] += fix_pix
'''),(Q,'''        fix_pix = fixbytes / props["BYTES_PER_PIXEL"]
        if int(fix_pix) != fix_pix:
            raise NotImplementedError(
                "Pre/suffix itemsize < array itemsize is not supported."
            )
        axplane_metadata[f"{side.lower()}_{rowcol[ax]}s"] = int(fix_pix)
        axplane_metadata[f"{rowcol[ax]}pad"] += int(fix_pix)
''','''        if fixbytes % props["BYTES_PER_PIXEL"] != 0:
            raise NotImplementedError(
                "Pre/suffix itemsize < array itemsize is not supported."
            )
        fix_pix = fixbytes // props["BYTES_PER_PIXEL"]
        direction = rowcol[ax]
        axplane_metadata[f"{side.lower()}_{direction}s"] = fix_pix
        axplane_metadata[f"{direction}pad"] += fix_pix
''')], ['C02','C01'])
refactor('fix-validity', [(Q,'''    if (props["linepad"] > 0) and (
        (props["rowpad"] + props["colpad"] + props["bandpad"]) > 0
    ):
        raise''','''    pads = [props[f"{ax}pad"] for ax in ("row", "col", "band")]
    has_linefix = props["linepad"] > 0
    if has_linefix and sum(pads) > 0:
        raise'''),(Q,'''    if len(gt0f((props["rowpad"], props["colpad"], props["bandpad"]))) > 1:
        raise''','''    if sum(1 for pad in pads if pad > 0) > 1:
        raise'''),(Q,'''    props["pixels"] = (
        (props["nrows"] + props["rowpad"])
        * (
            (props["ncols"] + props["colpad"])
            * (props["nbands"] + props["bandpad"])
            + props["linepad"]
        )
    )
    return props
''','''    rows = props["nrows"] + props["rowpad"]
    cols = props["ncols"] + props["colpad"]
    bands = props["nbands"] + props["bandpad"]
    props["pixels"] = rows * cols * bands + rows * props["linepad"]
    return props
''')], ['C02','C01'])
refactor('image-props', [(Q,'''    if "BANDS" in block:
        props["nbands"] = block["BANDS"]
        props["band_storage_type"] = block.get("BAND_STORAGE_TYPE", None)
        # TODO: assess whether this is always ok
        if props["band_storage_type"] is None and props["nbands"] > 1:
            raise ValueError(
                "Cannot read 3D image with no specified band storage type."
            )
    else:
        props["nbands"] = 1
        props["band_storage_type"] = None
''','''    props |= {"nbands": 1, "band_storage_type": None}
    if "BANDS" in block:
        props["nbands"] = block["BANDS"]
        props["band_storage_type"] = block.get("BAND_STORAGE_TYPE")
    # TODO: assess whether this is always ok
    if props["nbands"] > 1 and props["band_storage_type"] is None:
        raise ValueError(
            "Cannot read 3D image with no specified band storage type."
        )
'''),(Q,'''        "BYTES_PER_PIXEL": int(block["SAMPLE_BITS"] / 8),
        "is_vax''','''        "BYTES_PER_PIXEL": block["SAMPLE_BITS"] // 8,
        "is_vax''')], ['C02'])
refactor('sample-types', [('pdr/datatypes.py','''    if sample_bytes == 8:
        letter = "q"
    elif sample_bytes == 4:
        letter = "l"
    elif sample_bytes == 2:
        letter = "h"
    elif sample_bytes == 1:
        letter = "b"
    else:
        raise NotImplementedError(
            f"{sample_bytes}-byte integers are not supported."
        )
    if signed is False:
        letter = letter.upper()
    if for_numpy is True and sample_bytes in (4, 8):
        letter = f"i{sample_bytes}" if signed is True else f"u{sample_bytes}"
''','''    letter = {8: "q", 4: "l", 2: "h", 1: "b"}.get(sample_bytes)
    if letter is None:
        raise NotImplementedError(
            f"{sample_bytes}-byte integers are not supported."
        )
    if for_numpy is True and sample_bytes > 2:
        return f"{byteorder}{'i' if signed is True else 'u'}{sample_bytes}"
    if signed is False:
        letter = letter.upper()
'''),('pdr/datatypes.py','''    if any(sample_type.startswith(s) for s in ("PC", "LSB", "VAX")):
        return "<"
    return ">"
''','''    little = sample_type.startswith(("PC", "LSB", "VAX"))
    return "<" if little else ">"
''')], ['C03','C06'])
refactor('start-byte-early', [(Q,'''    start_byte = None
    if isinstance(target, (list, tuple)):
        target = target[-1]
    if isinstance(target, int):
        if target == 1:
            start_byte = 0
        elif record_bytes not in [None, ""]:
            start_byte = record_bytes * max(target - 1, 0)
        elif "ROWS" in block.keys():
            rows = block["ROWS"]
            row_bytes = block["ROW_BYTES"]
            start_byte = max(0, count_from_bottom_of_file(fn, rows, row_bytes))
    elif isinstance(target, dict):
        start_byte = quantity_start_byte(target, record_bytes)
    elif isinstance(target, str):
        start_byte = 0
    if start_byte is not None:
        if start_byte < 0:
            raise ValueError(f"BUG: start_byte={start_byte} < 0")
        return start_byte
    raise ValueError(f"Unknown data pointer format: {target}")
''','''    if isinstance(target, (list, tuple)):
        target = target[-1]
    start_byte = _start_of_target(target, record_bytes, block, fn)
    if start_byte is None:
        raise ValueError(f"Unknown data pointer format: {target}")
    if start_byte < 0:
        raise ValueError(f"BUG: start_byte={start_byte} < 0")
    return start_byte


def _start_of_target(target, record_bytes, block, fn):
    if isinstance(target, str):
        return 0
    if isinstance(target, dict):
        return quantity_start_byte(target, record_bytes)
    if not isinstance(target, int):
        return None
    if target == 1:
        return 0
    if record_bytes is not None and record_bytes != "":
        return max(target - 1, 0) * record_bytes
    if "ROWS" in block:
        size = count_from_bottom_of_file(fn, block["ROWS"], block["ROW_BYTES"])
        return size if size > 0 else 0
    return None
'''),('pdr/loaders/_helpers.py','''    tab_size = rows * row_bytes
    if isinstance(fn, list):
        fn = fn[0]
    return os.path.getsize(Path(fn)) - tab_size
''','''    path = fn[0] if isinstance(fn, list) else fn
    return os.path.getsize(path) - row_bytes * rows
''')], ['C04'])
refactor('table-length', [(Q,'''    length = None
    try:
        if "BYTES" in block.keys():
            length = block["BYTES"]
        elif n_records is not None:
            if "RECORD_BYTES" in block.keys():
                record_length = block["RECORD_BYTES"]
            elif "ROW_BYTES" in block.keys():
                record_length = block["ROW_BYTES"]
                record_length += block.get("ROW_PREFIX_BYTES", 0)
                record_length += block.get("ROW_SUFFIX_BYTES", 0)
            elif identifiers["RECORD_BYTES"] not in (None, ""):
                # TODO, probably, and applicable many more places than here:
                #  ideally we don't use identifiers for anything but special
                #  case checks.
                record_length = identifiers["RECORD_BYTES"]
            else:
                record_length = None
            if record_length is not None:
                length = record_length * n_records
    except AttributeError:
        pass
    return length
''','''    try:
        if "BYTES" in block.keys():
            return block["BYTES"]
    except AttributeError:
        return None
    if n_records is None:
        return None
    if "RECORD_BYTES" in block:
        return n_records * block["RECORD_BYTES"]
    if "ROW_BYTES" in block:
        parts = (
            block["ROW_BYTES"],
            block.get("ROW_PREFIX_BYTES", 0),
            block.get("ROW_SUFFIX_BYTES", 0),
        )
        return sum(parts) * n_records
    default = identifiers["RECORD_BYTES"]
    if default is None or default == "":
        return None
    return default * n_records
''')], ['C04'])
refactor('format-block-loop', [(Q,'''    if "HISTOGRAM" in name:
        fields = get_histogram_fields(block)
    else:
        fields, _ = read_format_block(block, name, fn, data, identifiers)
''','''    is_histogram = "HISTOGRAM" in name
    fields = (
        get_histogram_fields(block) if is_histogram
        else read_format_block(block, name, fn, data, identifiers)[0]
    )
'''),(Q,'''    for end in ("_PREFIX", "_SUFFIX", ""):
        length = block.get(f"ROW{end}_BYTES")
        if length is not None:
            fmtdef[f"ROW{end}_BYTES"] = length
''','''    for column in ("ROW_BYTES", "ROW_PREFIX_BYTES", "ROW_SUFFIX_BYTES"):
        if block.get(column) is not None:
            fmtdef[column] = block[column]
'''),('pdr/pd_utils.py','''    fmtdef["SB_OFFSET"] = fmtdef["START_BYTE"].astype(int) - 1
    if "ROW_PREFIX_BYTES" in fmtdef.columns:
        fmtdef["SB_OFFSET"] += fmtdef["ROW_PREFIX_BYTES"]
''','''    has_prefix = "ROW_PREFIX_BYTES" in fmtdef.columns
    offsets = fmtdef["START_BYTE"].astype(int) - 1
    if has_prefix:
        offsets = offsets + fmtdef["ROW_PREFIX_BYTES"]
    fmtdef["SB_OFFSET"] = offsets
'''),('pdr/pd_utils.py','''        gix_list, position = [], 0
        # columns are not necessarily defined in order of position
        for off, items in groupby(column_groups['SB_OFFSET'].tolist()):
            gl = len(tuple(items))
            itemsize = int(column_groups['ITEM_SIZE'].iloc[position])
            gix_list += [(i * itemsize) + off for i in range(gl)]
            position += gl
''','''        gix_list, index, last = [], 0, None
        sizes = column_groups['ITEM_SIZE'].tolist()
        itemsize = 0
        # columns are not necessarily defined in order of position
        for position, off in enumerate(column_groups['SB_OFFSET'].tolist()):
            if off == last:
                index += 1
            else:
                index, last, itemsize = 0, off, int(sizes[position])
            gix_list.append(off + index * itemsize)
''')], ['C05','C20'])
refactor('bit-split', [('pdr/bit_handling.py','''    end_bit_list = [
        start + size for start, size in zip(start_bit_list, bit_size_list)
    ]
    return [
        bit_string[start:end]
        for start, end in zip(start_bit_list, end_bit_list)
    ]
''','''    pieces = []
    for ix, start in enumerate(start_bit_list):
        pieces.append(bit_string[start:start + bit_size_list[ix]])
    return pieces
'''),('pdr/bit_handling.py','''            for item_index in range(items):
                start_bit = first_item_start_bit + item_index * item_offset
                start_bit_list.append(start_bit)
                bit_size_list.append(item_bits)
''','''            start_bit = first_item_start_bit
            for _ in range(items):
                start_bit_list.append(start_bit)
                bit_size_list.append(item_bits)
                start_bit += item_offset
'''),('pdr/bit_handling.py','''    dtype, remaining_length = [], field_length
    n = 0
    while remaining_length > 0:
        if remaining_length - lengths[-1] < 0:
            lengths.pop()
            continue
        dtype.append((str(n), f"{byte_order}u{lengths[-1]}"))
        n += 1
        remaining_length -= lengths[-1]
    return np.dtype(dtype)
''','''    dtype, remaining_length = [], field_length
    for length in reversed(lengths):
        n_whole, remaining_length = divmod(remaining_length, length)
        for _ in range(n_whole):
            dtype.append((str(len(dtype)), f"{byte_order}u{length}"))
    return np.dtype(dtype)
''')], ['C06'])
refactor('bits-format', [('pdr/bit_handling.py','''    for rec_ix in range(len(dtype)):
        bit_series.append(
            bytedf[str(rec_ix)]
            # convert to bin
            .map(bin)
            # cut off the '0b'
            .str.slice(2, None)
            # make sure they're fixed-length
            .str.zfill(dtype[rec_ix].itemsize * 8)
        )
    if byte_order == "<":
        # the last piece of a little-endian byte string is the most significant
        bit_series.reverse()
    # TODO: should probably be a single pd.concat operation
    bits = reduce(add, bit_series)
    return bits
''','''    for rec_ix in range(len(dtype)):
        n_bits = dtype[rec_ix].itemsize * 8
        piece = bytedf[str(rec_ix)].map(
            lambda value, width=n_bits: format(int(value), "b").zfill(width)
        )
        if byte_order == "<":
            # the last piece of a little-endian string is most significant
            bit_series.insert(0, piece)
        else:
            bit_series.append(piece)
    bits = bit_series[0]
    for piece in bit_series[1:]:
        bits = bits + piece
    return bits
''')], ['C06'])
refactor('ibm', [('pdr/np_utils.py','''    ibm_sign = (ibm >> sreg & 0x01).astype('int8')
    # dtype conversion: largest values possible will overfloat int64 or float32
    ibm_exponent = (ibm >> ereg & 0x7f).astype('float64')
    ibm_mantissa = ibm & mmask
    mantissa = ibm_mantissa / (2 ** ereg)
    exponent = 16 ** (ibm_exponent - 64)
    sign = 1 - (2 * ibm_sign).astype('int8')
    return sign * mantissa * exponent
''','''    negative = ((ibm >> sreg) & 0x01).astype(bool)
    # dtype conversion: largest values possible will overfloat int64 or float32
    characteristic = ((ibm >> ereg) & 0x7f).astype('float64')
    mantissa = (ibm & mmask) / (2 ** ereg)
    magnitude = mantissa * 16 ** (characteristic - 64)
    return np.where(negative, -magnitude, magnitude)
'''),('pdr/pd_utils.py','''            absolute = abs(converted)
            big = absolute.max() > np.finfo(np.float32).max
            nonzero = absolute[absolute > 0]
            if len(nonzero) > 0:
                small = nonzero.min() < 1e-44
            else:
                small = False
            if not (big or small):
                converted = converted.astype(np.float32)
''','''            absolute = np.abs(converted)
            nonzero = absolute[absolute != 0]
            small = len(nonzero) > 0 and nonzero.min() < 1e-44
            if not small and absolute.max() <= np.finfo(np.float32).max:
                converted = converted.astype('float32')
''')], ['C07'])
P='pdr/parselabel/pds3.py'
refactor('literalize-helper', [(P,'''            if re.match(r"[+-]?\\d{1,2}#", obj):
                return parse_non_base_10(obj)
            # the contents of a quoted string are never interpreted
            if re.fullmatch(PVL_QUOTED, obj) is not None:
                return obj.strip()[1:-1]
            if obj.lstrip().startswith(("(", "{")):
                unquoted = re.sub(r"\\"[^\\"]*\\"|'[^']*'", "", obj)
                literal = re.search(r"[^\\s(){},\\d.eE+-]", unquoted) is None
            else:
                literal = re.fullmatch(PVL_NUMBER, obj) is not None
            if not literal:
                # might be a Python literal, but not a PVL value
                raise SyntaxError("not a PVL literal")
            return literal_eval(obj.replace("\\\\", "\\\\\\\\"))
''','''            if PVL_QUOTED.fullmatch(obj) is not None:
                # the contents of a quoted string are never interpreted
                return obj.strip()[1:-1]
            if re.match(r"[+-]?\\d{1,2}#", obj):
                return parse_non_base_10(obj)
            if not _is_literal(obj):
                # might be a Python literal, but not a PVL value
                raise SyntaxError("not a PVL literal")
            return literal_eval(obj.replace("\\\\", "\\\\\\\\"))
'''),(P,'''def literalize_pvl(
''','''def _is_literal(obj):
    if not obj.lstrip().startswith(("(", "{")):
        return PVL_NUMBER.fullmatch(obj) is not None
    unquoted = re.sub(r"\\"[^\\"]*\\"|'[^']*'", "", obj)
    return re.search(r"[^\\s(){},\\d.eE+-]", unquoted) is None


def literalize_pvl(
''')], ['C08'])
refactor('split-collection', [(P,'''    elements, depth, quote = [""], 0, None
    for char in text:
        if quote is not None:
            quote = None if char == quote else quote
        elif char == '"' or (char == "'" and elements[-1].strip() == ""):
            quote = char
        elif char in "({":
            depth += 1
        elif char in ")}":
            depth -= 1
        elif char == "," and depth <= 0:
            elements.append("")
            continue
        elements[-1] += char
    return [element.strip() for element in elements]
''','''    elements, current, depth, quote = [], "", 0, None
    for char in text:
        if quote is None and char == "," and depth <= 0:
            elements.append(current.strip())
            current = ""
            continue
        if quote is not None:
            if char == quote:
                quote = None
        elif char == '"':
            quote = char
        elif char == "'" and not current.strip():
            quote = char
        else:
            depth += {"(": 1, "{": 1, ")": -1, "}": -1}.get(char, 0)
        current += char
    return elements + [current.strip()]
''')], ['C08'])
refactor('block-parser', [(P,'''        for parameter, value in statements:
            if parameter in PVL_BLOCK_INITIALS:
                self._step_in(value)
            elif extract_pvl_block_terminal(parameter) is not None:
                # not bothering with aggregation name verification
                if len(self.names) > 0:
                    self._step_out()
                # ignore invalid end block statements at top level
            else:
                self.add_statement(parameter, value)
''','''        for parameter, value in statements:
            self._handle(parameter, value)
'''),(P,'''    def _step_out(self):
''','''    def _handle(self, parameter, value):
        if parameter in PVL_BLOCK_INITIALS:
            self._step_in(value)
            return
        if extract_pvl_block_terminal(parameter) is None:
            self.add_statement(parameter, value)
            return
        # not bothering with aggregation name verification;
        # ignore invalid end block statements at top level
        if self.names:
            self._step_out()

    def _step_out(self):
'''),(P,'''    trimmed_lines = filter(
        None, map(lambda line: line.strip(), re.split(r"[\\r\\n]", uncommented_label))
    )
''','''    stripped = [line.strip() for line in re.split(r"[\\r\\n]", uncommented_label)]
    trimmed_lines = [line for line in stripped if line]
'''),(P,'''    start = line.partition("=")[0][:8]
    if start != start.upper():
        return False
    return True
''','''    start = line[:min(line.index("="), 8)]
    return start == start.upper()
''')], ['C09','C20'])
refactor('edit-loop', [(P,'''        if match is False:
            if keep_values is True or is_map is True:
                output_multidict.add(key, value)
            continue
        if key_editor is False:
            output_multidict.add(key, setter_function(input_object, value))
        else:
            output_multidict.add(key, value)
''','''        if match is False and not (keep_values is True or is_map is True):
            continue
        if match is not False and key_editor is False:
            value = setter_function(input_object, value)
        output_multidict.add(key, value)
''')], ['C09','C20','C08'])
refactor('trim-label', [('pdr/parselabel/utils.py','''        endmatches = [
            match for ending in KNOWN_LABEL_ENDINGS
            if (match := re.compile(ending).search(text, start)) is not None
        ]
        if len(endmatches) > 0:
            return text[: min(endmatches, key=lambda m: m.start()).end()]
        if chunk == b'':
''','''        first = None
        for ending in KNOWN_LABEL_ENDINGS:
            match = re.compile(ending).search(text, start)
            if match is None:
                continue
            if first is None or match.start() < first.start():
                first = match
        if first is not None:
            return text[:first.end()]
        if len(chunk) == 0:
'''),('pdr/parselabel/utils.py','''    target_is_fn = isinstance(fn, (Path, str))
    try:
        if target_is_fn is True:
            fn = open(fn, 'rb')
        text = fn.read(20)
        if strict_decode is True:
            try:
                text.decode('ascii')
            except UnicodeDecodeError:
                raise InvalidAttachedLabel("File head appears to be binary.")
        text = _scan_to_end_of_label(fn, max_size, text, raise_no_ending)
    finally:
        if target_is_fn is True:
            fn.close()
''','''    if isinstance(fn, (Path, str)):
        with open(fn, 'rb') as stream:
            return trim_label(
                stream, max_size, strict_decode, raise_no_ending,
                special_encoding
            )
    text = fn.read(20)
    if strict_decode is True and not text.isascii():
        raise InvalidAttachedLabel("File head appears to be binary.")
    text = _scan_to_end_of_label(fn, max_size, text, raise_no_ending)
''')], ['C10'])
