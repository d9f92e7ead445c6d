U='pdr/utils.py'; F='pdr/func.py'; D='pdr/loaders/dispatch.py'; Q='pdr/loaders/queries.py'
L='pdr/loaders/_helpers.py'; PU='pdr/parselabel/utils.py'; P='pdr/parselabel/pds3.py'; H='pdr/loaders/handlers.py'
refactor('dispatch-once', [(D,'''    if image_lib_dispatch(pointer, data) is not None:
        return image_lib_dispatch(pointer, data)
    if special_pointer_dispatch(pointer, data.identifiers) is not None:
        return special_pointer_dispatch(pointer, data.identifiers)
    if (
        "TEXT" in pointer
        or "PDF" in pointer
        or "MAP_PROJECTION_CATALOG" in pointer
        or "FILENAME" in pointer
    ):
        return ReadText()
    if "DESC" in pointer:  # probably points to a reference file
        return ReadText()
''','''    for choose in (
        lambda: image_lib_dispatch(pointer, data),
        lambda: special_pointer_dispatch(pointer, data.identifiers),
    ):
        if (loader := choose()) is not None:
            return loader
    # DESC: probably points to a reference file
    text_words = ("TEXT", "PDF", "MAP_PROJECTION_CATALOG", "FILENAME", "DESC")
    if any(word in pointer for word in text_words):
        return ReadText()
'''),(D,'''    table_words = (
        "TABLE", "SPREADSHEET", "CONTAINER", "SERIES", "SPECTRUM", "HISTOGRAM",
        "FILE"
    )
    if (
        any(val in pointer for val in table_words)
        and not any(val+"_HEADER" in pointer for val in table_words)
        and not any(val + "_NAME" in pointer for val in table_words)
        and "HISTOGRAM_IMAGE" not in pointer
    ):
        return ReadTable()
''','''    if _names_a_table(pointer):
        return ReadTable()
'''),(D,'''def file_extension_to_loader(''','''TABLE_WORDS = (
    "TABLE", "SPREADSHEET", "CONTAINER", "SERIES", "SPECTRUM", "HISTOGRAM",
    "FILE"
)


def _names_a_table(pointer: str) -> bool:
    if "HISTOGRAM_IMAGE" in pointer:
        return False
    found = False
    for word in TABLE_WORDS:
        if f"{word}_HEADER" in pointer or f"{word}_NAME" in pointer:
            return False
        found = found or word in pointer
    return found


def file_extension_to_loader('''),(D,'''    if (
            "SLN-L-SP" in identifiers['DATA_SET_ID']
            and "SPECTRUM" in pointer
    ):
        return ReadImage()
    if (
            "SLN-L-SP" in identifiers['DATA_SET_ID']
            and "ANCILLARY_AND_SUPPLEMENT_DATA" in pointer
    ):
        return ReadTable()
    return None
''','''    if "SLN-L-SP" not in identifiers['DATA_SET_ID']:
        return None
    if "SPECTRUM" in pointer:
        return ReadImage()
    if "ANCILLARY_AND_SUPPLEMENT_DATA" in pointer:
        return ReadTable()
    return None
''')], ['C16', 'C19', 'C12'])
refactor('start-bytes', [(Q,'''    if (block is not None) and ("RECORD_BYTES" in block.keys()):
        record_bytes = block["RECORD_BYTES"]
    else:
        record_bytes = identifiers["RECORD_BYTES"]
    start_byte = None
    if isinstance(target, (list, tuple)):
        target = target[-1]
    if isinstance(target, int):
        if target == 1:
            start_byte = 0
        elif record_bytes not in [None, ""]:
            start_byte = record_bytes * max(target - 1, 0)
        elif "ROWS" in block.keys():
            rows = block["ROWS"]
            row_bytes = block["ROW_BYTES"]
            start_byte = max(0, count_from_bottom_of_file(fn, rows, row_bytes))
    elif isinstance(target, dict):
        start_byte = quantity_start_byte(target, record_bytes)
    elif isinstance(target, str):
        start_byte = 0
    if start_byte is not None:
        if start_byte < 0:
            raise ValueError(f"BUG: start_byte={start_byte} < 0")
        return start_byte
    raise ValueError(f"Unknown data pointer format: {target}")
''','''    record_bytes = _record_length(identifiers, block)
    if isinstance(target, (list, tuple)):
        target = target[-1]
    if isinstance(target, str):
        return 0
    start_byte = None
    if isinstance(target, dict):
        start_byte = quantity_start_byte(target, record_bytes)
    elif isinstance(target, int):
        start_byte = _record_start_byte(target, record_bytes, block, fn)
    if start_byte is None:
        raise ValueError(f"Unknown data pointer format: {target}")
    if start_byte < 0:
        raise ValueError(f"BUG: start_byte={start_byte} < 0")
    return start_byte


def _record_length(identifiers, block):
    if block is None or "RECORD_BYTES" not in block:
        return identifiers["RECORD_BYTES"]
    return block["RECORD_BYTES"]


def _record_start_byte(record, record_bytes, block, fn):
    if record == 1:
        return 0
    if record_bytes is not None and record_bytes != "":
        return max(record - 1, 0) * record_bytes
    if "ROWS" not in block:
        return None
    return max(
        count_from_bottom_of_file(fn, block["ROWS"], block["ROW_BYTES"]), 0
    )
'''),(L,'''    if quantity_dict["units"] == "BYTES":
        return quantity_dict["value"] - 1
    if record_bytes is not None:
        return record_bytes * max(quantity_dict["value"] - 1, 0)
''','''    before = quantity_dict["value"] - 1
    if quantity_dict["units"] == "BYTES":
        return before
    if record_bytes is None:
        return None
    return max(before, 0) * record_bytes
'''),(L,'''    if isinstance(target, dict):
        if target.get("units") == "BYTES":
            return False
    # TODO: untangle this, everywhere
    if isinstance(target, (list, tuple)):
        if isinstance(target[-1], dict):
            if target[-1].get("units") == "BYTES":
                return False
''','''    place = target[-1] if isinstance(target, (list, tuple)) else target
    if isinstance(place, dict) and place.get("units") == "BYTES":
        return False
'''),(Q,'''        if "BYTES" in block.keys():
            length = block["BYTES"]
        elif n_records is not None:
            if "RECORD_BYTES" in block.keys():
                record_length = block["RECORD_BYTES"]
            elif "ROW_BYTES" in block.keys():
                record_length = block["ROW_BYTES"]
                record_length += block.get("ROW_PREFIX_BYTES", 0)
                record_length += block.get("ROW_SUFFIX_BYTES", 0)
            elif identifiers["RECORD_BYTES"] not in (None, ""):
                # TODO, probably, and applicable many more places than here:
                #  ideally we don't use identifiers for anything but special
                #  case checks.
                record_length = identifiers["RECORD_BYTES"]
            else:
                record_length = None
            if record_length is not None:
                length = record_length * n_records
''','''        if "BYTES" in block.keys():
            return block["BYTES"]
        if n_records is None:
            return None
        if "RECORD_BYTES" in block.keys():
            record_length = block["RECORD_BYTES"]
        elif "ROW_BYTES" in block.keys():
            record_length = (
                block.get("ROW_PREFIX_BYTES", 0)
                + block["ROW_BYTES"]
                + block.get("ROW_SUFFIX_BYTES", 0)
            )
        else:
            record_length = identifiers["RECORD_BYTES"]
        if record_length not in (None, ""):
            length = n_records * record_length
''')], ['C04', 'C22', 'C23', 'C05'])
refactor('fits-where', [(Q,'''    for factor in factors:
        matches = [
            t for t in ((target - 1) * factor, target * factor)
            if t in hix.keys()
            and (hix[t]['part'] == 'header') == is_header
        ]
        if len(matches) == 0:
            continue
        # TODO: we could do more complicated things, but for now, just always
        #  assume that if there are two matches, it's 1-indexed.
        return matches[0]
    raise ValueError("Specified target does not match an HDU.")
''','''    part = 'header' if is_header else 'data'
    for factor in factors:
        # TODO: we could do more complicated things, but for now, just always
        #  assume that if there are two matches, it's 1-indexed.
        for first in (1, 0):
            start = (target - first) * factor
            if start in hix and hix[start]['part'] == part:
                return start
    raise ValueError("Specified target does not match an HDU.")
'''),(Q,'''    if isinstance(target, str):
        if target.lower() == Path(fn).name.lower():
            target = 0
        else:
            # this should never happen!
            raise ValueError("This appears to point to the wrong file.")
    elif isinstance(target, (list, tuple)):
        target = target[1]
    factors = (2880, 1)
    if isinstance(target, dict):
        if target['units'] == 'BYTES':
            factors = (1, 2880)
        target = target['value']
    return _agnostic_fits_index('HEADER' in name, target, hdulist, factors)
''','''    is_header, in_bytes = 'HEADER' in name, False
    if isinstance(target, str):
        if target.lower() != Path(fn).name.lower():
            # this should never happen!
            raise ValueError("This appears to point to the wrong file.")
        target = 0
    if isinstance(target, (list, tuple)):
        target = target[1]
    if isinstance(target, dict):
        in_bytes = target['units'] == 'BYTES'
        target = target['value']
    return _agnostic_fits_index(
        is_header, target, hdulist, (1, 2880) if in_bytes else (2880, 1)
    )
''')], ['C18', 'C17'])
refactor('softquery-sets', [(F,'''    have_args = kwargdict.keys()
    require_args = get_all_argnames(
        func, *querydict.values(), nonoptional=True
    )
    args_to_get = require_args.difference(have_args)
    missing = args_to_get.difference(querydict)
    if len(missing) > 0:
        raise TypeError(f"Missing args in querydict: {missing}")
    for qname in querydict:
        if qname not in args_to_get.intersection(querydict):
            continue
        if "tracker" in kwargdict.keys():
            kwargdict["tracker"].track(querydict[qname])
        kwargdict[qname] = call_kwargfiltered(querydict[qname], **kwargdict)
    return kwargdict
''','''    required = get_all_argnames(func, *querydict.values(), nonoptional=True)
    wanted = {arg for arg in required if arg not in kwargdict}
    missing = {arg for arg in wanted if arg not in querydict}
    if missing:
        raise TypeError(f"Missing args in querydict: {missing}")
    for qname, query in querydict.items():
        if qname in wanted:
            _answer(qname, query, kwargdict)
    return kwargdict


def _answer(qname, query, kwargdict):
    if "tracker" in kwargdict:
        kwargdict["tracker"].track(query)
    kwargdict[qname] = call_kwargfiltered(query, **kwargdict)
'''),(F,'''    return func(*args, **filterkwargs(func, kwargs))
''','''    accepted = get_argnames(func)
    return func(*args, **{k: v for k, v in kwargs.items() if k in accepted})
'''),(F,'''    if nonoptional is True:
        return reduce(set.union, map(get_non_optional_argnames, funcs))
    return reduce(set.union, map(get_argnames, funcs))
''','''    getter = get_non_optional_argnames if nonoptional is True else get_argnames
    names = set()
    for func in funcs:
        names |= getter(func)
    return names
''')], ['C13', 'C19'])
refactor('trim', [(PU,'''    length, start = 0, 0
    while length < max_size:
        chunk = buf.read(50 * 1024)
        text, length = text + chunk, length + 50 * 1024
        endmatches = [
            match for ending in KNOWN_LABEL_ENDINGS
            if (match := re.compile(ending).search(text, start)) is not None
        ]
        if len(endmatches) > 0:
            return text[: min(endmatches, key=lambda m: m.start()).end()]
        if chunk == b'':
            break
        # endings may straddle chunks; the longest ending is 20 bytes long
        start = max(len(text) - 20, 0)
''','''    chunk_size, start = 50 * 1024, 0
    for _ in range(0, max_size, chunk_size):
        chunk = buf.read(chunk_size)
        text += chunk
        first = None
        for ending in KNOWN_LABEL_ENDINGS:
            match = re.search(ending, text[start:])
            if match is None:
                continue
            if first is None or match.start() < first.start():
                first = match
        if first is not None:
            return text[:start + first.end()]
        if not chunk:
            break
        # endings may straddle chunks; the longest ending is 20 bytes long
        start = max(len(text) - 20, 0)
'''),(PU,'''    target_is_fn = isinstance(fn, (Path, str))
    try:
        if target_is_fn is True:
            fn = open(fn, 'rb')
        text = fn.read(20)
        if strict_decode is True:
            try:
                text.decode('ascii')
            except UnicodeDecodeError:
                raise InvalidAttachedLabel("File head appears to be binary.")
        text = _scan_to_end_of_label(fn, max_size, text, raise_no_ending)
    finally:
        if target_is_fn is True:
            fn.close()
    policy''','''    if isinstance(fn, (Path, str)):
        with open(fn, 'rb') as stream:
            return trim_label(
                stream, max_size, strict_decode, raise_no_ending,
                special_encoding
            )
    text = fn.read(20)
    if strict_decode is True and not text.isascii():
        raise InvalidAttachedLabel("File head appears to be binary.")
    text = _scan_to_end_of_label(fn, max_size, text, raise_no_ending)
    policy''')], ['C10', 'C23'])
refactor('cases', [(U,'''from io import BytesIO
''','''from io import BytesIO
import os
'''),(U,'''    for filename in filenames:
        if skip is True:
            return str(filename)
        path = Path(filename)
        if path.exists():
            return str(filename)
        if not path.parent.exists():
            continue
        matches = tuple(
            filter(
                lambda p: path.name.lower() in (stem_path(p), p.name.lower()),
                path.parent.iterdir(),
            )
        )
        if len(matches) == 0:
            continue
        if len(matches) > 1:
            warning_list = ", ".join([path.name for path in matches])
            warnings.warn(
                f"Multiple off-case or possibly-compressed versions of "
                f"{filename} found in search path: {warning_list}. Using "
                f"{matches[0].name}."
            )
        return str(matches[0])
''','''    for filename in filenames:
        if skip is True or os.path.exists(filename):
            return str(filename)
        matches = _loose_matches(Path(filename))
        if not matches:
            continue
        if len(matches) > 1:
            warning_list = ", ".join([path.name for path in matches])
            warnings.warn(
                f"Multiple off-case or possibly-compressed versions of "
                f"{filename} found in search path: {warning_list}. Using "
                f"{matches[0].name}."
            )
        return str(matches[0])
'''),(U,'''def import_best_gzip():''','''def _loose_matches(path):
    if not path.parent.exists():
        return []
    target = path.name.lower()
    return [
        p for p in path.parent.iterdir()
        if target in (stem_path(p), p.name.lower())
    ]


def import_best_gzip():'''),(U,'''    fp = open(filename, "rb")

    # this will be the _last_ suffix only, e.g. "foo.tar.gz" -> ".gz"
    suffix = Path(filename).suffix.lower()
    if suffix == ".gz":
        return import_best_gzip().GzipFile(fileobj=fp)
    if suffix == ".bz2":
        import bz2
        return bz2.BZ2File(fp)
    if suffix == ".zip":
        from zipfile import ZipFile
        z = ZipFile(fp)
        return z.open(z.infolist()[0])
    return fp
''','''    stream = open(filename, "rb")
    # this will be the _last_ suffix only, e.g. "foo.tar.gz" -> ".gz"
    suffix = os.path.splitext(str(filename))[1].lower()
    if suffix == ".zip":
        from zipfile import ZipFile
        archive = ZipFile(stream)
        return archive.open(archive.namelist()[0])
    if suffix == ".bz2":
        import bz2
        return bz2.open(stream)
    if suffix == ".gz":
        return import_best_gzip().open(stream)
    return stream
''')], ['C11', 'C23'])
