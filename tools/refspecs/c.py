U='pdr/utils.py'; B='pdr/browsify.py'; M='pdr/pdr.py'; H='pdr/loaders/handlers.py'
PD='pdr/pd_utils.py'; Q='pdr/loaders/queries.py'; T='pdr/loaders/table.py'; X='pdr/loaders/text.py'
refactor('dump-helper', [(M,'''            dump_it = partial(browsify, purge=purge, **browse_kwargs)
            fdt = browse_kwargs.get("float_dtype")
            if (
                self[obj].__class__.__name__ == "ndarray"
                and len(self[obj].shape) != 1
            ):
                if looks_like_this_kind_of_file(self.filename, FITS_EXTENSIONS) \\
                        and (scaled == "both" or scaled is False):
                    warnings.warn("Scaling for FITS files cannot be turned "
                                  "off, dumping scaled products.")
                    dump_it(self[obj], outfile + "_scaled")
                elif scaled == "both":
                    dump_it(
                        self.get_scaled(obj, float_dtype=fdt),
                        outfile + "_scaled",
                        purge=False,
                    )
                    dump_it(self[obj], outfile + "_unscaled")
                elif scaled is True:
                    dump_it(
                        self.get_scaled(obj, inplace=purge, float_dtype=fdt),
                        outfile,
                    )
                elif scaled is False:
                    dump_it(self[obj], outfile)
                else:
                    raise ValueError(f"unknown scaling argument {scaled}")
            else:
                dump_it(self[obj], outfile)
            if purge is True:
                self.__delattr__(obj)
''','''            dump_it = partial(browsify, purge=purge, **browse_kwargs)
            value = self[obj]
            if value.__class__.__name__ == "ndarray" and len(value.shape) != 1:
                self._dump_scaled_and_or_not(
                    obj, outfile, dump_it, scaled, purge,
                    browse_kwargs.get("float_dtype")
                )
            else:
                dump_it(value, outfile)
            if purge is True:
                delattr(self, obj)

    def _dump_scaled_and_or_not(self, obj, outfile, dump_it, scaled, purge, fdt):
        is_fits = looks_like_this_kind_of_file(self.filename, FITS_EXTENSIONS)
        if is_fits and (scaled == "both" or scaled is False):
            warnings.warn("Scaling for FITS files cannot be turned "
                          "off, dumping scaled products.")
            return dump_it(self[obj], f"{outfile}_scaled")
        if scaled == "both":
            for_scaling = self.get_scaled(obj, float_dtype=fdt)
            dump_it(for_scaling, f"{outfile}_scaled", purge=False)
            return dump_it(self[obj], f"{outfile}_unscaled")
        if scaled is True:
            return dump_it(
                self.get_scaled(obj, inplace=purge, float_dtype=fdt), outfile
            )
        if scaled is False:
            return dump_it(self[obj], outfile)
        raise ValueError(f"unknown scaling argument {scaled}")
''')], ['C25'])
refactor('browsify-writers', [(B,'''    outbase = str(outbase)
    if isinstance(obj, np.recarray):
        _browsify_recarray(obj, outbase, **dump_kwargs)
    elif isinstance(obj, np.ndarray):
        if len(obj.shape) == 1:
            pd.DataFrame(obj).to_csv(outbase + ".csv", index=False)
        else:
            _browsify_array(obj, outbase, **dump_kwargs)
    elif isinstance(obj, pd.DataFrame):
        if len(obj) == 1:
            # noinspection PyTypeChecker
            obj.T.to_csv(outbase + ".csv"),
        else:
            obj.to_csv(outbase + ".csv")
    elif obj is None:
        return
    elif "to_string" in dir(obj):  # probably an XML ElementTree interface
        with open(outbase + ".xml", "w") as stream:
            stream.write(obj.to_string())
    else:
        # this should usually work. it may need another backup binary blob
        # pickler for really weird binary objects.
        with open(outbase + ".txt", "w") as stream:
            stream.write(str(obj))
''','''    if obj is None:
        return
    outbase = str(outbase)
    if isinstance(obj, np.recarray):
        _browsify_recarray(obj, outbase, **dump_kwargs)
        return
    if isinstance(obj, np.ndarray):
        if obj.ndim != 1:
            _browsify_array(obj, outbase, **dump_kwargs)
        else:
            pd.DataFrame(obj).to_csv(f"{outbase}.csv", index=False)
        return
    if isinstance(obj, pd.DataFrame):
        shown = obj.T if obj.shape[0] == 1 else obj
        shown.to_csv(f"{outbase}.csv")
        return
    # probably an XML ElementTree interface
    if hasattr(obj, "to_string"):
        Path(outbase + ".xml").write_text(obj.to_string())
        return
    _write_text(outbase, obj)


def _write_text(outbase, obj):
    with open(f"{outbase}.txt", "w") as stream:
        stream.write(f"{obj}")
''')], ['C25', 'C15'])
refactor('line-prefix-block', [(Q,'''    block = MultiDict(format_block)
    if "ROWS" not in block.keys():
        block["ROWS"] = block["LINES"]
    if "ROW_SUFFIX_BYTES" not in block.keys():
        block['ROW_SUFFIX_BYTES'] = (
            block['SAMPLE_BITS'] // 8 * block['LINE_SAMPLES']
            + block.get('LINE_SUFFIX_BYTES', 0)
        )
    return block
''','''    block = MultiDict(format_block)
    if "ROW_SUFFIX_BYTES" not in block:
        sample_bytes = block['SAMPLE_BITS'] // 8
        suffix = block.get('LINE_SUFFIX_BYTES', 0)
        block['ROW_SUFFIX_BYTES'] = suffix + block['LINE_SAMPLES'] * sample_bytes
    if "ROWS" not in block:
        block["ROWS"] = block["LINES"]
    return block
'''),(Q,'''    if name in data._interleaved_objects.keys():
        parent = data.metablock_(data._interleaved_objects[name]['parent'])
        if data._interleaved_objects[name]['type'] == 'line_prefix_table':
            return _fix_up_line_prefix_table_block(data, name, parent)
        return parent
    return data.metablock_(name)
''','''    interleaved = data._interleaved_objects.get(name)
    if interleaved is None:
        return data.metablock_(name)
    parent = data.metablock_(interleaved['parent'])
    if interleaved['type'] != 'line_prefix_table':
        return parent
    return _fix_up_line_prefix_table_block(data, name, parent)
'''),(Q,'''    if isinstance(items, int):
        return items
    if isinstance(items, Sequence):
        return reduce(mul, items)
    raise TypeError("can't interpret this item number specification")
''','''    if isinstance(items, int):
        return items
    if not isinstance(items, Sequence):
        raise TypeError("can't interpret this item number specification")
    total = 1
    for count in items:
        total *= count
    return total
'''),(Q,'''    fields = []
    if (repeats := block.get("ITEMS")) is not None:
        fields = append_repeated_object(dict(block), fields, repeats)
    else:
        fields = [dict(block)]
    return fields
''','''    definition = dict(block)
    repeats = block.get("ITEMS")
    if repeats is None:
        return [definition]
    return append_repeated_object(definition, [], repeats)
'''),(U,'''    if hasattr(obj, "__add__"):
        if repeat_count > 1:
            fields += chain.from_iterable([obj for _ in range(repeat_count)])
        else:
            fields += obj
    else:
        if repeat_count > 1:
            fields += [obj for _ in range(repeat_count)]
        else:
            fields.append(obj)
    return fields
''','''    addition = obj if hasattr(obj, "__add__") else [obj]
    for _ in range(max(repeat_count, 1)):
        fields.extend(addition)
    return fields
''')], ['C05', 'C04', 'C22'])
refactor('table-scale', [(T,'''    # If there is an offset and/or scaling factor, apply them:
    if fmtdef.get("OFFSET") is not None or fmtdef.get("SCALING_FACTOR") is not None:
        for col in table.columns:
            record = fmtdef.loc[fmtdef['NAME'] == col].to_dict("records")[0]
            if record.get("SCALING_FACTOR") and not pd.isnull(record.get("SCALING_FACTOR")):
                table[col] = table[col].mul(record["SCALING_FACTOR"])
            else:
                scaling_factor = 1  # TODO: appears superfluous
            if record.get("OFFSET") and not pd.isnull(record.get("OFFSET")):
                offset = record["OFFSET"]
                table[col] = table[col]+offset
    return table
''','''    if "OFFSET" not in fmtdef.columns and "SCALING_FACTOR" not in fmtdef.columns:
        return table
    for col in table.columns:
        _apply_column_scaling(
            table, col, fmtdef.loc[fmtdef['NAME'] == col].iloc[0].to_dict()
        )
    return table


def _apply_column_scaling(table, col, record):
    factor, offset = record.get("SCALING_FACTOR"), record.get("OFFSET")
    if factor and not pd.isnull(factor):
        table[col] = table[col] * factor
    if offset and not pd.isnull(offset):
        table[col] = table[col] + offset
''')], ['C22', 'C05'])
refactor('ascii-rows', [(T,'''        if table_props["as_rows"] is False:
            bytesbuf = head_file(
                f, nbytes=table_props["length"], offset=table_props["start"]
            )
            try:
                stringbuf = StringIO(bytesbuf.read().decode())
            finally:
                bytesbuf.close()
        else:
            if table_props["start"] > 0:
                [next(f) for _ in range(table_props["start"])]
            if table_props["length"] in (None, ""):
                lines = f.readlines()
            else:
                lines = [next(f) for _ in range(table_props["length"])]
            stringbuf = StringIO("\\r\\n".join(map(bytes.decode, lines)))
    stringbuf.seek(0)
''','''        start, length = table_props["start"], table_props["length"]
        if table_props["as_rows"] is False:
            with head_file(f, nbytes=length, offset=start) as bytesbuf:
                text = bytesbuf.read().decode()
        else:
            for _ in range(start):
                next(f)
            if length is None or length == "":
                lines = list(f)
            else:
                lines = [next(f) for _ in range(length)]
            text = "\\r\\n".join(line.decode() for line in lines)
    stringbuf = StringIO(text)
''')], ['C22', 'C21'])
refactor('desktop', [(H,'''    im = Image.open(fn)
    if frame is not None:
        im.seek(frame)
    if im.mode == 'P':
        # images with imbedded palettes (usually GIFs)
        im = im.convert('RGB', palette=im.palette)
    # noinspection PyTypeChecker
    image = np.ascontiguousarray(im).copy()
    # pillow reads images as [x, y, channel] rather than [channel, x, y]
    if len(image.shape) == 3:
        return np.ascontiguousarray(np.rollaxis(image, 2))
    return image
''','''    with Image.open(fn) as im:
        if frame is not None:
            im.seek(frame)
        # images with imbedded palettes (usually GIFs)
        if im.mode == 'P':
            image = np.array(im.convert('RGB', palette=im.palette))
        else:
            image = np.array(im)
    # pillow reads images as [x, y, channel] rather than [channel, x, y]
    if image.ndim != 3:
        return image
    return np.ascontiguousarray(image.transpose(2, 0, 1))
'''),(M,'''            if self.metaget("n_frames", 1) == 1:
                self._add_loaded_objects(
                    {name: handle_compressed_image(self.filename)}
                )
                return
            # TODO: hacky!
            if self.standard == 'MPO' and name == 'IMAGE':
                seek = 0
            else:
                seek = int(name.split("_")[-1])
            self._add_loaded_objects(
                {name: handle_compressed_image(self.filename, seek)}
            )
            return
''','''            seek = self._frame_number(name)
            image = handle_compressed_image(self.filename, seek)
            return self._add_loaded_objects({name: image})
'''),(M,'''    def _add_loaded_objects(self, obj: Mapping[str, Any]):
''','''    def _frame_number(self, name: str) -> Optional[int]:
        if self.metaget("n_frames", 1) == 1:
            return None
        if self.standard == 'MPO' and name == 'IMAGE':
            return 0
        return int(name.rsplit("_", 1)[-1])

    def _add_loaded_objects(self, obj: Mapping[str, Any]):
'''),(M,'''            images = ['IMAGE']
            for i, d in enumerate(mpentries[1:]):
                tname = re.sub(r'[() ]', '_', d['MPType'])
                images.append(f"{tname}_{i + 1}")
            self.index += images
''','''            self.index.append('IMAGE')
            for i, entry in enumerate(mpentries[1:], start=1):
                kind = re.sub(r'[() ]', '_', entry['MPType'])
                self.index.append(f"{kind}_{i}")
''')], ['C24', 'C16', 'C12'])
refactor('pds4-load-split', [(M,'''        if isinstance(structure, Label):
            setattr(self, "label", structure)
        elif check_special_pds4_cases(structure, self.filename,
                                      object_name) is not None:
            result = check_special_pds4_cases(structure, self.filename,
                                              object_name)
            setattr(self, object_name, result)
        elif check_primary_fmt(structure.parent_filename) == "FITS":
            from pdr.loaders.handlers import handle_fits_file

            offset = structure.meta_data['offset']
            result = handle_fits_file(
                structure.parent_filename, object_name, offset
            )
            if structure.is_header() is True:
                return self._add_loaded_objects(result)
            hid = self._find_fits_header_pds4_id(
                structure.parent_filename, offset
            )
            if hid is not None:
                result[hid] = result.pop(f"{object_name}_HEADER")
            elif f"{object_name}_HEADER" in self._pds4_structures:
                # don't let it take the place of another object
                result.pop(f"{object_name}_HEADER")
            if structure.is_array() is True:
                self._scaleflags[object_name] = True
            self._add_loaded_objects(result)
        elif structure.is_array():
''','''        if isinstance(structure, Label):
            self.label = structure
            return
        special = check_special_pds4_cases(
            structure, self.filename, object_name
        )
        if special is not None:
            setattr(self, object_name, special)
        elif check_primary_fmt(structure.parent_filename) == "FITS":
            self._load_pds4_fits(object_name, structure)
        elif structure.is_array():
'''),(M,'''    def _load_pds4(self, object_name: str):
''','''    def _load_pds4_fits(self, object_name: str, structure):
        from pdr.loaders.handlers import handle_fits_file

        fn, offset = structure.parent_filename, structure.meta_data['offset']
        result = handle_fits_file(fn, object_name, offset)
        if structure.is_header() is not True:
            header_name = f"{object_name}_HEADER"
            hid = self._find_fits_header_pds4_id(fn, offset)
            if hid is not None:
                result[hid] = result.pop(header_name)
            elif header_name in self._pds4_structures:
                # don't let it take the place of another object
                del result[header_name]
            if structure.is_array() is True:
                self._scaleflags[object_name] = True
        self._add_loaded_objects(result)

    def _load_pds4(self, object_name: str):
'''),(M,'''        for k, v in self._pds4_structures.items():
            if not isinstance(v, HeaderStructure):
                # we only require header objects to have the
                # 'object_length' key. label objects also do not
                # have meta_data
                continue
            meta = v.meta_data
            if 'object_length' not in meta.keys():
                continue
            if v.parent_filename != filename:
                # another file may have a header of the same size
                continue
            if meta['offset'] + meta['object_length'] == start_byte:
                return k

        return None
''','''        headers = (
            (k, v) for k, v in self._pds4_structures.items()
            if isinstance(v, HeaderStructure)
            and 'object_length' in v.meta_data.keys()
        )
        return next(
            (
                k for k, v in headers
                if v.parent_filename == filename
                and start_byte
                == v.meta_data['object_length'] + v.meta_data['offset']
            ),
            None
        )
''')], ['C12', 'C17', 'C18', 'C14'])
refactor('fits-table', [(H,'''        arrays, dtype = [body[k] for k in body.dtype.names], []
        for i, arr in enumerate(arrays):
            if arr.ndim > 3 or arr.ndim == 0:
                # This _should_ never happen, but...
                raise NotImplementedError(
                    f"FITS table fields of dimensionality {arr.ndim} not "
                    f"supported"
                )
            if arr.ndim == 3:
                dtype.append((body.dtype.names[i], arr.dtype, (arr.shape[1],
                                                               arr.shape[2])))
            if arr.ndim == 2:
                dtype.append((body.dtype.names[i], arr.dtype, arr.shape[1]))
            if arr.ndim == 1:
                dtype.append((body.dtype.names[i], arr.dtype))
        return structured_array_to_df(
            np.rec.fromarrays(
                [body[k] for k in body.dtype.names], dtype=np.dtype(dtype)
            )
        )
''','''        names, arrays, dtype = body.dtype.names, [], []
        for name in names:
            arr = body[name]
            if not 1 <= arr.ndim <= 3:
                # This _should_ never happen, but...
                raise NotImplementedError(
                    f"FITS table fields of dimensionality {arr.ndim} not "
                    f"supported"
                )
            arrays.append(arr)
            dtype.append((name, arr.dtype, arr.shape[1:]))
        return structured_array_to_df(
            np.rec.fromarrays(arrays, dtype=np.dtype(dtype))
        )
'''),(H,'''        fields = {c: body[c] for c in body.dtype.names}
        for k, v in fields.items():
            if not v.dtype.isnative:
                fields[k] = fields[k].byteswap().view(
                    fields[k].dtype.newbyteorder('=')
                )
        return pd.DataFrame(fields)
''','''        fields = {}
        for c in body.dtype.names:
            column = body[c]
            if not column.dtype.isnative:
                column = column.astype(column.dtype.newbyteorder('='))
            fields[c] = column
        return pd.DataFrame(fields)
''')], ['C18'])
refactor('fits-load', [(M,'''        # the cached HDUList must not share its arrays: changes made to them
        # would appear in objects loaded again
        if obj[object_name].__class__.__name__ == "ndarray":
            obj[object_name] = obj[object_name].copy()
        # this HDU's header must not take the place of another HDU
        return {
            k: v for k, v in obj.items()
            if k == object_name or k not in self._hdumap
        }
''','''        result = {}
        for key, value in obj.items():
            if key == object_name:
                # the cached HDUList must not share its arrays: changes made
                # to them would appear in objects loaded again
                if value.__class__.__name__ == "ndarray":
                    value = value.copy()
            elif key in self._hdumap:
                # this HDU's header must not take the place of another HDU
                continue
            result[key] = value
        return result
'''),(H,'''    info = {}
    hdul = obj if isinstance(obj, fits.HDUList) else fits.open(obj)
    hdulinfo = hdul.info(False)
    for hdu_ix, hdu in enumerate(hdul):
        hinfo = hdu.fileinfo()
        baserec = {'ix': hdu_ix, 'name': hdulinfo[hdu_ix][3]}
        info[hinfo['hdrLoc']] = baserec | {'part': 'header'}
        info[hinfo['datLoc']] = baserec | {'part': 'data'}
    return info
''','''    hdul = fits.open(obj) if not isinstance(obj, fits.HDUList) else obj
    info, names = {}, [rec[3] for rec in hdul.info(False)]
    for hdu_ix, hdu in enumerate(hdul):
        location = hdu.fileinfo()
        for part, key in (('header', 'hdrLoc'), ('data', 'datLoc')):
            info[location[key]] = {
                'ix': hdu_ix, 'name': names[hdu_ix], 'part': part
            }
    return info
''')], ['C18', 'C12', 'C25'])
refactor('header-text', [(X,'''        if table_props["as_rows"] is True:
            # In order to take advantage of Python's universal newline
            # handling, we need to decode the file and _then_ split it.
            # Tolerate encoding errors mainly because we might have a
            # textual header preceded or followed by binary data, and
            # the decoder is going to process more of the file than
            # the part we actually use.
            lines = []
            start = table_props["start"]
            end = start + table_props["length"]
            with decompress(check_cases(fn)) as f:
                decoded_f = TextIOWrapper(f, encoding="UTF-8", errors="replace")
                for i, line in enumerate(decoded_f):
                    if i >= end:
                        break
                    if i >= start:
                        lines.append(line.replace("\\n", "\\r\\n"))
            text = "".join(lines)
        else:
            with decompress(check_cases(fn)) as file:
                file.seek(table_props["start"])
                text = file.read(min(table_props["length"], 80000)).decode(
                    "ISO-8859-1"
                )
        return text
''','''        start, length = table_props["start"], table_props["length"]
        with decompress(check_cases(fn)) as file:
            if table_props["as_rows"] is not True:
                file.seek(start)
                return file.read(min(length, 80000)).decode("ISO-8859-1")
            return _header_lines(file, start, length)
'''),(X,'''@canonicalized
# TODO: misleading name.''','''def _header_lines(file, start, length):
    from itertools import islice
    decoded = TextIOWrapper(file, encoding="UTF-8", errors="replace")
    return "".join(
        line.replace("\\n", "\\r\\n")
        for line in islice(decoded, start, start + length)
    )


@canonicalized
# TODO: misleading name.''')], ['C23'])
refactor('offsets', [(PD,'''    # correctly compute offsets within columns w/multiple items
    if "ITEM_BYTES" in fmtdef.columns:
        fmtdef["ITEM_SIZE"] = _apply_item_offsets(fmtdef)
''','''    # correctly compute offsets within columns w/multiple items
    has_items = "ITEM_BYTES" in fmtdef.columns
    if has_items:
        fmtdef["ITEM_SIZE"] = _apply_item_offsets(fmtdef)
'''),(PD,'''    pad_length = 0
    # each item of a multiple-item column occupies only its own bytes
    widths = fmtdef["BYTES"]
    if "ITEM_BYTES" in fmtdef.columns:
        widths = fmtdef["ITEM_BYTES"].fillna(widths)
    end_byte = int((fmtdef["SB_OFFSET"] + widths).max())
    if "ROW_BYTES" in fmtdef.columns:
        pad_length += fmtdef["ROW_BYTES"].iloc[0] - end_byte
    if "ROW_PREFIX_BYTES" in fmtdef.columns:
        # ROW_BYTES does not include the row prefix, but offsets do
        pad_length += fmtdef["ROW_PREFIX_BYTES"].iloc[0]
    if "ROW_SUFFIX_BYTES" in fmtdef.columns:
        pad_length += fmtdef["ROW_SUFFIX_BYTES"].iloc[0]
    if pad_length > 0:
''','''    # each item of a multiple-item column occupies only its own bytes
    widths = fmtdef["BYTES"]
    if has_items:
        widths = fmtdef["ITEM_BYTES"].fillna(widths)
    end_byte = int((fmtdef["SB_OFFSET"] + widths).max())
    # ROW_BYTES does not include the row prefix, but offsets do
    pad_length = sum(
        fmtdef[col].iloc[0]
        for col in ("ROW_BYTES", "ROW_PREFIX_BYTES", "ROW_SUFFIX_BYTES")
        if col in fmtdef.columns
    )
    if "ROW_BYTES" in fmtdef.columns:
        pad_length -= end_byte
    if pad_length > 0:
''')], ['C05', 'C22'])
