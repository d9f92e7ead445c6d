U='pdr/utils.py'; F='pdr/func.py'; S='pdr/_scaling.py'; B='pdr/browsify.py'
D='pdr/loaders/dispatch.py'; M='pdr/pdr.py'; H='pdr/loaders/handlers.py'; C='pdr/formats/checkers.py'
X='pdr/parselabel/pds4.py'; P='pdr/parselabel/pds3.py'; PD='pdr/pd_utils.py'; W='pdr/loaders/datawrap.py'
Q='pdr/loaders/queries.py'; N='pdr/np_utils.py'
refactor('check-cases', [(U,'''        matches = tuple(
            filter(
                lambda p: path.name.lower() in (stem_path(p), p.name.lower()),
                path.parent.iterdir(),
            )
        )
        if len(matches) == 0:
            continue
        if len(matches) > 1:
''','''        wanted, matches = path.name.lower(), []
        for candidate in path.parent.iterdir():
            if wanted == candidate.name.lower() or wanted == stem_path(candidate):
                matches.append(candidate)
        if not matches:
            continue
        if len(matches) > 1:
'''),(U,'''    lowercase = path.name.lower()
    exts = tuple(map(str.lower, path.suffixes))
    if len(exts) == 0:
        return lowercase
    looks_compressed = exts[-1] in SUPPORTED_COMPRESSION_EXTENSIONS
    # remove a trailing compression suffix, unless it's the only suffix
    if len(exts) > 1 and looks_compressed:
        return lowercase[:-len(exts[-1])]
    return lowercase
''','''    lowercase = path.name.lower()
    n_exts = len(path.suffixes)
    # remove a trailing compression suffix, unless it's the only suffix
    if n_exts > 1:
        last = path.suffix.lower()
        if last in SUPPORTED_COMPRESSION_EXTENSIONS:
            return lowercase.removesuffix(last)
    return lowercase
''')], ['C11'])
refactor('decompress-table', [(U,'''    suffix = Path(filename).suffix.lower()
    if suffix == ".gz":
        return import_best_gzip().GzipFile(fileobj=fp)
    if suffix == ".bz2":
        import bz2
        return bz2.BZ2File(fp)
    if suffix == ".zip":
        from zipfile import ZipFile
        z = ZipFile(fp)
        return z.open(z.infolist()[0])
    return fp
''','''    opener = {
        ".gz": _open_gzip, ".bz2": _open_bz2, ".zip": _open_zip
    }.get(Path(filename).suffix.lower())
    return fp if opener is None else opener(fp)


def _open_gzip(fp):
    return import_best_gzip().GzipFile(fileobj=fp)


def _open_bz2(fp):
    from bz2 import BZ2File
    return BZ2File(fp)


def _open_zip(fp):
    from zipfile import ZipFile
    archive = ZipFile(fp)
    return archive.open(archive.namelist()[0])
'''),(N,'''        n_bytes = None if count is None else count * np.dtype(dtype).itemsize
        stream = BytesIO(buffered_io.read(n_bytes))
        # like np.fromfile() below, ignore any partial element at the end
        n_whole = stream.getbuffer().nbytes // np.dtype(dtype).itemsize
        return np.frombuffer(stream.getbuffer(), dtype=dtype, count=n_whole)
    count = -1 if count is None else count
''','''        width = np.dtype(dtype).itemsize
        content = buffered_io.read(-1 if count is None else count * width)
        # like np.fromfile() below, ignore any partial element at the end
        return np.frombuffer(
            bytearray(content), dtype=dtype, count=len(content) // width
        )
    if count is None:
        count = -1
''')], ['C11','C01'])
refactor('load-split', [(M,'''        if self.standard in DESKTOP_IMAGE_STANDARDS:
            from pdr.loaders.handlers import handle_compressed_image

            if self.metaget("n_frames", 1) == 1:
                self._add_loaded_objects(
                    {name: handle_compressed_image(self.filename)}
                )
                return
            # TODO: hacky!
            if self.standard == 'MPO' and name == 'IMAGE':
                seek = 0
            else:
                seek = int(name.split("_")[-1])
            self._add_loaded_objects(
                {name: handle_compressed_image(self.filename, seek)}
            )
            return
        if self.file_mapping.get(name) is None:
            target = self._target_path(name)
            if target is None:
                return self._file_not_found(name)
            self.file_mapping[name] = target
''','''        if self.standard in DESKTOP_IMAGE_STANDARDS:
            return self._load_desktop_frame(name)
        if self.file_mapping.get(name) is None:
            if (target := self._target_path(name)) is None:
                return self._file_not_found(name)
            self.file_mapping[name] = target
'''),(M,'''    def _add_loaded_objects(self, obj: Mapping[str, Any]):
''','''    def _load_desktop_frame(self, name: str):
        from pdr.loaders.handlers import handle_compressed_image

        if self.metaget("n_frames", 1) == 1:
            seek = None
        # TODO: hacky!
        elif self.standard == 'MPO' and name == 'IMAGE':
            seek = 0
        else:
            seek = int(name.rsplit("_", 1)[-1])
        self._add_loaded_objects(
            {name: handle_compressed_image(self.filename, seek)}
        )

    def _add_loaded_objects(self, obj: Mapping[str, Any]):
'''),(M,'''        for k, v in obj.items():
            if v is not None:
                setattr(self, k, v)
                if k not in self.index:
                    self.index.append(k)
''','''        loaded = {k: v for k, v in obj.items() if v is not None}
        for k in loaded:
            setattr(self, k, loaded[k])
        self.index += [k for k in loaded if k not in self.index]
''')], ['C12','C18'])
refactor('load-errors', [(M,'''        for name in self.keys():
            if OBJECTS_IGNORED_BY_DEFAULT.match(name):
                continue
            try:
                self.load(name)
            except AlreadyLoadedError:
                continue
''','''        for name in self.keys():
            ignored = OBJECTS_IGNORED_BY_DEFAULT.match(name) is not None
            if not ignored and name not in dir(self):
                self.load(name)
'''),(M,'''        except DebugExceptionPreempted:
            pass
        except KeyboardInterrupt:
            raise
        except NotImplementedError as ex:
            warnings.warn(f"This product's {name} is not yet supported: {ex}.")
        except FileNotFoundError as _ex:
            warnings.warn(f"Unable to find files required by {name}.")
        except Exception as ex:
            warnings.warn(f"Unable to load {name}: {ex}")
        setattr''','''        except Exception as ex:
            self._report_failure(name, ex)
        setattr'''),(M,'''    def load_all(self):
''','''    @staticmethod
    def _report_failure(name, ex):
        if isinstance(ex, DebugExceptionPreempted):
            return
        if isinstance(ex, NotImplementedError):
            message = f"This product's {name} is not yet supported: {ex}."
        elif isinstance(ex, FileNotFoundError):
            message = f"Unable to find files required by {name}."
        else:
            message = f"Unable to load {name}: {ex}"
        warnings.warn(message)

    def load_all(self):
''')], ['C12'])
refactor('find-objects', [(M,'''        for pointer in self.pointers:
            imname = depointerize(pointer)
            if is_trivial(imname):
                continue
            self.index.append(imname)
''','''        names = [depointerize(pointer) for pointer in self.pointers]
        self.index.extend(name for name in names if not is_trivial(name))
'''),(M,'''        target = self.metaget_(pointerize(object_name))
        if isinstance(target, Sequence) and not (isinstance(target, str)):
            if isinstance(target[0], str):
                target = target[0]
        if isinstance(target, str):
            return self.get_absolute_paths(target)
        else:
            return self.filename
''','''        target = self.metaget_(pointerize(object_name))
        if not isinstance(target, str) and isinstance(target, Sequence):
            target = target[0]
        if not isinstance(target, str):
            return self.filename
        return self.get_absolute_paths(target)
''')], ['C12','C11','C04'])
refactor('softquery', [(F,'''    for qname in querydict:
        if qname not in args_to_get.intersection(querydict):
            continue
        if "tracker" in kwargdict.keys():
            kwargdict["tracker"].track(querydict[qname])
        kwargdict[qname] = call_kwargfiltered(querydict[qname], **kwargdict)
    return kwargdict
''','''    for qname, query in querydict.items():
        if qname in args_to_get:
            tracker = kwargdict.get("tracker")
            if tracker is not None:
                tracker.track(query)
            answer = call_kwargfiltered(query, **kwargdict)
            kwargdict[qname] = answer
    return kwargdict
'''),(F,'''    return keyfilter(lambda k: k in get_argnames(func), kwargdict)
''','''    accepted = get_argnames(func)
    return {k: v for k, v in kwargdict.items() if k in accepted}
''')], ['C13'])
refactor('specialize', [(F,'''            is_special, special_result = call_kwargfiltered(
                check, *args, **kwargs
            )
            tracker.track(check, is_special=is_special)
            if is_special is True:
                return special_result
            return call_kwargfiltered(func, *args, **kwargs)
''','''            special = call_kwargfiltered(check, *args, **kwargs)
            tracker.track(check, is_special=special[0])
            if special[0] is not True:
                return call_kwargfiltered(func, *args, **kwargs)
            return special[1]
'''),(W,'''        try:
            return {name: call_kwargfiltered(self.loader_function, **info)}
        except Exception as exc:
            load_exc = {"status": "load_failed"} | _format_exc_report(exc)
            raise exc
        finally:
            kwargdict["tracker"].track(self.loader_function, **load_exc)
            kwargdict["tracker"].dump()
''','''        try:
            loaded = call_kwargfiltered(self.loader_function, **info)
        except Exception as exc:
            load_exc = {"status": "load_failed"} | _format_exc_report(exc)
            raise
        finally:
            kwargdict["tracker"].track(self.loader_function, **load_exc)
            kwargdict["tracker"].dump()
        return {name: loaded}
''')], ['C13','C12'])
refactor('specials-loop', [(S,'''    specials = {
        name: block[name]
        for name in PDS3_CONSTANT_NAMES
        if (name in block.keys()) and not (block[name] == "N/A")
    }
    for k in tuple(specials.keys()):
        if isinstance(specials[k], Sequence) and not isinstance(
            specials[k], str
        ):
            specials[k] = specials[k][0]
        if isinstance(specials[k], Mapping):
            # a quantity with units
            specials[k] = specials[k].get("value")
        if not isinstance(specials[k], Number):
            # a textual placeholder; does not define a constant
            del specials[k]
''','''    specials = {}
    for const_name in PDS3_CONSTANT_NAMES:
        if const_name not in block.keys():
            continue
        value = block[const_name]
        if isinstance(value, Sequence) and not isinstance(value, str):
            value = value[0]
        if isinstance(value, Mapping):
            # a quantity with units
            value = value.get("value")
        # a textual placeholder does not define a constant
        if isinstance(value, Number):
            specials[const_name] = value
'''),(S,'''    return {
        possibility: constant
        for possibility, constant in implicit_possibilities.items()
        if constant in obj
    } | specials
''','''    found = {}
    for possibility, constant in implicit_possibilities.items():
        if constant in obj:
            found[possibility] = constant
    found.update(specials)
    return found
'''),(S,'''    mask = np.zeros(obj.shape, dtype=bool)
    # compare constants one at a time, and as Python numbers, so that each of
    # them is considered at the precision of the array
    for special in specials:
        if isinstance(special, (Number, np.number)):
            mask |= (obj.data == special)
    if np.nan in specials:
        # masks infs and nans as well
        mask |= ~np.isfinite(obj.data)
''','''    # masks infs and nans as well
    if np.nan in specials:
        mask = ~np.isfinite(obj.data)
    else:
        mask = np.zeros(obj.shape, dtype=bool)
    # compare constants one at a time, and as Python numbers, so that each of
    # them is considered at the precision of the array
    for special in specials:
        if not isinstance(special, (Number, np.number)):
            continue
        mask = mask | (obj.data == special)
''')], ['C14'])
refactor('scale-array', [(S,'''    scale, offset = 1, 0
    if "SCALING_FACTOR" in block.keys():
        scale = block["SCALING_FACTOR"]
        if isinstance(scale, dict):
            scale = scale["value"]
        if isinstance(scale, str):
            # this would be incorrect label formatting but catching here is
            # better than lots of special cases
            if scale.strip().upper() in {"NULL", "N/A", ""}:
                scale = 1
    if "OFFSET" in block.keys():
        offset = block["OFFSET"]
        if isinstance(offset, dict):
            offset = offset["value"]
        if isinstance(offset, str):
            if offset.strip().upper() in {"NULL", "N/A", ""}:
                offset = 0
''','''    scale = _scale_parameter(block, "SCALING_FACTOR", 1)
    offset = _scale_parameter(block, "OFFSET", 0)
'''),(S,'''def scale_array(
''','''def _scale_parameter(block, name, default):
    if name not in block.keys():
        return default
    value = block[name]
    if isinstance(value, dict):
        value = value["value"]
    if isinstance(value, str):
        # this would be incorrect label formatting but catching here is
        # better than lots of special cases
        if value.strip().upper() in ("NULL", "N/A", ""):
            return default
    return value


def scale_array(
'''),(S,'''    if np.ma.count(arr) == 0:
        limits = (0, 0)
    else:
        limits = tuple(map(int, (arr.min(), arr.max())))
    scaled = tuple(limit * scale for limit in limits)
    # all operands and intermediate values must also fit
    values = limits + scaled + tuple(v + offset for v in scaled)
    values += (scale, offset)
    smin, smax = min(values), max(values)
''','''    low, high = 0, 0
    if np.ma.count(arr) > 0:
        low, high = int(arr.min()), int(arr.max())
    # all operands and intermediate values must also fit
    values = [scale, offset]
    for limit in (low, high):
        values += [limit, limit * scale, limit * scale + offset]
    smin, smax = min(values), max(values)
''')], ['C14'])
refactor('masked-bounds', [(B,'''    if (cheat_low != 0) and (cheat_high != 0):
        minimum, maximum = np.percentile(
            _widened(valid), [cheat_low, 100 - cheat_high], overwrite_input=True
        ).astype(image.dtype)
    elif cheat_low != 0:
        maximum = valid.max()
        minimum = np.percentile(
            _widened(valid), cheat_low, overwrite_input=True
        ).astype(image.dtype)
    elif cheat_high != 0:
        minimum = valid.min()
        maximum = np.percentile(
            _widened(valid), 100 - cheat_high, overwrite_input=True
        ).astype(image.dtype)
    else:
        minimum = valid.min()
        maximum = valid.max()
    return minimum, maximum
''','''    return find_unmasked_bounds(valid, cheat_low, cheat_high)
'''),(B,'''    if isinstance(clip, Sequence):
        cheat_low, cheat_high = clip
    else:
        cheat_low, cheat_high = (clip, clip)
    range_min, range_max = bounds
    if isinstance(image, np.ma.MaskedArray):
        minimum, maximum = find_masked_bounds(image, cheat_low, cheat_high)
        if minimum is None:
            return image
    else:
        minimum, maximum = find_unmasked_bounds(image, cheat_low, cheat_high)
    if nice_clip is True and minimum == maximum:  # scaling was too intense
        if isinstance(image, np.ma.MaskedArray):
            minimum, maximum = find_masked_bounds(image, 0, 0)
        else:
            minimum, maximum = find_unmasked_bounds(image, 0, 0)
''','''    cheat_low, cheat_high = (
        clip if isinstance(clip, Sequence) else (clip, clip)
    )
    range_min, range_max = bounds
    is_masked = isinstance(image, np.ma.MaskedArray)
    find_bounds = find_masked_bounds if is_masked else find_unmasked_bounds
    minimum, maximum = find_bounds(image, cheat_low, cheat_high)
    if minimum is None:
        return image
    if nice_clip is True and minimum == maximum:  # scaling was too intense
        minimum, maximum = find_bounds(image, 0, 0)
''')], ['C15'])
refactor('render', [(B,'''    results = []
    for ix, band in enumerate(obj):
        result = _render_array(
            band,
            f"{outbase}_{ix}",
            purge,
            image_clip,
            mask_color,
            save,
            image_format,
            nice_clip
        )
        results.append(result)
    return results
''','''    return [
        _render_array(
            band, f"{outbase}_{ix}", purge, image_clip, mask_color, save,
            image_format, nice_clip
        )
        for ix, band in enumerate(obj)
    ]
'''),(B,'''    if isinstance(obj, np.ma.MaskedArray):
        return np.ma.dstack([channel for channel in obj[0:3]])
    else:
        return np.dstack([channel for channel in obj[0:3]])
''','''    is_masked = isinstance(obj, np.ma.MaskedArray)
    stack = np.ma.dstack if is_masked else np.dstack
    return stack([obj[0], obj[1], obj[2]])
'''),(B,'''    if isinstance(color, int):
        return masked_array.filled(color)
    if len(masked_array.shape) == 2:
        return np.dstack([masked_array.filled(color[ix]) for ix in range(3)])
    if masked_array.shape[-1] != 3:
        raise ValueError("3-D arrays must have last axis of length = 3")
    return np.dstack(
        [masked_array[:, :, ix].filled(color[ix]) for ix in range(3)]
    )
''','''    if isinstance(color, int):
        return masked_array.filled(color)
    if masked_array.ndim == 2:
        channels = [masked_array] * 3
    elif masked_array.shape[-1] == 3:
        channels = [masked_array[:, :, ix] for ix in range(3)]
    else:
        raise ValueError("3-D arrays must have last axis of length = 3")
    filled = [c.filled(value) for c, value in zip(channels, color)]
    return np.dstack(filled)
''')], ['C15'])
refactor('dispatch', [(D,'''    if image_lib_dispatch(pointer, data) is not None:
        return image_lib_dispatch(pointer, data)
    if special_pointer_dispatch(pointer, data.identifiers) is not None:
        return special_pointer_dispatch(pointer, data.identifiers)
    if (
        "TEXT" in pointer
        or "PDF" in pointer
        or "MAP_PROJECTION_CATALOG" in pointer
        or "FILENAME" in pointer
    ):
        return ReadText()
    if "DESC" in pointer:  # probably points to a reference file
        return ReadText()
''','''    for found in (
        image_lib_dispatch(pointer, data),
        special_pointer_dispatch(pointer, data.identifiers),
    ):
        if found is not None:
            return found
    # DESC probably points to a reference file
    text_words = ("TEXT", "PDF", "MAP_PROJECTION_CATALOG", "FILENAME", "DESC")
    if any(word in pointer for word in text_words):
        return ReadText()
'''),(D,'''    if (
        ("IMAGE" in pointer)
        or ("QUB" in pointer)
        or ("XDR_DOCUMENT" in pointer)
    ):
        return ReadImage()
''','''    if any(w in pointer for w in ("XDR_DOCUMENT", "QUB", "IMAGE")):
        return ReadImage()
'''),('pdr/loaders/utility.py','''    is_this_kind_of_extension = partial(contains, kind_extensions)
    return any(map(is_this_kind_of_extension, Path(filename.lower()).suffixes))
''','''    for suffix in Path(filename.lower()).suffixes:
        if suffix in kind_extensions:
            return True
    return False
'''),('pdr/loaders/utility.py','''    # TIFF tags / headers should always be parsed by the TIFF parser itself
    if (
        ("TIFF" in pointer)
        and ("IMAGE" not in pointer)
        and ("DOCUMENT" not in pointer)
    ):
        return True
    # we don't present STRUCTURES separately from their tables
    if "STRUCTURE" in pointer:
        return True
    # only in MSL CCAM products; probably for internal processing pipelines
    if "PDS_OBJECT" in pointer:
        return True
    return False
''','''    # we don't present STRUCTURES separately from their tables;
    # PDS_OBJECT only in MSL CCAM products
    if "STRUCTURE" in pointer or "PDS_OBJECT" in pointer:
        return True
    # TIFF tags / headers should always be parsed by the TIFF parser itself
    shown = "IMAGE" in pointer or "DOCUMENT" in pointer
    return "TIFF" in pointer and not shown
''')], ['C16','C12'])
refactor('pds4-unpack', [(X,'''    unpacked, items = MultiDict(), list(reversed(packed.items()))
    while len(items) > 0:
        k, v = items.pop()
        if isinstance(v, (list, tuple)):
            items += [(k, e) for e in reversed(v)]
        elif isinstance(v, mtypes):
            unpacked.add(k, unpack_to_multidict(v, mtypes))
        else:
            unpacked.add(k, v)
    return unpacked
''','''    unpacked = MultiDict()
    for k, v in packed.items():
        for element in _flat(v):
            if isinstance(element, mtypes):
                element = unpack_to_multidict(element, mtypes)
            unpacked.add(k, element)
    return unpacked


def _flat(value):
    if not isinstance(value, (list, tuple)):
        yield value
        return
    for element in value:
        yield from _flat(element)
''')], ['C17'])
refactor('pds4-index', [(M,'''        for structure, id_ in zip(structure_list.structures, ids):
            if ids.count(id_) > 1 or id_ == "label":
                # index repeated names, skipping names already in use
                ix, base = 0, id_
                while id_ in (*ids, *self.index, "label"):
                    ix, id_ = ix + 1, f"{base}_{ix}"
            self._pds4_structures[id_] = structure
            self.index.append(id_)
''','''        for ix, structure in enumerate(structure_list.structures):
            id_ = ids[ix]
            if id_ == "label" or ids.count(id_) > 1:
                # index repeated names, skipping names already in use
                taken = {"label"}.union(ids).union(self.index)
                number = 0
                while f"{id_}_{number}" in taken:
                    number += 1
                id_ = f"{id_}_{number}"
            self.index.append(id_)
            self._pds4_structures[id_] = structure
''')], ['C17'])
refactor('fits', [(H,'''    for hdu_ix, hdu in enumerate(hdul):
        hinfo = hdu.fileinfo()
        baserec = {'ix': hdu_ix, 'name': hdulinfo[hdu_ix][3]}
        info[hinfo['hdrLoc']] = baserec | {'part': 'header'}
        info[hinfo['datLoc']] = baserec | {'part': 'data'}
    return info
''','''    for hdu_ix in range(len(hdul)):
        where = hdul[hdu_ix].fileinfo()
        for part, key in (('header', 'hdrLoc'), ('data', 'datLoc')):
            info[where[key]] = {
                'ix': hdu_ix, 'name': hdulinfo[hdu_ix][3], 'part': part
            }
    return info
'''),(Q,'''    for factor in factors:
        matches = [
            t for t in ((target - 1) * factor, target * factor)
            if t in hix.keys()
            and (hix[t]['part'] == 'header') == is_header
        ]
        if len(matches) == 0:
            continue
        # TODO: we could do more complicated things, but for now, just always
        #  assume that if there are two matches, it's 1-indexed.
        return matches[0]
    raise''','''    part = 'header' if is_header else 'data'
    for factor in factors:
        # prefer 1-indexed
        for candidate in ((target - 1) * factor, target * factor):
            if candidate in hix and hix[candidate]['part'] == part:
                return candidate
    raise'''),(H,'''    names = [hi[1] for hi in hdulist.info(False)]
    for hdu_ix, name in enumerate(names):
        if names.count(name) > 1:
            # index HDUs with the same name, skipping names already in use
            ix, hdu_name = 0, f"{name}_0"
            while (hdu_name in names) or (hdu_name in hdumap):
                ix, hdu_name = ix + 1, f"{name}_{ix + 1}"
            name = hdu_name
        headerdict''','''    names = [hi[1] for hi in hdulist.info(False)]
    for hdu_ix, name in enumerate(names):
        if names.count(name) > 1:
            # index HDUs with the same name, skipping names already in use
            name = next(
                indexed for indexed in
                (f"{name}_{n}" for n in range(2 * len(names) + 1))
                if indexed not in names and indexed not in hdumap
            )
        headerdict''')], ['C18'])
refactor('checkers', [(C,'''    if (
        identifiers["DATA_SET_ID"] == "CLEM1-L-RSS-5-BSR-V1.0"
        and re.match("(HEADER|DATA)_TABLE", name)
    ):
        # sequence wrapped as string for object names
        return formats.clementine.get_offset(data, name)
    if identifiers["INSTRUMENT_ID"] == "THEMIS" and name == "QUBE":
        return formats.themis.get_qube_offset(data)
''','''    is_themis_qube = (
        name == "QUBE" and identifiers["INSTRUMENT_ID"] == "THEMIS"
    )
    if is_themis_qube:
        return formats.themis.get_qube_offset(data)
    if identifiers["DATA_SET_ID"] == "CLEM1-L-RSS-5-BSR-V1.0":
        # sequence wrapped as string for object names
        if name.startswith(("HEADER_TABLE", "DATA_TABLE")):
            return formats.clementine.get_offset(data, name)
'''),(C,'''    for key in keys:
        block = block.get(key) if isinstance(block, Mapping) else None
    return block
''','''    value = block
    for key in keys:
        if not isinstance(value, Mapping):
            return None
        value = value.get(key)
    return value
''')], ['C19'])
refactor('metaget', [(M,'''        count = self.fieldcounts.get(text)
        if count is None:
            return default
        if (count > 1) and (warn is True):
            warnings.warn(
                f"More than one value for {text} exists in the metadata. "
                f"Returning only the first.",
                DuplicateKeyWarning,
            )
        value = self._metaget_interior(text)
        return default if value is None else value
''','''        if text not in self.fieldcounts:
            return default
        if warn is True and self.fieldcounts[text] > 1:
            warnings.warn(
                f"More than one value for {text} exists in the metadata. "
                f"Returning only the first.",
                DuplicateKeyWarning,
            )
        if (value := self._metaget_interior(text)) is None:
            return default
        return value
'''),(M,'''        levratio = {
            key: lev.ratio(key, text) for key in self.fieldcounts.keys()
        }
        if levratio == {}:
            return None
        peak = max(levratio.values())
        for k, v in filter(lambda kv: kv[1] == peak, levratio.items()):
            return self.metaget(k)
''','''        if len(self.fieldcounts) == 0:
            return None
        best = max(self.fieldcounts, key=lambda key: lev.ratio(key, text))
        return self.metaget(best)
''')], ['C20'])
refactor('reindex', [(PD,'''    namegroups = df.groupby(column)
    for name, field_group in namegroups:
        if len(field_group) == 1:
            continue
        # TODO: check what this is hitting.
        if name == "RESERVED":
            name = f"RESERVED_{field_group['START_BYTE'].iloc[0]}"
        # skip indices that would produce a name already in use
        taken = set(df[column])
        names = (f"{name}_{ix}" for ix in range(len(df) + len(field_group)))
        names = [n for n in names if n not in taken][:len(field_group)]
        df.loc[field_group.index, column] = names
    return df
''','''    for name, field_group in df.groupby(column):
        n_fields = len(field_group)
        if n_fields > 1:
            # TODO: check what this is hitting.
            if name == "RESERVED":
                name = f"RESERVED_{field_group['START_BYTE'].iloc[0]}"
            # skip indices that would produce a name already in use
            taken, names, ix = set(df[column]), [], 0
            while len(names) < n_fields:
                if f"{name}_{ix}" not in taken:
                    names.append(f"{name}_{ix}")
                ix += 1
            df.loc[field_group.index, column] = names
    return df
'''),(P,'''            indices = [
                ix for ix in range(len(group) + len(params))
                if f"{pointer}_{ix}" not in params
                and f"{depointerize(pointer)}_{ix}" not in params
            ][:len(group)]
''','''            indices, ix = [], 0
            while len(indices) < len(group):
                names = {f"{p}_{ix}" for p in (pointer, depointerize(pointer))}
                if names.isdisjoint(params):
                    indices.append(ix)
                ix += 1
''')], ['C20','C05'])
refactor('vectors', [(PD,'''    sub_dfs = []
    name_buffer = []
    for field in array.dtype.descr:
        if len(field) == 2:
            name_buffer.append(field[0])
        else:
            if len(name_buffer) > 0:
                sub_dfs.append(rectified_rec_df(array[name_buffer]))
                name_buffer = []
            sub_df = rectified_rec_df(array[field[0]])
            sub_df.columns = [
                f"{field[0]}_{ix}" for ix in range(len(sub_df.columns))
            ]
            sub_dfs.append(sub_df)
    if len(name_buffer) > 0:
        sub_dfs.append(rectified_rec_df(array[name_buffer]))
''','''    sub_dfs = []
    for is_flat, fields in groupby(array.dtype.descr, lambda f: len(f) == 2):
        names = [field[0] for field in fields]
        if is_flat:
            sub_dfs.append(rectified_rec_df(array[names]))
            continue
        for name in names:
            sub_df = rectified_rec_df(array[name])
            sub_df.columns = [f"{name}_{ix}" for ix in range(sub_df.shape[1])]
            sub_dfs.append(sub_df)
''')], ['C05'])
