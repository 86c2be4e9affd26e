"""What the analysis knows about external functions, and about effects of functions of the package.

Every entry was read off the code of the package (and of the libraries it calls).
"""

# Parameter order of external callables, to see one call whatever mix of
# positional and keyword arguments is used. (defaults: dropped when passed)
EXT_SIG = {
    "numpy.zeros": ("shape", "dtype"), "numpy.ones": ("shape", "dtype"), "numpy.full": ("shape", "fill_value", "dtype"),
    "numpy.arange": ("start", "stop", "step", "dtype"), "numpy.insert": ("arr", "obj", "values"),
    "numpy.searchsorted": ("a", "v", "side"), "numpy.argsort": ("a", "axis", "kind"),
    "numpy.concatenate": ("arrays", "axis"), "numpy.diff": ("a", "n", "axis", "prepend", "append"),
    "numpy.isin": ("element", "test_elements"), "numpy.nonzero": ("a",), "numpy.unique": ("ar",),
    "numpy.array": ("object", "dtype"), "pandas.DataFrame": ("data", "index", "columns", "dtype", "copy"),
    "pandas.Series": ("data", "index", "dtype", "name", "copy"), "pandas.date_range": ("start", "end", "periods", "freq"),
    "pandas.concat": ("objs",), "pandas.MultiIndex.from_tuples": ("tuples", "sortorder", "names"),
    "pandas.Index": ("data", "dtype"), "pandas.Timedelta": ("value",),
    "fastparquet.write": ("filename", "data", "row_group_offsets", "compression", "file_scheme", "open_with", "mkdirs",
                          "has_nulls", "write_index", "partition_on", "fixed_text", "append"),
    "fastparquet.writer.write": ("filename", "data", "row_group_offsets", "compression", "file_scheme", "open_with", "mkdirs",
                                 "has_nulls", "write_index", "partition_on", "fixed_text", "append"),
    "fastparquet.ParquetFile": ("fn",), "fastparquet.api.filter_row_groups": ("pf", "filters", "as_idx"),
    "fastparquet.util.update_custom_metadata": ("obj", "custom_metadata"),
    "fastparquet.api.statistics": ("obj",),
    "joblib.Parallel": ("n_jobs",), "vaex.open_many": ("filenames",), "vaex.from_pandas": ("df",),
    "dataclasses.dataclass": ("cls",), "shutil.rmtree": ("path",), "os.rmdir": ("path",), "os.listdir": ("path",),
    "os.scandir": ("path",), "os.path.isdir": ("s",), "re.split": ("pattern", "string", "maxsplit"),
    "pandas.core.resample._get_timestamp_range_edges": ("first", "last", "freq", "unit", "closed", "origin", "offset"),
    "functools.partial": ("func",), "ast.literal_eval": ("node_or_string",), "math.ceil": ("x",),
}
# Default values of these, dropped when written out.
EXT_DEF = {
    "numpy.argsort": {"axis": -1}, "pandas.DataFrame": {}, "fastparquet.write": {"append": False},
    "fastparquet.writer.write": {"append": False}, "numpy.concatenate": {"axis": 0}, "numpy.searchsorted": {"side": "left"},
    "re.split": {"maxsplit": 0}, "joblib.Parallel": {},
}
# Keyword order of methods (name of method -> parameter names).
METH_SIG = {
    "to_numpy": ("dtype", "copy"), "astype": ("dtype", "copy"), "reset_index": ("level", "drop", "inplace"),
    "set_names": ("names", "level", "inplace"), "set_levels": ("levels", "level"), "concat": ("other",),
    "sort_values": ("by",), "drop_duplicates": ("subset", "keep"), "isin": ("values",), "duplicated": ("subset", "keep"),
    "memory_usage": ("index", "deep"), "view": ("dtype",), "eq": ("other",), "diff": ("periods",),
    "evaluate": ("expression", "i1", "i2"), "rsplit": ("sep", "maxsplit"), "split": ("sep", "maxsplit"),
    "write_row_groups": ("data", "row_group_offsets", "sort_key", "sort_pnames", "compression", "write_fmd"),
    "remove_row_groups": ("rgs", "sort_pnames", "write_fmd"), "_sort_part_names": ("write_fmd",),
    "is_dir": ("follow_symlinks",), "copy": ("deep",), "sort": ("by",), "row_group_filename": ("rg",),
}
METH_DEF = {
    "diff": {"periods": 1}, "write_row_groups": {"row_group_offsets": None, "sort_key": None},
    "remove_row_groups": {"sort_pnames": False}, "rsplit": {"maxsplit": -1}, "split": {"maxsplit": -1},
    "reset_index": {"drop": False, "inplace": False}, "astype": {}, "memory_usage": {"index": True, "deep": False},
    "drop_duplicates": {"keep": "first"}, "duplicated": {"keep": "first"},
}
# External functions writing to disk.
FS_WRITE_FUNCS = {
    "shutil.rmtree", "os.rmdir", "os.remove", "os.unlink", "os.removedirs", "os.makedirs", "os.mkdir", "os.rename",
    "os.replace", "fastparquet.write", "fastparquet.writer.write", "shutil.move", "shutil.copy", "os.truncate",
    "shutil.copytree", "fastparquet.writer.merge",
}
# Methods writing to disk, and changing their object.
FS_WRITE_METHS = {
    "write_row_groups", "remove_row_groups", "_sort_part_names", "_write_common_metadata", "unlink", "rmdir", "mkdir",
    "rename", "replace_", "to_parquet", "export", "export_parquet", "write_text", "write_bytes",
}
FS_READ_FUNCS = {
    "os.listdir", "os.scandir", "os.path.isdir", "os.path.exists", "os.path.isfile", "fastparquet.ParquetFile",
    "vaex.open_many", "vaex.open", "oups.store.utils.files_at_depth", "oups.store.collection.get_keys",
    "oups.store.router.ParquetHandle",
}
# External functions changing (first) argument.
MUT_FUNCS = {"fastparquet.util.update_custom_metadata": ("obj",), "builtins.setattr": ("0",), "heapq.heappush": ("0",)}
# Methods changing their object when 'inplace' is set.
INPLACE_METHS = {"reset_index", "set_names", "sort_values", "drop", "rename", "fillna", "drop_duplicates", "set_index", "sort_index"}
CONTAINER_MUT = {
    "append", "extend", "insert", "pop", "remove", "discard", "add", "update", "clear", "setdefault", "sort", "popitem",
    "reverse", "appendleft", "popleft", "difference_update", "intersection_update",
}
OBJ_MUT = {"acquire", "release", "write", "close", "flush", "put", "set_tooltip", "fill"}
# Calls whose outcome is of no interest.
IGNORED_CALLS = {"builtins.print", "warnings.warn", "gc.collect", "time.time", "time.perf_counter"}
IGNORED_PREFIX = ("logging.", "warnings.", "tqdm.")
# Calls giving a new object: writing to it is local to the function.
FRESH_PREFIX = ("numpy.", "pandas.", "collections.", "sortedcontainers.")
FRESH_METHS = {"copy", "reset_index", "astype", "to_dict", "tolist", "to_list", "difference", "union", "intersection"}

# Parameters whose object is changed by functions of the package; "fs": data on
# disk; "glob:<name>": module-level object.
EFFECTS = {
    "oups.store.collection.ParquetSet.set": ("self", "fs"),
    "oups.store.collection.ParquetSet.__setitem__": ("self", "fs"),
    "oups.store.collection.ParquetSet.__delitem__": ("self", "fs"),
    "oups.store.utils.conform_cmidx": ("df",),
    "oups.store.writer.write_metadata": ("pf", "fs", "glob:oups.store.writer.OUPS_METADATA"),
    "oups.store.writer.write": ("fs", "glob:oups.store.writer.OUPS_METADATA"),
    "oups.aggstream.segmentby.by_scale": ("buffer",),
    "oups.aggstream.segmentby.by_x_rows": ("buffer",),
    "oups.aggstream.segmentby.setup_mainbuffer": ("buffer",),
    "oups.aggstream.segmentby.segmentby": ("buffer",),
    "oups.aggstream.cumsegagg.cumsegagg": ("buffer",),
    "oups.aggstream.jcumsegagg.jcsagg": ("chunk_res", "bin_res", "snap_res", "null_bin_indices", "null_snap_indices"),
    "oups.aggstream.aggstream._reset_agg_buffers": ("agg_buffers",),
    "oups.aggstream.aggstream._post_n_write_agg_chunks": ("agg_buffers", "store", "fs", "glob:oups.store.writer.OUPS_METADATA"),
    "oups.aggstream.aggstream.agg_iter": ("agg_buffers", "store", "fs"),
    "oups.aggstream.aggstream.AggStream._init_agg_cs": ("self", "seed"),
    "oups.aggstream.aggstream.AggStream.agg": ("self", "fs"),
    "oups.store.indexer._validate_toplevel_instance": (),
}
# Generators giving items (and raising) only while they go through a parameter.
GEN_OVER = {"oups.aggstream.aggstream._iter_data": "seed"}
# Called for the exception they may raise: calls are events.
CHECKERS = {"oups.store.indexer._validate_toplevel_instance", "oups.store.writer.check_cmidx"}


def _defaults():
    import json
    import os
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "defaults.json")) as f:
        return json.load(f)


# Default values of parameters of external functions, and of methods by name, read off the signatures of the installed libraries.
DEFAULTS = _defaults()
