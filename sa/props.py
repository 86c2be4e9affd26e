"""Which part of the program each property rests on.

FUNCS: property -> functions whose whole observable behaviour (result, exceptions, effects, under every
combination of conditions) the property depends on.
CONSTS: property -> module-level values it depends on.
The obligations of a property are: one per function (its summary agrees with the reviewed reference on
every pair of compatible paths), one per module-level value or class.
"""
S, A = "oups.store.", "oups.aggstream."
W, IX, CO, RO, UT = S + "writer.", S + "indexer.", S + "collection.ParquetSet.", S + "router.ParquetHandle.", S + "utils."
AG, SB, CS, JS = A + "aggstream.", A + "segmentby.", A + "cumsegagg.", A + "jcumsegagg."


def q(prefix, names):
    return [prefix + n for n in names.split()]


JIT = q(JS, "jfirst jlast jmin jmax jsum")
INDEXER = q(IX, "TopLevel.depth TopLevel.fields_sep _dataclass_fields_types_to_lists _dataclass_instance_from_str "
                "_dataclass_instance_to_dict _dataclass_instance_to_lists _dataclass_instance_to_str _get_depth _is_dataclass_instance "
                "_reduce _validate_toplevel_instance is_toplevel sublevel toplevel toplevel.<locals>.tweak "
                "toplevel.<locals>.tweak.<locals>.__init__")

FUNCS = {
    "C01": INDEXER,
    "C02": q(CO, "__init__ basepath set get __getitem__ __delitem__") + q(UT, "strip_path_tail files_at_depth") + q(S, "collection.get_keys")
           + q(IX, "_validate_toplevel_instance _dataclass_instance_to_str _dataclass_instance_to_lists _dataclass_instance_to_dict") + q(RO, "__init__ dirpath pf vdf"),
    "C03": q(CO, "__init__ basepath indexer keys __len__ __repr__ __contains__ __iter__ set __setitem__ get __getitem__ __delitem__")
           + q(S, "collection.get_keys collection.is_parquet_file utils.files_at_depth utils.strip_path_tail") + INDEXER,
    "C04": q(CO, "__init__ set __setitem__ get __getitem__ __delitem__ indexer") + q(IX, "_validate_toplevel_instance is_toplevel toplevel toplevel.<locals>.tweak "
             "toplevel.<locals>.tweak.<locals>.__init__ _is_dataclass_instance _dataclass_instance_to_lists _dataclass_instance_to_dict TopLevel.fields_sep")
           + q(W, "write iter_dataframe check_cmidx to_midx"),
    "C05": q(W, "write iter_dataframe"),
    "C06": q(W, "write iter_dataframe"),
    "C07": q(W, "write iter_dataframe") + q(RO, "vdf"),
    "C08": q(W, "iter_dataframe write"),
    "C09": q(W, "write write_metadata iter_dataframe") + q(CO, "set __setitem__"),
    "C10": q(W, "write_metadata write") + q(CO, "set __setitem__") + q(RO, "metadata _oups_metadata pf") + q(AG, "_post_n_write_agg_chunks"),
    "C11": q(W, "write iter_dataframe write_metadata to_midx") + q(CO, "set __setitem__")
           + q(AG, "AggStream.__init__ AggStream._init_agg_cs AggStream.agg _init_keys_config _iter_data _post_n_write_agg_chunks _concat_agg_res agg_iter")
           + q(A, "utils.dataframe_filter") + q(CS, "cumsegagg setup_cumsegagg setup_chunk_res")
           + q(SB, "segmentby by_scale by_x_rows setup_segmentby mergesort _next_chunk_starts") + JIT + q(JS, "jcsagg"),
    "C12": q(RO, "__init__ dirpath pf pdf vdf min_max metadata _oups_metadata") + q(CO, "get __getitem__"),
    "C13": q(W, "write iter_dataframe"),
    "C14": q(W, "to_midx check_cmidx write") + q(UT, "conform_cmidx"),
    "C15": JIT + q(JS, "jcsagg"),
    "C16": q(JS, "jcsagg") + q(CS, "cumsegagg setup_chunk_res") + q(SB, "segmentby mergesort") + JIT,
    "C17": q(SB, "_next_chunk_starts by_scale segmentby by_x_rows setup_segmentby"),
    "C18": q(SB, "mergesort segmentby by_scale by_x_rows") + q(JS, "jcsagg") + q(CS, "cumsegagg"),
    "C19": q(CS, "setup_cumsegagg cumsegagg setup_chunk_res") + q(JS, "jcsagg") + q(AG, "AggStream._init_agg_cs"),
    "C20": q(CS, "cumsegagg setup_chunk_res setup_cumsegagg") + q(JS, "jcsagg") + q(SB, "segmentby by_scale _next_chunk_starts by_x_rows"),
    "C21": q(SB, "segmentby by_scale mergesort setup_segmentby by_x_rows") + q(CS, "cumsegagg"),
    "C22": q(CS, "cumsegagg setup_chunk_res") + q(SB, "segmentby setup_mainbuffer by_scale by_x_rows setup_segmentby") + q(AG, "agg_iter") + q(JS, "jcsagg"),
    "C23": q(AG, "_post_n_write_agg_chunks _init_buffers _is_aggstream_result _reset_agg_buffers AggStream.__init__ AggStream.agg _iter_data")
           + q(RO, "_oups_metadata metadata pf") + q(W, "write_metadata"),
    "C24": q(AG, "agg_iter _concat_agg_res _reset_agg_buffers _post_n_write_agg_chunks AggStream.agg _init_keys_config _init_buffers"),
    "C25": q(AG, "_iter_data AggStream.agg AggStream._init_agg_cs _init_buffers AggStream.__init__"),
    "C26": q(AG, "_iter_data AggStream.agg SeedPreException.__init__ _post_n_write_agg_chunks AggStream._init_agg_cs _concat_agg_res"),
    "C27": q(A, "utils.dataframe_filter") + q(AG, "_iter_data AggStream.agg AggStream.__init__ AggStream._init_agg_cs"),
    "C28": q(AG, "AggStream.agg agg_iter _init_buffers _reset_agg_buffers AggStream.__init__ _init_keys_config _post_n_write_agg_chunks AggStream._init_agg_cs")
           + q(CO, "set __delitem__") + q(W, "write_metadata") + q(SB, "setup_mainbuffer"),
    "C29": q(AG, "_init_keys_config AggStream.__init__ AggStream._init_agg_cs") + q(SB, "setup_segmentby") + q(CS, "setup_cumsegagg"),
    "C30": q(SB, "by_scale _next_chunk_starts segmentby setup_mainbuffer"),
    "C32": q(SB, "by_x_rows"),
}

CONSTS = {
    "C01": q(IX, "DEFAULT_FIELDS_SEP FORBIDDEN_CHARS TYPE_ACCEPTED TopLevel") + q(S, "defines.DIR_SEP"),
    "C02": q(IX, "FORBIDDEN_CHARS") + q(S, "defines.DIR_SEP"),
    "C03": q(S, "defines.DIR_SEP collection._KEYS_LOCK"),
    "C04": q(IX, "FORBIDDEN_CHARS TYPE_ACCEPTED"),
    "C10": q(W, "OUPS_METADATA OUPS_METADATA_KEY"),
    "C13": q(W, "MAX_ROW_GROUP_SIZE"),
    "C25": q(AG, "KEY_RESTART_INDEX KEY_PRE_BUFFER"),
    "C12": q(S, "defines.DIR_SEP"),
    "C16": q(JS, "AGG_FUNCS FIRST LAST MAX MIN SUM"),
    "C08": q(W, "MAX_ROW_GROUP_SIZE"),
    "C15": q(JS, "AGG_FUNCS FIRST LAST MAX MIN SUM"),
    "C17": q(SB, "LEFT RIGHT"),
    "C19": q(JS, "AGG_FUNCS FIRST LAST MAX MIN SUM"),
    "C20": q(CS, "NULL_DICT DTYPE_DATETIME64 DTYPE_FLOAT64 DTYPE_INT64 DTYPE_NULLABLE_INT64 NULL_INT64_1D_ARRAY NULL_INT64_2D_ARRAY"),
    "C22": q(CS, "KEY_LAST_CHUNK_RES") + q(SB, "KEY_BIN KEY_SNAP KEY_LAST_BIN_LABEL KEY_LAST_BIN_END KEY_RESTART_KEY KEY_LAST_ON_VALUE"),
    "C23": q(AG, "KEY_AGGSTREAM KEY_RESTART_INDEX KEY_PRE_BUFFER KEY_SEGAGG_BUFFER KEY_POST_BUFFER") + q(W, "OUPS_METADATA OUPS_METADATA_KEY"),
    "C24": q(AG, "KEY_BIN_RES KEY_SNAP_RES KEY_BIN_RES_BUFFER KEY_SNAP_RES_BUFFER KEY_AGG_IN_MEMORY_SIZE"),
    "C26": q(AG, "SeedPreException"),
    "C27": q(A, "utils.ops"),
    "C28": q(W, "OUPS_METADATA") + q(AG, "KEY_MAX_P_JOBS") + q(S, "collection._KEYS_LOCK"),
    "C29": q(AG, "KEY_CONF_IN_PARAMS WRITE_PARAMS KEY_BIN_ON_OUT NO_FILTER_ID AggResType MEGABYTES_TO_BYTES"),
    "C30": q(SB, "KEY_RESTART_KEY KEY_LAST_ON_VALUE"),
    "C32": q(SB, "LEFT RIGHT KEY_RESTART_KEY KEY_LAST_BIN_LABEL KEY_LAST_BIN_END"),
}

PROPS = sorted(FUNCS)
