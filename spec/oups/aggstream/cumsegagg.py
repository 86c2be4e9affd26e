from typing import Callable, Dict, List, Optional, Tuple, Union
from numpy import NaN as nNaN
from numpy import array
from numpy import dtype
from numpy import full
from numpy import isin as nisin
from numpy import zeros
from pandas import NA as pNA
from pandas import DataFrame as pDataFrame
from pandas import DatetimeIndex
from pandas import Int64Dtype
from pandas import NaT as pNaT
from pandas import Series
from pandas.core.resample import TimeGrouper
from oups.aggstream.jcumsegagg import AGG_FUNCS
from oups.aggstream.jcumsegagg import jcsagg
from oups.aggstream.segmentby import KEY_BIN_ON
from oups.aggstream.segmentby import KEY_LAST_BIN_LABEL
from oups.aggstream.segmentby import KEY_ORDERED_ON
from oups.aggstream.segmentby import KEY_SNAP_BY
from oups.aggstream.segmentby import segmentby
from oups.aggstream.segmentby import setup_segmentby
DTYPE_INT64 = dtype('int64')
DTYPE_FLOAT64 = dtype('float64')
DTYPE_DATETIME64 = dtype('datetime64[ns]')
DTYPE_NULLABLE_INT64 = Int64Dtype()
NULL_INT64_1D_ARRAY = zeros(0, DTYPE_INT64)
NULL_INT64_2D_ARRAY = NULL_INT64_1D_ARRAY.reshape(0, 0)
NULL_DICT = {DTYPE_INT64: pNA, DTYPE_FLOAT64: nNaN, DTYPE_DATETIME64: pNaT}
KEY_LAST_CHUNK_RES = 'last_chunk_res'

def setup_cumsegagg(agg: Dict[str, Tuple[str, str]], data_dtype: Dict[str, dtype]) -> Dict[dtype, Tuple[List[str], List[str], Tuple, int]]:
    cgb_agg_cfg = {}
    for out_col, (in_col, func) in agg.items():
        if in_col not in data_dtype:
            raise ValueError(f"column '{in_col}' does not exist in input data.")
        else:
            dtype_ = data_dtype[in_col]
        try:
            tup = cgb_agg_cfg[dtype_]
        except KeyError:
            cgb_agg_cfg[dtype_] = [[], [], [], [], []]
            tup = cgb_agg_cfg[dtype_]
        cols_name_in_data = tup[0]
        if in_col in cols_name_in_data:
            in_col_idx = cols_name_in_data.index(in_col)
        else:
            in_col_idx = len(cols_name_in_data)
            cols_name_in_data.append(in_col)
        cols_name_in_res = tup[1]
        out_col_idx = len(cols_name_in_res)
        cols_name_in_res.append(out_col)
        agg_funcs = tup[2]
        try:
            if (agg_func := AGG_FUNCS[func]) in agg_funcs:
                func_idx = agg_funcs.index(agg_func)
            else:
                func_idx = len(agg_funcs)
                agg_funcs.append(AGG_FUNCS[func])
        except KeyError:
            raise ValueError(f'`{func}` aggregation function is unknown.')
        cols_data = tup[3]
        cols_res = tup[4]
        if len(cols_data) <= func_idx:
            cols_data.append([in_col_idx])
            cols_res.append([out_col_idx])
        else:
            cols_data[func_idx].append(in_col_idx)
            cols_res[func_idx].append(out_col_idx)
    for conf in cgb_agg_cfg.values():
        agg_funcs = conf.pop(2)
        cols_data = conf.pop(2)
        cols_res = conf.pop(2)
        n_cols = sum(map(len, cols_res))
        conf.append(tuple(zip(agg_funcs, map(array, cols_data), map(array, cols_res))))
        conf.append(n_cols)
    return cgb_agg_cfg

def setup_chunk_res(agg: Dict[dtype, tuple]) -> pDataFrame:
    chunk_res = {}
    for dtype_, (_, cols_name_in_res, _, n_cols) in agg.items():
        chunk_res_single_dtype = zeros(n_cols, dtype=dtype_)
        chunk_res.update({name: chunk_res_single_dtype[i:i + 1] for i, name in enumerate(cols_name_in_res)})
    return pDataFrame(chunk_res, copy=False)

def cumsegagg(data: pDataFrame, agg: Union[Dict[str, Tuple[str, str]], Dict[dtype, Tuple[List[str], List[str], Tuple, int]]], bin_by: Union[TimeGrouper, Callable, dict], bin_on: Optional[str]=None, buffer: Optional[dict]=None, ordered_on: Optional[str]=None, snap_by: Optional[Union[TimeGrouper, Series, DatetimeIndex]]=None, error_on_0: Optional[bool]=True) -> Union[pDataFrame, Tuple[pDataFrame, pDataFrame]]:
    len_data = len(data)
    if not len_data:
        return
    if not isinstance(next(iter(agg.values())), list):
        agg = setup_cumsegagg(agg, data.dtypes.to_dict())
    if buffer is None:
        preserve_res = False
    else:
        preserve_res = True
        prev_last_bin_label = buffer[KEY_LAST_BIN_LABEL] if KEY_LAST_BIN_LABEL in buffer else None
    if not isinstance(bin_by, dict):
        bin_by = setup_segmentby(bin_by, bin_on, ordered_on, snap_by)
    ordered_on = bin_by[KEY_ORDERED_ON]
    if bin_by[KEY_SNAP_BY] is not None:
        snap_by = bin_by[KEY_SNAP_BY]
    next_chunk_starts, bin_indices, bin_labels, n_max_null_bins, snap_labels, n_max_null_snaps = segmentby(data=data, bin_by=bin_by, snap_by=snap_by, buffer=buffer)
    if preserve_res and prev_last_bin_label != bin_labels.iloc[0]:
        preserve_res = False
    chunk_res_prev = buffer[KEY_LAST_CHUNK_RES] if isinstance(buffer, dict) and KEY_LAST_CHUNK_RES in buffer else setup_chunk_res(agg)
    chunk_res = {}
    n_bins = len(bin_labels)
    null_bin_indices = full(n_max_null_bins, -1, dtype=DTYPE_INT64)
    bin_res = {}
    snap_res = {}
    if snap_by is None:
        snap_res_single_dtype = NULL_INT64_2D_ARRAY
        null_snap_indices = NULL_INT64_1D_ARRAY
    else:
        n_snaps = len(snap_labels)
        null_snap_indices = full(n_max_null_snaps, -1, dtype=DTYPE_INT64)
    for dtype_, (cols_name_in_data, cols_name_in_res, aggs, n_cols) in agg.items():
        data_single_dtype = data.loc[:, cols_name_in_data].to_numpy(copy=False) if len(cols_name_in_data) > 1 else data.loc[:, cols_name_in_data].to_numpy(copy=False).reshape(-1, 1)
        chunk_res_single_dtype = chunk_res_prev.loc[:, cols_name_in_res].to_numpy(copy=False).reshape(n_cols)
        chunk_res.update({name: chunk_res_single_dtype[i:i + 1] for i, name in enumerate(cols_name_in_res)})
        bin_res_single_dtype = zeros((n_bins, n_cols), dtype=dtype_)
        bin_res.update({name: bin_res_single_dtype[:, i] for i, name in enumerate(cols_name_in_res)})
        if snap_by is not None:
            snap_res_single_dtype = zeros((n_snaps, n_cols), dtype=dtype_)
            snap_res.update({name: snap_res_single_dtype[:, i] for i, name in enumerate(cols_name_in_res)})
        if dtype_ == DTYPE_DATETIME64:
            data_single_dtype = data_single_dtype.view(DTYPE_INT64)
            bin_res_single_dtype = bin_res_single_dtype.view(DTYPE_INT64)
            chunk_res_single_dtype = chunk_res_single_dtype.view(DTYPE_INT64)
            if snap_by is not None:
                snap_res_single_dtype = snap_res_single_dtype.view(DTYPE_INT64)
        jcsagg(data_single_dtype, aggs, next_chunk_starts, bin_indices, preserve_res, chunk_res_single_dtype, bin_res_single_dtype, snap_res_single_dtype, null_bin_indices, null_snap_indices)
    if isinstance(buffer, dict):
        buffer[KEY_LAST_CHUNK_RES] = pDataFrame(chunk_res, copy=False)
    bin_res = pDataFrame(bin_res, index=bin_labels, copy=False)
    bin_res.index.name = ordered_on if ordered_on else bin_by[KEY_BIN_ON]
    if DTYPE_INT64 in agg:
        bin_res[agg[DTYPE_INT64][1]] = bin_res[agg[DTYPE_INT64][1]].astype(DTYPE_NULLABLE_INT64)
    if n_max_null_bins != 0:
        null_bin_indices = null_bin_indices[~nisin(null_bin_indices, -1)]
        if len(null_bin_indices) != 0:
            for dtype_, (_, cols_name_in_res, _, _) in agg.items():
                bin_res.iloc[null_bin_indices, bin_res.columns.get_indexer(cols_name_in_res)] = NULL_DICT[dtype_]
    if snap_by is not None:
        snap_res = pDataFrame(snap_res, index=snap_labels, copy=False)
        snap_res.index.name = ordered_on
        if DTYPE_INT64 in agg:
            snap_res[agg[DTYPE_INT64][1]] = snap_res[agg[DTYPE_INT64][1]].astype(DTYPE_NULLABLE_INT64)
        if n_max_null_snaps != 0:
            null_snap_indices = null_snap_indices[~nisin(null_snap_indices, -1)]
            if len(null_snap_indices) != 0:
                for dtype_, (_, cols_name_in_res, _, _) in agg.items():
                    snap_res.iloc[null_snap_indices, snap_res.columns.get_indexer(cols_name_in_res)] = NULL_DICT[dtype_]
    if error_on_0:
        if snap_by is not None and snap_res.eq(0).any().any():
            raise ValueError("at least one null value exists in 'snap_res' which is likely to hint a bug.")
        if bin_res.eq(0).any().any():
            raise ValueError("at least one null value exists in 'bin_res' which is likely to hint a bug.")
    if snap_by is not None:
        return (bin_res, snap_res)
    else:
        return bin_res
