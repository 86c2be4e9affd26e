from typing import Callable, Tuple
from numba import boolean
from numba import float64
from numba import int64
from numba import literal_unroll
from numba import njit
from numpy import ndarray
from numpy import ndenumerate
from numpy import zeros

@njit([int64[:](int64[:, :], int64[:], boolean), float64[:](float64[:, :], float64[:], boolean)], cache=True)
def jfirst(ar: ndarray, initial: ndarray, use_init: bool):
    if use_init > 0:
        return initial
    elif len(ar) > 0:
        return ar[0]
    else:
        return zeros(ar.shape[1], dtype=ar.dtype)

@njit([int64[:](int64[:, :], int64[:], boolean), float64[:](float64[:, :], float64[:], boolean)], cache=True)
def jlast(ar: ndarray, initial: ndarray, use_init: bool):
    if len(ar) > 0:
        return ar[-1]
    elif use_init:
        return initial
    else:
        return zeros(ar.shape[1], dtype=ar.dtype)

@njit([int64[:](int64[:, :], int64[:], boolean), float64[:](float64[:, :], float64[:], boolean)], cache=True, parallel=True)
def jmax(ar: ndarray, initial: ndarray, use_init: bool):
    len_ar = len(ar)
    if len_ar > 0:
        if use_init:
            k = 0
            res = initial
        else:
            k = 1
            res = ar[0]
        if len_ar > 1 or k == 0:
            for row in ar[k:]:
                for i, val in ndenumerate(row):
                    if val > res[i]:
                        res[i] = val
        return res
    elif use_init:
        return initial
    else:
        return zeros(ar.shape[1], dtype=ar.dtype)

@njit([int64[:](int64[:, :], int64[:], boolean), float64[:](float64[:, :], float64[:], boolean)], cache=True, parallel=True)
def jmin(ar: ndarray, initial: ndarray, use_init: bool):
    len_ar = len(ar)
    if len_ar > 0:
        if use_init:
            k = 0
            res = initial
        else:
            k = 1
            res = ar[0]
        if len_ar > 1 or k == 0:
            for row in ar[k:]:
                for i, val in ndenumerate(row):
                    if val < res[i]:
                        res[i] = val
        return res
    elif use_init:
        return initial
    else:
        return zeros(ar.shape[1], dtype=ar.dtype)

@njit([int64[:](int64[:, :], int64[:], boolean), float64[:](float64[:, :], float64[:], boolean)], cache=True, parallel=True)
def jsum(ar: ndarray, initial: ndarray, use_init: bool):
    len_ar = len(ar)
    if len_ar > 0:
        if use_init:
            k = 0
            res = initial
        else:
            k = 1
            res = ar[0]
        if len_ar > 1 or k == 0:
            for row in ar[k:]:
                res += row
        return res
    elif use_init:
        return initial
    else:
        return zeros(ar.shape[1], dtype=ar.dtype)
FIRST = 'first'
LAST = 'last'
MIN = 'min'
MAX = 'max'
SUM = 'sum'
AGG_FUNCS = {FIRST: jfirst, LAST: jlast, MIN: jmin, MAX: jmax, SUM: jsum}

@njit
def jcsagg(data: ndarray, aggs: Tuple[Tuple[Callable, ndarray, ndarray]], next_chunk_starts: ndarray, bin_indices: ndarray, preserve_res: bool, chunk_res: ndarray, bin_res: ndarray, snap_res: ndarray, null_bin_indices: ndarray, null_snap_indices: ndarray):
    bin_start = -1 if preserve_res else 0
    chunk_start = 0
    bin_res_idx = snap_res_idx = 0
    null_bin_idx = null_snap_idx = 0
    if len(snap_res) != 0:
        some_snaps = True
        if len(bin_indices) > 0:
            iter_bin_indices = iter(bin_indices)
            next_bin_idx = next(iter_bin_indices)
            last_bin_idx = bin_indices[-1]
        else:
            next_bin_idx = -1
    else:
        some_snaps = False
        is_update = False
    for (idx,), next_chunk_start in ndenumerate(next_chunk_starts):
        if some_snaps:
            if idx == next_bin_idx:
                is_update = False
                if next_bin_idx != last_bin_idx:
                    next_bin_idx = next(iter_bin_indices)
            else:
                is_update = True
        if bin_start == next_chunk_start:
            if is_update:
                null_snap_indices[null_snap_idx] = snap_res_idx
                null_snap_idx += 1
                snap_res_idx += 1
            else:
                null_bin_indices[null_bin_idx] = bin_res_idx
                null_bin_idx += 1
                bin_res_idx += 1
                preserve_res = False
        else:
            chunk = data[chunk_start:next_chunk_start]
            if len(chunk) != 0:
                for agg in literal_unroll(aggs):
                    agg_func, cols_data, cols_res = agg
                    chunk_res[cols_res] = agg_func(chunk[:, cols_data], chunk_res[cols_res], preserve_res)
            if is_update:
                snap_res[snap_res_idx, :] = chunk_res
                snap_res_idx += 1
                preserve_res = True
            else:
                bin_res[bin_res_idx, :] = chunk_res
                bin_res_idx += 1
                bin_start = next_chunk_start
                preserve_res = False
        chunk_start = next_chunk_start
