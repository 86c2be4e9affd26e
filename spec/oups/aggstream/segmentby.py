from functools import partial
from math import ceil
from math import fmod
from typing import Callable, Dict, Optional, Tuple, Union
from numba import njit
from numpy import arange
from numpy import argsort
from numpy import concatenate
from numpy import diff as ndiff
from numpy import dtype
from numpy import full
from numpy import insert as ninsert
from numpy import ndarray
from numpy import ndenumerate
from numpy import nonzero
from numpy import zeros
from pandas import DataFrame as pDataFrame
from pandas import Index
from pandas import IntervalIndex
from pandas import Series as pSeries
from pandas import Timedelta
from pandas import concat as pconcat
from pandas import date_range
from pandas.core.resample import TimeGrouper
from pandas.core.resample import _get_timestamp_range_edges as gtre
DTYPE_INT64 = dtype('int64')
DTYPE_DATETIME64 = dtype('datetime64[ns]')
NULL_INT64_1D_ARRAY = zeros(0, DTYPE_INT64)
LEFT = 'left'
RIGHT = 'right'
KEY_BIN = 'bin'
KEY_SNAP = 'snap'
KEY_LAST_BIN_LABEL = 'last_bin_label'
KEY_LAST_BIN_END = 'last_bin_end'
KEY_RESTART_KEY = 'restart_key'
KEY_LAST_ON_VALUE = 'last_on_value'
KEY_ON_COLS = 'on_cols'
KEY_BIN_BY = 'bin_by'
KEY_ORDERED_ON = 'ordered_on'
KEY_SNAP_BY = 'snap_by'
KEY_BIN_ON = 'bin_on'

@njit(['Tuple((int64[:], int64, boolean))(int64[:], int64[:], boolean)', 'Tuple((int64[:], int64, boolean))(float64[:], float64[:], boolean)'])
def _next_chunk_starts(data: ndarray, right_edges: ndarray, right: bool):
    next_chunk_starts = zeros(len(right_edges), dtype=DTYPE_INT64)
    n_null_chunks = 0
    prev_d_idx = 0
    _d_idx = prev_d_idx = 0
    data_max_idx = len(data) - 1
    for (b_idx_loc,), bin_ in ndenumerate(right_edges):
        prev_bin = True
        if right:
            for (_d_idx_loc,), val in ndenumerate(data[_d_idx:]):
                if val > bin_:
                    prev_bin = False
                    break
        else:
            for (_d_idx_loc,), val in ndenumerate(data[_d_idx:]):
                if val >= bin_:
                    prev_bin = False
                    break
        _d_idx += _d_idx_loc
        if _d_idx == data_max_idx and prev_bin:
            next_chunk_starts[b_idx_loc] = _d_idx + 1
            return (next_chunk_starts[:b_idx_loc + 1], n_null_chunks, True)
        else:
            next_chunk_starts[b_idx_loc] = _d_idx
            if prev_d_idx == _d_idx:
                n_null_chunks += 1
            else:
                prev_d_idx = _d_idx
    return (next_chunk_starts, n_null_chunks, False)

def by_scale(on: pSeries, by: Union[TimeGrouper, pSeries, Tuple[pSeries]], closed: Optional[str]=None, buffer: Optional[dict]=None) -> Tuple[ndarray, pSeries, int, str, pSeries, bool]:
    if isinstance(by, TimeGrouper):
        first = buffer[KEY_RESTART_KEY] if buffer else on.iloc[0]
        if closed is None:
            closed = by.closed
        start, end = gtre(first=first, last=on.iloc[-1], freq=by.freq, closed=closed, unit=first.unit, origin=by.origin, offset=by.offset)
        edges = date_range(start, end, freq=by.freq)
        chunk_ends = edges[1:]
        chunk_labels = chunk_ends if by.label == RIGHT else edges[:-1]
    else:
        if closed is None:
            raise ValueError(f"'closed' has to be set to {LEFT} or {RIGHT}.")
        if isinstance(by, tuple):
            chunk_labels, chunk_ends = by
            if len(chunk_labels) != len(chunk_ends):
                raise ValueError('number of chunk labels has to be equal to number of chunk ends.')
        else:
            chunk_labels = chunk_ends = by
        chunk_ends = Index(chunk_ends)
        if buffer:
            if KEY_RESTART_KEY in buffer and buffer[KEY_RESTART_KEY] != chunk_ends[0]:
                n_chunk_ends_init = len(chunk_ends)
                chunk_ends = chunk_ends[chunk_ends >= buffer[KEY_RESTART_KEY]]
                if chunk_ends.empty or buffer[KEY_RESTART_KEY] != chunk_ends[0]:
                    raise ValueError(f"'by' needs to contain value {buffer[KEY_RESTART_KEY]} to restart correctly.")
                n_first_chunks_to_remove = n_chunk_ends_init - len(chunk_ends)
                chunk_labels = chunk_labels[n_first_chunks_to_remove:]
            if KEY_LAST_ON_VALUE in buffer:
                last_on_value = buffer[KEY_LAST_ON_VALUE]
                if len(chunk_ends) > 1 and (closed == RIGHT and chunk_ends[1] < last_on_value or (closed == LEFT and chunk_ends[1] <= last_on_value)):
                    raise ValueError(f"2nd chunk end in 'by' has to be larger than value {buffer[KEY_LAST_ON_VALUE]} to restart correctly.")
                if closed == RIGHT and chunk_ends[0] < last_on_value or (closed == LEFT and chunk_ends[0] <= last_on_value):
                    chunk_ends = chunk_ends[1:]
                    chunk_labels = chunk_labels[1:]
                del buffer[KEY_LAST_ON_VALUE]
        if chunk_ends.empty:
            if isinstance(buffer, dict):
                buffer[KEY_LAST_ON_VALUE] = on.iloc[-1]
            return (NULL_INT64_1D_ARRAY, chunk_labels, 0, closed, chunk_ends, False)
    if chunk_ends.dtype == DTYPE_DATETIME64:
        next_chunk_starts, n_null_chunks, data_traversed = _next_chunk_starts(on.to_numpy(copy=False).view(DTYPE_INT64), chunk_ends.to_numpy(copy=False).view(DTYPE_INT64), closed == RIGHT)
    else:
        next_chunk_starts, n_null_chunks, data_traversed = _next_chunk_starts(on.to_numpy(copy=False), chunk_ends.to_numpy(copy=False), closed == RIGHT)
    n_chunks = len(next_chunk_starts)
    if data_traversed:
        chunk_labels = chunk_labels[:n_chunks]
        chunk_ends = chunk_ends[:n_chunks]
        if buffer is not None:
            if closed == LEFT and isinstance(by, TimeGrouper):
                if n_chunks > 1:
                    buffer[KEY_RESTART_KEY] = chunk_ends[n_chunks - 2]
                else:
                    buffer[KEY_RESTART_KEY] = on.iloc[0]
            else:
                buffer[KEY_RESTART_KEY] = chunk_ends[n_chunks - 1]
    elif buffer is not None:
        buffer[KEY_RESTART_KEY] = chunk_ends[n_chunks - 1]
        buffer[KEY_LAST_ON_VALUE] = on.iloc[-1]
    return (next_chunk_starts, pSeries(chunk_labels), n_null_chunks, closed, chunk_ends, False)

def by_x_rows(on: Union[pDataFrame, pSeries], by: Optional[int]=4, closed: Optional[str]=LEFT, buffer: Optional[dict]=None) -> Tuple[ndarray, pSeries, int, str, pSeries, bool]:
    len_on = len(on)
    if isinstance(on, pDataFrame):
        on = on.iloc[:, -1]
    if buffer is not None and KEY_RESTART_KEY in buffer:
        rows_in_prev_last_bin = buffer[KEY_RESTART_KEY]
        rows_in_continued_bin = min(len_on, by - rows_in_prev_last_bin) if rows_in_prev_last_bin != by else 0
    else:
        rows_in_prev_last_bin = 0
        rows_in_continued_bin = 0
    n_rows_for_new_bins = len_on - rows_in_continued_bin
    n_bins = ceil(n_rows_for_new_bins / by) + 1 if rows_in_continued_bin else ceil(n_rows_for_new_bins / by)
    first_next_chunk_start = rows_in_continued_bin if rows_in_continued_bin else min(by, len_on)
    next_chunk_starts = arange(start=first_next_chunk_start, stop=(n_bins - 1) * by + first_next_chunk_start + 1, step=by)
    chunk_starts = next_chunk_starts.copy() - by
    chunk_starts[0] = 0
    bin_labels = on.iloc[chunk_starts].reset_index(drop=True)
    if n_rows_for_new_bins:
        n_rows_in_last_bin = n_rows_for_new_bins if n_rows_for_new_bins <= by else fmod(n_rows_for_new_bins, by) or by
    else:
        n_rows_in_last_bin = rows_in_continued_bin + rows_in_prev_last_bin
    if closed == LEFT:
        next_chunk_starts[-1] = len_on - 1
        bin_ends = on.iloc[next_chunk_starts].reset_index(drop=True)
        unknown_last_bin_end = True
    next_chunk_starts[-1] = len_on
    if closed == RIGHT:
        bin_ends = on.iloc[next_chunk_starts - 1].reset_index(drop=True)
        unknown_last_bin_end = True if n_rows_in_last_bin != by else False
    n_null_bins = 0
    if buffer is not None:
        if buffer:
            if rows_in_continued_bin:
                bin_labels.iloc[0] = buffer[KEY_LAST_BIN_LABEL]
            else:
                bin_labels = pconcat([pSeries([buffer[KEY_LAST_BIN_LABEL]]), bin_labels]).reset_index(drop=True)
                first_bin_end = buffer[KEY_LAST_BIN_END] if closed == RIGHT else on.iloc[0]
                bin_ends = pconcat([pSeries([first_bin_end]), bin_ends]).reset_index(drop=True)
                next_chunk_starts = ninsert(next_chunk_starts, 0, 0)
                n_null_bins = 1
        buffer[KEY_RESTART_KEY] = n_rows_in_last_bin
        buffer[KEY_LAST_BIN_LABEL] = bin_labels.iloc[-1]
        if closed == RIGHT:
            buffer[KEY_LAST_BIN_END] = bin_ends.iloc[-1]
    return (next_chunk_starts, bin_labels, n_null_bins, closed, bin_ends, unknown_last_bin_end)

def mergesort(labels: Tuple[ndarray, ndarray], keys: Tuple[ndarray, ndarray], force_last_from_second: Optional[bool]=False) -> Tuple[ndarray, ndarray]:
    labels1, labels2 = labels
    keys1, keys2 = keys
    len_labels1 = len(labels1)
    len_labels2 = len(labels2)
    if len(keys1) != len_labels1:
        raise ValueError('not possible to have arrays of different length for first labels and keys arrays.')
    if len(keys2) != len_labels2:
        raise ValueError('not possible to have arrays of different length for second labels and keys arrays.')
    if force_last_from_second:
        len_tot = len_labels1 + len_labels2
        sort_indices = full(len_tot, len_tot - 1, dtype=DTYPE_INT64)
        sort_indices[:-1] = argsort(concatenate((keys1, keys2[:-1])), kind='mergesort')
    else:
        sort_indices = argsort(concatenate(keys), kind='mergesort')
    return (concatenate(labels)[sort_indices], nonzero(len_labels1 <= sort_indices)[0])

def setup_segmentby(bin_by: Union[TimeGrouper, Callable], bin_on: Optional[str]=None, ordered_on: Optional[str]=None, snap_by: Optional[Union[TimeGrouper, pSeries]]=None) -> Dict[str, Union[Callable, str]]:
    bin_by_closed = None
    if isinstance(bin_by, TimeGrouper):
        bin_by_closed = bin_by.closed
        if bin_by.key:
            if bin_on:
                if bin_by.key != bin_on:
                    raise ValueError("not possible to set 'bin_by.key' and 'bin_on' to different values.")
            else:
                bin_on = bin_by.key
        elif not bin_on:
            raise ValueError("not possible to set both 'bin_by.key' and 'bin_on' to `None`.")
        if ordered_on and ordered_on != bin_on:
            raise ValueError("not possible to set 'bin_on' and 'ordered_on' to different values when 'bin_by' is a TimeGrouper.")
        elif not ordered_on:
            ordered_on = bin_on
        bin_by = partial(by_scale, by=bin_by)
    elif callable(bin_by):
        if bin_on is None and ordered_on is None:
            raise ValueError("not possible to set both 'bin_on' and 'ordered_on' to `None`.")
    else:
        raise ValueError("not possible to have 'bin_by' parameter different than a pandas TimeGrouper or a Callable.")
    if snap_by is not None:
        if isinstance(snap_by, TimeGrouper):
            if snap_by.key:
                if ordered_on is None:
                    ordered_on = snap_by.key
                elif snap_by.key != ordered_on:
                    raise ValueError("not possible to set 'ordered_on' and 'snap_by.key' to different values.")
            if bin_by_closed and snap_by.closed != bin_by_closed:
                raise ValueError("not possible to set 'bin_by.closed' and 'snap_by.closed' to different values.")
        elif not ordered_on:
            raise ValueError("not possible to leave 'ordered_on' to `None` in case of snapshotting.")
    return {KEY_BIN_BY: bin_by, KEY_ON_COLS: [bin_on, ordered_on] if ordered_on and bin_on and (ordered_on != bin_on) else bin_on if bin_on else ordered_on, KEY_ORDERED_ON: ordered_on, KEY_BIN_ON: bin_on, KEY_SNAP_BY: snap_by if isinstance(snap_by, TimeGrouper) else None}

def setup_mainbuffer(buffer: dict, with_snapshot: Optional[bool]=False) -> Tuple[dict, dict]:
    if buffer is not None:
        if KEY_BIN not in buffer:
            buffer[KEY_BIN] = {}
            if with_snapshot:
                buffer[KEY_SNAP] = {}
        if with_snapshot:
            return (buffer[KEY_BIN], buffer[KEY_SNAP])
        else:
            return (buffer[KEY_BIN], None)
    else:
        return (None, None)

def segmentby(data: pDataFrame, bin_by: Union[TimeGrouper, Callable, dict], bin_on: Optional[str]=None, ordered_on: Optional[str]=None, snap_by: Optional[Union[TimeGrouper, IntervalIndex]]=None, buffer: Optional[dict]=None) -> Tuple[ndarray, ndarray, pSeries, int, pSeries, int]:
    if not isinstance(bin_by, dict):
        bin_by = setup_segmentby(bin_by, bin_on, ordered_on, snap_by)
    if bin_by[KEY_SNAP_BY] is not None:
        snap_by = bin_by[KEY_SNAP_BY]
    buffer_bin, buffer_snap = setup_mainbuffer(buffer, snap_by is not None)
    ordered_on = bin_by[KEY_ORDERED_ON]
    if ordered_on:
        if not (data[ordered_on].dtype == DTYPE_DATETIME64 and (data[ordered_on].diff().iloc[1:] >= Timedelta(0)).all() or (data[ordered_on].dtype != DTYPE_DATETIME64 and (data[ordered_on].diff().iloc[1:] >= 0).all())):
            raise ValueError(f"column '{ordered_on}' is not ordered. It has to be for 'cumsegagg' to operate faultlessly.")
    on = data.loc[:, bin_by[KEY_ON_COLS]]
    next_chunk_starts, bin_labels, n_null_bins, bin_closed, bin_ends, unknown_last_bin_end = bin_by[KEY_BIN_BY](on=on, buffer=buffer_bin)
    if bin_closed != LEFT and bin_closed != RIGHT:
        raise ValueError(f"'bin_closed' has to be set either to '{LEFT}' or to '{RIGHT}'.")
    if not isinstance(bin_labels, pSeries):
        raise TypeError("'bin_labels' has to be a pandas Series.")
    n_bins = len(next_chunk_starts)
    if n_bins != len(bin_labels):
        raise ValueError("'next_chunk_starts' and 'chunk_labels' have to be of the same size.")
    if n_bins != len(bin_ends):
        raise ValueError("'next_chunk_starts' and 'chunk_ends' have to be of the same size.")
    if isinstance(buffer, dict) and next_chunk_starts[-1] != len(data):
        raise ValueError(f"series of bins have to cover the full length of 'data'. But last bin ends at row {next_chunk_starts[-1]} excluded, while size of data is {len(data)}.")
    if buffer is not None:
        if n_bins > 1 and next_chunk_starts[-2] == len(on):
            raise ValueError('there is at least one empty trailing bin. This is not possible if planning to restart on new data in a next iteration.')
        if KEY_LAST_BIN_LABEL in buffer and buffer[KEY_LAST_BIN_LABEL] != bin_labels.iloc[0]:
            raise ValueError(f"not possible to have label '{buffer[KEY_LAST_BIN_LABEL]}' of last bin at previous iteration different than label '{bin_labels.iloc[0]}' of first bin at current iteration.")
    if snap_by is not None:
        next_snap_starts, snap_labels, n_max_null_snaps, _, snap_ends, _ = by_scale(on=data.loc[:, ordered_on], by=snap_by, closed=bin_closed, buffer=buffer_snap)
        next_chunk_starts, bin_indices = mergesort(labels=(next_snap_starts, next_chunk_starts), keys=(snap_ends, bin_ends), force_last_from_second=unknown_last_bin_end)
        indices_of_bins_followed_by_a_snap = bin_indices[nonzero(ndiff(bin_indices, append=len(next_chunk_starts)) - 1)[0]]
        n_max_null_snaps += len(nonzero(next_chunk_starts[indices_of_bins_followed_by_a_snap] - next_chunk_starts[indices_of_bins_followed_by_a_snap + 1] == 0)[0])
    else:
        bin_indices = NULL_INT64_1D_ARRAY
        snap_labels = None
        n_max_null_snaps = 0
    if buffer is not None:
        buffer[KEY_LAST_BIN_LABEL] = bin_labels.iloc[-1]
    return (next_chunk_starts, bin_indices, bin_labels, n_null_bins, snap_labels, n_max_null_snaps)
