from collections import ChainMap
from collections import namedtuple
from dataclasses import dataclass
from enum import Enum
from itertools import chain
from multiprocessing import cpu_count
from typing import Callable, Iterable, List, Optional, Tuple, Union
from joblib import Parallel
from joblib import delayed
from numpy import ones
from pandas import DataFrame
from pandas import DatetimeIndex
from pandas import Series
from pandas import Timestamp as pTimestamp
from pandas import concat as pconcat
from pandas.core.resample import TimeGrouper
from oups.aggstream.cumsegagg import cumsegagg
from oups.aggstream.cumsegagg import setup_cumsegagg
from oups.aggstream.jcumsegagg import FIRST
from oups.aggstream.jcumsegagg import LAST
from oups.aggstream.jcumsegagg import MAX
from oups.aggstream.jcumsegagg import MIN
from oups.aggstream.jcumsegagg import SUM
from oups.aggstream.segmentby import KEY_BIN_BY
from oups.aggstream.segmentby import KEY_BIN_ON
from oups.aggstream.segmentby import KEY_ORDERED_ON
from oups.aggstream.segmentby import KEY_SNAP_BY
from oups.aggstream.segmentby import setup_segmentby
from oups.aggstream.utils import dataframe_filter
from oups.store import ParquetSet
from oups.store.router import ParquetHandle
from oups.store.writer import KEY_DUPLICATES_ON
from oups.store.writer import KEY_MAX_ROW_GROUP_SIZE
from oups.store.writer import OUPS_METADATA
from oups.store.writer import OUPS_METADATA_KEY
from oups.store.writer import write
from oups.store.writer import write_metadata
ACCEPTED_AGG_FUNC = {FIRST, LAST, MIN, MAX, SUM}
KEY_AGGSTREAM = 'aggstream'
KEY_PRE = 'pre'
KEY_PRE_BUFFER = 'pre_buffer'
KEY_SEGAGG_BUFFER = 'segagg_buffer'
KEY_POST_BUFFER = 'post_buffer'
KEY_BIN_ON_OUT = 'bin_on_out'
KEY_BIN_RES_BUFFER = 'bin_res_buffer'
KEY_SNAP_RES_BUFFER = 'snap_res_buffer'
KEY_FILTERS = 'filters'
KEY_RESTART_INDEX = 'restart_index'
KEY_BIN_RES = 'bin_res'
KEY_SNAP_RES = 'snap_res'
KEY_WRITE_CONFIG = 'write_config'
KEY_AGG_IN_MEMORY_SIZE = 'agg_in_memory_size'
KEY_MAX_IN_MEMORY_SIZE_B = 'max_in_memory_size_b'
KEY_MAX_IN_MEMORY_SIZE_MB = 'max_in_memory_size'
KEY_AGG_RES_TYPE = 'agg_res_type'
KEY_SEG_CONFIG = 'seg_config'
NO_FILTER_ID = '_'
KEY_AGG = 'agg'
KEY_POST = 'post'
WRITE_PARAMS = set(write.__code__.co_varnames[:write.__code__.co_argcount])
KEY_CONF_IN_PARAMS = {KEY_BIN_ON, KEY_SNAP_BY, KEY_AGG, KEY_POST, KEY_MAX_IN_MEMORY_SIZE_B} | WRITE_PARAMS
KEY_MAX_P_JOBS = max(int(cpu_count() * 3 / 4), 1)
MEGABYTES_TO_BYTES = 1048576
MAX_IN_MEMORY_SIZE_MB = 140
MAX_IN_MEMORY_SIZE_B = MAX_IN_MEMORY_SIZE_MB * MEGABYTES_TO_BYTES
FilterApp = namedtuple('FilterApp', 'keys n_jobs')
AggResType = Enum('AggResType', ['BINS', 'SNAPS', 'BOTH'])

def _is_aggstream_result(handle: ParquetHandle) -> bool:
    if OUPS_METADATA_KEY in handle.metadata:
        return KEY_AGGSTREAM in handle._oups_metadata

def _init_keys_config(seed_ordered_on: str, keys_config: dict, keys_default: dict):
    consolidated_keys_config = {}
    agg_pd = {}
    for key, key_conf_in in keys_config.items():
        key_conf_in = dict(key_conf_in)
        try:
            bin_by = key_conf_in.pop(KEY_BIN_BY)
        except KeyError:
            raise ValueError(f"'{KEY_BIN_BY}' parameter is missing for key '{key}'.")
        if KEY_MAX_IN_MEMORY_SIZE_MB in key_conf_in:
            key_conf_in[KEY_MAX_IN_MEMORY_SIZE_B] = int(key_conf_in.pop(KEY_MAX_IN_MEMORY_SIZE_MB) * MEGABYTES_TO_BYTES)
        key_conf_in = keys_default | key_conf_in
        for param in key_conf_in:
            if param not in KEY_CONF_IN_PARAMS:
                raise ValueError(f"'{param}' not a valid parameters in '{key}' aggregation config.")
        bin_on = key_conf_in.pop(KEY_BIN_ON, None)
        if isinstance(bin_on, tuple):
            bin_on, bin_on_out = bin_on
        else:
            bin_on_out = None
        try:
            seg_config = setup_segmentby(bin_by=bin_by, bin_on=bin_on, ordered_on=seed_ordered_on, snap_by=key_conf_in.pop(KEY_SNAP_BY))
        except Exception:
            raise ValueError(f"exception raised for key '{key}'")
        if (bin_on := seg_config[KEY_BIN_ON]):
            if bin_on_out is None:
                bin_on_out = bin_on
        agg_pd[key] = key_conf_in.pop(KEY_AGG)
        if bin_on_out in agg_pd[key]:
            raise ValueError(f'not possible to have {bin_on_out} as column name in aggregated results as it is also for column containing group keys.')
        if KEY_DUPLICATES_ON not in key_conf_in or key_conf_in[KEY_DUPLICATES_ON] is None:
            key_conf_in[KEY_DUPLICATES_ON] = bin_on_out if bin_on_out else key_conf_in[KEY_ORDERED_ON]
        if seg_config[KEY_SNAP_BY] is None:
            agg_res_type = AggResType.BINS
        elif isinstance(key, tuple):
            agg_res_type = AggResType.BOTH
        else:
            agg_res_type = AggResType.SNAPS
        if agg_res_type is AggResType.BOTH:
            if KEY_MAX_ROW_GROUP_SIZE in key_conf_in:
                if not isinstance(key_conf_in[KEY_MAX_ROW_GROUP_SIZE], tuple):
                    key_conf_in[KEY_MAX_ROW_GROUP_SIZE] = (key_conf_in[KEY_MAX_ROW_GROUP_SIZE], key_conf_in[KEY_MAX_ROW_GROUP_SIZE])
            else:
                key_conf_in[KEY_MAX_ROW_GROUP_SIZE] = (None, None)
        consolidated_keys_config[key] = {KEY_SEG_CONFIG: seg_config, KEY_BIN_ON_OUT: bin_on_out, KEY_MAX_IN_MEMORY_SIZE_B: key_conf_in.pop(KEY_MAX_IN_MEMORY_SIZE_B), KEY_POST: key_conf_in.pop(KEY_POST), KEY_WRITE_CONFIG: key_conf_in, KEY_AGG_RES_TYPE: agg_res_type}
    return (consolidated_keys_config, agg_pd)

def _init_buffers(store: ParquetSet, keys: dict):
    pre_buffer = {}
    agg_buffers = {}
    seed_index_restart_set = set()
    for key in keys:
        agg_buffers[key] = _reset_agg_buffers()
        main_key = key[0] if isinstance(key, tuple) else key
        if main_key in store:
            prev_agg_res = store[main_key]
            if not _is_aggstream_result(prev_agg_res):
                raise ValueError(f"provided '{main_key}' data is not an AggStream result.")
            aggstream_md = prev_agg_res._oups_metadata[KEY_AGGSTREAM]
            seed_index_restart_set.add(aggstream_md[KEY_RESTART_INDEX])
            if KEY_PRE_BUFFER in aggstream_md:
                pre_buffer = aggstream_md[KEY_PRE_BUFFER]
            agg_buffers[key][KEY_SEGAGG_BUFFER] = aggstream_md[KEY_SEGAGG_BUFFER] if aggstream_md[KEY_SEGAGG_BUFFER] else {}
            agg_buffers[key][KEY_POST_BUFFER] = aggstream_md[KEY_POST_BUFFER] if aggstream_md[KEY_POST_BUFFER] else {}
        else:
            agg_buffers[key][KEY_SEGAGG_BUFFER] = {}
            agg_buffers[key][KEY_POST_BUFFER] = {}
    if len(seed_index_restart_set) > 1:
        raise ValueError('not possible to aggregate on multiple keys with existing aggregation results not aggregated up to the same seed index.')
    return (None if not seed_index_restart_set else seed_index_restart_set.pop(), pre_buffer, agg_buffers)

def _reset_agg_buffers(agg_buffers: Optional[dict]=None) -> Optional[dict]:
    init_values = {KEY_AGG_IN_MEMORY_SIZE: 0, KEY_BIN_RES: None, KEY_SNAP_RES: None, KEY_BIN_RES_BUFFER: [], KEY_SNAP_RES_BUFFER: []}
    if agg_buffers is None:
        return init_values
    else:
        agg_buffers |= init_values

class SeedPreException(Exception):

    def __init__(self, message: str=None):
        if message is None:
            self.message = 'failing user-defined checks.'
        else:
            self.message = message

def _iter_data(seed: Iterable[DataFrame], ordered_on: str, restart_index: Union[int, float, pTimestamp, None], pre: Union[Callable, None], pre_buffer: dict, filters: Union[dict, None], trim_start: bool, discard_last: bool):
    if restart_index is None:
        trim_start = False
    seed_remainder = None
    for seed_chunk in seed:
        if not seed_chunk[ordered_on].is_monotonic_increasing:
            raise SeedPreException('seed data is not in ascending order.')
        if pre:
            try:
                pre(on=seed_chunk, buffer=pre_buffer)
            except Exception as e:
                raise SeedPreException(str(e))
        if not (seed_remainder is None or seed_remainder.empty):
            seed_chunk = pconcat([seed_remainder, seed_chunk], ignore_index=True)
        if trim_start:
            if seed_chunk.loc[:, ordered_on].iloc[-1] < restart_index:
                continue
            else:
                filter_array = seed_chunk[ordered_on] >= restart_index
                trim_start = False
        else:
            filter_array = ones(len(seed_chunk), dtype=bool)
        last_seed_index = seed_chunk.loc[:, ordered_on].iloc[-1]
        if discard_last:
            filter_main_chunk = seed_chunk.loc[:, ordered_on] < last_seed_index
            seed_remainder = seed_chunk.loc[~filter_main_chunk]
            filter_array &= filter_main_chunk
        for filt_id, filters_ in filters.items():
            filter_array_loc = dataframe_filter(seed_chunk, filters_) & filter_array if filt_id != NO_FILTER_ID else filter_array.copy()
            if not filter_array_loc.any():
                continue
            elif filter_array_loc.all():
                yield (last_seed_index, pre_buffer, filt_id, seed_chunk)
            else:
                yield (last_seed_index, pre_buffer, filt_id, seed_chunk.loc[filter_array_loc].reset_index(drop=True))

def _concat_agg_res(agg_res_buffers: List[DataFrame], agg_res: DataFrame, append_last_res: bool, index_name: str):
    agg_res_list = [*agg_res_buffers, agg_res] if append_last_res else agg_res_buffers
    agg_res = pconcat(agg_res_list) if len(agg_res_list) > 1 else agg_res_list[0].copy(deep=False)
    if index_name:
        agg_res.index.name = index_name
    agg_res.reset_index(inplace=True)
    return agg_res

def _post_n_write_agg_chunks(agg_buffers: dict, agg_res_type: Enum, append_last_res: bool, store: ParquetSet, key: Union[dataclass, Tuple[dataclass, dataclass]], write_config: dict, index_name: Optional[str]=None, post: Optional[Callable]=None, last_seed_index: Optional[Union[int, float, pTimestamp]]=None, pre_buffer: Optional[dict]=None):
    post_buffer = agg_buffers[KEY_POST_BUFFER]
    if isinstance((bin_res := agg_buffers[KEY_BIN_RES]), DataFrame):
        initial_agg_res = True
        bin_res = _concat_agg_res(agg_buffers[KEY_BIN_RES_BUFFER], bin_res, append_last_res, index_name)
        if isinstance((snap_res := agg_buffers[KEY_SNAP_RES]), DataFrame):
            snap_res = _concat_agg_res(agg_buffers[KEY_SNAP_RES_BUFFER], snap_res, append_last_res, index_name)
        if post:
            main_res = post(buffer=post_buffer, bin_res=bin_res) if agg_res_type is AggResType.BINS else post(buffer=post_buffer, bin_res=bin_res, snap_res=snap_res)
            if agg_res_type is AggResType.BOTH:
                try:
                    main_res, snap_res = main_res
                except ValueError:
                    raise ValueError(f"not possible to have key '{key[0]}' for bins and key '{key[1]}' for snapshots but 'post()' function only returning one result.")
        elif agg_res_type is not AggResType.SNAPS:
            main_res = bin_res
        else:
            main_res = snap_res
    else:
        initial_agg_res = False
        main_res = None
    main_key, snap_key = key if isinstance(key, tuple) else (key, None)
    if last_seed_index is not None:
        OUPS_METADATA[main_key] = {KEY_AGGSTREAM: {KEY_RESTART_INDEX: last_seed_index, KEY_PRE_BUFFER: pre_buffer, KEY_SEGAGG_BUFFER: agg_buffers[KEY_SEGAGG_BUFFER], KEY_POST_BUFFER: post_buffer}}
    if isinstance(main_res, DataFrame):
        if agg_res_type is AggResType.BOTH:
            store[main_key] = (write_config | {KEY_MAX_ROW_GROUP_SIZE: write_config[KEY_MAX_ROW_GROUP_SIZE][0]}, main_res)
            store[snap_key] = (write_config | {KEY_MAX_ROW_GROUP_SIZE: write_config[KEY_MAX_ROW_GROUP_SIZE][1]}, snap_res)
        else:
            store[main_key] = (write_config, main_res)
    elif last_seed_index is not None:
        try:
            write_metadata(pf=store[main_key].pf, md_key=main_key)
        except FileNotFoundError:
            store[main_key] = DataFrame()
    if initial_agg_res:
        _reset_agg_buffers(agg_buffers)
    return

def agg_iter(seed_chunk: DataFrame, store: ParquetSet, key: dataclass, keys_config: dict, agg_config: dict, agg_buffers: dict):
    if not ((bin_res := agg_buffers[KEY_BIN_RES]) is None or bin_res.empty):
        bin_res_buffer = agg_buffers[KEY_BIN_RES_BUFFER]
        bin_res_buffer.append(bin_res.iloc[:-1])
        agg_in_memory_size = agg_buffers[KEY_AGG_IN_MEMORY_SIZE]
        if (snap_res := agg_buffers[KEY_SNAP_RES]) is None:
            agg_buffers[KEY_AGG_IN_MEMORY_SIZE] += bin_res.memory_usage().sum()
        else:
            agg_buffers[KEY_SNAP_RES_BUFFER].append(snap_res.iloc[:-1])
            agg_buffers[KEY_AGG_IN_MEMORY_SIZE] += bin_res.memory_usage().sum() + snap_res.memory_usage().sum()
        agg_mean_in_memory_group_size = agg_in_memory_size // len(bin_res_buffer)
        if agg_in_memory_size + agg_mean_in_memory_group_size > keys_config[KEY_MAX_IN_MEMORY_SIZE_B]:
            _post_n_write_agg_chunks(agg_buffers=agg_buffers, agg_res_type=keys_config[KEY_AGG_RES_TYPE], append_last_res=False, store=store, key=key, write_config=keys_config[KEY_WRITE_CONFIG], index_name=keys_config[KEY_BIN_ON_OUT], post=keys_config[KEY_POST])
    agg_res = cumsegagg(data=seed_chunk, agg=agg_config, bin_by=keys_config[KEY_SEG_CONFIG], buffer=agg_buffers[KEY_SEGAGG_BUFFER])
    agg_buffers[KEY_BIN_RES], agg_buffers[KEY_SNAP_RES] = agg_res if isinstance(agg_res, tuple) else (agg_res, None)
    return (key, agg_buffers)

class AggStream:

    def __init__(self, ordered_on: str, store: ParquetSet, keys: Union[dataclass, Tuple[dataclass, dataclass], dict], pre: Optional[Callable]=None, filters: Optional[dict]=None, agg: Optional[dict]=None, bin_by: Optional[Union[TimeGrouper, Callable[[Series, dict], tuple]]]=None, bin_on: Optional[Union[str, Tuple[str, str]]]=None, snap_by: Optional[Union[TimeGrouper, Series, DatetimeIndex]]=None, post: Optional[Callable]=None, max_in_memory_size: Optional[int]=MAX_IN_MEMORY_SIZE_MB, parallel: Optional[bool]=False, **kwargs):
        for param in kwargs:
            if param not in WRITE_PARAMS:
                raise ValueError(f"'{param}' is neither a valid parameter for `AggStream` initialization, nor for `oups.write` function.")
        if filters is not None:
            filters = {filt_id: [filters_] if filters_ and isinstance(filters_[0], tuple) else filters_ for filt_id, filters_ in filters.items()}
        keys_default = {KEY_SNAP_BY: snap_by, KEY_AGG: agg, KEY_POST: post, KEY_ORDERED_ON: ordered_on, KEY_MAX_IN_MEMORY_SIZE_B: int(max_in_memory_size * MEGABYTES_TO_BYTES)} | kwargs
        if not isinstance(keys, dict):
            keys = {keys: keys_default | {KEY_BIN_BY: bin_by, KEY_BIN_ON: bin_on}}
        if isinstance(next(iter(keys)), str):
            if filters is None:
                raise ValueError('not possible to use filter syntax for `keys` parameter without providing `filters` parameter as well.')
            else:
                if NO_FILTER_ID in filters:
                    if filters[NO_FILTER_ID] is not None:
                        raise ValueError(f"not possible to use '{NO_FILTER_ID}' as key in `filters` parameter with a value different than `None`.")
                elif NO_FILTER_ID in keys:
                    filters[NO_FILTER_ID] = None
                filt_filt_ids = set(filters)
                filt_filt_ids.discard(NO_FILTER_ID)
                keys_filt_ids = set(keys)
                keys_filt_ids.discard(NO_FILTER_ID)
                if filt_filt_ids != keys_filt_ids:
                    raise ValueError(f'not possible to have different lists of filter ids between `keys` and `filters` parameters.\n List of filter ids in `keys` parameter is {keys_filt_ids}.\n List of filter ids in `filters` parameter is {filt_filt_ids}.')
        else:
            keys = {NO_FILTER_ID: keys}
            filters = {NO_FILTER_ID: None}
        _filter_apps = {}
        _all_keys = []
        _p_jobs = {KEY_MAX_P_JOBS: Parallel(n_jobs=KEY_MAX_P_JOBS, prefer='threads')}
        for filt_id in keys:
            n_keys = len(keys[filt_id])
            n_jobs = min(KEY_MAX_P_JOBS, n_keys) if parallel else 1
            _filter_apps[filt_id] = FilterApp(list(keys[filt_id]), n_jobs)
            if n_jobs not in _p_jobs:
                _p_jobs[n_jobs] = Parallel(n_jobs=n_jobs, prefer='threads')
            _all_keys.extend(keys[filt_id])
        seen = set()
        dupes = [key for key in _all_keys if key in seen or seen.add(key)]
        if dupes:
            raise ValueError(f'not possible to have key(s) {dupes} used for different filter ids.')
        self.p_jobs = _p_jobs
        self.filter_apps = _filter_apps
        keys = ChainMap(*keys.values())
        self.keys_config, self.agg_pd = _init_keys_config(ordered_on, keys, keys_default)
        restart_index, pre_buffer, self.agg_buffers = _init_buffers(store, keys)
        self.seed_config = {KEY_ORDERED_ON: ordered_on, KEY_PRE: pre, KEY_PRE_BUFFER: pre_buffer, KEY_FILTERS: filters, KEY_RESTART_INDEX: restart_index}
        self.agg_cs = {}
        self.store = store

    def _init_agg_cs(self, seed: Iterable[DataFrame]):
        remainder = iter(seed)
        try:
            first = next(remainder)
        except StopIteration:
            return []
        seed = chain([first], remainder)
        seed_dtypes = first.dtypes.to_dict()
        for key in self.keys_config:
            try:
                self.agg_cs[key] = setup_cumsegagg(self.agg_pd[key], seed_dtypes)
            except Exception:
                raise ValueError(f"exception raised for key '{key}'")
        return seed

    def agg(self, seed: Union[DataFrame, Iterable[DataFrame]]=None, trim_start: Optional[bool]=False, discard_last: Optional[bool]=False, final_write: Optional[bool]=True):
        if isinstance(seed, DataFrame):
            seed = [seed]
        if seed:
            if not self.agg_cs:
                seed = self._init_agg_cs(seed)
            seed_check_exception = False
            try:
                for _last_seed_index, _pre_buffer, filter_id, filtered_chunk in _iter_data(seed=seed, **self.seed_config, trim_start=trim_start, discard_last=discard_last):
                    agg_loop_res = self.p_jobs[self.filter_apps[filter_id].n_jobs]((delayed(agg_iter)(seed_chunk=filtered_chunk, store=self.store, key=key, keys_config=self.keys_config[key], agg_config=self.agg_cs[key], agg_buffers=self.agg_buffers[key]) for key in self.filter_apps[filter_id].keys))
                    for key, agg_res in agg_loop_res:
                        self.agg_buffers[key].update(agg_res)
                    self.seed_config[KEY_RESTART_INDEX] = _last_seed_index
                    self.seed_config[KEY_PRE_BUFFER] = _pre_buffer
            except SeedPreException as sce:
                seed_check_exception = True
                exception_message = str(sce)
        if final_write:
            self.p_jobs[KEY_MAX_P_JOBS]((delayed(_post_n_write_agg_chunks)(store=self.store, key=key, agg_buffers=agg_res, agg_res_type=self.keys_config[key][KEY_AGG_RES_TYPE], append_last_res=True, write_config=self.keys_config[key][KEY_WRITE_CONFIG], index_name=self.keys_config[key][KEY_BIN_ON_OUT], post=self.keys_config[key][KEY_POST], last_seed_index=self.seed_config[KEY_RESTART_INDEX], pre_buffer=self.seed_config[KEY_PRE_BUFFER]) for key, agg_res in self.agg_buffers.items()))
        if seed and seed_check_exception:
            raise SeedPreException(exception_message)
