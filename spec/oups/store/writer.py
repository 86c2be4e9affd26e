from ast import literal_eval
from os import listdir as os_listdir
from os import path as os_path
from pickle import dumps
from pickle import loads
from typing import Dict, Hashable, List, Tuple, Union
from fastparquet import ParquetFile
from fastparquet import write as fp_write
from fastparquet.api import filter_row_groups
from fastparquet.api import statistics
from fastparquet.util import update_custom_metadata
from numpy import searchsorted as np_searchsorted
from numpy import unique as np_unique
from pandas import DataFrame as pDataFrame
from pandas import Index
from pandas import MultiIndex
from vaex import from_pandas
from vaex import open_many
from vaex.dataframe import DataFrame as vDataFrame
COMPRESSION = 'SNAPPY'
MAX_ROW_GROUP_SIZE = 6345000
KEY_MAX_ROW_GROUP_SIZE = 'max_row_group_size'
KEY_DUPLICATES_ON = 'duplicates_on'
OUPS_METADATA = {}
OUPS_METADATA_KEY = 'oups'

def iter_dataframe(data: Union[pDataFrame, vDataFrame], max_row_group_size: int=None, sharp_on: str=None, duplicates_on: Union[str, List[str]]=None):
    if max_row_group_size is None:
        max_row_group_size = MAX_ROW_GROUP_SIZE
    if isinstance(data, vDataFrame):
        data = data.extract()
    elif sharp_on or isinstance(duplicates_on, list):
        raise TypeError("vaex dataframe required when using 'sharp_on' and/or 'duplicates_on'.")
    if duplicates_on is not None:
        if not sharp_on:
            raise ValueError("duplicates are looked for row group per group. For this reason, it is compulsory to set 'sharp_on' while setting 'duplicates_on'.")
        elif isinstance(duplicates_on, list):
            if duplicates_on and sharp_on not in duplicates_on:
                duplicates_on = [*duplicates_on, sharp_on]
        elif duplicates_on != sharp_on:
            duplicates_on = [duplicates_on, sharp_on]
    n_rows = len(data)
    if n_rows:
        n_parts = (n_rows - 1) // max_row_group_size + 1
        row_group_size = min((n_rows - 1) // n_parts + 1, n_rows)
        starts = list(range(0, n_rows, row_group_size))
    else:
        starts = [0]
    if sharp_on:
        val_at_start = [data.evaluate(sharp_on, idx, idx + 1, array_type='numpy')[0] for idx in starts]
        starts = np_unique(np_searchsorted(data[sharp_on].to_numpy(), val_at_start)).tolist()
    ends = starts[1:] + [None]
    if isinstance(data, vDataFrame):
        if duplicates_on is not None:
            if duplicates_on == []:
                columns = data.get_column_names()
                duplicates_on = columns
            for start, end in zip(starts, ends):
                yield data[start:end].to_pandas_df().drop_duplicates(duplicates_on, keep='last')
        else:
            for start, end in zip(starts, ends):
                yield data[start:end].to_pandas_df()
    else:
        for start, end in zip(starts, ends):
            yield data.iloc[start:end]

def to_midx(idx: Index, levels: List[str]=None) -> MultiIndex:
    idx_temp = []
    max_levels = 0
    for val in idx:
        try:
            tup = literal_eval(val)
        except (ValueError, SyntaxError):
            tup = None
        if not isinstance(tup, tuple):
            tup = (val,)
        max_levels = max(len(tup), max_levels)
        idx_temp.append(tup)
    diff = 0
    if levels is None:
        levels = []
        len_lev = 0
        diff = max_levels
    elif (len_lev := len(levels)) < max_levels:
        diff = max_levels - len_lev
    if diff > 0:
        levels = [*levels, *(f'l{i}' for i in range(len_lev, max_levels))]
    tuples = [(*t, *[''] * n) if (n := (max_levels - len(t))) else t for t in idx_temp]
    return MultiIndex.from_tuples(tuples, names=levels)

def check_cmidx(cmidx: MultiIndex):
    if None in cmidx.names:
        raise ValueError('not possible to have level name set to None.')
    for level in cmidx.levels:
        for name in level:
            if not isinstance(name, str):
                raise TypeError(f"name {name} has to be of type 'string', not '{type(name)}'.")

def write_metadata(pf: ParquetFile, metadata: Dict[str, str]=None, md_key: Hashable=None):
    if OUPS_METADATA and md_key and (md_key in OUPS_METADATA):
        new_oups_spec_md = OUPS_METADATA[md_key]
        if OUPS_METADATA_KEY in (existing_metadata := pf.key_value_metadata):
            existing_oups_spec_md = loads(existing_metadata[OUPS_METADATA_KEY])
            for key, value in new_oups_spec_md.items():
                if key in existing_oups_spec_md:
                    if value is None:
                        del existing_oups_spec_md[key]
                    else:
                        existing_oups_spec_md[key] = value
                elif value is not None:
                    existing_oups_spec_md[key] = value
        else:
            existing_oups_spec_md = {key: value for key, value in new_oups_spec_md.items() if value is not None}
        del OUPS_METADATA[md_key]
        metadata = (metadata or {}) | {OUPS_METADATA_KEY: dumps(existing_oups_spec_md)}
    if metadata:
        update_custom_metadata(pf, metadata)
    pf._write_common_metadata()

def write(dirpath: str, data: Union[pDataFrame, vDataFrame], max_row_group_size: int=None, compression: str=COMPRESSION, cmidx_expand: bool=False, cmidx_levels: List[str]=None, ordered_on: Union[str, Tuple[str]]=None, duplicates_on: Union[str, List[str], List[Tuple[str]]]=None, max_nirgs: int=None, metadata: Dict[str, str]=None, md_key: Hashable=None):
    if ordered_on is not None:
        if isinstance(ordered_on, tuple):
            raise TypeError(f'tuple for {ordered_on} not yet supported.')
        if isinstance(data, pDataFrame):
            all_cols = data.columns
        else:
            all_cols = data.get_column_names()
        if ordered_on not in all_cols:
            raise ValueError(f"column '{ordered_on}' does not exist in input data.")
    if os_path.isdir(dirpath) and any((file.endswith('.parquet') for file in os_listdir(dirpath))):
        rrg_start_idx, rrg_end_idx = (None, None)
        insert = False
        pf = ParquetFile(dirpath)
        n_rrgs = len(pf.row_groups)
        if duplicates_on is not None:
            if not ordered_on:
                raise ValueError("duplicates are looked for over the overlap between new data and existing data. This overlap being identified thanks to 'ordered_on', it is compulsory to set 'ordered_on' while setting 'duplicates_on'.")
            elif isinstance(duplicates_on, list):
                if duplicates_on and ordered_on not in duplicates_on:
                    duplicates_on = [*duplicates_on, ordered_on]
            elif duplicates_on != ordered_on:
                duplicates_on = [duplicates_on, ordered_on]
        if ordered_on is not None and len(data):
            if isinstance(data, pDataFrame):
                start = data[ordered_on].iloc[0]
                end = data[ordered_on].iloc[-1]
            else:
                start = data[ordered_on][:0].to_numpy()[0]
                end = data[ordered_on][-1:].to_numpy()[0]
            rrgs_idx = filter_row_groups(pf, [[(ordered_on, '>=', start), (ordered_on, '<=', end)]], as_idx=True)
            if rrgs_idx:
                if len(rrgs_idx) == 1:
                    rrg_start_idx = rrgs_idx[0]
                else:
                    rrg_start_idx = rrgs_idx[0]
                    rrg_end_idx = rrgs_idx[-1] + 1
                    if rrg_end_idx == n_rrgs:
                        rrg_end_idx = None
            else:
                insert = bool(filter_row_groups(pf, [[(ordered_on, '>', end)]], as_idx=True))
        if max_nirgs is not None and (not insert):
            if max_row_group_size is None:
                max_row_group_size = MAX_ROW_GROUP_SIZE
            total_rows_in_irgs = len(data)
            rrg_start_idx_tmp = n_rrgs - 1
            min_row_group_size = int(max_row_group_size * 0.9)
            while pf[rrg_start_idx_tmp].count() <= min_row_group_size and rrg_start_idx_tmp >= 0:
                total_rows_in_irgs += pf[rrg_start_idx_tmp].count()
                rrg_start_idx_tmp -= 1
            rrg_start_idx_tmp += 1
            n_irgs = n_rrgs - rrg_start_idx_tmp
            if total_rows_in_irgs >= max_row_group_size or n_irgs >= max_nirgs:
                if rrg_start_idx is not None and (not rrg_end_idx or (rrg_end_idx and rrg_start_idx_tmp < rrg_end_idx)):
                    rrg_start_idx = min(rrg_start_idx_tmp, rrg_start_idx)
                elif n_irgs and (not rrg_end_idx):
                    rrg_start_idx = rrg_start_idx_tmp
        if rrg_start_idx is None:
            if len(data):
                iter_data = iter_dataframe(data, max_row_group_size)
                pf.write_row_groups(data=iter_data, row_group_offsets=None, sort_pnames=False, compression=compression, write_fmd=False)
        else:
            overlapping_rgs = pf[rrg_start_idx:rrg_end_idx].row_groups
            files = [pf.row_group_filename(rg) for rg in overlapping_rgs]
            recorded = open_many(files)
            if isinstance(data, pDataFrame):
                data = from_pandas(data)
            data = recorded.concat(data)
            if ordered_on:
                data = data.sort(by=ordered_on)
            iter_data = iter_dataframe(data, max_row_group_size=max_row_group_size, sharp_on=ordered_on, duplicates_on=duplicates_on)
            pf.write_row_groups(data=iter_data, row_group_offsets=None, sort_pnames=False, compression=compression, write_fmd=False)
            pf.remove_row_groups(overlapping_rgs, write_fmd=False)
        if insert or rrg_end_idx is not None:
            ordered_on_idx = pf.columns.index(ordered_on)
            pf.fmd.row_groups = sorted(pf.fmd.row_groups, key=lambda rg: statistics(rg.columns[ordered_on_idx])['max'])
        if insert or rrg_start_idx is not None:
            pf._sort_part_names(write_fmd=False)
    else:
        iter_data = iter_dataframe(data, max_row_group_size)
        chunk = next(iter_data)
        if cmidx_expand:
            chunk.columns = to_midx(chunk.columns, cmidx_levels)
        if isinstance(chunk.columns, MultiIndex):
            check_cmidx(chunk.columns)
        fp_write(dirpath, chunk, row_group_offsets=max_row_group_size, compression=compression, file_scheme='hive', write_index=False, append=False)
        pf = ParquetFile(dirpath)
        pf.write_row_groups(data=iter_data, row_group_offsets=None, sort_pnames=False, compression=compression, write_fmd=False)
    write_metadata(pf=pf, metadata=metadata, md_key=md_key)
