from dataclasses import dataclass
from os import listdir
from os import path as os_path
from os import rmdir
from shutil import rmtree
from threading import Lock
from typing import Tuple, Type, Union
from pandas import DataFrame as pDataFrame
from sortedcontainers import SortedSet
from vaex.dataframe import DataFrame as vDataFrame
from oups.store.defines import DIR_SEP
from oups.store.indexer import is_toplevel
from oups.store.router import ParquetHandle
from oups.store.utils import files_at_depth
from oups.store.utils import strip_path_tail
from oups.store.writer import write
_KEYS_LOCK = Lock()

def is_parquet_file(file: str) -> bool:
    return file.endswith('.parquet') or file.endswith('.parq') or file == '_metadata' or (file == '_common_metadata')

def get_keys(basepath: str, indexer: Type[dataclass]) -> SortedSet:
    depth = indexer.depth
    paths_files = files_at_depth(basepath, depth)
    keys = SortedSet([key for path, files in paths_files if any((is_parquet_file(file) for file in files)) and (key := indexer.from_path(DIR_SEP.join(path.rsplit(DIR_SEP, depth)[1:]))) and (key.to_path == DIR_SEP.join(path.rsplit(DIR_SEP, depth)[1:]))])
    return keys

class ParquetSet:

    def __init__(self, basepath: str, indexer: Type[dataclass]):
        if not is_toplevel(indexer):
            raise TypeError(f"{indexer.__name__} has to be '@toplevel' decorated.")
        self._basepath = basepath
        self._indexer = indexer
        self._keys = get_keys(basepath, indexer)

    @property
    def basepath(self):
        return self._basepath

    @property
    def indexer(self):
        return self._indexer

    @property
    def keys(self):
        return self._keys

    def __len__(self):
        return len(self._keys)

    def __repr__(self):
        return '\n'.join(map(str, self._keys))

    def __contains__(self, key):
        return key in self._keys

    def __iter__(self):
        yield from self._keys

    def set(self, key: dataclass, data: Union[pDataFrame, vDataFrame], **kwargs):
        if not isinstance(key, self._indexer):
            raise TypeError(f'{key} is not an instance of {self._indexer.__name__}.')
        if not isinstance(data, (pDataFrame, vDataFrame)):
            raise TypeError('data should be a pandas or vaex dataframe.')
        dirpath = os_path.join(self._basepath, key.to_path)
        write(dirpath=dirpath, data=data, md_key=key, **kwargs)
        if key not in self:
            with _KEYS_LOCK:
                self._keys.add(key)
        return

    def __setitem__(self, key: dataclass, data: Union[Tuple[dict, Union[pDataFrame, vDataFrame]], Union[pDataFrame, vDataFrame]]):
        if isinstance(data, tuple):
            kwargs, data = data
            if not isinstance(kwargs, dict):
                raise TypeError(f"first item {kwargs} should be a dict to define parameter setting for 'writer.write'.")
            self.set(key, data, **kwargs)
        else:
            self.set(key, data)

    def get(self, key: dataclass):
        dirpath = os_path.join(self._basepath, key.to_path)
        return ParquetHandle(dirpath)

    def __getitem__(self, key: dataclass):
        return self.get(key)

    def __delitem__(self, key: dataclass):
        if key in self._keys:
            basepath = strip_path_tail(os_path.join(self._basepath, '_'))
            dirpath = os_path.join(self._basepath, key.to_path)
            rmtree(dirpath)
            self._keys.remove(key)
            upper_dir = strip_path_tail(dirpath)
            while upper_dir != basepath and (not listdir(upper_dir)):
                rmdir(upper_dir)
                upper_dir = strip_path_tail(upper_dir)
