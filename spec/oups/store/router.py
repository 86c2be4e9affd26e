from functools import cached_property
from os import scandir
from cloudpickle import loads
from fastparquet import ParquetFile
from vaex import open_many
from oups.store.defines import DIR_SEP
from oups.store.writer import OUPS_METADATA_KEY

class ParquetHandle:

    def __init__(self, dirpath: str):
        self._dirpath = dirpath

    @property
    def dirpath(self):
        return self._dirpath

    @cached_property
    def pf(self):
        return ParquetFile(self._dirpath)

    @property
    def pdf(self):
        return ParquetFile(self._dirpath).to_pandas()

    @property
    def vdf(self):
        files = [file.name for file in scandir(self._dirpath) if file.name[-7:] == 'parquet']
        files.sort(key=lambda x: int(x[5:-8]))
        prefix_dirpath = f'{str(self._dirpath)}{DIR_SEP}'.__add__
        return open_many(map(prefix_dirpath, files))

    def min_max(self, col: str) -> tuple:
        pf_stats = ParquetFile(self._dirpath).statistics
        return (min(pf_stats['min'][col]), max(pf_stats['max'][col]))

    @property
    def metadata(self) -> dict:
        return self.pf.key_value_metadata

    @property
    def _oups_metadata(self) -> dict:
        md = self.pf.key_value_metadata
        if OUPS_METADATA_KEY in md:
            return loads(md[OUPS_METADATA_KEY])
