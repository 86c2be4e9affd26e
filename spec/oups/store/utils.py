from os import scandir
from typing import Iterator, List, Tuple
from pandas import DataFrame
from oups.store.defines import DIR_SEP

def files_at_depth(basepath: str, depth: int=2) -> Iterator[Tuple[str, List[str]]]:
    if depth == 0:
        files = [entry.path.rsplit(DIR_SEP, 1)[1] for entry in scandir(basepath) if not entry.is_dir(follow_symlinks=False)]
        if files:
            yield (basepath, files)
    if depth > 0:
        try:
            dirs = [entry.path for entry in scandir(basepath) if entry.is_dir(follow_symlinks=False)]
        except FileNotFoundError:
            return
        depth -= 1
        for path in dirs:
            yield from files_at_depth(path, depth)

def strip_path_tail(dirpath: str) -> str:
    if DIR_SEP in dirpath:
        return dirpath.rsplit('/', 1)[0]

def conform_cmidx(df: DataFrame):
    cmidx = df.columns
    if None in cmidx.names:
        level_updated_idx = [i for i, name in enumerate(cmidx.names) if name is None]
        cmidx.set_names([''] * len(level_updated_idx), level=level_updated_idx, inplace=True)
    level_updated_idx = []
    level_updated = []
    for i, level in enumerate(cmidx.levels):
        str_level = [name if isinstance(name, str) else str(name) for name in level]
        if level.to_list() != str_level:
            level_updated_idx.append(i)
            level_updated.append(str_level)
    if level_updated:
        df.columns = df.columns.set_levels(level_updated, level=level_updated_idx)
