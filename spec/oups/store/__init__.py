from .collection import ParquetSet
from .indexer import is_toplevel
from .indexer import sublevel
from .indexer import toplevel
from .utils import conform_cmidx
