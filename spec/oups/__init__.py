from .aggstream import AggStream
from .aggstream import by_x_rows
from .store import ParquetSet
from .store import conform_cmidx
from .store import is_toplevel
from .store import sublevel
from .store import toplevel
