from .aggstream import AggStream
from .segmentby import by_x_rows
