import operator
from numpy import ndarray
from numpy import ones
from numpy import zeros
from pandas import DataFrame
ops = {'==': operator.eq, '=': operator.eq, '!=': operator.ne, '>': operator.gt, '>=': operator.ge, '<': operator.lt, '<=': operator.le}

def dataframe_filter(df: DataFrame, filters) -> ndarray:
    if isinstance(filters[0], tuple):
        raise ValueError("not possible to have a 'filters' parameter without at least an inner list.")
    out = zeros(len(df), dtype=bool)
    for or_part in filters:
        and_part = ones(len(df), dtype=bool)
        for name, op, val in or_part:
            if op == 'in':
                and_part &= df[name].isin(val).values
            elif op == 'not in':
                and_part &= ~df[name].isin(val).values
            elif op in ops:
                and_part &= ops[op](df[name].values, val)
            elif op == '~':
                and_part &= ~df[name].values
            else:
                raise ValueError(f"operator '{op}' is not supported.")
        out |= and_part
    return out
