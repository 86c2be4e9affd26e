import re
from dataclasses import dataclass
from dataclasses import fields
from dataclasses import is_dataclass
from functools import partial
from typing import Any, Callable, Iterator, List, Tuple, Type, Union
from oups.store.defines import DIR_SEP
TYPE_ACCEPTED = {int, str}
DEFAULT_FIELDS_SEP = '-'
FORBIDDEN_CHARS = (DIR_SEP, '.')

def _is_dataclass_instance(obj: Any) -> bool:
    return is_dataclass(obj) and (not isinstance(obj, type))

def _dataclass_instance_to_dict(obj: dataclass) -> dict:
    return {field.name: getattr(obj, field.name) for field in fields(obj)}

def _dataclass_instance_to_lists(obj: dataclass) -> Iterator[List[Any]]:
    fields = list(_dataclass_instance_to_dict(obj).values())
    if fields:
        yield fields
        if _is_dataclass_instance(fields[-1]):
            yield from _dataclass_instance_to_lists(fields[-1])

def _validate_toplevel_instance(toplevel: dataclass):
    forbidden_chars = (toplevel.fields_sep, *FORBIDDEN_CHARS)
    for fields_ in _dataclass_instance_to_lists(toplevel):
        number_of_fields = len(fields_)
        for counter, field in enumerate(fields_):
            if _is_dataclass_instance(field):
                if not counter:
                    raise TypeError('a dataclass instance cannot be the only field of a level.')
                if counter + 1 != number_of_fields:
                    raise TypeError('a dataclass instance is only possible in last position.')
            else:
                field_as_str = str(field)
                if any((symb in field_as_str for symb in forbidden_chars)):
                    raise ValueError(f'use of a forbidden character among {forbidden_chars} is not possible in {field_as_str}.')
            if not (type(field) in TYPE_ACCEPTED or _is_dataclass_instance(field)):
                raise TypeError(f'field type {type(field)} not possible.')
        if [str(field) for field in fields_ if not _is_dataclass_instance(field)] == ['']:
            raise ValueError('an empty string is not possible as the only value of a level.')
    return

def _dataclass_instance_to_str(toplevel: dataclass, as_path: bool=False) -> str:
    levels_sep = DIR_SEP if as_path else toplevel.fields_sep
    to_str = []
    for fields_ in _dataclass_instance_to_lists(toplevel):
        to_str.append(toplevel.fields_sep.join(map(str, fields_[:-1])))
    if to_str[-1]:
        to_str[-1] += f'{toplevel.fields_sep}{str(fields_[-1])}'
    else:
        to_str[-1] = str(fields_[-1])
    return levels_sep.join(to_str)

def _dataclass_fields_types_to_lists(cls: Type[dataclass]) -> List[List[Any]]:
    types = [[field.type for field in fields(cls)]]
    while is_dataclass((last := types[-1][-1])):
        types.append([field.type for field in fields(last)])
    return types

def _dataclass_instance_from_str(cls: Type[dataclass], string: str) -> Union[dataclass, None]:
    types = _dataclass_fields_types_to_lists(cls)
    fields_sep = cls.fields_sep
    strings_as_list = re.split(f'{DIR_SEP}|{re.escape(fields_sep)}', string)
    level_types = types.pop()
    level_length = len(level_types)
    try:
        level = [field_type(field_as_string) for field_type, field_as_string in zip(level_types, strings_as_list[-level_length:])]
        while types:
            strings_as_list = strings_as_list[:-level_length]
            level_types = types.pop()
            level_length = len(level_types) - 1
            level = [field_type(field_as_string) for field_type, field_as_string in zip(level_types[:-1], strings_as_list[-level_length:])] + [level_types[-1](*level)]
        return cls(*level, check=False)
    except (TypeError, ValueError):
        return None

def _get_depth(obj: Union[dataclass, Type[dataclass]]) -> int:
    depth = 1
    level = obj
    while is_dataclass((level := fields(level)[-1].type)):
        depth += 1
    return depth

def _reduce(obj: Type[dataclass]) -> Tuple[Callable, Tuple[str]]:
    return (obj.from_str, (str(obj),))

class TopLevel(type):

    @property
    def fields_sep(cls) -> str:
        return cls._fields_sep

    @property
    def depth(cls) -> int:
        return cls._depth

def toplevel(index_class=None, *, fields_sep: str=DEFAULT_FIELDS_SEP):

    def tweak(index_class):
        d = dict(index_class.__dict__)
        d.update({'fields_sep': TopLevel.fields_sep, 'depth': TopLevel.depth})
        index_class = TopLevel(index_class.__name__, index_class.__bases__, d)
        index_class = dataclass(index_class, order=True, frozen=True)
        index_class_init = index_class.__init__

        def __init__(self, *args, check: bool=True, **kws):
            index_class_init(self, *args, **kws)
            if check:
                _validate_toplevel_instance(self)
        index_class.__init__ = __init__
        index_class.__str__ = _dataclass_instance_to_str
        index_class._fields_sep = fields_sep
        index_class._depth = _get_depth(index_class)
        _dataclass_instance_to_str_p = partial(_dataclass_instance_to_str, as_path=True)
        index_class.to_path = property(_dataclass_instance_to_str_p)
        index_class.from_path = classmethod(_dataclass_instance_from_str)
        index_class.from_str = classmethod(_dataclass_instance_from_str)
        index_class.__reduce__ = _reduce
        return index_class
    if index_class:
        return tweak(index_class)
    return tweak

def is_toplevel(toplevel) -> bool:
    return hasattr(toplevel, 'fields_sep') and callable(getattr(toplevel, 'from_path', None))

def sublevel(index_class):
    return dataclass(index_class, order=True, frozen=True)
