"""Reviewed reference definitions of vectorbt.utils.enum_ (functions as name__ref, methods as name__of__Class)."""
from vectorbt import _typing as tp
from vectorbt.utils.mapping import to_mapping, apply_mapping
from vectorbt.utils.enum_ import map_enum_fields, map_enum_values


def map_enum_fields__ref(field, enum, ignore_type=int, **kwargs):
    mapping = to_mapping(enum, reverse=True)
    return apply_mapping(field, mapping, ignore_type=ignore_type, **kwargs)


def map_enum_values__ref(value, enum, ignore_type=str, **kwargs):
    mapping = to_mapping(enum, reverse=False)
    return apply_mapping(value, mapping, ignore_type=ignore_type, **kwargs)
