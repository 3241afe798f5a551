"""Reviewed reference definitions of vectorbt.utils.mapping (functions as name__ref, methods as name__of__Class)."""
import numpy as np
import pandas as pd
from vectorbt import _typing as tp
from vectorbt.utils import checks
from vectorbt.utils.mapping import reverse_mapping, to_mapping, apply_mapping


def reverse_mapping__ref(mapping):
    return {v: k for k, v in mapping.items()}


def to_mapping__ref(mapping_like, reverse=False):
    if checks.is_namedtuple(mapping_like):
        mapping = {v: k for k, v in mapping_like._asdict().items()}
        if -1 not in mapping_like:
            mapping[-1] = None
    elif not checks.is_mapping(mapping_like):
        if checks.is_index(mapping_like):
            mapping_like = mapping_like.to_series().reset_index(drop=True)
        if checks.is_series(mapping_like):
            mapping = mapping_like.to_dict()
        else:
            mapping = dict(enumerate(mapping_like))
    else:
        mapping = dict(mapping_like)
    if reverse:
        mapping = reverse_mapping(mapping)
    return mapping


def apply_mapping__ref(obj, mapping_like=None, reverse=False, ignore_case=True, ignore_underscores=True, ignore_type=None, ignore_missing=False, na_sentinel=None):
    if mapping_like is None:
        return obj
    if ignore_case and ignore_underscores:
        key_func = lambda x: x.lower().replace('_', '')
    elif ignore_case:
        key_func = lambda x: x.lower()
    elif ignore_underscores:
        key_func = lambda x: x.replace('_', '')
    else:
        key_func = lambda x: x
    if not isinstance(ignore_type, tuple):
        ignore_type = (ignore_type,)
    mapping = to_mapping(mapping_like, reverse=reverse)
    new_mapping = dict()
    for k, v in mapping.items():
        if pd.isnull(k):
            na_sentinel = v
        else:
            if isinstance(k, str):
                k = key_func(k)
            new_mapping[k] = v

    def compatible_types(x_type, item=None):
        if item is not None:
            if isinstance(x_type, pd.StringDtype) or str(x_type) == 'str':
                x_type = str
            if np.dtype(x_type) == 'O':
                x_type = type(item)
        for y_type in ignore_type:
            if y_type is None:
                return False
            if x_type is y_type:
                return True
            y_dtype = np.dtype(y_type)
            if isinstance(x_type, pd.StringDtype) or str(x_type) == 'str':
                return np.issubdtype(y_dtype, np.flexible)
            x_dtype = np.dtype(x_type)
            if x_dtype is y_dtype:
                return True
            if np.issubdtype(x_dtype, np.integer) and np.issubdtype(y_dtype, np.integer):
                return True
            if np.issubdtype(x_dtype, np.floating) and np.issubdtype(y_dtype, np.floating):
                return True
            if np.issubdtype(x_dtype, np.bool_) and np.issubdtype(y_dtype, np.bool_):
                return True
            if np.issubdtype(x_dtype, np.flexible) and np.issubdtype(y_dtype, np.flexible):
                return True
        return False

    def convert_value(x):
        if pd.isnull(x):
            return na_sentinel
        if isinstance(x, str):
            x = key_func(x)
        if ignore_missing:
            try:
                return new_mapping[x]
            except KeyError:
                return x
        return new_mapping[x]
    if isinstance(obj, (tuple, list, set, frozenset)):
        result = [apply_mapping(v, mapping_like=mapping_like, reverse=reverse, ignore_case=ignore_case, ignore_underscores=ignore_underscores, ignore_type=ignore_type, ignore_missing=ignore_missing, na_sentinel=na_sentinel) for v in obj]
        return type(obj)(result)
    if isinstance(obj, np.ndarray):
        if obj.size == 0:
            return obj
        if ignore_type is None or not compatible_types(obj.dtype, obj.item(0)):
            if obj.ndim == 1:
                out = pd.Series(obj).map(convert_value)
                if na_sentinel is None:
                    out = out.astype(object).where(~out.isna(), None)
                return out.to_numpy(dtype=object)
            out = np.vectorize(convert_value, otypes=[object])(obj)
            if na_sentinel is None:
                out[pd.isna(out)] = None
            return out
        return obj
    if isinstance(obj, pd.Series):
        if obj.size == 0:
            return obj
        if ignore_type is None or not compatible_types(obj.dtype, obj.iloc[0]):
            out = obj.map(convert_value)
            if na_sentinel is None:
                out = out.astype(object).where(~out.isna(), None)
            return out
        return obj
    if isinstance(obj, pd.Index):
        if obj.size == 0:
            return obj
        if ignore_type is None or not compatible_types(obj.dtype, obj[0]):
            out = obj.map(convert_value)
            if na_sentinel is None:
                out = pd.Index([None if pd.isna(value) else value for value in out.astype(object)], dtype=object, name=out.name)
            return out
        return obj
    if isinstance(obj, pd.DataFrame):
        if obj.size == 0:
            return obj
        series = []
        for sr_name, sr in obj.items():
            if ignore_type is None or not compatible_types(sr.dtype, sr.iloc[0]):
                out = sr.map(convert_value)
                if na_sentinel is None:
                    out = out.astype(object).where(~out.isna(), None)
                series.append(out)
            else:
                series.append(sr)
        return pd.concat(series, axis=1, keys=obj.columns)
    if ignore_type is None or not compatible_types(type(obj)):
        return convert_value(obj)
    return obj
