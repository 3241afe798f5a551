"""Reviewed reference definitions of vectorbt.base.array_wrapper (functions as name__ref, methods as name__of__Class)."""
import warnings
import numpy as np
import pandas as pd
from vectorbt import _typing as tp
from vectorbt.base import index_fns, reshape_fns
from vectorbt.base.column_grouper import ColumnGrouper
from vectorbt.base.indexing import IndexingError, PandasIndexer
from vectorbt.base.reshape_fns import to_pd_array
from vectorbt.utils import checks
from vectorbt.utils.array_ import get_ranges_arr
from vectorbt.utils.attr_ import AttrResolver, AttrResolverT
from vectorbt.utils.config import Configured, merge_dicts
from vectorbt.utils.datetime_ import freq_to_timedelta, DatetimeIndexes
from vectorbt.utils.decorators import cached_method
from vectorbt.base.array_wrapper import ArrayWrapperT, IndexingMetaT, ArrayWrapper, WrappingT, Wrapping


def __init____of__ArrayWrapper(self, index, columns, ndim, freq=None, column_only_select=None, group_select=None, grouped_ndim=None, **kwargs):
    config = dict(index=index, columns=columns, ndim=ndim, freq=freq, column_only_select=column_only_select, group_select=group_select, grouped_ndim=grouped_ndim)
    checks.assert_not_none(index)
    checks.assert_not_none(columns)
    checks.assert_not_none(ndim)
    if not isinstance(index, pd.Index):
        index = pd.Index(index)
    if not isinstance(columns, pd.Index):
        columns = pd.Index(columns)
    self._index = index
    self._columns = columns
    self._ndim = ndim
    self._freq = freq
    self._column_only_select = column_only_select
    self._group_select = group_select
    self._grouper = ColumnGrouper(columns, **kwargs)
    self._grouped_ndim = grouped_ndim
    PandasIndexer.__init__(self)
    Configured.__init__(self, **merge_dicts(config, self._grouper._config))


def indexing_func_meta__of__ArrayWrapper(self, pd_indexing_func, index=None, columns=None, column_only_select=None, group_select=None, group_by=None):
    from vectorbt._settings import settings
    array_wrapper_cfg = settings['array_wrapper']
    if column_only_select is None:
        column_only_select = self.column_only_select
    if column_only_select is None:
        column_only_select = array_wrapper_cfg['column_only_select']
    if group_select is None:
        group_select = self.group_select
    if group_select is None:
        group_select = array_wrapper_cfg['group_select']
    _self = self.regroup(group_by)
    group_select = group_select and _self.grouper.is_grouped()
    if index is None:
        index = _self.index
    if not isinstance(index, pd.Index):
        index = pd.Index(index)
    if columns is None:
        if group_select:
            columns = _self.grouper.get_columns()
        else:
            columns = _self.columns
    if not isinstance(columns, pd.Index):
        columns = pd.Index(columns)
    if group_select:
        i_wrapper = ArrayWrapper(index, columns, _self.get_ndim())
    else:
        i_wrapper = ArrayWrapper(index, columns, _self.ndim)
    n_rows = len(index)
    n_cols = len(columns)
    if column_only_select:
        if i_wrapper.ndim == 1:
            raise IndexingError('Columns only: This object already contains one column of data')
        try:
            col_mapper = pd_indexing_func(i_wrapper.wrap_reduced(np.arange(n_cols), columns=columns))
        except pd.core.indexing.IndexingError as e:
            warnings.warn('Columns only: Make sure to treat this object as a Series of columns rather than a DataFrame', stacklevel=2)
            raise e
        if checks.is_series(col_mapper):
            new_columns = col_mapper.index
            col_idxs = col_mapper.values
            new_ndim = 2
        else:
            new_columns = columns[[col_mapper]]
            col_idxs = col_mapper
            new_ndim = 1
        new_index = index
        idx_idxs = np.arange(len(index))
    else:
        idx_mapper = pd_indexing_func(i_wrapper.wrap(np.broadcast_to(np.arange(n_rows)[:, None], (n_rows, n_cols)), index=index, columns=columns))
        if i_wrapper.ndim == 1:
            if not checks.is_series(idx_mapper):
                raise IndexingError('Selection of a scalar is not allowed')
            idx_idxs = idx_mapper.values
            col_idxs = 0
        else:
            col_mapper = pd_indexing_func(i_wrapper.wrap(np.broadcast_to(np.arange(n_cols), (n_rows, n_cols)), index=index, columns=columns))
            if checks.is_frame(idx_mapper):
                idx_idxs = idx_mapper.values[:, 0]
                col_idxs = col_mapper.values[0]
            elif checks.is_series(idx_mapper):
                one_col = np.all(col_mapper.values == col_mapper.values.item(0))
                one_idx = np.all(idx_mapper.values == idx_mapper.values.item(0))
                if one_col and one_idx:
                    raise IndexingError('Must select at least two unique indices in one of both axes')
                elif one_col:
                    idx_idxs = idx_mapper.values
                    col_idxs = col_mapper.values[0]
                elif one_idx:
                    idx_idxs = idx_mapper.values[0]
                    col_idxs = col_mapper.values
                else:
                    raise IndexingError
            else:
                raise IndexingError('Selection of a scalar is not allowed')
        new_index = index_fns.get_index(idx_mapper, 0)
        if not isinstance(idx_idxs, np.ndarray):
            new_columns = index[[idx_idxs]]
        elif not isinstance(col_idxs, np.ndarray):
            new_columns = columns[[col_idxs]]
        else:
            new_columns = index_fns.get_index(idx_mapper, 1)
        new_ndim = idx_mapper.ndim
    if _self.grouper.is_grouped():
        if np.asarray(idx_idxs).ndim == 0:
            raise IndexingError('Flipping index and columns is not allowed')
        if group_select:
            group_idxs = col_idxs
            group_idxs_arr = reshape_fns.to_1d_array(group_idxs)
            group_start_idxs = _self.grouper.get_group_start_idxs()[group_idxs_arr]
            group_end_idxs = _self.grouper.get_group_end_idxs()[group_idxs_arr]
            ungrouped_col_idxs = get_ranges_arr(group_start_idxs, group_end_idxs)
            ungrouped_columns = _self.columns[ungrouped_col_idxs]
            if new_ndim == 1 and len(ungrouped_columns) == 1:
                ungrouped_ndim = 1
                ungrouped_col_idxs = ungrouped_col_idxs[0]
            else:
                ungrouped_ndim = 2
            group_lens = _self.grouper.get_group_lens()[group_idxs_arr]
            ungrouped_group_idxs = np.full(len(ungrouped_columns), 0)
            ungrouped_group_idxs[np.cumsum(group_lens)[:-1]] = 1
            ungrouped_group_idxs = np.cumsum(ungrouped_group_idxs)
            return (_self.replace(index=new_index, columns=ungrouped_columns, ndim=ungrouped_ndim, grouped_ndim=new_ndim, group_by=new_columns[ungrouped_group_idxs]), idx_idxs, group_idxs, ungrouped_col_idxs)
        col_idxs_arr = reshape_fns.to_1d_array(col_idxs)
        return (_self.replace(index=new_index, columns=new_columns, ndim=new_ndim, grouped_ndim=None, group_by=_self.grouper.group_by[col_idxs_arr]), idx_idxs, col_idxs, col_idxs)
    return (_self.replace(index=new_index, columns=new_columns, ndim=new_ndim, grouped_ndim=None, group_by=None), idx_idxs, col_idxs, col_idxs)


def indexing_func__of__ArrayWrapper(self, pd_indexing_func, **kwargs):
    return self.indexing_func_meta(pd_indexing_func, **kwargs)[0]


@classmethod
def from_obj__of__ArrayWrapper(cls, obj, *args, **kwargs):
    pd_obj = to_pd_array(obj)
    index = index_fns.get_index(pd_obj, 0)
    columns = index_fns.get_index(pd_obj, 1)
    ndim = pd_obj.ndim
    kwargs.pop('index', None)
    kwargs.pop('columns', None)
    kwargs.pop('ndim', None)
    return cls(index, columns, ndim, *args, **kwargs)


@classmethod
def from_shape__of__ArrayWrapper(cls, shape, *args, **kwargs):
    index = pd.RangeIndex(start=0, step=1, stop=shape[0])
    columns = pd.RangeIndex(start=0, step=1, stop=shape[1] if len(shape) > 1 else 1)
    ndim = len(shape)
    return cls(index, columns, ndim, *args, **kwargs)


def index__of__ArrayWrapper(self):
    return self._index


def columns__of__ArrayWrapper(self):
    return self._columns


def get_columns__of__ArrayWrapper(self, group_by=None):
    return self.resolve(group_by=group_by).columns


def name__of__ArrayWrapper(self):
    if self.ndim == 1:
        if self.columns[0] == 0:
            return None
        return self.columns[0]
    return None


def get_name__of__ArrayWrapper(self, group_by=None):
    return self.resolve(group_by=group_by).name


def ndim__of__ArrayWrapper(self):
    return self._ndim


def get_ndim__of__ArrayWrapper(self, group_by=None):
    return self.resolve(group_by=group_by).ndim


def shape__of__ArrayWrapper(self):
    if self.ndim == 1:
        return (len(self.index),)
    return (len(self.index), len(self.columns))


def get_shape__of__ArrayWrapper(self, group_by=None):
    return self.resolve(group_by=group_by).shape


def shape_2d__of__ArrayWrapper(self):
    if self.ndim == 1:
        return (self.shape[0], 1)
    return self.shape


def get_shape_2d__of__ArrayWrapper(self, group_by=None):
    return self.resolve(group_by=group_by).shape_2d


def freq__of__ArrayWrapper(self):
    from vectorbt._settings import settings
    array_wrapper_cfg = settings['array_wrapper']
    freq = self._freq
    if freq is None:
        freq = array_wrapper_cfg['freq']
    if freq is not None:
        return freq_to_timedelta(freq)
    if isinstance(self.index, DatetimeIndexes):
        if self.index.freq is not None:
            return freq_to_timedelta(self.index.freq)
        if self.index.inferred_freq is not None:
            return freq_to_timedelta(self.index.inferred_freq)
    return freq


def to_timedelta__of__ArrayWrapper(self, a, to_pd=False, silence_warnings=None):
    from vectorbt._settings import settings
    array_wrapper_cfg = settings['array_wrapper']
    if silence_warnings is None:
        silence_warnings = array_wrapper_cfg['silence_warnings']
    if self.freq is None:
        if not silence_warnings:
            warnings.warn("Couldn't parse the frequency of index. Pass it as `freq` or define it globally under `settings.array_wrapper`.", stacklevel=2)
        return a
    if to_pd or isinstance(a, (pd.Series, pd.DataFrame)):
        out = a * self.freq.value
        if isinstance(out, pd.DataFrame):
            return out.apply(lambda col: pd.to_timedelta(col, unit='ns'))
        return pd.to_timedelta(out, unit='ns')
    return a * self.freq


def column_only_select__of__ArrayWrapper(self):
    return self._column_only_select


def group_select__of__ArrayWrapper(self):
    return self._group_select


def grouper__of__ArrayWrapper(self):
    return self._grouper


def grouped_ndim__of__ArrayWrapper(self):
    if self._grouped_ndim is None:
        if self.grouper.is_grouped():
            return 2 if self.grouper.get_group_count() > 1 else 1
        return self.ndim
    return self._grouped_ndim


def regroup__of__ArrayWrapper(self, group_by, **kwargs):
    if self.grouper.is_grouping_changed(group_by=group_by):
        self.grouper.check_group_by(group_by=group_by)
        grouped_ndim = None
        if self.grouper.is_grouped(group_by=group_by):
            if not self.grouper.is_group_count_changed(group_by=group_by):
                grouped_ndim = self.grouped_ndim
        return self.replace(grouped_ndim=grouped_ndim, group_by=group_by, **kwargs)
    return self


def resolve__of__ArrayWrapper(self, group_by=None, **kwargs):
    _self = self.regroup(group_by=group_by, **kwargs)
    if _self.grouper.is_grouped():
        return _self.replace(columns=_self.grouper.get_columns(), ndim=_self.grouped_ndim, grouped_ndim=None, group_by=None)
    return _self


def wrap__of__ArrayWrapper(self, arr, index=None, columns=None, fillna=None, dtype=None, group_by=None, to_timedelta=False, to_index=False, silence_warnings=None):
    from vectorbt._settings import settings
    array_wrapper_cfg = settings['array_wrapper']
    if silence_warnings is None:
        silence_warnings = array_wrapper_cfg['silence_warnings']
    _self = self.resolve(group_by=group_by)
    if index is None:
        index = _self.index
    if not isinstance(index, pd.Index):
        index = pd.Index(index)
    if columns is None:
        columns = _self.columns
    if not isinstance(columns, pd.Index):
        columns = pd.Index(columns)
    if len(columns) == 1:
        name = columns[0]
        if name == 0:
            name = None
    else:
        name = None

    def _wrap(arr):
        arr = np.asarray(arr)
        checks.assert_ndim(arr, (1, 2))
        if fillna is not None:
            arr = arr.copy()
            arr[pd.isnull(arr)] = fillna
        arr = reshape_fns.soft_to_ndim(arr, self.ndim)
        checks.assert_shape_equal(arr, index, axis=(0, 0))
        if arr.ndim == 2:
            checks.assert_shape_equal(arr, columns, axis=(1, 0))
        if arr.ndim == 1:
            return pd.Series(arr, index=index, name=name, dtype=dtype)
        if arr.ndim == 2:
            if arr.shape[1] == 1 and _self.ndim == 1:
                return pd.Series(arr[:, 0], index=index, name=name, dtype=dtype)
            return pd.DataFrame(arr, index=index, columns=columns, dtype=dtype)
        raise ValueError(f'{arr.ndim}-d input is not supported')
    out = _wrap(arr)
    if to_index:
        if checks.is_series(out):
            out = out.map(lambda x: self.index[x] if x != -1 else np.nan)
        else:
            out = (out.map if hasattr(out, 'map') else out.applymap)(lambda x: self.index[x] if x != -1 else np.nan)
    if to_timedelta:
        out = self.to_timedelta(out, silence_warnings=silence_warnings)
    return out


def wrap_reduced__of__ArrayWrapper(self, arr, name_or_index=None, columns=None, fillna=None, dtype=None, group_by=None, to_timedelta=False, to_index=False, silence_warnings=None):
    from vectorbt._settings import settings
    array_wrapper_cfg = settings['array_wrapper']
    if silence_warnings is None:
        silence_warnings = array_wrapper_cfg['silence_warnings']
    checks.assert_not_none(self.ndim)
    _self = self.resolve(group_by=group_by)
    if columns is None:
        columns = _self.columns
    if not isinstance(columns, pd.Index):
        columns = pd.Index(columns)
    if to_index:
        if dtype is None:
            dtype = np.int64
        if fillna is None:
            fillna = -1

    def _wrap_reduced(arr):
        nonlocal name_or_index
        arr = np.asarray(arr)
        if fillna is not None:
            arr = arr.copy()
            arr[pd.isnull(arr)] = fillna
        if arr.ndim == 0:
            return pd.Series(arr, dtype=dtype)[0]
        if arr.ndim == 1:
            if _self.ndim == 1:
                if arr.shape[0] == 1:
                    return pd.Series(arr, dtype=dtype)[0]
                sr_name = columns[0]
                if sr_name == 0:
                    sr_name = None
                if isinstance(name_or_index, str):
                    name_or_index = None
                return pd.Series(arr, index=name_or_index, name=sr_name, dtype=dtype)
            return pd.Series(arr, index=columns, name=name_or_index, dtype=dtype)
        if arr.ndim == 2:
            if arr.shape[1] == 1 and _self.ndim == 1:
                arr = reshape_fns.soft_to_ndim(arr, 1)
                sr_name = columns[0]
                if sr_name == 0:
                    sr_name = None
                if isinstance(name_or_index, str):
                    name_or_index = None
                return pd.Series(arr, index=name_or_index, name=sr_name, dtype=dtype)
            if isinstance(name_or_index, str):
                name_or_index = None
            return pd.DataFrame(arr, index=name_or_index, columns=columns, dtype=dtype)
        raise ValueError(f'{arr.ndim}-d input is not supported')
    out = _wrap_reduced(arr)
    if to_index:
        if checks.is_series(out):
            out = out.map(lambda x: self.index[x] if x != -1 else np.nan)
        elif checks.is_frame(out):
            out = (out.map if hasattr(out, 'map') else out.applymap)(lambda x: self.index[x] if x != -1 else np.nan)
        else:
            out = self.index[out] if out != -1 else np.nan
    if to_timedelta:
        out = self.to_timedelta(out, silence_warnings=silence_warnings)
    return out


def dummy__of__ArrayWrapper(self, group_by=None, **kwargs):
    _self = self.resolve(group_by=group_by)
    return _self.wrap(np.empty(_self.shape), **kwargs)


def fill__of__ArrayWrapper(self, fill_value, group_by=None, **kwargs):
    _self = self.resolve(group_by=group_by)
    return _self.wrap(np.full(_self.shape_2d, fill_value), **kwargs)


def fill_reduced__of__ArrayWrapper(self, fill_value, group_by=None, **kwargs):
    _self = self.resolve(group_by=group_by)
    return _self.wrap_reduced(np.full(_self.shape_2d[1], fill_value), **kwargs)


def __init____of__Wrapping(self, wrapper, **kwargs):
    checks.assert_instance_of(wrapper, ArrayWrapper)
    self._wrapper = wrapper
    Configured.__init__(self, wrapper=wrapper, **kwargs)
    PandasIndexer.__init__(self)
    AttrResolver.__init__(self)


def indexing_func__of__Wrapping(self, pd_indexing_func, **kwargs):
    return self.replace(wrapper=self.wrapper.indexing_func(pd_indexing_func, **kwargs))


def wrapper__of__Wrapping(self):
    return self._wrapper


def regroup__of__Wrapping(self, group_by, **kwargs):
    if self.wrapper.grouper.is_grouping_changed(group_by=group_by):
        self.wrapper.grouper.check_group_by(group_by=group_by)
        return self.replace(wrapper=self.wrapper.regroup(group_by, **kwargs))
    return self


def resolve_self__of__Wrapping(self, cond_kwargs=None, custom_arg_names=None, impacts_caching=True, silence_warnings=None):
    from vectorbt._settings import settings
    array_wrapper_cfg = settings['array_wrapper']
    if cond_kwargs is None:
        cond_kwargs = {}
    if custom_arg_names is None:
        custom_arg_names = set()
    if silence_warnings is None:
        silence_warnings = array_wrapper_cfg['silence_warnings']
    if 'freq' in cond_kwargs:
        wrapper_copy = self.wrapper.replace(freq=cond_kwargs['freq'])
        if wrapper_copy.freq != self.wrapper.freq:
            if not silence_warnings:
                warnings.warn('Changing the frequency will create a copy of this object. Consider setting it upon object creation to re-use existing cache.', stacklevel=2)
            self_copy = self.replace(wrapper=wrapper_copy)
            for alias in self.self_aliases:
                if alias not in custom_arg_names:
                    cond_kwargs[alias] = self_copy
            cond_kwargs['freq'] = self_copy.wrapper.freq
            if impacts_caching:
                cond_kwargs['use_caching'] = False
            return self_copy
    return self


def select_one__of__Wrapping(self, column=None, group_by=None, **kwargs):
    _self = self.regroup(group_by, **kwargs)

    def _check_out_dim(out):
        if _self.wrapper.grouper.is_grouped():
            if out.wrapper.grouped_ndim != 1:
                raise TypeError('Could not select one group: multiple groups returned')
        elif out.wrapper.ndim != 1:
            raise TypeError('Could not select one column: multiple columns returned')
        return out
    if column is not None:
        if _self.wrapper.grouper.is_grouped():
            if _self.wrapper.grouped_ndim == 1:
                raise TypeError('This object already contains one group of data')
            if column not in _self.wrapper.get_columns():
                if isinstance(column, int):
                    if _self.wrapper.column_only_select:
                        return _check_out_dim(_self.iloc[column])
                    return _check_out_dim(_self.iloc[:, column])
                raise KeyError(f"Group '{column}' not found")
        else:
            if _self.wrapper.ndim == 1:
                raise TypeError('This object already contains one column of data')
            if column not in _self.wrapper.columns:
                if isinstance(column, int):
                    if _self.wrapper.column_only_select:
                        return _check_out_dim(_self.iloc[column])
                    return _check_out_dim(_self.iloc[:, column])
                raise KeyError(f"Column '{column}' not found")
        return _check_out_dim(_self[column])
    if not _self.wrapper.grouper.is_grouped():
        if _self.wrapper.ndim == 1:
            return _self
        raise TypeError('Only one column is allowed. Use indexing or column argument.')
    if _self.wrapper.grouped_ndim == 1:
        return _self
    raise TypeError('Only one group is allowed. Use indexing or column argument.')


@staticmethod
def select_one_from_obj__of__Wrapping(obj, wrapper, column=None):
    if column is not None:
        if wrapper.ndim == 1:
            raise TypeError('This object already contains one column of data')
        if wrapper.grouper.is_grouped():
            if column not in wrapper.get_columns():
                if isinstance(column, int):
                    if isinstance(obj, pd.DataFrame):
                        return obj.iloc[:, column]
                    return obj.iloc[column]
                raise KeyError(f"Group '{column}' not found")
        elif column not in wrapper.columns:
            if isinstance(column, int):
                if isinstance(obj, pd.DataFrame):
                    return obj.iloc[:, column]
                return obj.iloc[column]
            raise KeyError(f"Column '{column}' not found")
        return obj[column]
    if not wrapper.grouper.is_grouped():
        if wrapper.ndim == 1:
            return obj
        raise TypeError('Only one column is allowed. Use indexing or column argument.')
    if wrapper.grouped_ndim == 1:
        return obj
    raise TypeError('Only one group is allowed. Use indexing or column argument.')
