"""Reviewed reference definitions of vectorbt.records.mapped_array (functions as name__ref, methods as name__of__Class)."""
import numpy as np
import pandas as pd
from vectorbt import _typing as tp
from vectorbt.base.array_wrapper import ArrayWrapper, Wrapping
from vectorbt.base.reshape_fns import to_1d_array, to_dict
from vectorbt.generic import nb as generic_nb
from vectorbt.generic.plots_builder import PlotsBuilderMixin
from vectorbt.generic.stats_builder import StatsBuilderMixin
from vectorbt.records import dispatch, nb
from vectorbt.records.col_mapper import ColumnMapper
from vectorbt.utils import checks
from vectorbt.utils.config import merge_dicts, Config, Configured
from vectorbt.utils.decorators import cached_method, attach_binary_magic_methods, attach_unary_magic_methods
from vectorbt.utils.mapping import to_mapping, apply_mapping
from vectorbt.records.mapped_array import MappedArrayT, IndexingMetaT, combine_mapped_with_other, MetaMappedArray, MappedArray


def combine_mapped_with_other__ref(self, other, np_func):
    if isinstance(other, MappedArray):
        checks.assert_array_equal(self.id_arr, other.id_arr)
        checks.assert_array_equal(self.col_arr, other.col_arr)
        other = other.values
    return self.replace(mapped_arr=np_func(self.values, other))


def __init____of__MappedArray(self, wrapper, mapped_arr, col_arr, id_arr=None, idx_arr=None, mapping=None, col_mapper=None, engine=None, **kwargs):
    Wrapping.__init__(self, wrapper, mapped_arr=mapped_arr, col_arr=col_arr, id_arr=id_arr, idx_arr=idx_arr, mapping=mapping, col_mapper=col_mapper, engine=engine, **kwargs)
    StatsBuilderMixin.__init__(self)
    mapped_arr = np.asarray(mapped_arr)
    col_arr = np.asarray(col_arr)
    checks.assert_shape_equal(mapped_arr, col_arr, axis=0)
    if id_arr is None:
        id_arr = np.arange(len(mapped_arr))
    else:
        id_arr = np.asarray(id_arr)
    if idx_arr is not None:
        idx_arr = np.asarray(idx_arr)
        checks.assert_shape_equal(mapped_arr, idx_arr, axis=0)
    if mapping is not None:
        if isinstance(mapping, str):
            if mapping.lower() == 'index':
                mapping = self.wrapper.index
            elif mapping.lower() == 'columns':
                mapping = self.wrapper.columns
        mapping = to_mapping(mapping)
    self._mapped_arr = mapped_arr
    self._id_arr = id_arr
    self._col_arr = col_arr
    self._idx_arr = idx_arr
    self._mapping = mapping
    self._engine = engine
    if col_mapper is None:
        col_mapper = ColumnMapper(wrapper, col_arr, engine=engine)
    self._col_mapper = col_mapper


def engine__of__MappedArray(self):
    return self._engine


def replace__of__MappedArray(self, **kwargs):
    if self.config.get('col_mapper', None) is not None:
        if 'wrapper' in kwargs:
            if self.wrapper is not kwargs.get('wrapper'):
                kwargs['col_mapper'] = None
        if 'col_arr' in kwargs:
            if self.col_arr is not kwargs.get('col_arr'):
                kwargs['col_mapper'] = None
    return Configured.replace(self, **kwargs)


def indexing_func_meta__of__MappedArray(self, pd_indexing_func, **kwargs):
    new_wrapper, _, group_idxs, col_idxs = self.wrapper.indexing_func_meta(pd_indexing_func, column_only_select=True, **kwargs)
    new_indices, new_col_arr = self.col_mapper._col_idxs_meta(col_idxs, engine=self.engine)
    new_mapped_arr = self.values[new_indices]
    new_id_arr = self.id_arr[new_indices]
    if self.idx_arr is not None:
        new_idx_arr = self.idx_arr[new_indices]
    else:
        new_idx_arr = None
    return (new_wrapper, new_mapped_arr, new_col_arr, new_id_arr, new_idx_arr, group_idxs, col_idxs)


def indexing_func__of__MappedArray(self, pd_indexing_func, **kwargs):
    new_wrapper, new_mapped_arr, new_col_arr, new_id_arr, new_idx_arr, _, _ = self.indexing_func_meta(pd_indexing_func, **kwargs)
    return self.replace(wrapper=new_wrapper, mapped_arr=new_mapped_arr, col_arr=new_col_arr, id_arr=new_id_arr, idx_arr=new_idx_arr)


def mapped_arr__of__MappedArray(self):
    return self._mapped_arr


def values__of__MappedArray(self):
    return self.mapped_arr


def __len____of__MappedArray(self):
    return len(self.values)


def col_arr__of__MappedArray(self):
    return self._col_arr


def col_mapper__of__MappedArray(self):
    return self._col_mapper


def id_arr__of__MappedArray(self):
    return self._id_arr


def idx_arr__of__MappedArray(self):
    return self._idx_arr


def mapping__of__MappedArray(self):
    return self._mapping


def is_sorted__of__MappedArray(self, incl_id=False, engine=None):
    engine = engine if engine is not None else self.engine
    if incl_id:
        return dispatch.is_col_idx_sorted(self.col_arr, self.id_arr, engine=engine)
    return dispatch.is_col_sorted(self.col_arr, engine=engine)


def sort__of__MappedArray(self, incl_id=False, idx_arr=None, group_by=None, engine=None, **kwargs):
    engine = engine if engine is not None else self.engine
    if idx_arr is None:
        idx_arr = self.idx_arr
    if self.is_sorted(incl_id=incl_id, engine=engine):
        return self.replace(idx_arr=idx_arr, **kwargs).regroup(group_by)
    if incl_id:
        ind = np.lexsort((self.id_arr, self.col_arr))
    else:
        ind = np.argsort(self.col_arr, kind='stable')
    return self.replace(mapped_arr=self.values[ind], col_arr=self.col_arr[ind], id_arr=self.id_arr[ind], idx_arr=idx_arr[ind] if idx_arr is not None else None, **kwargs).regroup(group_by)


def apply_mask__of__MappedArray(self, mask, idx_arr=None, group_by=None, **kwargs):
    if idx_arr is None:
        idx_arr = self.idx_arr
    mask_indices = np.flatnonzero(mask)
    return self.replace(mapped_arr=np.take(self.values, mask_indices), col_arr=np.take(self.col_arr, mask_indices), id_arr=np.take(self.id_arr, mask_indices), idx_arr=np.take(idx_arr, mask_indices) if idx_arr is not None else None, **kwargs).regroup(group_by)


def map_to_mask__of__MappedArray(self, inout_map_func_nb, *args, group_by=None):
    col_map = self.col_mapper.get_col_map(group_by=group_by)
    return nb.mapped_to_mask_nb(self.values, col_map, inout_map_func_nb, *args)


def top_n_mask__of__MappedArray(self, n, group_by=None, engine=None, **kwargs):
    engine = engine if engine is not None else self.engine
    col_map = self.col_mapper.get_col_map(group_by=group_by)
    return dispatch.top_n_mapped_mask(self.values, col_map, n, engine=engine)


def bottom_n_mask__of__MappedArray(self, n, group_by=None, engine=None, **kwargs):
    engine = engine if engine is not None else self.engine
    col_map = self.col_mapper.get_col_map(group_by=group_by)
    return dispatch.bottom_n_mapped_mask(self.values, col_map, n, engine=engine)


def top_n__of__MappedArray(self, n, group_by=None, **kwargs):
    return self.apply_mask(self.top_n_mask(n, group_by=group_by), group_by=group_by, **kwargs)


def bottom_n__of__MappedArray(self, n, group_by=None, **kwargs):
    return self.apply_mask(self.bottom_n_mask(n, group_by=group_by), group_by=group_by, **kwargs)


def is_expandable__of__MappedArray(self, idx_arr=None, group_by=None, engine=None):
    engine = engine if engine is not None else self.engine
    if idx_arr is None:
        if self.idx_arr is None:
            raise ValueError('Must pass idx_arr')
        idx_arr = self.idx_arr
    col_arr = self.col_mapper.get_col_arr(group_by=group_by)
    target_shape = self.wrapper.get_shape_2d(group_by=group_by)
    return dispatch.is_mapped_expandable(col_arr, idx_arr, target_shape, engine=engine)


def to_pd__of__MappedArray(self, idx_arr=None, ignore_index=False, fill_value=np.nan, group_by=None, wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    if ignore_index:
        if self.wrapper.ndim == 1:
            return self.wrapper.wrap(self.values, index=np.arange(len(self.values)), group_by=group_by, **merge_dicts({}, wrap_kwargs))
        col_map = self.col_mapper.get_col_map(group_by=group_by)
        out = dispatch.stack_expand_mapped(self.values, col_map, fill_value, engine=engine)
        return self.wrapper.wrap(out, index=np.arange(out.shape[0]), group_by=group_by, **merge_dicts({}, wrap_kwargs))
    if idx_arr is None:
        if self.idx_arr is None:
            raise ValueError('Must pass idx_arr')
        idx_arr = self.idx_arr
    if not self.is_expandable(idx_arr=idx_arr, group_by=group_by, engine=engine):
        raise ValueError('Multiple values are pointing to the same position. Use ignore_index.')
    col_arr = self.col_mapper.get_col_arr(group_by=group_by)
    target_shape = self.wrapper.get_shape_2d(group_by=group_by)
    out = dispatch.expand_mapped(self.values, col_arr, idx_arr, target_shape, fill_value, engine=engine)
    return self.wrapper.wrap(out, group_by=group_by, **merge_dicts({}, wrap_kwargs))


def apply__of__MappedArray(self, apply_func_nb, *args, group_by=None, apply_per_group=False, dtype=None, **kwargs):
    checks.assert_numba_func(apply_func_nb)
    if apply_per_group:
        col_map = self.col_mapper.get_col_map(group_by=group_by)
    else:
        col_map = self.col_mapper.get_col_map(group_by=False)
    mapped_arr = nb.apply_on_mapped_nb(self.values, col_map, apply_func_nb, *args)
    mapped_arr = np.asarray(mapped_arr, dtype=dtype)
    return self.replace(mapped_arr=mapped_arr, **kwargs).regroup(group_by)


def reduce__of__MappedArray(self, reduce_func_nb, *args, idx_arr=None, returns_array=False, returns_idx=False, to_index=True, fill_value=np.nan, group_by=None, wrap_kwargs=None):
    checks.assert_numba_func(reduce_func_nb)
    if idx_arr is None:
        if self.idx_arr is None:
            if returns_idx:
                raise ValueError('Must pass idx_arr')
        idx_arr = self.idx_arr
    col_map = self.col_mapper.get_col_map(group_by=group_by)
    if not returns_array:
        if not returns_idx:
            out = nb.reduce_mapped_nb(self.values, col_map, fill_value, reduce_func_nb, *args)
        else:
            out = nb.reduce_mapped_to_idx_nb(self.values, col_map, idx_arr, fill_value, reduce_func_nb, *args)
    elif not returns_idx:
        out = nb.reduce_mapped_to_array_nb(self.values, col_map, fill_value, reduce_func_nb, *args)
    else:
        out = nb.reduce_mapped_to_idx_array_nb(self.values, col_map, idx_arr, fill_value, reduce_func_nb, *args)
    wrap_kwargs = merge_dicts(dict(name_or_index='reduce' if not returns_array else None, to_index=returns_idx and to_index, fillna=-1 if returns_idx else None, dtype=np.int64 if returns_idx else None), wrap_kwargs)
    return self.wrapper.wrap_reduced(out, group_by=group_by, **wrap_kwargs)


def nth__of__MappedArray(self, n, group_by=None, wrap_kwargs=None, **kwargs):
    wrap_kwargs = merge_dicts(dict(name_or_index='nth'), wrap_kwargs)
    return self.reduce(generic_nb.nth_reduce_nb, n, returns_array=False, returns_idx=False, group_by=group_by, wrap_kwargs=wrap_kwargs, **kwargs)


def nth_index__of__MappedArray(self, n, group_by=None, wrap_kwargs=None, **kwargs):
    wrap_kwargs = merge_dicts(dict(name_or_index='nth_index'), wrap_kwargs)
    return self.reduce(generic_nb.nth_index_reduce_nb, n, returns_array=False, returns_idx=True, group_by=group_by, wrap_kwargs=wrap_kwargs, **kwargs)


def min__of__MappedArray(self, group_by=None, wrap_kwargs=None, **kwargs):
    wrap_kwargs = merge_dicts(dict(name_or_index='min'), wrap_kwargs)
    return self.reduce(generic_nb.min_reduce_nb, returns_array=False, returns_idx=False, group_by=group_by, wrap_kwargs=wrap_kwargs, **kwargs)


def max__of__MappedArray(self, group_by=None, wrap_kwargs=None, **kwargs):
    wrap_kwargs = merge_dicts(dict(name_or_index='max'), wrap_kwargs)
    return self.reduce(generic_nb.max_reduce_nb, returns_array=False, returns_idx=False, group_by=group_by, wrap_kwargs=wrap_kwargs, **kwargs)


def mean__of__MappedArray(self, group_by=None, wrap_kwargs=None, **kwargs):
    wrap_kwargs = merge_dicts(dict(name_or_index='mean'), wrap_kwargs)
    return self.reduce(generic_nb.mean_reduce_nb, returns_array=False, returns_idx=False, group_by=group_by, wrap_kwargs=wrap_kwargs, **kwargs)


def median__of__MappedArray(self, group_by=None, wrap_kwargs=None, **kwargs):
    wrap_kwargs = merge_dicts(dict(name_or_index='median'), wrap_kwargs)
    return self.reduce(generic_nb.median_reduce_nb, returns_array=False, returns_idx=False, group_by=group_by, wrap_kwargs=wrap_kwargs, **kwargs)


def std__of__MappedArray(self, ddof=1, group_by=None, wrap_kwargs=None, **kwargs):
    wrap_kwargs = merge_dicts(dict(name_or_index='std'), wrap_kwargs)
    return self.reduce(generic_nb.std_reduce_nb, ddof, returns_array=False, returns_idx=False, group_by=group_by, wrap_kwargs=wrap_kwargs, **kwargs)


def sum__of__MappedArray(self, fill_value=0.0, group_by=None, wrap_kwargs=None, **kwargs):
    wrap_kwargs = merge_dicts(dict(name_or_index='sum'), wrap_kwargs)
    return self.reduce(generic_nb.sum_reduce_nb, fill_value=fill_value, returns_array=False, returns_idx=False, group_by=group_by, wrap_kwargs=wrap_kwargs, **kwargs)


def idxmin__of__MappedArray(self, group_by=None, wrap_kwargs=None, **kwargs):
    wrap_kwargs = merge_dicts(dict(name_or_index='idxmin'), wrap_kwargs)
    return self.reduce(generic_nb.argmin_reduce_nb, returns_array=False, returns_idx=True, group_by=group_by, wrap_kwargs=wrap_kwargs, **kwargs)


def idxmax__of__MappedArray(self, group_by=None, wrap_kwargs=None, **kwargs):
    wrap_kwargs = merge_dicts(dict(name_or_index='idxmax'), wrap_kwargs)
    return self.reduce(generic_nb.argmax_reduce_nb, returns_array=False, returns_idx=True, group_by=group_by, wrap_kwargs=wrap_kwargs, **kwargs)


def describe__of__MappedArray(self, percentiles=None, ddof=1, group_by=None, wrap_kwargs=None, **kwargs):
    if int(pd.__version__.split('.')[0]) >= 3 and (not self.wrapper.grouper.is_grouped(group_by=group_by)) and (wrap_kwargs is None) and (ddof == 1):
        return self.to_pd(group_by=group_by).describe(percentiles=percentiles)
    if percentiles is not None:
        percentiles = to_1d_array(percentiles)
    else:
        percentiles = np.array([0.25, 0.5, 0.75])
    percentiles = percentiles.tolist()
    if 0.5 not in percentiles:
        percentiles.append(0.5)
    percentiles = np.unique(percentiles)
    perc_formatted = pd.io.formats.format.format_percentiles(percentiles)
    index = pd.Index(['count', 'mean', 'std', 'min', *perc_formatted, 'max'])
    wrap_kwargs = merge_dicts(dict(name_or_index=index), wrap_kwargs)
    out = self.reduce(generic_nb.describe_reduce_nb, percentiles, ddof, returns_array=True, returns_idx=False, group_by=group_by, wrap_kwargs=wrap_kwargs, **kwargs)
    if isinstance(out, pd.DataFrame):
        out.loc['count'] = out.loc['count'].fillna(0.0)
    elif np.isnan(out.loc['count']):
        out.loc['count'] = 0.0
    return out


def count__of__MappedArray(self, group_by=None, wrap_kwargs=None):
    wrap_kwargs = merge_dicts(dict(name_or_index='count'), wrap_kwargs)
    return self.wrapper.wrap_reduced(self.col_mapper.get_col_map(group_by=group_by)[1], group_by=group_by, **wrap_kwargs)


def value_counts__of__MappedArray(self, normalize=False, sort_uniques=True, sort=False, ascending=False, dropna=False, group_by=None, mapping=None, incl_all_keys=False, wrap_kwargs=None, engine=None, **kwargs):
    engine = engine if engine is not None else self.engine
    if mapping is None:
        mapping = self.mapping
    if isinstance(mapping, str):
        if mapping.lower() == 'index':
            mapping = self.wrapper.index
        elif mapping.lower() == 'columns':
            mapping = self.wrapper.columns
        mapping = to_mapping(mapping)
    mapped_codes, mapped_uniques = pd.factorize(self.values, sort=False, use_na_sentinel=False)
    col_map = self.col_mapper.get_col_map(group_by=group_by)
    value_counts = dispatch.mapped_value_counts(mapped_codes, len(mapped_uniques), col_map, engine=engine)
    if incl_all_keys and mapping is not None:
        missing_keys = []
        for x in mapping:
            if pd.isnull(x) and pd.isnull(mapped_uniques).any():
                continue
            if x not in mapped_uniques:
                missing_keys.append(x)
        value_counts = np.vstack((value_counts, np.full((len(missing_keys), value_counts.shape[1]), 0)))
        mapped_uniques = np.concatenate((mapped_uniques, np.array(missing_keys)))
    nan_mask = np.isnan(mapped_uniques)
    if dropna:
        value_counts = value_counts[~nan_mask]
        mapped_uniques = mapped_uniques[~nan_mask]
    if sort_uniques:
        new_indices = mapped_uniques.argsort(kind='stable')
        value_counts = value_counts[new_indices]
        mapped_uniques = mapped_uniques[new_indices]
    value_counts_sum = value_counts.sum(axis=1)
    if normalize:
        value_counts = value_counts / value_counts_sum.sum()
    if sort:
        if ascending:
            new_indices = value_counts_sum.argsort(kind='stable')
        else:
            new_indices = (-value_counts_sum).argsort(kind='stable')
        value_counts = value_counts[new_indices]
        mapped_uniques = mapped_uniques[new_indices]
    value_counts_pd = self.wrapper.wrap(value_counts, index=mapped_uniques, group_by=group_by, **merge_dicts({}, wrap_kwargs))
    if mapping is not None:
        value_counts_pd.index = apply_mapping(value_counts_pd.index, mapping, **kwargs)
    return value_counts_pd


def apply_mapping__of__MappedArray(self, mapping=None, **kwargs):
    if mapping is None:
        mapping = self.mapping
    if isinstance(mapping, str):
        if mapping.lower() == 'index':
            mapping = self.wrapper.index
        elif mapping.lower() == 'columns':
            mapping = self.wrapper.columns
        mapping = to_mapping(mapping)
    return self.replace(mapped_arr=apply_mapping(self.values, mapping), **kwargs)


def to_index__of__MappedArray(self):
    return self.wrapper.index[self.values]


def stats_defaults__of__MappedArray(self):
    from vectorbt._settings import settings
    mapped_array_stats_cfg = settings['mapped_array']['stats']
    return merge_dicts(StatsBuilderMixin.stats_defaults.__get__(self), mapped_array_stats_cfg)


def _metrics__decl__of__MappedArray():
    return Config(dict(start=dict(title='Start', calc_func=lambda self: self.wrapper.index[0], agg_func=None, tags='wrapper'), end=dict(title='End', calc_func=lambda self: self.wrapper.index[-1], agg_func=None, tags='wrapper'), period=dict(title='Period', calc_func=lambda self: len(self.wrapper.index), apply_to_timedelta=True, agg_func=None, tags='wrapper'), count=dict(title='Count', calc_func='count', tags='mapped_array'), mean=dict(title='Mean', calc_func='mean', inv_check_has_mapping=True, tags=['mapped_array', 'describe']), std=dict(title='Std', calc_func='std', inv_check_has_mapping=True, tags=['mapped_array', 'describe']), min=dict(title='Min', calc_func='min', inv_check_has_mapping=True, tags=['mapped_array', 'describe']), median=dict(title='Median', calc_func='median', inv_check_has_mapping=True, tags=['mapped_array', 'describe']), max=dict(title='Max', calc_func='max', inv_check_has_mapping=True, tags=['mapped_array', 'describe']), idx_min=dict(title='Min Index', calc_func='idxmin', inv_check_has_mapping=True, agg_func=None, tags=['mapped_array', 'index']), idx_max=dict(title='Max Index', calc_func='idxmax', inv_check_has_mapping=True, agg_func=None, tags=['mapped_array', 'index']), value_counts=dict(title='Value Counts', calc_func=lambda value_counts: to_dict(value_counts, orient='index_series'), resolve_value_counts=True, check_has_mapping=True, tags=['mapped_array', 'value_counts'])), copy_kwargs=dict(copy_mode='deep'))


def metrics__of__MappedArray(self):
    return self._metrics


def histplot__of__MappedArray(self, group_by=None, **kwargs):
    return self.to_pd(group_by=group_by, ignore_index=True).vbt.histplot(**kwargs)


def boxplot__of__MappedArray(self, group_by=None, **kwargs):
    return self.to_pd(group_by=group_by, ignore_index=True).vbt.boxplot(**kwargs)


def plots_defaults__of__MappedArray(self):
    from vectorbt._settings import settings
    mapped_array_plots_cfg = settings['mapped_array']['plots']
    return merge_dicts(PlotsBuilderMixin.plots_defaults.__get__(self), mapped_array_plots_cfg)


def _subplots__decl__of__MappedArray():
    return Config(dict(to_pd_plot=dict(check_is_not_grouped=True, plot_func='to_pd.vbt.plot', pass_trace_names=False, tags='mapped_array')), copy_kwargs=dict(copy_mode='deep'))


def subplots__of__MappedArray(self):
    return self._subplots
