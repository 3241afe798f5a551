"""Reviewed reference definitions of vectorbt.generic.accessors (functions as name__ref, methods as name__of__Class)."""
import warnings
import numpy as np
import pandas as pd
from numba.typed import Dict
from scipy import stats
from sklearn.exceptions import NotFittedError
from sklearn.preprocessing import Binarizer, MinMaxScaler, MaxAbsScaler, Normalizer, RobustScaler, StandardScaler, QuantileTransformer, PowerTransformer
from sklearn.utils.validation import check_is_fitted
from vectorbt import _typing as tp
from vectorbt.base import index_fns, reshape_fns
from vectorbt.base.accessors import BaseAccessor, BaseDFAccessor, BaseSRAccessor
from vectorbt.base.array_wrapper import ArrayWrapper, Wrapping
from vectorbt.generic import plotting, nb, dispatch
from vectorbt.generic.decorators import attach_nb_methods, attach_transform_methods
from vectorbt.generic.drawdowns import Drawdowns
from vectorbt.generic.plots_builder import PlotsBuilderMixin
from vectorbt.generic.ranges import Ranges
from vectorbt.generic.splitters import SplitterT, RangeSplitter, RollingSplitter, ExpandingSplitter
from vectorbt.generic.stats_builder import StatsBuilderMixin
from vectorbt.records.mapped_array import MappedArray
from vectorbt.utils import checks
from vectorbt.utils.config import Config, merge_dicts, resolve_dict
from vectorbt.utils.figure import make_figure, make_subplots
from vectorbt.utils.mapping import apply_mapping, to_mapping
from vectorbt.generic.accessors import nanmean, nanstd, nansum, nanmax, nanmin, nanmedian, nanargmax, nanargmin, MetaGenericAccessor, GenericAccessorT, SplitOutputT, TransformerT, nb_config, transform_config, GenericAccessor, GenericSRAccessor, GenericDFAccessor


def __init____of__TransformerT(self, **kwargs):
    ...


def transform__of__TransformerT(self, *args, **kwargs):
    ...


def fit_transform__of__TransformerT(self, *args, **kwargs):
    ...


def nb_config__decl():
    return Config({'shuffle': dict(func=dispatch.shuffle, path='vectorbt.generic.dispatch.shuffle'), 'fillna': dict(func=dispatch.fillna, path='vectorbt.generic.dispatch.fillna'), 'bshift': dict(func=dispatch.bshift, path='vectorbt.generic.dispatch.bshift'), 'fshift': dict(func=dispatch.fshift, path='vectorbt.generic.dispatch.fshift'), 'diff': dict(func=dispatch.diff, path='vectorbt.generic.dispatch.diff'), 'pct_change': dict(func=dispatch.pct_change, path='vectorbt.generic.dispatch.pct_change'), 'bfill': dict(func=dispatch.bfill, path='vectorbt.generic.dispatch.bfill'), 'ffill': dict(func=dispatch.ffill, path='vectorbt.generic.dispatch.ffill'), 'cumsum': dict(func=dispatch.nancumsum, path='vectorbt.generic.dispatch.nancumsum'), 'cumprod': dict(func=dispatch.nancumprod, path='vectorbt.generic.dispatch.nancumprod'), 'rolling_min': dict(func=dispatch.rolling_min, path='vectorbt.generic.dispatch.rolling_min'), 'rolling_max': dict(func=dispatch.rolling_max, path='vectorbt.generic.dispatch.rolling_max'), 'rolling_mean': dict(func=dispatch.rolling_mean, path='vectorbt.generic.dispatch.rolling_mean'), 'expanding_min': dict(func=dispatch.expanding_min, path='vectorbt.generic.dispatch.expanding_min'), 'expanding_max': dict(func=dispatch.expanding_max, path='vectorbt.generic.dispatch.expanding_max'), 'expanding_mean': dict(func=dispatch.expanding_mean, path='vectorbt.generic.dispatch.expanding_mean'), 'product': dict(func=dispatch.nanprod, is_reducing=True, path='vectorbt.generic.dispatch.nanprod')}, readonly=True, as_attrs=False)


def transform_config__decl():
    return Config({'binarize': dict(transformer=Binarizer, docstring='See `sklearn.preprocessing.Binarizer`.'), 'minmax_scale': dict(transformer=MinMaxScaler, docstring='See `sklearn.preprocessing.MinMaxScaler`.'), 'maxabs_scale': dict(transformer=MaxAbsScaler, docstring='See `sklearn.preprocessing.MaxAbsScaler`.'), 'normalize': dict(transformer=Normalizer, docstring='See `sklearn.preprocessing.Normalizer`.'), 'robust_scale': dict(transformer=RobustScaler, docstring='See `sklearn.preprocessing.RobustScaler`.'), 'scale': dict(transformer=StandardScaler, docstring='See `sklearn.preprocessing.StandardScaler`.'), 'quantile_transform': dict(transformer=QuantileTransformer, docstring='See `sklearn.preprocessing.QuantileTransformer`.'), 'power_transform': dict(transformer=PowerTransformer, docstring='See `sklearn.preprocessing.PowerTransformer`.')}, readonly=True, as_attrs=False)


def __init____of__GenericAccessor(self, obj, mapping=None, engine=None, **kwargs):
    BaseAccessor.__init__(self, obj, mapping=mapping, engine=engine, **kwargs)
    StatsBuilderMixin.__init__(self)
    PlotsBuilderMixin.__init__(self)
    if mapping is not None:
        if isinstance(mapping, str):
            if mapping.lower() == 'index':
                mapping = self.wrapper.index
            elif mapping.lower() == 'columns':
                mapping = self.wrapper.columns
        mapping = to_mapping(mapping)
    self._mapping = mapping
    self._engine = engine


def engine__of__GenericAccessor(self):
    return self._engine


def sr_accessor_cls__of__GenericAccessor(self):
    return GenericSRAccessor


def df_accessor_cls__of__GenericAccessor(self):
    return GenericDFAccessor


def mapping__of__GenericAccessor(self):
    return self._mapping


def apply_mapping__of__GenericAccessor(self, **kwargs):
    return apply_mapping(self.obj, self.mapping, **kwargs)


def rolling_std__of__GenericAccessor(self, window, minp=None, ddof=1, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    out = dispatch.rolling_std(self.to_2d_array(), window, minp=minp, ddof=ddof, engine=engine)
    return self.wrapper.wrap(out, group_by=False, **merge_dicts({}, wrap_kwargs))


def expanding_std__of__GenericAccessor(self, minp=1, ddof=1, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    out = dispatch.expanding_std(self.to_2d_array(), minp=minp, ddof=ddof, engine=engine)
    return self.wrapper.wrap(out, group_by=False, **merge_dicts({}, wrap_kwargs))


def ewm_mean__of__GenericAccessor(self, span, minp=0, adjust=True, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if not adjust and int(pd.__version__.split('.')[0]) >= 3 and (wrap_kwargs is None):
        return self.obj.ewm(span=span, min_periods=minp, adjust=adjust).mean()
    out = dispatch.ewm_mean(self.to_2d_array(), span, minp=minp, adjust=adjust, engine=engine)
    return self.wrapper.wrap(out, group_by=False, **merge_dicts({}, wrap_kwargs))


def ewm_std__of__GenericAccessor(self, span, minp=0, adjust=True, ddof=1, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    out = dispatch.ewm_std(self.to_2d_array(), span, minp=minp, adjust=adjust, ddof=ddof, engine=engine)
    return self.wrapper.wrap(out, group_by=False, **merge_dicts({}, wrap_kwargs))


def apply_along_axis__of__GenericAccessor(self, apply_func, *args, axis=0, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    checks.assert_engine_func(apply_func, engine=engine)
    if axis == 0:
        out = dispatch.apply(self.to_2d_array(), apply_func, *args, engine=engine)
    elif axis == 1:
        out = dispatch.row_apply(self.to_2d_array(), apply_func, *args, engine=engine)
    else:
        raise ValueError('Only axes 0 and 1 are supported')
    return self.wrapper.wrap(out, group_by=False, **merge_dicts({}, wrap_kwargs))


def rolling_apply__of__GenericAccessor(self, window, apply_func, *args, minp=None, on_matrix=False, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    checks.assert_engine_func(apply_func, engine=engine)
    if on_matrix:
        out = dispatch.rolling_matrix_apply(self.to_2d_array(), window, minp, apply_func, *args, engine=engine)
    else:
        out = dispatch.rolling_apply(self.to_2d_array(), window, minp, apply_func, *args, engine=engine)
    return self.wrapper.wrap(out, group_by=False, **merge_dicts({}, wrap_kwargs))


def expanding_apply__of__GenericAccessor(self, apply_func, *args, minp=1, on_matrix=False, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    checks.assert_engine_func(apply_func, engine=engine)
    if on_matrix:
        out = dispatch.expanding_matrix_apply(self.to_2d_array(), minp, apply_func, *args, engine=engine)
    else:
        out = dispatch.expanding_apply(self.to_2d_array(), minp, apply_func, *args, engine=engine)
    return self.wrapper.wrap(out, group_by=False, **merge_dicts({}, wrap_kwargs))


def groupby_apply__of__GenericAccessor(self, by, apply_func, *args, on_matrix=False, engine=None, wrap_kwargs=None, **kwargs):
    engine = engine if engine is not None else self.engine
    checks.assert_engine_func(apply_func, engine=engine)
    regrouped = self.obj.groupby(by, **kwargs)
    groups = Dict()
    for i, (k, v) in enumerate(regrouped.indices.items()):
        groups[i] = np.asarray(v)
    if on_matrix:
        out = dispatch.groupby_matrix_apply(self.to_2d_array(), groups, apply_func, *args, engine=engine)
    else:
        out = dispatch.groupby_apply(self.to_2d_array(), groups, apply_func, *args, engine=engine)
    wrap_kwargs = merge_dicts(dict(name_or_index=list(regrouped.indices.keys())), wrap_kwargs)
    return self.wrapper.wrap_reduced(out, group_by=False, **wrap_kwargs)


def resample_apply__of__GenericAccessor(self, freq, apply_func, *args, on_matrix=False, engine=None, wrap_kwargs=None, **kwargs):
    engine = engine if engine is not None else self.engine
    checks.assert_engine_func(apply_func, engine=engine)
    resampled = self.obj.resample(freq, **kwargs)
    groups = Dict()
    for i, (k, v) in enumerate(resampled.indices.items()):
        groups[i] = np.asarray(v)
    if on_matrix:
        out = dispatch.groupby_matrix_apply(self.to_2d_array(), groups, apply_func, *args, engine=engine)
    else:
        out = dispatch.groupby_apply(self.to_2d_array(), groups, apply_func, *args, engine=engine)
    out_obj = self.wrapper.wrap(out, group_by=False, index=list(resampled.indices.keys()))
    resampled_arr = np.full((resampled.ngroups, self.to_2d_array().shape[1]), np.nan)
    resampled_obj = self.wrapper.wrap(resampled_arr, index=resampled.asfreq().index, group_by=False, **merge_dicts({}, wrap_kwargs))
    resampled_obj.loc[out_obj.index] = out_obj.values
    return resampled_obj


def applymap__of__GenericAccessor(self, apply_func, *args, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    checks.assert_engine_func(apply_func, engine=engine)
    out = dispatch.applymap(self.to_2d_array(), apply_func, *args, engine=engine)
    return self.wrapper.wrap(out, group_by=False, **merge_dicts({}, wrap_kwargs))


def filter__of__GenericAccessor(self, filter_func, *args, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    checks.assert_engine_func(filter_func, engine=engine)
    out = dispatch.filter(self.to_2d_array(), filter_func, *args, engine=engine)
    return self.wrapper.wrap(out, group_by=False, **merge_dicts({}, wrap_kwargs))


def apply_and_reduce__of__GenericAccessor(self, apply_func, reduce_func, apply_args=None, reduce_args=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    checks.assert_engine_func(apply_func, engine=engine)
    checks.assert_engine_func(reduce_func, engine=engine, func_suffix='_reduce')
    if apply_args is None:
        apply_args = ()
    if reduce_args is None:
        reduce_args = ()
    out = dispatch.apply_and_reduce(self.to_2d_array(), apply_func, apply_args, reduce_func, reduce_args, engine=engine)
    wrap_kwargs = merge_dicts(dict(name_or_index='apply_and_reduce'), wrap_kwargs)
    return self.wrapper.wrap_reduced(out, group_by=False, **wrap_kwargs)


def reduce__of__GenericAccessor(self, reduce_func, *args, returns_array=False, returns_idx=False, flatten=False, order='C', to_index=True, engine=None, group_by=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    checks.assert_engine_func(reduce_func, engine=engine, func_suffix='_reduce')
    if self.wrapper.grouper.is_grouped(group_by=group_by):
        group_lens = self.wrapper.grouper.get_group_lens(group_by=group_by)
        if flatten:
            checks.assert_in(order.upper(), ['C', 'F'])
            in_c_order = order.upper() == 'C'
            if returns_array:
                out = dispatch.flat_reduce_grouped_to_array(self.to_2d_array(), group_lens, in_c_order, reduce_func, *args, engine=engine)
            else:
                out = dispatch.flat_reduce_grouped(self.to_2d_array(), group_lens, in_c_order, reduce_func, *args, engine=engine)
            if returns_idx:
                if in_c_order:
                    out //= group_lens
                else:
                    out %= self.wrapper.shape[0]
        elif returns_array:
            out = dispatch.reduce_grouped_to_array(self.to_2d_array(), group_lens, reduce_func, *args, engine=engine)
        else:
            out = dispatch.reduce_grouped(self.to_2d_array(), group_lens, reduce_func, *args, engine=engine)
    elif returns_array:
        out = dispatch.reduce_to_array(self.to_2d_array(), reduce_func, *args, engine=engine)
    else:
        out = dispatch.reduce(self.to_2d_array(), reduce_func, *args, engine=engine)
    wrap_kwargs = merge_dicts(dict(name_or_index='reduce' if not returns_array else None, to_index=returns_idx and to_index, fillna=-1 if returns_idx else None, dtype=np.int64 if returns_idx else None), wrap_kwargs)
    return self.wrapper.wrap_reduced(out, group_by=group_by, **wrap_kwargs)


def min__of__GenericAccessor(self, group_by=None, wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    wrap_kwargs = merge_dicts(dict(name_or_index='min'), wrap_kwargs)
    if self.wrapper.grouper.is_grouped(group_by=group_by):
        return self.reduce(dispatch.min_reduce, group_by=group_by, flatten=True, engine=engine, wrap_kwargs=wrap_kwargs)
    arr = self.to_2d_array()
    if arr.dtype != int and arr.dtype != float:
        _nanmin = np.nanmin
    else:
        _nanmin = nanmin
    return self.wrapper.wrap_reduced(_nanmin(arr, axis=0), group_by=False, **wrap_kwargs)


def max__of__GenericAccessor(self, group_by=None, wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    wrap_kwargs = merge_dicts(dict(name_or_index='max'), wrap_kwargs)
    if self.wrapper.grouper.is_grouped(group_by=group_by):
        return self.reduce(dispatch.max_reduce, group_by=group_by, flatten=True, engine=engine, wrap_kwargs=wrap_kwargs)
    arr = self.to_2d_array()
    if arr.dtype != int and arr.dtype != float:
        _nanmax = np.nanmax
    else:
        _nanmax = nanmax
    return self.wrapper.wrap_reduced(_nanmax(arr, axis=0), group_by=False, **wrap_kwargs)


def mean__of__GenericAccessor(self, group_by=None, wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    wrap_kwargs = merge_dicts(dict(name_or_index='mean'), wrap_kwargs)
    if self.wrapper.grouper.is_grouped(group_by=group_by):
        return self.reduce(dispatch.mean_reduce, group_by=group_by, flatten=True, engine=engine, wrap_kwargs=wrap_kwargs)
    arr = self.to_2d_array()
    if arr.dtype != int and arr.dtype != float:
        _nanmean = np.nanmean
    else:
        _nanmean = nanmean
    return self.wrapper.wrap_reduced(_nanmean(arr, axis=0), group_by=False, **wrap_kwargs)


def median__of__GenericAccessor(self, group_by=None, wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    wrap_kwargs = merge_dicts(dict(name_or_index='median'), wrap_kwargs)
    if self.wrapper.grouper.is_grouped(group_by=group_by):
        return self.reduce(dispatch.median_reduce, group_by=group_by, flatten=True, engine=engine, wrap_kwargs=wrap_kwargs)
    arr = self.to_2d_array()
    if arr.dtype != int and arr.dtype != float:
        _nanmedian = np.nanmedian
    else:
        _nanmedian = nanmedian
    return self.wrapper.wrap_reduced(_nanmedian(arr, axis=0), group_by=False, **wrap_kwargs)


def std__of__GenericAccessor(self, ddof=1, group_by=None, wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    wrap_kwargs = merge_dicts(dict(name_or_index='std'), wrap_kwargs)
    if self.wrapper.grouper.is_grouped(group_by=group_by):
        return self.reduce(dispatch.std_reduce, ddof, group_by=group_by, flatten=True, engine=engine, wrap_kwargs=wrap_kwargs)
    arr = self.to_2d_array()
    if arr.dtype != int and arr.dtype != float:
        _nanstd = np.nanstd
    else:
        _nanstd = nanstd
    return self.wrapper.wrap_reduced(_nanstd(arr, ddof=ddof, axis=0), group_by=False, **wrap_kwargs)


def sum__of__GenericAccessor(self, group_by=None, wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    wrap_kwargs = merge_dicts(dict(name_or_index='sum'), wrap_kwargs)
    if self.wrapper.grouper.is_grouped(group_by=group_by):
        return self.reduce(dispatch.sum_reduce, group_by=group_by, flatten=True, engine=engine, wrap_kwargs=wrap_kwargs)
    arr = self.to_2d_array()
    if arr.dtype != int and arr.dtype != float:
        _nansum = np.nansum
    else:
        _nansum = nansum
    return self.wrapper.wrap_reduced(_nansum(arr, axis=0), group_by=False, **wrap_kwargs)


def count__of__GenericAccessor(self, group_by=None, wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    wrap_kwargs = merge_dicts(dict(name_or_index='count', dtype=np.int64), wrap_kwargs)
    if self.wrapper.grouper.is_grouped(group_by=group_by):
        return self.reduce(dispatch.count_reduce, group_by=group_by, flatten=True, engine=engine, wrap_kwargs=wrap_kwargs)
    return self.wrapper.wrap_reduced(np.sum(~np.isnan(self.to_2d_array()), axis=0), group_by=False, **wrap_kwargs)


def idxmin__of__GenericAccessor(self, group_by=None, order='C', wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    wrap_kwargs = merge_dicts(dict(name_or_index='idxmin'), wrap_kwargs)
    if self.wrapper.grouper.is_grouped(group_by=group_by):
        return self.reduce(dispatch.argmin_reduce, group_by=group_by, flatten=True, returns_idx=True, order=order, engine=engine, wrap_kwargs=wrap_kwargs)
    obj = self.to_2d_array()
    out = np.full(obj.shape[1], np.nan, dtype=object)
    nan_mask = np.all(np.isnan(obj), axis=0)
    out[~nan_mask] = self.wrapper.index[nanargmin(obj[:, ~nan_mask], axis=0)]
    return self.wrapper.wrap_reduced(out, group_by=False, **wrap_kwargs)


def idxmax__of__GenericAccessor(self, group_by=None, order='C', wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    wrap_kwargs = merge_dicts(dict(name_or_index='idxmax'), wrap_kwargs)
    if self.wrapper.grouper.is_grouped(group_by=group_by):
        return self.reduce(dispatch.argmax_reduce, group_by=group_by, flatten=True, returns_idx=True, order=order, engine=engine, wrap_kwargs=wrap_kwargs)
    obj = self.to_2d_array()
    out = np.full(obj.shape[1], np.nan, dtype=object)
    nan_mask = np.all(np.isnan(obj), axis=0)
    out[~nan_mask] = self.wrapper.index[nanargmax(obj[:, ~nan_mask], axis=0)]
    return self.wrapper.wrap_reduced(out, group_by=False, **wrap_kwargs)


def describe__of__GenericAccessor(self, percentiles=None, ddof=1, group_by=None, wrap_kwargs=None, engine=None):
    if int(pd.__version__.split('.')[0]) >= 3 and (not self.wrapper.grouper.is_grouped(group_by=group_by)) and (wrap_kwargs is None) and (ddof == 1):
        return self.obj.describe(percentiles=percentiles)
    if percentiles is not None:
        percentiles = reshape_fns.to_1d_array(percentiles)
    else:
        percentiles = np.array([0.25, 0.5, 0.75])
    percentiles = percentiles.tolist()
    if 0.5 not in percentiles:
        percentiles.append(0.5)
    percentiles = np.unique(percentiles)
    perc_formatted = pd.io.formats.format.format_percentiles(percentiles)
    index = pd.Index(['count', 'mean', 'std', 'min', *perc_formatted, 'max'])
    wrap_kwargs = merge_dicts(dict(name_or_index=index), wrap_kwargs)
    engine = engine if engine is not None else self.engine
    if self.wrapper.grouper.is_grouped(group_by=group_by):
        return self.reduce(dispatch.describe_reduce, percentiles, ddof, group_by=group_by, flatten=True, returns_array=True, engine=engine, wrap_kwargs=wrap_kwargs)
    return self.reduce(dispatch.describe_reduce, percentiles, ddof, group_by=False, returns_array=True, engine=engine, wrap_kwargs=wrap_kwargs)


def value_counts__of__GenericAccessor(self, normalize=False, sort_uniques=True, sort=False, ascending=False, dropna=False, group_by=None, mapping=None, incl_all_keys=False, wrap_kwargs=None, engine=None, **kwargs):
    if mapping is None:
        mapping = self.mapping
    if isinstance(mapping, str):
        if mapping.lower() == 'index':
            mapping = self.wrapper.index
        elif mapping.lower() == 'columns':
            mapping = self.wrapper.columns
        mapping = to_mapping(mapping)
    engine = engine if engine is not None else self.engine
    codes, uniques = pd.factorize(self.obj.values.flatten(), sort=False, use_na_sentinel=False)
    codes = codes.reshape(self.wrapper.shape_2d)
    group_lens = self.wrapper.grouper.get_group_lens(group_by=group_by)
    value_counts = dispatch.value_counts(codes, len(uniques), group_lens, engine=engine)
    if incl_all_keys and mapping is not None:
        missing_keys = []
        for x in mapping:
            if pd.isnull(x) and pd.isnull(uniques).any():
                continue
            if x not in uniques:
                missing_keys.append(x)
        value_counts = np.vstack((value_counts, np.full((len(missing_keys), value_counts.shape[1]), 0)))
        uniques = np.concatenate((uniques, np.array(missing_keys)))
    nan_mask = np.isnan(uniques)
    if dropna:
        value_counts = value_counts[~nan_mask]
        uniques = uniques[~nan_mask]
    if sort_uniques:
        new_indices = uniques.argsort(kind='stable')
        value_counts = value_counts[new_indices]
        uniques = uniques[new_indices]
    value_counts_sum = value_counts.sum(axis=1)
    if normalize:
        value_counts = value_counts / value_counts_sum.sum()
    if sort:
        if ascending:
            new_indices = value_counts_sum.argsort(kind='stable')
        else:
            new_indices = (-value_counts_sum).argsort(kind='stable')
        value_counts = value_counts[new_indices]
        uniques = uniques[new_indices]
    value_counts_pd = self.wrapper.wrap(value_counts, index=uniques, group_by=group_by, **merge_dicts({}, wrap_kwargs))
    if mapping is not None:
        value_counts_pd.index = apply_mapping(value_counts_pd.index, mapping, **kwargs)
    return value_counts_pd


def resolve_self__of__GenericAccessor(self, cond_kwargs=None, custom_arg_names=None, impacts_caching=True, silence_warnings=False):
    if cond_kwargs is None:
        cond_kwargs = {}
    if custom_arg_names is None:
        custom_arg_names = set()
    reself = Wrapping.resolve_self(self, cond_kwargs=cond_kwargs, custom_arg_names=custom_arg_names, impacts_caching=impacts_caching, silence_warnings=silence_warnings)
    if 'mapping' in cond_kwargs:
        self_copy = reself.replace(mapping=cond_kwargs['mapping'])
        if not checks.is_deep_equal(self_copy.mapping, reself.mapping):
            if not silence_warnings:
                warnings.warn('Changing the mapping will create a copy of this object. Consider setting it upon object creation to re-use existing cache.', stacklevel=2)
            for alias in reself.self_aliases:
                if alias not in custom_arg_names:
                    cond_kwargs[alias] = self_copy
            cond_kwargs['mapping'] = self_copy.mapping
            if impacts_caching:
                cond_kwargs['use_caching'] = False
            return self_copy
    return reself


def stats_defaults__of__GenericAccessor(self):
    from vectorbt._settings import settings
    generic_stats_cfg = settings['generic']['stats']
    return merge_dicts(StatsBuilderMixin.stats_defaults.__get__(self), generic_stats_cfg)


def _metrics__decl__of__GenericAccessor():
    return Config(dict(start=dict(title='Start', calc_func=lambda self: self.wrapper.index[0], agg_func=None, tags='wrapper'), end=dict(title='End', calc_func=lambda self: self.wrapper.index[-1], agg_func=None, tags='wrapper'), period=dict(title='Period', calc_func=lambda self: len(self.wrapper.index), apply_to_timedelta=True, agg_func=None, tags='wrapper'), count=dict(title='Count', calc_func='count', inv_check_has_mapping=True, tags=['generic', 'describe']), mean=dict(title='Mean', calc_func='mean', inv_check_has_mapping=True, tags=['generic', 'describe']), std=dict(title='Std', calc_func='std', inv_check_has_mapping=True, tags=['generic', 'describe']), min=dict(title='Min', calc_func='min', inv_check_has_mapping=True, tags=['generic', 'describe']), median=dict(title='Median', calc_func='median', inv_check_has_mapping=True, tags=['generic', 'describe']), max=dict(title='Max', calc_func='max', inv_check_has_mapping=True, tags=['generic', 'describe']), idx_min=dict(title='Min Index', calc_func='idxmin', agg_func=None, inv_check_has_mapping=True, tags=['generic', 'index']), idx_max=dict(title='Max Index', calc_func='idxmax', agg_func=None, inv_check_has_mapping=True, tags=['generic', 'index']), value_counts=dict(title='Value Counts', calc_func=lambda value_counts: reshape_fns.to_dict(value_counts, orient='index_series'), resolve_value_counts=True, check_has_mapping=True, tags=['generic', 'value_counts'])), copy_kwargs=dict(copy_mode='deep'))


def metrics__of__GenericAccessor(self):
    return self._metrics


def drawdown__of__GenericAccessor(self, wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    out = self.to_2d_array() / dispatch.expanding_max(self.to_2d_array(), engine=engine) - 1
    return self.wrapper.wrap(out, group_by=False, **merge_dicts({}, wrap_kwargs))


def ranges__of__GenericAccessor(self):
    return self.get_ranges()


def get_ranges__of__GenericAccessor(self, wrapper_kwargs=None, **kwargs):
    wrapper_kwargs = merge_dicts(self.wrapper.config, wrapper_kwargs)
    kwargs.setdefault('engine', self.engine)
    return Ranges.from_ts(self.obj, wrapper_kwargs=wrapper_kwargs, **kwargs)


def drawdowns__of__GenericAccessor(self):
    return self.get_drawdowns()


def get_drawdowns__of__GenericAccessor(self, wrapper_kwargs=None, **kwargs):
    wrapper_kwargs = merge_dicts(self.wrapper.config, wrapper_kwargs)
    kwargs.setdefault('engine', self.engine)
    return Drawdowns.from_ts(self.obj, wrapper_kwargs=wrapper_kwargs, **kwargs)


def to_mapped__of__GenericAccessor(self, dropna=True, dtype=None, group_by=None, **kwargs):
    mapped_arr = self.to_2d_array().flatten(order='F')
    col_arr = np.repeat(np.arange(self.wrapper.shape_2d[1]), self.wrapper.shape_2d[0])
    idx_arr = np.tile(np.arange(self.wrapper.shape_2d[0]), self.wrapper.shape_2d[1])
    if dropna and np.isnan(mapped_arr).any():
        not_nan_mask = ~np.isnan(mapped_arr)
        mapped_arr = mapped_arr[not_nan_mask]
        col_arr = col_arr[not_nan_mask]
        idx_arr = idx_arr[not_nan_mask]
    kwargs.setdefault('engine', self.engine)
    return MappedArray(self.wrapper, np.asarray(mapped_arr, dtype=dtype), col_arr, idx_arr=idx_arr, **kwargs).regroup(group_by)


def to_returns__of__GenericAccessor(self, **kwargs):
    return self.obj.vbt.returns.from_value(self.obj, **kwargs).obj


def crossed_above__of__GenericAccessor(self, other, wait=0, engine=None, broadcast_kwargs=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    self_obj, other_obj = reshape_fns.broadcast(self.obj, other, **resolve_dict(broadcast_kwargs))
    out = dispatch.crossed_above(reshape_fns.to_2d_array(self_obj), reshape_fns.to_2d_array(other_obj), wait=wait, engine=engine)
    return ArrayWrapper.from_obj(self_obj).wrap(out, group_by=False, **resolve_dict(wrap_kwargs))


def crossed_below__of__GenericAccessor(self, other, wait=0, engine=None, broadcast_kwargs=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    self_obj, other_obj = reshape_fns.broadcast(self.obj, other, **resolve_dict(broadcast_kwargs))
    out = dispatch.crossed_above(reshape_fns.to_2d_array(other_obj), reshape_fns.to_2d_array(self_obj), wait=wait, engine=engine)
    return ArrayWrapper.from_obj(self_obj).wrap(out, group_by=False, **resolve_dict(wrap_kwargs))


def transform__of__GenericAccessor(self, transformer, wrap_kwargs=None, **kwargs):
    is_fitted = True
    try:
        check_is_fitted(transformer)
    except NotFittedError:
        is_fitted = False
    if not is_fitted:
        result = transformer.fit_transform(self.to_2d_array(), **kwargs)
    else:
        result = transformer.transform(self.to_2d_array(), **kwargs)
    return self.wrapper.wrap(result, group_by=False, **merge_dicts({}, wrap_kwargs))


def zscore__of__GenericAccessor(self, **kwargs):
    return self.scale(with_mean=True, with_std=True, **kwargs)


def rebase__of__GenericAccessor(self, base, wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    result = dispatch.bfill(dispatch.ffill(self.to_2d_array(), engine=engine), engine=engine)
    result = result / result[0] * base
    return self.wrapper.wrap(result, group_by=False, **merge_dicts({}, wrap_kwargs))


def split__of__GenericAccessor(self, splitter, stack_kwargs=None, keys=None, plot=False, trace_names=None, heatmap_kwargs=None, **kwargs):
    total_range_sr = pd.Series(np.arange(len(self.wrapper.index)), index=self.wrapper.index)
    set_ranges = list(splitter.split(total_range_sr, **kwargs))
    if len(set_ranges) == 0:
        raise ValueError('No splits were generated')
    idxs_by_split_and_set = list(zip(*set_ranges))
    results = []
    if keys is not None:
        if not isinstance(keys, pd.Index):
            keys = pd.Index(keys)
    for idxs_by_split in idxs_by_split_and_set:
        split_dfs = []
        split_indexes = []
        for split_idx, idxs in enumerate(idxs_by_split):
            split_dfs.append(self.obj.iloc[idxs].reset_index(drop=True))
            if keys is not None:
                split_name = keys[split_idx]
            else:
                split_name = 'split_' + str(split_idx)
            split_indexes.append(pd.Index(self.wrapper.index[idxs], name=split_name))
        set_df = pd.concat(split_dfs, axis=1).reset_index(drop=True)
        if keys is not None:
            split_columns = keys
        else:
            split_columns = pd.Index(np.arange(len(split_indexes)), name='split_idx')
        split_columns = index_fns.repeat_index(split_columns, len(self.wrapper.columns))
        if stack_kwargs is None:
            stack_kwargs = {}
        set_df = set_df.vbt.stack_index(split_columns, **stack_kwargs)
        results.append((set_df, split_indexes))
    if plot:
        if trace_names is None:
            trace_names = list(range(len(results)))
        if isinstance(trace_names, str):
            trace_names = [trace_names]
        nan_df = pd.DataFrame(np.nan, columns=pd.RangeIndex(stop=len(results[0][1])), index=self.wrapper.index)
        fig = None
        for i, (_, split_indexes) in enumerate(results):
            heatmap_df = nan_df.copy()
            for j in range(len(split_indexes)):
                heatmap_df.loc[split_indexes[j], j] = i
            _heatmap_kwargs = resolve_dict(heatmap_kwargs, i=i)
            fig = heatmap_df.vbt.ts_heatmap(fig=fig, **merge_dicts(dict(trace_kwargs=dict(showscale=False, name=str(trace_names[i]), showlegend=True)), _heatmap_kwargs))
            if fig.layout.colorway is not None:
                colorway = fig.layout.colorway
            else:
                colorway = fig.layout.template.layout.colorway
            if 'colorscale' not in _heatmap_kwargs:
                fig.data[-1].update(colorscale=[colorway[i], colorway[i]])
        return fig
    if len(results) == 1:
        return results[0]
    return tuple(results)


def range_split__of__GenericAccessor(self, **kwargs):
    return self.split(RangeSplitter(), **kwargs)


def rolling_split__of__GenericAccessor(self, **kwargs):
    return self.split(RollingSplitter(), **kwargs)


def expanding_split__of__GenericAccessor(self, **kwargs):
    return self.split(ExpandingSplitter(), **kwargs)


def plot__of__GenericAccessor(self, trace_names=None, x_labels=None, return_fig=True, **kwargs):
    if x_labels is None:
        x_labels = self.wrapper.index
    if trace_names is None:
        if self.is_frame() or (self.is_series() and self.wrapper.name is not None):
            trace_names = self.wrapper.columns
    scatter = plotting.Scatter(data=self.to_2d_array(), trace_names=trace_names, x_labels=x_labels, **kwargs)
    if return_fig:
        return scatter.fig
    return scatter


def lineplot__of__GenericAccessor(self, **kwargs):
    return self.plot(**merge_dicts(dict(trace_kwargs=dict(mode='lines')), kwargs))


def scatterplot__of__GenericAccessor(self, **kwargs):
    return self.plot(**merge_dicts(dict(trace_kwargs=dict(mode='markers')), kwargs))


def barplot__of__GenericAccessor(self, trace_names=None, x_labels=None, return_fig=True, **kwargs):
    if x_labels is None:
        x_labels = self.wrapper.index
    if trace_names is None:
        if self.is_frame() or (self.is_series() and self.wrapper.name is not None):
            trace_names = self.wrapper.columns
    bar = plotting.Bar(data=self.to_2d_array(), trace_names=trace_names, x_labels=x_labels, **kwargs)
    if return_fig:
        return bar.fig
    return bar


def histplot__of__GenericAccessor(self, trace_names=None, group_by=None, return_fig=True, **kwargs):
    if self.wrapper.grouper.is_grouped(group_by=group_by):
        return self.flatten_grouped(group_by=group_by).vbt.histplot(trace_names=trace_names, **kwargs)
    if trace_names is None:
        if self.is_frame() or (self.is_series() and self.wrapper.name is not None):
            trace_names = self.wrapper.columns
    hist = plotting.Histogram(data=self.to_2d_array(), trace_names=trace_names, **kwargs)
    if return_fig:
        return hist.fig
    return hist


def boxplot__of__GenericAccessor(self, trace_names=None, group_by=None, return_fig=True, **kwargs):
    if self.wrapper.grouper.is_grouped(group_by=group_by):
        return self.flatten_grouped(group_by=group_by).vbt.boxplot(trace_names=trace_names, **kwargs)
    if trace_names is None:
        if self.is_frame() or (self.is_series() and self.wrapper.name is not None):
            trace_names = self.wrapper.columns
    box = plotting.Box(data=self.to_2d_array(), trace_names=trace_names, **kwargs)
    if return_fig:
        return box.fig
    return box


def plots_defaults__of__GenericAccessor(self):
    from vectorbt._settings import settings
    generic_plots_cfg = settings['generic']['plots']
    return merge_dicts(PlotsBuilderMixin.plots_defaults.__get__(self), generic_plots_cfg)


def _subplots__decl__of__GenericAccessor():
    return Config(dict(plot=dict(check_is_not_grouped=True, plot_func='plot', pass_trace_names=False, tags='generic')), copy_kwargs=dict(copy_mode='deep'))


def subplots__of__GenericAccessor(self):
    return self._subplots


def __init____of__GenericSRAccessor(self, obj, mapping=None, **kwargs):
    BaseSRAccessor.__init__(self, obj, **kwargs)
    GenericAccessor.__init__(self, obj, mapping=mapping, **kwargs)


def squeeze_grouped__of__GenericSRAccessor(self, squeeze_func, *args, engine=None, group_by=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    obj_frame = self.obj.to_frame().transpose()
    squeezed = obj_frame.vbt.squeeze_grouped(squeeze_func, *args, engine=engine, group_by=group_by).iloc[0]
    wrap_kwargs = merge_dicts(dict(name_or_index=self.wrapper.name), wrap_kwargs)
    return ArrayWrapper.from_obj(obj_frame).wrap_reduced(squeezed, group_by=group_by, **wrap_kwargs)


def flatten_grouped__of__GenericSRAccessor(self, group_by=None, order='C', wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    obj_frame = self.obj.to_frame().transpose()
    return obj_frame.vbt.flatten_grouped(group_by=group_by, order=order, wrap_kwargs=wrap_kwargs, engine=engine)


def plot_against__of__GenericSRAccessor(self, other, trace_kwargs=None, other_trace_kwargs=None, pos_trace_kwargs=None, neg_trace_kwargs=None, hidden_trace_kwargs=None, add_trace_kwargs=None, fig=None, **layout_kwargs):
    if trace_kwargs is None:
        trace_kwargs = {}
    if other_trace_kwargs is None:
        other_trace_kwargs = {}
    if pos_trace_kwargs is None:
        pos_trace_kwargs = {}
    if neg_trace_kwargs is None:
        neg_trace_kwargs = {}
    if hidden_trace_kwargs is None:
        hidden_trace_kwargs = {}
    obj, other = reshape_fns.broadcast(self.obj, other, columns_from='keep')
    checks.assert_instance_of(other, pd.Series)
    if fig is None:
        fig = make_figure()
    fig.update_layout(**layout_kwargs)
    pos_mask = self.obj > other
    if pos_mask.any():
        pos_obj = self.obj.copy()
        pos_obj[~pos_mask] = other[~pos_mask]
        other.vbt.plot(trace_kwargs=merge_dicts(dict(line=dict(color='rgba(0, 0, 0, 0)', width=0), opacity=0, hoverinfo='skip', showlegend=False, name=None), hidden_trace_kwargs), add_trace_kwargs=add_trace_kwargs, fig=fig)
        pos_obj.vbt.plot(trace_kwargs=merge_dicts(dict(fillcolor='rgba(0, 128, 0, 0.3)', line=dict(color='rgba(0, 0, 0, 0)', width=0), opacity=0, fill='tonexty', connectgaps=False, hoverinfo='skip', showlegend=False, name=None), pos_trace_kwargs), add_trace_kwargs=add_trace_kwargs, fig=fig)
    neg_mask = self.obj < other
    if neg_mask.any():
        neg_obj = self.obj.copy()
        neg_obj[~neg_mask] = other[~neg_mask]
        other.vbt.plot(trace_kwargs=merge_dicts(dict(line=dict(color='rgba(0, 0, 0, 0)', width=0), opacity=0, hoverinfo='skip', showlegend=False, name=None), hidden_trace_kwargs), add_trace_kwargs=add_trace_kwargs, fig=fig)
        neg_obj.vbt.plot(trace_kwargs=merge_dicts(dict(line=dict(color='rgba(0, 0, 0, 0)', width=0), fillcolor='rgba(255, 0, 0, 0.3)', opacity=0, fill='tonexty', connectgaps=False, hoverinfo='skip', showlegend=False, name=None), neg_trace_kwargs), add_trace_kwargs=add_trace_kwargs, fig=fig)
    self.plot(trace_kwargs=trace_kwargs, add_trace_kwargs=add_trace_kwargs, fig=fig)
    if other_trace_kwargs == 'hidden':
        other_trace_kwargs = dict(line=dict(color='rgba(0, 0, 0, 0)', width=0), opacity=0.0, hoverinfo='skip', showlegend=False, name=None)
    other.vbt.plot(trace_kwargs=other_trace_kwargs, add_trace_kwargs=add_trace_kwargs, fig=fig)
    return fig


def overlay_with_heatmap__of__GenericSRAccessor(self, other, trace_kwargs=None, heatmap_kwargs=None, add_trace_kwargs=None, fig=None, **layout_kwargs):
    from vectorbt._settings import settings
    plotting_cfg = settings['plotting']
    if trace_kwargs is None:
        trace_kwargs = {}
    if heatmap_kwargs is None:
        heatmap_kwargs = {}
    if add_trace_kwargs is None:
        add_trace_kwargs = {}
    obj, other = reshape_fns.broadcast(self.obj, other, columns_from='keep')
    checks.assert_instance_of(other, pd.Series)
    if fig is None:
        fig = make_subplots(specs=[[{'secondary_y': True}]])
        if 'width' in plotting_cfg['layout']:
            fig.update_layout(width=plotting_cfg['layout']['width'] + 100)
    fig.update_layout(**layout_kwargs)
    other.vbt.ts_heatmap(**heatmap_kwargs, add_trace_kwargs=add_trace_kwargs, fig=fig)
    self.plot(trace_kwargs=merge_dicts(dict(line=dict(color=plotting_cfg['color_schema']['blue'])), trace_kwargs), add_trace_kwargs=merge_dicts(dict(secondary_y=True), add_trace_kwargs), fig=fig)
    return fig


def heatmap__of__GenericSRAccessor(self, x_level=None, y_level=None, symmetric=False, sort=True, x_labels=None, y_labels=None, slider_level=None, active=0, slider_labels=None, return_fig=True, fig=None, **kwargs):
    if not isinstance(self.wrapper.index, pd.MultiIndex):
        return self.obj.to_frame().vbt.heatmap(x_labels=x_labels, y_labels=y_labels, return_fig=return_fig, fig=fig, **kwargs)
    (x_level, y_level), (slider_level,) = index_fns.pick_levels(self.wrapper.index, required_levels=(x_level, y_level), optional_levels=(slider_level,))
    x_level_vals = self.wrapper.index.get_level_values(x_level)
    y_level_vals = self.wrapper.index.get_level_values(y_level)
    x_name = x_level_vals.name if x_level_vals.name is not None else 'x'
    y_name = y_level_vals.name if y_level_vals.name is not None else 'y'
    kwargs = merge_dicts(dict(trace_kwargs=dict(hovertemplate=f'{x_name}: %{{x}}<br>' + f'{y_name}: %{{y}}<br>' + 'value: %{z}<extra></extra>'), xaxis_title=x_level_vals.name, yaxis_title=y_level_vals.name), kwargs)
    if slider_level is None:
        df = self.unstack_to_df(index_levels=y_level, column_levels=x_level, symmetric=symmetric, sort=sort)
        return df.vbt.heatmap(x_labels=x_labels, y_labels=y_labels, fig=fig, return_fig=return_fig, **kwargs)
    if not return_fig:
        raise ValueError('Cannot use return_fig=False and slider_level simultaneously')
    _slider_labels = []
    for i, (name, group) in enumerate(self.obj.groupby(level=slider_level)):
        if slider_labels is not None:
            name = slider_labels[i]
        _slider_labels.append(name)
        df = group.vbt.unstack_to_df(index_levels=y_level, column_levels=x_level, symmetric=symmetric, sort=sort)
        if x_labels is None:
            x_labels = df.columns
        if y_labels is None:
            y_labels = df.index
        _kwargs = merge_dicts(dict(trace_kwargs=dict(name=str(name) if name is not None else None, visible=False)), kwargs)
        default_size = fig is None and 'height' not in _kwargs
        fig = plotting.Heatmap(data=reshape_fns.to_2d_array(df), x_labels=x_labels, y_labels=y_labels, fig=fig, **_kwargs).fig
        if default_size:
            fig.layout['height'] += 100
    fig.data[active].visible = True
    steps = []
    for i in range(len(fig.data)):
        step = dict(method='update', args=[{'visible': [False] * len(fig.data)}, {}], label=str(_slider_labels[i]) if _slider_labels[i] is not None else None)
        step['args'][0]['visible'][i] = True
        steps.append(step)
    prefix = f'{self.wrapper.index.names[slider_level]}: ' if self.wrapper.index.names[slider_level] is not None else None
    sliders = [dict(active=active, currentvalue={'prefix': prefix}, pad={'t': 50}, steps=steps)]
    fig.update_layout(sliders=sliders)
    return fig


def ts_heatmap__of__GenericSRAccessor(self, **kwargs):
    return self.obj.to_frame().vbt.ts_heatmap(**kwargs)


def volume__of__GenericSRAccessor(self, x_level=None, y_level=None, z_level=None, x_labels=None, y_labels=None, z_labels=None, slider_level=None, slider_labels=None, active=0, scene_name='scene', fillna=None, fig=None, return_fig=True, **kwargs):
    (x_level, y_level, z_level), (slider_level,) = index_fns.pick_levels(self.wrapper.index, required_levels=(x_level, y_level, z_level), optional_levels=(slider_level,))
    x_level_vals = self.wrapper.index.get_level_values(x_level)
    y_level_vals = self.wrapper.index.get_level_values(y_level)
    z_level_vals = self.wrapper.index.get_level_values(z_level)
    if x_labels is None:
        x_labels = np.unique(x_level_vals)
    if y_labels is None:
        y_labels = np.unique(y_level_vals)
    if z_labels is None:
        z_labels = np.unique(z_level_vals)
    x_name = x_level_vals.name if x_level_vals.name is not None else 'x'
    y_name = y_level_vals.name if y_level_vals.name is not None else 'y'
    z_name = z_level_vals.name if z_level_vals.name is not None else 'z'
    def_kwargs = dict()
    def_kwargs['trace_kwargs'] = dict(hovertemplate=f'{x_name}: %{{x}}<br>' + f'{y_name}: %{{y}}<br>' + f'{z_name}: %{{z}}<br>' + 'value: %{value}<extra></extra>')
    def_kwargs[scene_name] = dict(xaxis_title=x_level_vals.name, yaxis_title=y_level_vals.name, zaxis_title=z_level_vals.name)
    def_kwargs['scene_name'] = scene_name
    kwargs = merge_dicts(def_kwargs, kwargs)
    contains_nan = False
    if slider_level is None:
        v = self.unstack_to_array(levels=(x_level, y_level, z_level))
        if fillna is not None:
            v = np.nan_to_num(v, nan=fillna)
        if np.isnan(v).any():
            contains_nan = True
        volume = plotting.Volume(data=v, x_labels=x_labels, y_labels=y_labels, z_labels=z_labels, fig=fig, **kwargs)
        if return_fig:
            fig = volume.fig
        else:
            fig = volume
    else:
        if not return_fig:
            raise ValueError('Cannot use return_fig=False and slider_level simultaneously')
        _slider_labels = []
        for i, (name, group) in enumerate(self.obj.groupby(level=slider_level)):
            if slider_labels is not None:
                name = slider_labels[i]
            _slider_labels.append(name)
            v = group.vbt.unstack_to_array(levels=(x_level, y_level, z_level))
            if fillna is not None:
                v = np.nan_to_num(v, nan=fillna)
            if np.isnan(v).any():
                contains_nan = True
            _kwargs = merge_dicts(dict(trace_kwargs=dict(name=str(name) if name is not None else None, visible=False)), kwargs)
            default_size = fig is None and 'height' not in _kwargs
            fig = plotting.Volume(data=v, x_labels=x_labels, y_labels=y_labels, z_labels=z_labels, fig=fig, **_kwargs).fig
            if default_size:
                fig.layout['height'] += 100
        fig.data[active].visible = True
        steps = []
        for i in range(len(fig.data)):
            step = dict(method='update', args=[{'visible': [False] * len(fig.data)}, {}], label=str(_slider_labels[i]) if _slider_labels[i] is not None else None)
            step['args'][0]['visible'][i] = True
            steps.append(step)
        prefix = f'{self.wrapper.index.names[slider_level]}: ' if self.wrapper.index.names[slider_level] is not None else None
        sliders = [dict(active=active, currentvalue={'prefix': prefix}, pad={'t': 50}, steps=steps)]
        fig.update_layout(sliders=sliders)
    if contains_nan:
        warnings.warn('Data contains NaNs. Use `fillna` argument or `show` method in case of visualization issues.', stacklevel=2)
    return fig


def qqplot__of__GenericSRAccessor(self, sparams=(), dist='norm', plot_line=True, line_shape_kwargs=None, xref='x', yref='y', fig=None, **kwargs):
    qq = stats.probplot(self.obj, sparams=sparams, dist=dist)
    fig = pd.Series(qq[0][1], index=qq[0][0]).vbt.scatterplot(fig=fig, **kwargs)
    if plot_line:
        if line_shape_kwargs is None:
            line_shape_kwargs = {}
        x = np.array([qq[0][0][0], qq[0][0][-1]])
        y = qq[1][1] + qq[1][0] * x
        fig.add_shape(**merge_dicts(dict(type='line', xref=xref, yref=yref, x0=x[0], y0=y[0], x1=x[1], y1=y[1], line=dict(color='red')), line_shape_kwargs))
    return fig


def __init____of__GenericDFAccessor(self, obj, mapping=None, **kwargs):
    BaseDFAccessor.__init__(self, obj, **kwargs)
    GenericAccessor.__init__(self, obj, mapping=mapping, **kwargs)


def squeeze_grouped__of__GenericDFAccessor(self, squeeze_func, *args, engine=None, group_by=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if not self.wrapper.grouper.is_grouped(group_by=group_by):
        raise ValueError('Grouping required')
    checks.assert_engine_func(squeeze_func, engine=engine, func_suffix='_squeeze')
    group_lens = self.wrapper.grouper.get_group_lens(group_by=group_by)
    out = dispatch.squeeze_grouped(self.to_2d_array(), group_lens, squeeze_func, *args, engine=engine)
    return self.wrapper.wrap(out, group_by=group_by, **merge_dicts({}, wrap_kwargs))


def flatten_grouped__of__GenericDFAccessor(self, group_by=None, order='C', wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    if not self.wrapper.grouper.is_grouped(group_by=group_by):
        raise ValueError('Grouping required')
    checks.assert_in(order.upper(), ['C', 'F'])
    group_lens = self.wrapper.grouper.get_group_lens(group_by=group_by)
    if np.all(group_lens == group_lens.item(0)):
        func = dispatch.flatten_uniform_grouped
    else:
        func = dispatch.flatten_grouped
    if order.upper() == 'C':
        out = func(self.to_2d_array(), group_lens, True, engine=engine)
        new_index = index_fns.repeat_index(self.wrapper.index, np.max(group_lens))
    else:
        out = func(self.to_2d_array(), group_lens, False, engine=engine)
        new_index = index_fns.tile_index(self.wrapper.index, np.max(group_lens))
    wrap_kwargs = merge_dicts(dict(index=new_index), wrap_kwargs)
    return self.wrapper.wrap(out, group_by=group_by, **wrap_kwargs)


def heatmap__of__GenericDFAccessor(self, x_labels=None, y_labels=None, return_fig=True, **kwargs):
    if x_labels is None:
        x_labels = self.wrapper.columns
    if y_labels is None:
        y_labels = self.wrapper.index
    heatmap = plotting.Heatmap(data=self.to_2d_array(), x_labels=x_labels, y_labels=y_labels, **kwargs)
    if return_fig:
        return heatmap.fig
    return heatmap


def ts_heatmap__of__GenericDFAccessor(self, is_y_category=True, **kwargs):
    return self.obj.transpose().iloc[::-1].vbt.heatmap(is_y_category=is_y_category, **kwargs)
