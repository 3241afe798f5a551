"""Reviewed reference definitions of vectorbt.data.base (functions as name__ref, methods as name__of__Class)."""
import warnings
import numpy as np
import pandas as pd
from vectorbt import _typing as tp
from vectorbt.base.array_wrapper import ArrayWrapper, Wrapping
from vectorbt.generic import plotting
from vectorbt.generic.plots_builder import PlotsBuilderMixin
from vectorbt.generic.stats_builder import StatsBuilderMixin
from vectorbt.utils import checks
from vectorbt.utils.config import merge_dicts, Config
from vectorbt.utils.datetime_ import is_tz_aware, to_timezone
from vectorbt.utils.decorators import cached_method
from vectorbt.data.base import symbol_dict, MetaData, DataT, Data


def __init____of__Data(self, wrapper, data, tz_localize, tz_convert, missing_index, missing_columns, download_kwargs, **kwargs):
    Wrapping.__init__(self, wrapper, data=data, tz_localize=tz_localize, tz_convert=tz_convert, missing_index=missing_index, missing_columns=missing_columns, download_kwargs=download_kwargs, **kwargs)
    StatsBuilderMixin.__init__(self)
    PlotsBuilderMixin.__init__(self)
    checks.assert_instance_of(data, dict)
    for k, v in data.items():
        checks.assert_meta_equal(v, data[list(data.keys())[0]])
    self._data = data
    self._tz_localize = tz_localize
    self._tz_convert = tz_convert
    self._missing_index = missing_index
    self._missing_columns = missing_columns
    self._download_kwargs = download_kwargs


def indexing_func__of__Data(self, pd_indexing_func, **kwargs):
    new_wrapper = pd_indexing_func(self.wrapper)
    new_data = {k: pd_indexing_func(v) for k, v in self.data.items()}
    return self.replace(wrapper=new_wrapper, data=new_data)


def data__of__Data(self):
    return self._data


def symbols__of__Data(self):
    return list(self.data.keys())


def tz_localize__of__Data(self):
    return self._tz_localize


def tz_convert__of__Data(self):
    return self._tz_convert


def missing_index__of__Data(self):
    return self._missing_index


def missing_columns__of__Data(self):
    return self._missing_columns


def download_kwargs__of__Data(self):
    return self._download_kwargs


@classmethod
def align_index__of__Data(cls, data, missing='nan'):
    if len(data) == 1:
        return data
    index = None
    for k, v in data.items():
        if index is None:
            index = v.index
        elif len(index.intersection(v.index)) != len(index.union(v.index)):
            if missing == 'nan':
                warnings.warn('Symbols have mismatching index. Setting missing data points to NaN.', stacklevel=2)
                index = index.union(v.index)
            elif missing == 'drop':
                warnings.warn('Symbols have mismatching index. Dropping missing data points.', stacklevel=2)
                index = index.intersection(v.index)
            elif missing == 'raise':
                raise ValueError('Symbols have mismatching index')
            else:
                raise ValueError(f"missing='{missing}' is not recognized")
    new_data = {k: v.reindex(index=index) for k, v in data.items()}
    return new_data


@classmethod
def align_columns__of__Data(cls, data, missing='raise'):
    if len(data) == 1:
        return data
    columns = None
    multiple_columns = False
    name_is_none = False
    for k, v in data.items():
        if isinstance(v, pd.Series):
            if v.name is None:
                name_is_none = True
            v = v.to_frame()
        else:
            multiple_columns = True
        if columns is None:
            columns = v.columns
        elif len(columns.intersection(v.columns)) != len(columns.union(v.columns)):
            if missing == 'nan':
                warnings.warn('Symbols have mismatching columns. Setting missing data points to NaN.', stacklevel=2)
                columns = columns.union(v.columns)
            elif missing == 'drop':
                warnings.warn('Symbols have mismatching columns. Dropping missing data points.', stacklevel=2)
                columns = columns.intersection(v.columns)
            elif missing == 'raise':
                raise ValueError('Symbols have mismatching columns')
            else:
                raise ValueError(f"missing='{missing}' is not recognized")
    new_data = {}
    for k, v in data.items():
        if isinstance(v, pd.Series):
            v = v.to_frame()
        v = v.reindex(columns=columns)
        if not multiple_columns:
            v = v[columns[0]]
            if name_is_none:
                v = v.rename(None)
        new_data[k] = v
    return new_data


@classmethod
def select_symbol_kwargs__of__Data(cls, symbol, kwargs):
    _kwargs = dict()
    for k, v in kwargs.items():
        if isinstance(v, symbol_dict):
            if symbol in v:
                _kwargs[k] = v[symbol]
        else:
            _kwargs[k] = v
    return _kwargs


@classmethod
def from_data__of__Data(cls, data, tz_localize=None, tz_convert=None, missing_index=None, missing_columns=None, wrapper_kwargs=None, **kwargs):
    from vectorbt._settings import settings
    data_cfg = settings['data']
    if tz_localize is None:
        tz_localize = data_cfg['tz_localize']
    if tz_convert is None:
        tz_convert = data_cfg['tz_convert']
    if missing_index is None:
        missing_index = data_cfg['missing_index']
    if missing_columns is None:
        missing_columns = data_cfg['missing_columns']
    if wrapper_kwargs is None:
        wrapper_kwargs = {}
    data = data.copy()
    for k, v in data.items():
        if not isinstance(v, (pd.Series, pd.DataFrame)):
            v = np.asarray(v)
            if v.ndim == 1:
                v = pd.Series(v)
            else:
                v = pd.DataFrame(v)
        if isinstance(v.index, pd.DatetimeIndex):
            if tz_localize is not None:
                if not is_tz_aware(v.index):
                    v = v.tz_localize(to_timezone(tz_localize))
            if tz_convert is not None:
                v = v.tz_convert(to_timezone(tz_convert))
            v = v.set_axis(v.index.copy(deep=True))
            v.index.freq = v.index.inferred_freq
        data[k] = v
    data = cls.align_index(data, missing=missing_index)
    data = cls.align_columns(data, missing=missing_columns)
    symbols = list(data.keys())
    wrapper = ArrayWrapper.from_obj(data[symbols[0]], **wrapper_kwargs)
    return cls(wrapper, data, tz_localize=tz_localize, tz_convert=tz_convert, missing_index=missing_index, missing_columns=missing_columns, **kwargs)


@classmethod
def download_symbol__of__Data(cls, symbol, **kwargs):
    raise NotImplementedError


@classmethod
def download__of__Data(cls, symbols, tz_localize=None, tz_convert=None, missing_index=None, missing_columns=None, wrapper_kwargs=None, **kwargs):
    if checks.is_hashable(symbols):
        symbols = [symbols]
    elif not checks.is_sequence(symbols):
        raise TypeError('Symbols must be either hashable or sequence of hashable')
    data = dict()
    for s in symbols:
        _kwargs = cls.select_symbol_kwargs(s, kwargs)
        data[s] = cls.download_symbol(s, **_kwargs)
    return cls.from_data(data, tz_localize=tz_localize, tz_convert=tz_convert, missing_index=missing_index, missing_columns=missing_columns, wrapper_kwargs=wrapper_kwargs, download_kwargs=kwargs)


def update_symbol__of__Data(self, symbol, **kwargs):
    raise NotImplementedError


def update__of__Data(self, **kwargs):
    new_data = dict()
    for k, v in self.data.items():
        _kwargs = self.select_symbol_kwargs(k, kwargs)
        new_obj = self.update_symbol(k, **_kwargs)
        if not isinstance(new_obj, (pd.Series, pd.DataFrame)):
            new_obj = np.asarray(new_obj)
            index = pd.RangeIndex(start=v.index[-1], stop=v.index[-1] + new_obj.shape[0], step=1)
            if new_obj.ndim == 1:
                new_obj = pd.Series(new_obj, index=index)
            else:
                new_obj = pd.DataFrame(new_obj, index=index)
        if isinstance(new_obj.index, pd.DatetimeIndex):
            if self.tz_localize is not None:
                if not is_tz_aware(new_obj.index):
                    new_obj = new_obj.tz_localize(to_timezone(self.tz_localize))
            if self.tz_convert is not None:
                new_obj = new_obj.tz_convert(to_timezone(self.tz_convert))
        new_data[k] = new_obj
    fetched_index = {k: v.index for k, v in new_data.items()}
    new_data = self.align_index(new_data, missing=self.missing_index)
    new_data = self.align_columns(new_data, missing=self.missing_columns)
    for k, v in new_data.items():
        if isinstance(self.data[k], pd.Series):
            if isinstance(v, pd.DataFrame):
                v = v[self.data[k].name]
        else:
            v = v[self.data[k].columns]
        v = v[v.index.isin(fetched_index[k]) | ~v.index.isin(self.data[k].index)]
        v = pd.concat((self.data[k], v), axis=0)
        v = v[~v.index.duplicated(keep='last')]
        if isinstance(v.index, pd.DatetimeIndex):
            v.index.freq = v.index.inferred_freq
        new_data[k] = v
    new_index = new_data[self.symbols[0]].index
    return self.replace(wrapper=self.wrapper.replace(index=new_index), data=new_data)


def concat__of__Data(self, level_name='symbol'):
    first_data = self.data[self.symbols[0]]
    index = first_data.index
    if isinstance(first_data, pd.Series):
        columns = pd.Index([first_data.name])
    else:
        columns = first_data.columns
    if len(self.symbols) > 1:
        new_data = {c: pd.DataFrame(index=index, columns=pd.Index(self.symbols, name=level_name)) for c in columns}
    else:
        new_data = {c: pd.Series(index=index, name=self.symbols[0]) for c in columns}
    for c in columns:
        for s in self.symbols:
            if isinstance(self.data[s], pd.Series):
                col_data = self.data[s]
            else:
                col_data = self.data[s][c]
            if len(self.symbols) > 1:
                new_data[c].loc[:, s] = col_data
            else:
                new_data[c].loc[:] = col_data
    for c in columns:
        new_data[c] = new_data[c].infer_objects()
    return new_data


def get__of__Data(self, column=None, **kwargs):
    if len(self.symbols) == 1:
        if column is None:
            return self.data[self.symbols[0]]
        return self.data[self.symbols[0]][column]
    concat_data = self.concat(**kwargs)
    if len(concat_data) == 1:
        single_data = tuple(concat_data.values())[0]
        if column is not None:
            if isinstance(column, list):
                if isinstance(single_data, pd.DataFrame) and all((c in single_data.columns for c in column)):
                    return single_data[column]
            elif isinstance(single_data, pd.DataFrame) and column in single_data.columns:
                return single_data[column]
        return single_data
    if column is not None:
        if isinstance(column, list):
            return tuple([concat_data[c] for c in column])
        return concat_data[column]
    return tuple(concat_data.values())


def stats_defaults__of__Data(self):
    from vectorbt._settings import settings
    data_stats_cfg = settings['data']['stats']
    return merge_dicts(StatsBuilderMixin.stats_defaults.__get__(self), data_stats_cfg)


def _metrics__decl__of__Data():
    return Config(dict(start=dict(title='Start', calc_func=lambda self: self.wrapper.index[0], agg_func=None, tags='wrapper'), end=dict(title='End', calc_func=lambda self: self.wrapper.index[-1], agg_func=None, tags='wrapper'), period=dict(title='Period', calc_func=lambda self: len(self.wrapper.index), apply_to_timedelta=True, agg_func=None, tags='wrapper'), total_symbols=dict(title='Total Symbols', calc_func=lambda self: len(self.symbols), agg_func=None, tags='data'), null_counts=dict(title='Null Counts', calc_func=lambda self, group_by: {k: v.isnull().vbt(wrapper=self.wrapper).sum(group_by=group_by) for k, v in self.data.items()}, tags='data')), copy_kwargs=dict(copy_mode='deep'))


def metrics__of__Data(self):
    return self._metrics


def plot__of__Data(self, column=None, base=None, **kwargs):
    self_col = self.select_one(column=column, group_by=False)
    data = self_col.get()
    if base is not None:
        data = data.vbt.rebase(base)
    return data.vbt.plot(**kwargs)


def plots_defaults__of__Data(self):
    from vectorbt._settings import settings
    data_plots_cfg = settings['data']['plots']
    return merge_dicts(PlotsBuilderMixin.plots_defaults.__get__(self), data_plots_cfg)


def _subplots__decl__of__Data():
    return Config(dict(plot=dict(check_is_not_grouped=True, plot_func='plot', pass_add_trace_kwargs=True, tags='data')), copy_kwargs=dict(copy_mode='deep'))


def subplots__of__Data(self):
    return self._subplots
