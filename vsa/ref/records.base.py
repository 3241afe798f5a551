"""Reviewed reference definitions of vectorbt.records.base (functions as name__ref, methods as name__of__Class)."""
import inspect
import string
import numpy as np
import pandas as pd
from vectorbt import _typing as tp
from vectorbt.base.array_wrapper import ArrayWrapper, Wrapping
from vectorbt.base.reshape_fns import to_1d_array
from vectorbt.generic.plots_builder import PlotsBuilderMixin
from vectorbt.generic.stats_builder import StatsBuilderMixin
from vectorbt.records import dispatch, nb
from vectorbt.records.col_mapper import ColumnMapper
from vectorbt.records.mapped_array import MappedArray
from vectorbt.utils import checks
from vectorbt.utils.attr_ import get_dict_attr
from vectorbt.utils.config import merge_dicts, Config, Configured
from vectorbt.utils.decorators import cached_method
from vectorbt.records.base import RecordsT, IndexingMetaT, MetaFields, RecordsWithFields, MetaRecords, Records


def field_config__of__MetaFields(cls):
    return cls._field_config


def field_config__of__RecordsWithFields(self):
    return self._field_config


def _field_config__decl__of__Records():
    return Config(dict(dtype=None, settings=dict(id=dict(name='id', title='Id'), col=dict(name='col', title='Column', mapping='columns'), idx=dict(name='idx', title='Timestamp', mapping='index'))), readonly=True, as_attrs=False)


def field_config__of__Records(self):
    return self._field_config


def __init____of__Records(self, wrapper, records_arr, col_mapper=None, engine=None, **kwargs):
    Wrapping.__init__(self, wrapper, records_arr=records_arr, col_mapper=col_mapper, engine=engine, **kwargs)
    StatsBuilderMixin.__init__(self)
    records_arr = np.asarray(records_arr)
    checks.assert_not_none(records_arr.dtype.fields)
    field_names = {dct.get('name', field_name) for field_name, dct in self.field_config.get('settings', {}).items()}
    dtype = self.field_config.get('dtype', None)
    if dtype is not None:
        for field in dtype.names:
            if field not in records_arr.dtype.names:
                if field not in field_names:
                    raise TypeError(f"Field '{field}' from {dtype} cannot be found in records or config")
    self._records_arr = records_arr
    self._engine = engine
    if col_mapper is None:
        col_mapper = ColumnMapper(wrapper, self.col_arr, engine=engine)
    self._col_mapper = col_mapper


def engine__of__Records(self):
    return self._engine


def replace__of__Records(self, **kwargs):
    if self.config.get('col_mapper', None) is not None:
        if 'wrapper' in kwargs:
            if self.wrapper is not kwargs.get('wrapper'):
                kwargs['col_mapper'] = None
        if 'records_arr' in kwargs:
            if self.records_arr is not kwargs.get('records_arr'):
                kwargs['col_mapper'] = None
    return Configured.replace(self, **kwargs)


def get_by_col_idxs__of__Records(self, col_idxs, engine=None):
    engine = engine if engine is not None else self.engine
    if self.col_mapper.is_sorted(engine=engine):
        new_records_arr = dispatch.record_col_range_select(self.values, self.col_mapper.col_range, to_1d_array(col_idxs), engine=engine)
    else:
        new_records_arr = dispatch.record_col_map_select(self.values, self.col_mapper.col_map, to_1d_array(col_idxs), engine=engine)
    return new_records_arr


def indexing_func_meta__of__Records(self, pd_indexing_func, **kwargs):
    new_wrapper, _, group_idxs, col_idxs = self.wrapper.indexing_func_meta(pd_indexing_func, column_only_select=True, **kwargs)
    new_records_arr = self.get_by_col_idxs(col_idxs, engine=self.engine)
    return (new_wrapper, new_records_arr, group_idxs, col_idxs)


def indexing_func__of__Records(self, pd_indexing_func, **kwargs):
    new_wrapper, new_records_arr, _, _ = self.indexing_func_meta(pd_indexing_func, **kwargs)
    return self.replace(wrapper=new_wrapper, records_arr=new_records_arr)


def records_arr__of__Records(self):
    return self._records_arr


def values__of__Records(self):
    return self.records_arr


def __len____of__Records(self):
    return len(self.values)


def records__of__Records(self):
    return pd.DataFrame.from_records(self.values)


def recarray__of__Records(self):
    return self.values.view(np.recarray)


def col_mapper__of__Records(self):
    return self._col_mapper


def records_readable__of__Records(self):
    df = self.records.copy()
    field_settings = self.field_config.get('settings', {})
    for col_name in df.columns:
        if col_name in field_settings:
            dct = field_settings[col_name]
            if dct.get('ignore', False):
                df = df.drop(columns=col_name)
                continue
            field_name = dct.get('name', col_name)
            if 'title' in dct:
                title = dct['title']
                new_columns = dict()
                new_columns[field_name] = title
                df.rename(columns=new_columns, inplace=True)
            else:
                title = field_name
            if 'mapping' in dct:
                if isinstance(dct['mapping'], str) and dct['mapping'] == 'index':
                    df[title] = self.get_map_field_to_index(col_name)
                else:
                    df[title] = pd.Series(self.get_apply_mapping_arr(col_name), index=df.index, dtype=object)
    return df


def get_field_setting__of__Records(self, field, setting, default=None):
    return self.field_config.get('settings', {}).get(field, {}).get(setting, default)


def get_field_name__of__Records(self, field):
    return self.get_field_setting(field, 'name', field)


def get_field_title__of__Records(self, field):
    return self.get_field_setting(field, 'title', field)


def get_field_mapping__of__Records(self, field):
    return self.get_field_setting(field, 'mapping', None)


def get_field_arr__of__Records(self, field):
    return self.values[self.get_field_name(field)]


def get_map_field__of__Records(self, field, **kwargs):
    return self.map_field(self.get_field_name(field), mapping=self.get_field_mapping(field), **kwargs)


def get_apply_mapping_arr__of__Records(self, field, **kwargs):
    return self.get_map_field(field, **kwargs).apply_mapping().values


def get_map_field_to_index__of__Records(self, field, **kwargs):
    return self.get_map_field(field, **kwargs).to_index()


def id_arr__of__Records(self):
    return self.values[self.get_field_name('id')]


def col_arr__of__Records(self):
    return self.values[self.get_field_name('col')]


def idx_arr__of__Records(self):
    idx_field_name = self.get_field_name('idx')
    if idx_field_name is None:
        return None
    return self.values[idx_field_name]


def is_sorted__of__Records(self, incl_id=False, engine=None):
    engine = engine if engine is not None else self.engine
    if incl_id:
        return dispatch.is_col_idx_sorted(self.col_arr, self.id_arr, engine=engine)
    return dispatch.is_col_sorted(self.col_arr, engine=engine)


def sort__of__Records(self, incl_id=False, group_by=None, engine=None, **kwargs):
    engine = engine if engine is not None else self.engine
    if self.is_sorted(incl_id=incl_id, engine=engine):
        return self.replace(**kwargs).regroup(group_by)
    if incl_id:
        ind = np.lexsort((self.id_arr, self.col_arr))
    else:
        ind = np.argsort(self.col_arr, kind='stable')
    return self.replace(records_arr=self.values[ind], **kwargs).regroup(group_by)


def apply_mask__of__Records(self, mask, group_by=None, **kwargs):
    mask_indices = np.flatnonzero(mask)
    return self.replace(records_arr=np.take(self.values, mask_indices), **kwargs).regroup(group_by)


def map_array__of__Records(self, a, idx_arr=None, mapping=None, group_by=None, **kwargs):
    if not isinstance(a, np.ndarray):
        a = np.asarray(a)
    checks.assert_shape_equal(a, self.values)
    if idx_arr is None:
        idx_arr = self.idx_arr
    return MappedArray(self.wrapper, a, self.col_arr, id_arr=self.id_arr, idx_arr=idx_arr, mapping=mapping, col_mapper=self.col_mapper, engine=self.engine, **kwargs).regroup(group_by)


def map_field__of__Records(self, field, **kwargs):
    mapped_arr = self.values[field]
    return self.map_array(mapped_arr, **kwargs)


def map__of__Records(self, map_func_nb, *args, dtype=None, **kwargs):
    checks.assert_numba_func(map_func_nb)
    mapped_arr = nb.map_records_nb(self.values, map_func_nb, *args)
    mapped_arr = np.asarray(mapped_arr, dtype=dtype)
    return self.map_array(mapped_arr, **kwargs)


def apply__of__Records(self, apply_func_nb, *args, group_by=None, apply_per_group=False, dtype=None, **kwargs):
    checks.assert_numba_func(apply_func_nb)
    if apply_per_group:
        col_map = self.col_mapper.get_col_map(group_by=group_by)
    else:
        col_map = self.col_mapper.get_col_map(group_by=False)
    mapped_arr = nb.apply_on_records_nb(self.values, col_map, apply_func_nb, *args)
    mapped_arr = np.asarray(mapped_arr, dtype=dtype)
    return self.map_array(mapped_arr, group_by=group_by, **kwargs)


def count__of__Records(self, group_by=None, wrap_kwargs=None):
    wrap_kwargs = merge_dicts(dict(name_or_index='count'), wrap_kwargs)
    return self.wrapper.wrap_reduced(self.col_mapper.get_col_map(group_by=group_by)[1], group_by=group_by, **wrap_kwargs)


def stats_defaults__of__Records(self):
    from vectorbt._settings import settings
    records_stats_cfg = settings['records']['stats']
    return merge_dicts(StatsBuilderMixin.stats_defaults.__get__(self), records_stats_cfg)


def _metrics__decl__of__Records():
    return Config(dict(start=dict(title='Start', calc_func=lambda self: self.wrapper.index[0], agg_func=None, tags='wrapper'), end=dict(title='End', calc_func=lambda self: self.wrapper.index[-1], agg_func=None, tags='wrapper'), period=dict(title='Period', calc_func=lambda self: len(self.wrapper.index), apply_to_timedelta=True, agg_func=None, tags='wrapper'), count=dict(title='Count', calc_func='count', tags='records')), copy_kwargs=dict(copy_mode='deep'))


def metrics__of__Records(self):
    return self._metrics


def plots_defaults__of__Records(self):
    from vectorbt._settings import settings
    records_plots_cfg = settings['records']['plots']
    return merge_dicts(PlotsBuilderMixin.plots_defaults.__get__(self), records_plots_cfg)


def subplots__of__Records(self):
    return self._subplots


@classmethod
def build_field_config_doc__of__Records(cls, source_cls=None):
    if source_cls is None:
        source_cls = Records
    return string.Template(inspect.cleandoc(get_dict_attr(source_cls, 'field_config').__doc__)).substitute({'field_config': cls.field_config.to_doc(), 'cls_name': cls.__name__})


@classmethod
def override_field_config_doc__of__Records(cls, __pdoc__, source_cls=None):
    __pdoc__[cls.__name__ + '.field_config'] = cls.build_field_config_doc(source_cls=source_cls)
