"""Reviewed reference definitions of vectorbt.base.indexing (functions as name__ref, methods as name__of__Class)."""
import numpy as np
import pandas as pd
from pandas.api.types import is_object_dtype, is_string_dtype
from vectorbt import _typing as tp
from vectorbt.base import index_fns, reshape_fns
from vectorbt.utils import checks
from vectorbt.base.indexing import IndexingError, IndexingBaseT, IndexingBase, LocBase, iLoc, Loc, PandasIndexerT, PandasIndexer, _normalize_numpy_scalars, ParamLoc, indexing_on_mapper, build_param_indexer


def indexing_func__of__IndexingBase(self, pd_indexing_func, **kwargs):
    raise NotImplementedError


def __init____of__LocBase(self, indexing_func, **kwargs):
    self._indexing_func = indexing_func
    self._indexing_kwargs = kwargs


def indexing_func__of__LocBase(self):
    return self._indexing_func


def indexing_kwargs__of__LocBase(self):
    return self._indexing_kwargs


def __getitem____of__LocBase(self, key):
    raise NotImplementedError


def __getitem____of__iLoc(self, key):
    return self.indexing_func(lambda x: x.iloc.__getitem__(key), **self.indexing_kwargs)


def __getitem____of__Loc(self, key):
    return self.indexing_func(lambda x: x.loc.__getitem__(key), **self.indexing_kwargs)


def __init____of__PandasIndexer(self, **kwargs):
    self._iloc = iLoc(self.indexing_func, **kwargs)
    self._loc = Loc(self.indexing_func, **kwargs)
    self._indexing_kwargs = kwargs


def indexing_kwargs__of__PandasIndexer(self):
    return self._indexing_kwargs


def iloc__of__PandasIndexer(self):
    return self._iloc


def loc__of__PandasIndexer(self):
    return self._loc


def xs__of__PandasIndexer(self, *args, **kwargs):
    return self.indexing_func(lambda x: x.xs(*args, **kwargs), **self.indexing_kwargs)


def __getitem____of__PandasIndexer(self, key):
    return self.indexing_func(lambda x: x.__getitem__(key), **self.indexing_kwargs)


def _normalize_numpy_scalars__ref(obj):
    if isinstance(obj, tuple):
        return tuple((_normalize_numpy_scalars(x) for x in obj))
    elif isinstance(obj, np.generic):
        return obj.item()
    return obj


def __init____of__ParamLoc(self, mapper, indexing_func, level_name=None, **kwargs):
    checks.assert_instance_of(mapper, pd.Series)
    if is_object_dtype(mapper.dtype):
        mapper = mapper.apply(_normalize_numpy_scalars).astype(str)
    self._mapper = mapper
    self._level_name = level_name
    LocBase.__init__(self, indexing_func, **kwargs)


def mapper__of__ParamLoc(self):
    return self._mapper


def level_name__of__ParamLoc(self):
    return self._level_name


def get_indices__of__ParamLoc(self, key):
    if is_object_dtype(self.mapper.dtype) or is_string_dtype(self.mapper.dtype):
        if isinstance(key, slice):
            start = str(_normalize_numpy_scalars(key.start)) if key.start is not None else None
            stop = str(_normalize_numpy_scalars(key.stop)) if key.stop is not None else None
            key = slice(start, stop, key.step)
        elif isinstance(key, (list, np.ndarray)):
            key = list(map(lambda x: str(_normalize_numpy_scalars(x)), key))
        else:
            key = str(_normalize_numpy_scalars(key))
    mapper = pd.Series(np.arange(len(self.mapper.index)), index=self.mapper.values)
    if isinstance(key, (slice, list, np.ndarray)):
        indices = mapper.loc.__getitem__(key)
    else:
        indices = mapper.loc[[key]]
    if isinstance(indices, pd.Series):
        indices = indices.values
    return indices


def __getitem____of__ParamLoc(self, key):
    indices = self.get_indices(key)
    is_multiple = isinstance(key, (slice, list, np.ndarray))

    def pd_indexing_func(obj):
        new_obj = obj.iloc[:, indices]
        if not is_multiple:
            if self.level_name is not None:
                if checks.is_frame(new_obj):
                    if isinstance(new_obj.columns, pd.MultiIndex):
                        new_obj.columns = index_fns.drop_levels(new_obj.columns, self.level_name)
        return new_obj
    return self.indexing_func(pd_indexing_func, **self.indexing_kwargs)


def indexing_on_mapper__ref(mapper, ref_obj, pd_indexing_func):
    checks.assert_instance_of(mapper, pd.Series)
    checks.assert_instance_of(ref_obj, (pd.Series, pd.DataFrame))
    df_range_mapper = reshape_fns.broadcast_to(np.arange(len(mapper.index)), ref_obj)
    loced_range_mapper = pd_indexing_func(df_range_mapper)
    new_mapper = mapper.iloc[loced_range_mapper.values[0]]
    if checks.is_frame(loced_range_mapper):
        return pd.Series(new_mapper.values, index=loced_range_mapper.columns, name=mapper.name)
    elif checks.is_series(loced_range_mapper):
        return pd.Series([new_mapper], index=[loced_range_mapper.name], name=mapper.name)
    return None


def build_param_indexer__ref(param_names, class_name='ParamIndexer', module_name=None):

    class ParamIndexer(IndexingBase):

        def __init__(self, param_mappers, level_names=None, **kwargs):
            checks.assert_len_equal(param_names, param_mappers)
            for i, param_name in enumerate(param_names):
                level_name = level_names[i] if level_names is not None else None
                _param_loc = ParamLoc(param_mappers[i], self.indexing_func, level_name=level_name, **kwargs)
                setattr(self, f'_{param_name}_loc', _param_loc)
    for i, param_name in enumerate(param_names):

        def param_loc(self, _param_name=param_name):
            return getattr(self, f'_{_param_name}_loc')
        param_loc.__doc__ = f'Access a group of columns by parameter `{param_name}` using `pd.Series.loc`.\n        \n        Forwards this operation to each Series/DataFrame and returns a new class instance.\n        '
        setattr(ParamIndexer, param_name + '_loc', property(param_loc))
    ParamIndexer.__name__ = class_name
    ParamIndexer.__qualname__ = class_name
    if module_name is not None:
        ParamIndexer.__module__ = module_name
    return ParamIndexer
