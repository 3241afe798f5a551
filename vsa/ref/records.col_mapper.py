"""Reviewed reference definitions of vectorbt.records.col_mapper (functions as name__ref, methods as name__of__Class)."""
from vectorbt import _typing as tp
from vectorbt.base.array_wrapper import ArrayWrapper, Wrapping
from vectorbt.base.reshape_fns import to_1d_array
from vectorbt.records import dispatch
from vectorbt.utils.decorators import cached_property, cached_method
from vectorbt.records.col_mapper import ColumnMapper


def __init____of__ColumnMapper(self, wrapper, col_arr, engine=None, **kwargs):
    Wrapping.__init__(self, wrapper, col_arr=col_arr, engine=engine, **kwargs)
    self._wrapper = wrapper
    self._col_arr = col_arr
    self._engine = engine


def engine__of__ColumnMapper(self):
    return self._engine


def _col_idxs_meta__of__ColumnMapper(self, col_idxs, engine=None):
    engine = engine if engine is not None else self.engine
    if self.is_sorted(engine=engine):
        new_indices, new_col_arr = dispatch.col_range_select(self.col_range, to_1d_array(col_idxs), engine=engine)
    else:
        new_indices, new_col_arr = dispatch.col_map_select(self.col_map, to_1d_array(col_idxs), engine=engine)
    return (new_indices, new_col_arr)


def wrapper__of__ColumnMapper(self):
    return self._wrapper


def col_arr__of__ColumnMapper(self):
    return self._col_arr


def get_col_arr__of__ColumnMapper(self, group_by=None):
    group_arr = self.wrapper.grouper.get_groups(group_by=group_by)
    if group_arr is not None:
        col_arr = group_arr[self.col_arr]
    else:
        col_arr = self.col_arr
    return col_arr


def col_range__of__ColumnMapper(self):
    return dispatch.col_range(self.col_arr, len(self.wrapper.columns), engine=self.engine)


def get_col_range__of__ColumnMapper(self, group_by=None, engine=None):
    engine = engine if engine is not None else self.engine
    if not self.wrapper.grouper.is_grouped(group_by=group_by):
        return self.col_range
    col_arr = self.get_col_arr(group_by=group_by)
    columns = self.wrapper.get_columns(group_by=group_by)
    return dispatch.col_range(col_arr, len(columns), engine=engine)


def col_map__of__ColumnMapper(self):
    return dispatch.col_map(self.col_arr, len(self.wrapper.columns), engine=self.engine)


def get_col_map__of__ColumnMapper(self, group_by=None, engine=None):
    engine = engine if engine is not None else self.engine
    if not self.wrapper.grouper.is_grouped(group_by=group_by):
        return self.col_map
    col_arr = self.get_col_arr(group_by=group_by)
    columns = self.wrapper.get_columns(group_by=group_by)
    return dispatch.col_map(col_arr, len(columns), engine=engine)


def is_sorted__of__ColumnMapper(self, engine=None):
    engine = engine if engine is not None else self.engine
    return dispatch.is_col_sorted(self.col_arr, engine=engine)
