"""Reviewed reference definitions of vectorbt.base.column_grouper (functions as name__ref, methods as name__of__Class)."""
import numpy as np
import pandas as pd
from numba import njit
from vectorbt import _typing as tp
from vectorbt.base import index_fns
from vectorbt.utils import checks
from vectorbt.utils.array_ import is_sorted
from vectorbt.utils.config import Configured
from vectorbt.utils.decorators import cached_method
from vectorbt.base.column_grouper import GroupByT, group_by_to_index, get_groups_and_index, get_group_lens_nb, ColumnGrouper


def group_by_to_index__ref(index, group_by):
    if group_by is None or group_by is False:
        return group_by
    if group_by is True:
        group_by = pd.Index(['group'] * len(index))
    elif isinstance(group_by, (int, str)):
        group_by = index_fns.select_levels(index, group_by)
    elif checks.is_sequence(group_by):
        if len(group_by) != len(index) and isinstance(group_by[0], (int, str)) and isinstance(index, pd.MultiIndex) and (len(group_by) <= len(index.names)):
            try:
                group_by = index_fns.select_levels(index, group_by)
            except (IndexError, KeyError):
                pass
    if not isinstance(group_by, pd.Index):
        group_by = pd.Index(group_by)
    if len(group_by) != len(index):
        raise ValueError('group_by and index must have the same length')
    return group_by


def get_groups_and_index__ref(index, group_by):
    if group_by is None or group_by is False:
        return (np.arange(len(index)), index)
    group_by = group_by_to_index(index, group_by)
    codes, uniques = pd.factorize(group_by)
    if not isinstance(uniques, pd.Index):
        new_index = pd.Index(uniques)
    else:
        new_index = uniques
    if isinstance(group_by, pd.MultiIndex):
        new_index.names = group_by.names
    elif isinstance(group_by, (pd.Index, pd.Series)):
        new_index.name = group_by.name
    return (codes, new_index)


def get_group_lens_nb__ref(groups):
    result = np.empty(groups.shape[0], dtype=np.int64)
    j = 0
    last_group = -1
    group_len = 0
    for i in range(groups.shape[0]):
        cur_group = groups[i]
        if cur_group < last_group:
            raise ValueError('Groups must be coherent and sorted (such as [0, 0, 1, 2, 2, ...])')
        if cur_group != last_group:
            if last_group != -1:
                result[j] = group_len
                j += 1
                group_len = 0
            last_group = cur_group
        group_len += 1
        if i == groups.shape[0] - 1:
            result[j] = group_len
            j += 1
            group_len = 0
    return result[:j]


def __init____of__ColumnGrouper(self, columns, group_by=None, allow_enable=True, allow_disable=True, allow_modify=True):
    Configured.__init__(self, columns=columns, group_by=group_by, allow_enable=allow_enable, allow_disable=allow_disable, allow_modify=allow_modify)
    checks.assert_instance_of(columns, pd.Index)
    self._columns = columns
    if group_by is None or group_by is False:
        self._group_by = None
    else:
        self._group_by = group_by_to_index(columns, group_by)
    self._allow_enable = allow_enable
    self._allow_disable = allow_disable
    self._allow_modify = allow_modify


def columns__of__ColumnGrouper(self):
    return self._columns


def group_by__of__ColumnGrouper(self):
    return self._group_by


def allow_enable__of__ColumnGrouper(self):
    return self._allow_enable


def allow_disable__of__ColumnGrouper(self):
    return self._allow_disable


def allow_modify__of__ColumnGrouper(self):
    return self._allow_modify


def is_grouped__of__ColumnGrouper(self, group_by=None):
    if group_by is False:
        return False
    if group_by is None:
        group_by = self.group_by
    return group_by is not None


def is_grouping_enabled__of__ColumnGrouper(self, group_by=None):
    return self.group_by is None and self.is_grouped(group_by=group_by)


def is_grouping_disabled__of__ColumnGrouper(self, group_by=None):
    return self.group_by is not None and (not self.is_grouped(group_by=group_by))


def is_grouping_modified__of__ColumnGrouper(self, group_by=None):
    if group_by is None or (group_by is False and self.group_by is None):
        return False
    group_by = group_by_to_index(self.columns, group_by)
    if isinstance(group_by, pd.Index) and isinstance(self.group_by, pd.Index):
        if not pd.Index.equals(group_by, self.group_by):
            groups1 = get_groups_and_index(self.columns, group_by)[0]
            groups2 = get_groups_and_index(self.columns, self.group_by)[0]
            if not np.array_equal(groups1, groups2):
                return True
        return False
    return True


def is_grouping_changed__of__ColumnGrouper(self, group_by=None):
    if group_by is None or (group_by is False and self.group_by is None):
        return False
    if isinstance(group_by, pd.Index) and isinstance(self.group_by, pd.Index):
        if pd.Index.equals(group_by, self.group_by):
            return False
    return True


def is_group_count_changed__of__ColumnGrouper(self, group_by=None):
    if group_by is None or (group_by is False and self.group_by is None):
        return False
    if isinstance(group_by, pd.Index) and isinstance(self.group_by, pd.Index):
        return len(group_by.unique()) != len(self.group_by.unique())
    return True


def check_group_by__of__ColumnGrouper(self, group_by=None, allow_enable=None, allow_disable=None, allow_modify=None):
    if allow_enable is None:
        allow_enable = self.allow_enable
    if allow_disable is None:
        allow_disable = self.allow_disable
    if allow_modify is None:
        allow_modify = self.allow_modify
    if self.is_grouping_enabled(group_by=group_by):
        if not allow_enable:
            raise ValueError('Enabling grouping is not allowed')
    elif self.is_grouping_disabled(group_by=group_by):
        if not allow_disable:
            raise ValueError('Disabling grouping is not allowed')
    elif self.is_grouping_modified(group_by=group_by):
        if not allow_modify:
            raise ValueError('Modifying groups is not allowed')


def resolve_group_by__of__ColumnGrouper(self, group_by=None, **kwargs):
    if group_by is None:
        group_by = self.group_by
    if group_by is False and self.group_by is None:
        group_by = None
    self.check_group_by(group_by=group_by, **kwargs)
    return group_by_to_index(self.columns, group_by)


def get_groups_and_columns__of__ColumnGrouper(self, group_by=None, **kwargs):
    group_by = self.resolve_group_by(group_by=group_by, **kwargs)
    return get_groups_and_index(self.columns, group_by)


def get_groups__of__ColumnGrouper(self, **kwargs):
    return self.get_groups_and_columns(**kwargs)[0]


def get_columns__of__ColumnGrouper(self, **kwargs):
    return self.get_groups_and_columns(**kwargs)[1]


def is_sorted__of__ColumnGrouper(self, group_by=None, **kwargs):
    group_by = self.resolve_group_by(group_by=group_by, **kwargs)
    groups = self.get_groups(group_by=group_by)
    return is_sorted(groups)


def get_group_lens__of__ColumnGrouper(self, group_by=None, **kwargs):
    if not self.is_sorted(group_by=group_by):
        raise ValueError('group_by must lead to groups that are coherent and sorted (such as [0, 0, 1, 2, 2, ...])')
    group_by = self.resolve_group_by(group_by=group_by, **kwargs)
    if group_by is None or group_by is False:
        return np.full(len(self.columns), 1)
    groups = self.get_groups(group_by=group_by)
    return get_group_lens_nb(groups)


def get_group_count__of__ColumnGrouper(self, **kwargs):
    return len(self.get_group_lens(**kwargs))


def get_group_start_idxs__of__ColumnGrouper(self, **kwargs):
    group_lens = self.get_group_lens(**kwargs)
    return np.cumsum(group_lens) - group_lens


def get_group_end_idxs__of__ColumnGrouper(self, **kwargs):
    group_lens = self.get_group_lens(**kwargs)
    return np.cumsum(group_lens)
