"""Reviewed reference definitions of vectorbt.base.index_fns (functions as name__ref, methods as name__of__Class)."""
from datetime import datetime, timedelta
import numpy as np
import pandas as pd
from numba import njit
from vectorbt import _typing as tp
from vectorbt.utils import checks
from vectorbt.base.index_fns import to_any_index, get_index, index_from_values, repeat_index, tile_index, stack_indexes, combine_indexes, drop_levels, rename_levels, select_levels, drop_redundant_levels, drop_duplicate_levels, _align_index_to_nb, align_index_to, align_indexes, OptionalLevelSequence, pick_levels, find_first_occurrence


def to_any_index__ref(index_like):
    if not isinstance(index_like, pd.Index):
        return pd.Index(index_like)
    return index_like


def get_index__ref(arg, axis):
    checks.assert_instance_of(arg, (pd.Series, pd.DataFrame))
    checks.assert_in(axis, (0, 1))
    if axis == 0:
        return arg.index
    elif checks.is_series(arg):
        if arg.name is not None:
            return pd.Index([arg.name])
        return pd.Index([0])
    else:
        return arg.columns


def index_from_values__ref(values, name=None):
    scalar_types = (int, float, complex, str, bool, datetime, timedelta, np.generic)
    value_names = []
    for i in range(len(values)):
        v = values[i]
        if v is None or isinstance(v, scalar_types):
            value_names.append(v)
        elif isinstance(v, np.ndarray):
            if np.issubdtype(v.dtype, np.floating):
                if np.isclose(v, v.item(0), equal_nan=True).all():
                    value_names.append(v.item(0))
                else:
                    value_names.append('array_%d' % i)
            elif np.equal(v, v.item(0)).all():
                value_names.append(v.item(0))
            else:
                value_names.append('array_%d' % i)
        else:
            value_names.append('%s_%d' % (str(type(v).__name__), i))
    return pd.Index(value_names, name=name)


def repeat_index__ref(index, n, ignore_default=None):
    from vectorbt._settings import settings
    broadcasting_cfg = settings['broadcasting']
    if ignore_default is None:
        ignore_default = broadcasting_cfg['ignore_default']
    index = to_any_index(index)
    if checks.is_default_index(index) and ignore_default:
        return pd.RangeIndex(start=0, stop=len(index) * n, step=1)
    return index.repeat(n)


def tile_index__ref(index, n, ignore_default=None):
    from vectorbt._settings import settings
    broadcasting_cfg = settings['broadcasting']
    if ignore_default is None:
        ignore_default = broadcasting_cfg['ignore_default']
    index = to_any_index(index)
    if checks.is_default_index(index) and ignore_default:
        return pd.RangeIndex(start=0, stop=len(index) * n, step=1)
    if isinstance(index, pd.MultiIndex):
        return pd.MultiIndex.from_tuples(np.tile(index, n), names=index.names)
    return pd.Index(np.tile(index, n), name=index.name)


def stack_indexes__ref(indexes, drop_duplicates=None, keep=None, drop_redundant=None):
    from vectorbt._settings import settings
    broadcasting_cfg = settings['broadcasting']
    if drop_duplicates is None:
        drop_duplicates = broadcasting_cfg['drop_duplicates']
    if keep is None:
        keep = broadcasting_cfg['keep']
    if drop_redundant is None:
        drop_redundant = broadcasting_cfg['drop_redundant']
    levels = []
    for i in range(len(indexes)):
        index = indexes[i]
        if not isinstance(index, pd.MultiIndex):
            levels.append(to_any_index(index))
        else:
            for j in range(index.nlevels):
                levels.append(index.get_level_values(j))
    new_index = pd.MultiIndex.from_arrays(levels)
    if drop_duplicates:
        new_index = drop_duplicate_levels(new_index, keep=keep)
    if drop_redundant:
        new_index = drop_redundant_levels(new_index)
    return new_index


def combine_indexes__ref(indexes, ignore_default=None, **kwargs):
    new_index = to_any_index(indexes[0])
    for i in range(1, len(indexes)):
        index1, index2 = (new_index, to_any_index(indexes[i]))
        new_index1 = repeat_index(index1, len(index2), ignore_default=ignore_default)
        new_index2 = tile_index(index2, len(index1), ignore_default=ignore_default)
        new_index = stack_indexes([new_index1, new_index2], **kwargs)
    return new_index


def drop_levels__ref(index, levels, strict=True):
    if not isinstance(index, pd.MultiIndex):
        return index
    if strict:
        return index.droplevel(levels)
    levels_to_drop = set()
    if isinstance(levels, (int, str)):
        levels = (levels,)
    for level in levels:
        if level in index.names:
            levels_to_drop.add(level)
        elif isinstance(level, int) and 0 <= level < index.nlevels or level == -1:
            levels_to_drop.add(level)
    if len(levels_to_drop) < index.nlevels:
        return index.droplevel(list(levels_to_drop))
    return index


def rename_levels__ref(index, name_dict, strict=True):
    for k, v in name_dict.items():
        if isinstance(index, pd.MultiIndex):
            if k in index.names:
                index = index.rename(v, level=k)
            elif strict:
                raise KeyError(f"Level '{k}' not found")
        elif index.name == k:
            index = index.rename(v)
        elif strict:
            raise KeyError(f"Level '{k}' not found")
    return index


def select_levels__ref(index, level_names):
    checks.assert_instance_of(index, pd.MultiIndex)
    if isinstance(level_names, (int, str)):
        return index.get_level_values(level_names)
    levels = [index.get_level_values(level_name) for level_name in level_names]
    return pd.MultiIndex.from_arrays(levels)


def drop_redundant_levels__ref(index):
    if not isinstance(index, pd.MultiIndex):
        return index
    levels_to_drop = []
    for i in range(index.nlevels):
        if len(index) > 1 and len(index.levels[i]) == 1 and (index.levels[i].name is None):
            levels_to_drop.append(i)
        elif checks.is_default_index(index.get_level_values(i)):
            levels_to_drop.append(i)
    if len(levels_to_drop) < index.nlevels:
        return index.droplevel(levels_to_drop)
    return index


def drop_duplicate_levels__ref(index, keep=None):
    from vectorbt._settings import settings
    broadcasting_cfg = settings['broadcasting']
    if keep is None:
        keep = broadcasting_cfg['keep']
    if not isinstance(index, pd.MultiIndex):
        return index
    keep = keep.lower()
    checks.assert_in(keep, ['first', 'last'])
    levels = []
    levels_to_drop = []
    if keep == 'first':
        r = range(0, index.nlevels)
    else:
        r = range(index.nlevels - 1, -1, -1)
    for i in r:
        level = (index.levels[i].name, tuple(index.get_level_values(i).to_numpy().tolist()))
        if level not in levels:
            levels.append(level)
        else:
            levels_to_drop.append(i)
    return index.droplevel(levels_to_drop)


def _align_index_to_nb__ref(a, b):
    idxs = np.empty(b.shape[0], dtype=np.int64)
    g = 0
    for i in range(b.shape[0]):
        for j in range(a.shape[0]):
            if b[i] == a[j]:
                idxs[g] = j
                g += 1
                break
    return idxs


def align_index_to__ref(index1, index2):
    if not isinstance(index1, pd.MultiIndex):
        index1 = pd.MultiIndex.from_arrays([index1])
    if not isinstance(index2, pd.MultiIndex):
        index2 = pd.MultiIndex.from_arrays([index2])
    if pd.Index.equals(index1, index2):
        return pd.IndexSlice[:]
    mapper = {}
    for i in range(index1.nlevels):
        for j in range(index2.nlevels):
            name1 = index1.names[i]
            name2 = index2.names[j]
            if name1 == name2:
                if set(index2.levels[j]).issubset(set(index1.levels[i])):
                    if i in mapper:
                        raise ValueError(f'There are multiple candidate levels with name {name1} in second index')
                    mapper[i] = j
                    continue
                if name1 is not None:
                    raise ValueError(f'Level {name1} in second index contains values not in first index')
    if len(mapper) == 0:
        raise ValueError("Can't find common levels to align both indexes")
    factorized = []
    for k, v in mapper.items():
        factorized.append(pd.factorize(pd.concat((index1.get_level_values(k).to_series(), index2.get_level_values(v).to_series())))[0])
    stacked = np.transpose(np.stack(factorized))
    indices1 = stacked[:len(index1)]
    indices2 = stacked[len(index1):]
    if len(np.unique(indices1, axis=0)) != len(indices1):
        raise ValueError('Duplicated values in first index are not allowed')
    if len(index2) % len(index1) == 0:
        tile_times = len(index2) // len(index1)
        index1_tiled = np.tile(indices1, (tile_times, 1))
        if np.array_equal(index1_tiled, indices2):
            return pd.IndexSlice[np.tile(np.arange(len(index1)), tile_times)]
    unique_indices = np.unique(stacked, axis=0, return_inverse=True)[1]
    unique1 = unique_indices[:len(index1)]
    unique2 = unique_indices[len(index1):]
    if not np.isin(unique2, unique1).all():
        raise ValueError('Second index contains level combinations not in first index')
    return pd.IndexSlice[_align_index_to_nb(unique1, unique2)]


def align_indexes__ref(indexes):
    max_len = max(map(len, indexes))
    indices = []
    for i in range(len(indexes)):
        index_i = indexes[i]
        if len(index_i) == max_len:
            indices.append(pd.IndexSlice[:])
        else:
            for j in range(len(indexes)):
                index_j = indexes[j]
                if len(index_j) == max_len:
                    try:
                        indices.append(align_index_to(index_i, index_j))
                        break
                    except ValueError:
                        pass
            if len(indices) < i + 1:
                raise ValueError(f'Index at position {i} could not be aligned')
    return indices


def pick_levels__ref(index, required_levels=None, optional_levels=None):
    if required_levels is None:
        required_levels = []
    if optional_levels is None:
        optional_levels = []
    checks.assert_instance_of(index, pd.MultiIndex)
    n_opt_set = len(list(filter(lambda x: x is not None, optional_levels)))
    n_req_set = len(list(filter(lambda x: x is not None, required_levels)))
    n_levels_left = index.nlevels - n_opt_set
    if n_req_set < len(required_levels):
        if n_levels_left != len(required_levels):
            n_expected = len(required_levels) + n_opt_set
            raise ValueError(f'Expected {n_expected} levels, found {index.nlevels}')
    levels_left = list(range(index.nlevels))
    _optional_levels = []
    for level in optional_levels:
        level_pos = None
        if level is not None:
            checks.assert_instance_of(level, (int, str))
            if isinstance(level, str):
                level_pos = index.names.index(level)
            else:
                level_pos = level
            if level_pos < 0:
                level_pos = index.nlevels + level_pos
            levels_left.remove(level_pos)
        _optional_levels.append(level_pos)
    _required_levels = []
    for level in required_levels:
        level_pos = None
        if level is not None:
            checks.assert_instance_of(level, (int, str))
            if isinstance(level, str):
                level_pos = index.names.index(level)
            else:
                level_pos = level
            if level_pos < 0:
                level_pos = index.nlevels + level_pos
            levels_left.remove(level_pos)
        _required_levels.append(level_pos)
    for i, level in enumerate(_required_levels):
        if level is None:
            _required_levels[i] = levels_left.pop(0)
    return (_required_levels, _optional_levels)


def find_first_occurrence__ref(index_value, index):
    loc = index.get_loc(index_value)
    if isinstance(loc, slice):
        return loc.start
    elif isinstance(loc, list):
        return loc[0]
    elif isinstance(loc, np.ndarray):
        return np.flatnonzero(loc)[0]
    return loc
