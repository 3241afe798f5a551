"""Reviewed reference definitions of vectorbt.base.reshape_fns (functions as name__ref, methods as name__of__Class)."""
import functools
from collections.abc import Sequence
import numpy as np
import pandas as pd
from numba import njit
from vectorbt import _typing as tp
from vectorbt.base import index_fns, array_wrapper
from vectorbt.utils import checks
from vectorbt.utils.config import resolve_dict
from vectorbt.base.reshape_fns import broadcast_shape, broadcast_shapes, to_any_array, to_pd_array, soft_to_ndim, to_1d, to_1d_array, to_2d, to_2d_array, to_dict, repeat, tile, IndexFromLike, broadcast_index, wrap_broadcasted, BCRT, broadcast, broadcast_to, broadcast_to_array_of, broadcast_to_axis_of, get_multiindex_series, unstack_to_array, make_symmetric, unstack_to_df, flex_choose_i_and_col_nb, flex_select_nb, flex_select_auto_nb


def to_any_array__ref(arg, raw=False):
    if not raw and checks.is_any_array(arg):
        return arg
    return np.asarray(arg)


def to_pd_array__ref(arg):
    if checks.is_pandas(arg):
        return arg
    arg = np.asarray(arg)
    if arg.ndim == 1:
        return pd.Series(arg)
    if arg.ndim == 2:
        return pd.DataFrame(arg)
    raise ValueError('Wrong number of dimensions: cannot convert to Series or DataFrame')


def soft_to_ndim__ref(arg, ndim, raw=False):
    arg = to_any_array(arg, raw=raw)
    if ndim == 1:
        if arg.ndim == 2:
            if arg.shape[1] == 1:
                if checks.is_frame(arg):
                    return arg.iloc[:, 0]
                return arg[:, 0]
    if ndim == 2:
        if arg.ndim == 1:
            if checks.is_series(arg):
                return arg.to_frame()
            return arg[:, None]
    return arg


def to_1d__ref(arg, raw=False):
    arg = to_any_array(arg, raw=raw)
    if arg.ndim == 2:
        if arg.shape[1] == 1:
            if checks.is_frame(arg):
                return arg.iloc[:, 0]
            return arg[:, 0]
    if arg.ndim == 1:
        return arg
    elif arg.ndim == 0:
        return arg.reshape((1,))
    raise ValueError(f'Cannot reshape a {arg.ndim}-dimensional array to 1 dimension')


def to_1d_array__decl():
    return functools.partial(to_1d, raw=True)


def to_2d__ref(arg, raw=False, expand_axis=1):
    arg = to_any_array(arg, raw=raw)
    if arg.ndim == 2:
        return arg
    elif arg.ndim == 1:
        if checks.is_series(arg):
            if expand_axis == 0:
                return pd.DataFrame(arg.values[None, :], columns=arg.index)
            elif expand_axis == 1:
                return arg.to_frame()
        return np.expand_dims(arg, expand_axis)
    elif arg.ndim == 0:
        return arg.reshape((1, 1))
    raise ValueError(f'Cannot reshape a {arg.ndim}-dimensional array to 2 dimensions')


def to_2d_array__decl():
    return functools.partial(to_2d, raw=True)


def to_dict__ref(arg, orient='dict'):
    arg = to_pd_array(arg)
    if orient == 'index_series':
        return {arg.index[i]: arg.iloc[i] for i in range(len(arg.index))}
    return arg.to_dict(orient)


def repeat__ref(arg, n, axis=1, raw=False):
    arg = to_any_array(arg, raw=raw)
    if axis == 0:
        if checks.is_pandas(arg):
            return array_wrapper.ArrayWrapper.from_obj(arg).wrap(np.repeat(arg.values, n, axis=0), index=index_fns.repeat_index(arg.index, n))
        return np.repeat(arg, n, axis=0)
    elif axis == 1:
        arg = to_2d(arg)
        if checks.is_pandas(arg):
            return array_wrapper.ArrayWrapper.from_obj(arg).wrap(np.repeat(arg.values, n, axis=1), columns=index_fns.repeat_index(arg.columns, n))
        return np.repeat(arg, n, axis=1)
    else:
        raise ValueError('Only axis 0 and 1 are supported')


def tile__ref(arg, n, axis=1, raw=False):
    arg = to_any_array(arg, raw=raw)
    if axis == 0:
        if arg.ndim == 2:
            if checks.is_pandas(arg):
                return array_wrapper.ArrayWrapper.from_obj(arg).wrap(np.tile(arg.values, (n, 1)), index=index_fns.tile_index(arg.index, n))
            return np.tile(arg, (n, 1))
        if checks.is_pandas(arg):
            return array_wrapper.ArrayWrapper.from_obj(arg).wrap(np.tile(arg.values, n), index=index_fns.tile_index(arg.index, n))
        return np.tile(arg, n)
    elif axis == 1:
        arg = to_2d(arg)
        if checks.is_pandas(arg):
            return array_wrapper.ArrayWrapper.from_obj(arg).wrap(np.tile(arg.values, (1, n)), columns=index_fns.tile_index(arg.columns, n))
        return np.tile(arg, (1, n))
    else:
        raise ValueError('Only axis 0 and 1 are supported')


def broadcast_index__ref(args, to_shape, index_from=None, axis=0, ignore_sr_names=None, **kwargs):
    from vectorbt._settings import settings
    broadcasting_cfg = settings['broadcasting']
    if ignore_sr_names is None:
        ignore_sr_names = broadcasting_cfg['ignore_sr_names']
    index_str = 'columns' if axis == 1 else 'index'
    to_shape_2d = (to_shape[0], 1) if len(to_shape) == 1 else to_shape
    maxlen = to_shape_2d[1] if axis == 1 else to_shape_2d[0]
    new_index = None
    if index_from is None or (isinstance(index_from, str) and index_from.lower() == 'keep'):
        return None
    if isinstance(index_from, int):
        if not checks.is_pandas(args[index_from]):
            raise TypeError(f'Argument under index {index_from} must be a pandas object')
        new_index = index_fns.get_index(args[index_from], axis)
    elif isinstance(index_from, str):
        if index_from.lower() == 'reset':
            new_index = pd.RangeIndex(start=0, stop=maxlen, step=1)
        elif index_from.lower() in ('stack', 'strict'):
            last_index = None
            index_conflict = False
            for arg in args:
                if checks.is_pandas(arg):
                    index = index_fns.get_index(arg, axis)
                    if last_index is not None:
                        if not checks.is_index_equal(index, last_index):
                            index_conflict = True
                    last_index = index
                    continue
            if not index_conflict:
                new_index = last_index
            else:
                for arg in args:
                    if checks.is_pandas(arg):
                        index = index_fns.get_index(arg, axis)
                        if axis == 1 and checks.is_series(arg) and ignore_sr_names:
                            continue
                        if checks.is_default_index(index):
                            continue
                        if new_index is None:
                            new_index = index
                        else:
                            if checks.is_index_equal(index, new_index):
                                continue
                            if index_from.lower() == 'strict':
                                raise ValueError(f'Broadcasting {index_str} is not allowed when {index_str}_from=strict')
                            if len(index) != len(new_index):
                                if len(index) > 1 and len(new_index) > 1:
                                    raise ValueError('Indexes could not be broadcast together')
                                if len(index) > len(new_index):
                                    new_index = index_fns.repeat_index(new_index, len(index))
                                elif len(index) < len(new_index):
                                    index = index_fns.repeat_index(index, len(new_index))
                            new_index = index_fns.stack_indexes([new_index, index], **kwargs)
        else:
            raise ValueError(f"Invalid value '{index_from}' for {('columns' if axis == 1 else 'index')}_from")
    else:
        new_index = index_from
    if new_index is not None:
        if maxlen > len(new_index):
            if isinstance(index_from, str) and index_from.lower() == 'strict':
                raise ValueError(f'Broadcasting {index_str} is not allowed when {index_str}_from=strict')
            if maxlen > 1 and len(new_index) > 1:
                raise ValueError('Indexes could not be broadcast together')
            new_index = index_fns.repeat_index(new_index, maxlen)
    else:
        new_index = pd.RangeIndex(start=0, stop=maxlen, step=1)
    return new_index


def wrap_broadcasted__ref(old_arg, new_arg, is_pd=False, new_index=None, new_columns=None):
    if is_pd:
        if checks.is_pandas(old_arg):
            if new_index is None:
                old_index = index_fns.get_index(old_arg, 0)
                if old_arg.shape[0] == new_arg.shape[0]:
                    new_index = old_index
                else:
                    new_index = index_fns.repeat_index(old_index, new_arg.shape[0])
            if new_columns is None:
                old_columns = index_fns.get_index(old_arg, 1)
                new_ncols = new_arg.shape[1] if new_arg.ndim == 2 else 1
                if len(old_columns) == new_ncols:
                    new_columns = old_columns
                else:
                    new_columns = index_fns.repeat_index(old_columns, new_ncols)
        if new_arg.ndim == 2:
            return pd.DataFrame(new_arg, index=new_index, columns=new_columns)
        if new_columns is not None and len(new_columns) == 1:
            name = new_columns[0]
            if name == 0:
                name = None
        else:
            name = None
        return pd.Series(new_arg, index=new_index, name=name)
    return new_arg


def broadcast__ref(*args, to_shape=None, to_pd=None, to_frame=None, align_index=None, align_columns=None, index_from=None, columns_from=None, require_kwargs=None, keep_raw=False, return_meta=False, **kwargs):
    from vectorbt._settings import settings
    broadcasting_cfg = settings['broadcasting']
    is_pd = False
    is_2d = False
    if require_kwargs is None:
        require_kwargs = {}
    if align_index is None:
        align_index = broadcasting_cfg['align_index']
    if align_columns is None:
        align_columns = broadcasting_cfg['align_columns']
    if index_from is None:
        index_from = broadcasting_cfg['index_from']
    if columns_from is None:
        columns_from = broadcasting_cfg['columns_from']
    arr_args = []
    for i in range(len(args)):
        arg = to_any_array(args[i])
        if arg.ndim > 1:
            is_2d = True
        if checks.is_pandas(arg):
            is_pd = True
        arr_args.append(arg)
    if to_shape is not None:
        if isinstance(to_shape, int):
            to_shape = (to_shape,)
        checks.assert_instance_of(to_shape, tuple)
        if len(to_shape) > 1:
            is_2d = True
    if to_frame is not None:
        is_2d = to_frame
    if to_pd is not None:
        if isinstance(to_pd, Sequence):
            is_pd = any(to_pd)
        else:
            is_pd = to_pd
    if align_index:
        index_to_align = []
        for i in range(len(arr_args)):
            if checks.is_pandas(arr_args[i]) and len(arr_args[i].index) > 1:
                index_to_align.append(i)
        if len(index_to_align) > 1:
            indexes = [arr_args[i].index for i in index_to_align]
            if len(set(map(len, indexes))) > 1:
                index_indices = index_fns.align_indexes(indexes)
                for i in index_to_align:
                    arr_args[i] = arr_args[i].iloc[index_indices[index_to_align.index(i)]]
    if align_columns:
        cols_to_align = []
        for i in range(len(arr_args)):
            if checks.is_frame(arr_args[i]) and len(arr_args[i].columns) > 1:
                cols_to_align.append(i)
        if len(cols_to_align) > 1:
            indexes = [arr_args[i].columns for i in cols_to_align]
            if len(set(map(len, indexes))) > 1:
                col_indices = index_fns.align_indexes(indexes)
                for i in cols_to_align:
                    arr_args[i] = arr_args[i].iloc[:, col_indices[cols_to_align.index(i)]]
    arr_args_2d = [arg.to_frame() if is_2d and checks.is_series(arg) else arg for arg in arr_args]
    if to_shape is None:
        if broadcast_shapes is not None:
            to_shape = broadcast_shapes(*map(lambda x: np.asarray(x).shape, arr_args_2d))
        else:
            to_shape = broadcast_shape(*map(np.asarray, arr_args_2d))
    new_args = []
    for i, arg in enumerate(arr_args_2d):
        if isinstance(keep_raw, Sequence):
            _keep_raw = keep_raw[i]
        else:
            _keep_raw = keep_raw
        bc_arg = np.broadcast_to(arg, to_shape)
        if _keep_raw:
            new_args.append(arg)
            continue
        new_args.append(bc_arg)
    for i in range(len(new_args)):
        _require_kwargs = resolve_dict(require_kwargs, i=i)
        new_args[i] = np.require(new_args[i], **_require_kwargs)
    if is_pd:
        new_index = broadcast_index(arr_args, to_shape, index_from=index_from, axis=0, **kwargs)
        new_columns = broadcast_index(arr_args, to_shape, index_from=columns_from, axis=1, **kwargs)
    else:
        new_index, new_columns = (None, None)
    for i in range(len(new_args)):
        if isinstance(keep_raw, Sequence):
            _keep_raw = keep_raw[i]
        else:
            _keep_raw = keep_raw
        if _keep_raw:
            continue
        if isinstance(to_pd, Sequence):
            _is_pd = to_pd[i]
        else:
            _is_pd = is_pd
        new_args[i] = wrap_broadcasted(arr_args[i], new_args[i], is_pd=_is_pd, new_index=new_index, new_columns=new_columns)
    if len(new_args) > 1:
        if return_meta:
            return (tuple(new_args), to_shape, new_index, new_columns)
        return tuple(new_args)
    if return_meta:
        return (new_args[0], to_shape, new_index, new_columns)
    return new_args[0]


def broadcast_to__ref(arg1, arg2, to_pd=None, index_from=None, columns_from=None, **kwargs):
    arg1 = to_any_array(arg1)
    arg2 = to_any_array(arg2)
    if to_pd is None:
        to_pd = checks.is_pandas(arg2)
    if to_pd:
        if index_from is None:
            index_from = index_fns.get_index(arg2, 0)
        if columns_from is None:
            columns_from = index_fns.get_index(arg2, 1)
    return broadcast(arg1, to_shape=arg2.shape, to_pd=to_pd, index_from=index_from, columns_from=columns_from, **kwargs)


def broadcast_to_array_of__ref(arg1, arg2):
    arg1 = np.asarray(arg1)
    arg2 = np.asarray(arg2)
    if arg1.ndim == arg2.ndim + 1:
        if arg1.shape[1:] == arg2.shape:
            return arg1
    if arg1.ndim == 0:
        arg1 = to_1d(arg1)
    checks.assert_ndim(arg1, 1)
    if arg2.ndim == 0:
        return arg1
    for i in range(arg2.ndim):
        arg1 = np.expand_dims(arg1, axis=-1)
    return np.tile(arg1, (1, *arg2.shape))


def broadcast_to_axis_of__ref(arg1, arg2, axis, require_kwargs=None):
    if require_kwargs is None:
        require_kwargs = {}
    arg2 = to_any_array(arg2)
    if arg2.ndim < axis + 1:
        return np.broadcast_to(arg1, (1,))[0]
    arg1 = np.broadcast_to(arg1, (arg2.shape[axis],))
    arg1 = np.require(arg1, **require_kwargs)
    return arg1


def get_multiindex_series__ref(arg):
    checks.assert_instance_of(arg, (pd.Series, pd.DataFrame))
    if checks.is_frame(arg):
        if arg.shape[0] == 1:
            arg = arg.iloc[0, :]
        elif arg.shape[1] == 1:
            arg = arg.iloc[:, 0]
        else:
            raise ValueError('Supported are either Series or DataFrame with one column/row')
    checks.assert_instance_of(arg.index, pd.MultiIndex)
    return arg


def unstack_to_array__ref(arg, levels=None):
    sr: tp.Series = to_1d(get_multiindex_series(arg))
    if sr.index.duplicated().any():
        raise ValueError('Index contains duplicate entries, cannot reshape')
    unique_idx_list = []
    vals_idx_list = []
    if levels is None:
        levels = range(sr.index.nlevels)
    if isinstance(levels, (int, str)):
        levels = (levels,)
    for level in levels:
        vals = index_fns.select_levels(sr.index, level).to_numpy()
        unique_vals = np.unique(vals)
        unique_idx_list.append(unique_vals)
        idx_map = dict(zip(unique_vals, range(len(unique_vals))))
        vals_idx = list(map(lambda x: idx_map[x], vals))
        vals_idx_list.append(vals_idx)
    a = np.full(list(map(len, unique_idx_list)), np.nan)
    a[tuple(zip(vals_idx_list))] = sr.values
    return a


def make_symmetric__ref(arg, sort=True):
    checks.assert_instance_of(arg, (pd.Series, pd.DataFrame))
    df: tp.Frame = to_2d(arg)
    if isinstance(df.index, pd.MultiIndex) or isinstance(df.columns, pd.MultiIndex):
        checks.assert_instance_of(df.index, pd.MultiIndex)
        checks.assert_instance_of(df.columns, pd.MultiIndex)
        checks.assert_array_equal(df.index.nlevels, df.columns.nlevels)
        names1, names2 = (tuple(df.index.names), tuple(df.columns.names))
    else:
        names1, names2 = (df.index.name, df.columns.name)
    if names1 == names2:
        new_name = names1
    elif isinstance(df.index, pd.MultiIndex):
        new_name = tuple(zip(*[names1, names2]))
    else:
        new_name = (names1, names2)
    if sort:
        idx_vals = np.unique(np.concatenate((df.index, df.columns))).tolist()
    else:
        idx_vals = list(dict.fromkeys(np.concatenate((df.index, df.columns))))
    df_index = df.index.copy()
    df_columns = df.columns.copy()
    if isinstance(df.index, pd.MultiIndex):
        unique_index = pd.MultiIndex.from_tuples(idx_vals, names=new_name)
        df_index.names = new_name
        df_columns.names = new_name
    else:
        unique_index = pd.Index(idx_vals, name=new_name)
        df_index.name = new_name
        df_columns.name = new_name
    df = df.copy(deep=False)
    df.index = df_index
    df.columns = df_columns
    df_out_dtype = np.promote_types(df.values.dtype, np.min_scalar_type(np.nan))
    df_out = pd.DataFrame(index=unique_index, columns=unique_index, dtype=df_out_dtype)
    df_out.loc[:, :] = df
    df_out[df_out.isnull()] = df.transpose()
    return df_out


def unstack_to_df__ref(arg, index_levels=None, column_levels=None, symmetric=False, sort=True):
    sr: tp.Series = to_1d(get_multiindex_series(arg))
    if len(sr.index.levels) > 2:
        if index_levels is None:
            raise ValueError('index_levels must be specified')
        if column_levels is None:
            raise ValueError('column_levels must be specified')
    else:
        if index_levels is None:
            index_levels = 0
        if column_levels is None:
            column_levels = 1
    new_index = index_fns.select_levels(arg.index, index_levels).unique()
    new_columns = index_fns.select_levels(arg.index, column_levels).unique()
    unstacked = unstack_to_array(sr, levels=(index_levels, column_levels))
    df = pd.DataFrame(unstacked, index=new_index, columns=new_columns)
    if symmetric:
        return make_symmetric(df, sort=sort)
    return df


def flex_choose_i_and_col_nb__ref(a, flex_2d=True):
    i = -1
    col = -1
    if a.ndim == 0:
        i = 0
        col = 0
    elif a.ndim == 1:
        if flex_2d:
            i = 0
            if a.shape[0] == 1:
                col = 0
        else:
            col = 0
            if a.shape[0] == 1:
                i = 0
    else:
        if a.shape[0] == 1:
            i = 0
        if a.shape[1] == 1:
            col = 0
    return (i, col)


def flex_select_nb__ref(a, i, col, flex_i, flex_col, flex_2d=True):
    if flex_i == -1:
        flex_i = i
    if flex_col == -1:
        flex_col = col
    if a.ndim == 0:
        return a.item()
    if a.ndim == 1:
        if flex_2d:
            return a[flex_col]
        return a[flex_i]
    return a[flex_i, flex_col]


def flex_select_auto_nb__ref(a, i, col, flex_2d=True):
    flex_i, flex_col = flex_choose_i_and_col_nb(a, flex_2d)
    return flex_select_nb(a, i, col, flex_i, flex_col, flex_2d)
