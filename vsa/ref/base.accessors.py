"""Reviewed reference definitions of vectorbt.base.accessors (functions as name__ref, methods as name__of__Class)."""
import numpy as np
import pandas as pd
from vectorbt import _typing as tp
from vectorbt.base import combine_fns, index_fns, reshape_fns
from vectorbt.base.array_wrapper import ArrayWrapper, Wrapping
from vectorbt.base.column_grouper import ColumnGrouper
from vectorbt.utils import checks
from vectorbt.utils.config import merge_dicts, get_func_arg_names
from vectorbt.utils.decorators import class_or_instancemethod, attach_binary_magic_methods, attach_unary_magic_methods
from vectorbt.base.accessors import BaseAccessorT, BaseAccessor, BaseSRAccessor, BaseDFAccessor


def __init____of__BaseAccessor(self, obj, wrapper=None, **kwargs):
    checks.assert_instance_of(obj, (pd.Series, pd.DataFrame))
    self._obj = obj
    wrapper_arg_names = get_func_arg_names(ArrayWrapper.__init__)
    grouper_arg_names = get_func_arg_names(ColumnGrouper.__init__)
    wrapping_kwargs = dict()
    for k in list(kwargs.keys()):
        if k in wrapper_arg_names or k in grouper_arg_names:
            wrapping_kwargs[k] = kwargs.pop(k)
    if wrapper is None:
        wrapper = ArrayWrapper.from_obj(obj, **wrapping_kwargs)
    else:
        wrapper = wrapper.replace(**wrapping_kwargs)
    Wrapping.__init__(self, wrapper, obj=obj, **kwargs)


def __call____of__BaseAccessor(self, **kwargs):
    return self.replace(**kwargs)


def sr_accessor_cls__of__BaseAccessor(self):
    return BaseSRAccessor


def df_accessor_cls__of__BaseAccessor(self):
    return BaseDFAccessor


def indexing_func__of__BaseAccessor(self, pd_indexing_func, **kwargs):
    new_wrapper, idx_idxs, _, col_idxs = self.wrapper.indexing_func_meta(pd_indexing_func, **kwargs)
    new_obj = new_wrapper.wrap(self.to_2d_array()[idx_idxs, :][:, col_idxs], group_by=False)
    if checks.is_series(new_obj):
        return self.replace(cls_=self.sr_accessor_cls, obj=new_obj, wrapper=new_wrapper)
    return self.replace(cls_=self.df_accessor_cls, obj=new_obj, wrapper=new_wrapper)


def obj__of__BaseAccessor(self):
    return self._obj


@class_or_instancemethod
def is_series__of__BaseAccessor(cls_or_self):
    raise NotImplementedError


@class_or_instancemethod
def is_frame__of__BaseAccessor(cls_or_self):
    raise NotImplementedError


@classmethod
def empty__of__BaseAccessor(cls, shape, fill_value=np.nan, **kwargs):
    if not isinstance(shape, tuple) or (isinstance(shape, tuple) and len(shape) == 1):
        return pd.Series(np.full(shape, fill_value), **kwargs)
    return pd.DataFrame(np.full(shape, fill_value), **kwargs)


@classmethod
def empty_like__of__BaseAccessor(cls, other, fill_value=np.nan, **kwargs):
    if checks.is_series(other):
        return cls.empty(other.shape, fill_value=fill_value, index=other.index, name=other.name, **kwargs)
    return cls.empty(other.shape, fill_value=fill_value, index=other.index, columns=other.columns, **kwargs)


def apply_on_index__of__BaseAccessor(self, apply_func, *args, axis=1, inplace=False, **kwargs):
    checks.assert_in(axis, (0, 1))
    if axis == 1:
        obj_index = self.wrapper.columns
    else:
        obj_index = self.wrapper.index
    obj_index = apply_func(obj_index, *args, **kwargs)
    if inplace:
        if axis == 1:
            self.obj.columns = obj_index
        else:
            self.obj.index = obj_index
        return None
    else:
        obj = self.obj.copy()
        if axis == 1:
            obj.columns = obj_index
        else:
            obj.index = obj_index
        return obj


def stack_index__of__BaseAccessor(self, index, on_top=True, axis=1, inplace=False, **kwargs):

    def apply_func(obj_index):
        if on_top:
            return index_fns.stack_indexes([index, obj_index], **kwargs)
        return index_fns.stack_indexes([obj_index, index], **kwargs)
    return self.apply_on_index(apply_func, axis=axis, inplace=inplace)


def drop_levels__of__BaseAccessor(self, levels, axis=1, inplace=False, strict=True):

    def apply_func(obj_index):
        return index_fns.drop_levels(obj_index, levels, strict=strict)
    return self.apply_on_index(apply_func, axis=axis, inplace=inplace)


def rename_levels__of__BaseAccessor(self, name_dict, axis=1, inplace=False, strict=True):

    def apply_func(obj_index):
        return index_fns.rename_levels(obj_index, name_dict, strict=strict)
    return self.apply_on_index(apply_func, axis=axis, inplace=inplace)


def select_levels__of__BaseAccessor(self, level_names, axis=1, inplace=False):

    def apply_func(obj_index):
        return index_fns.select_levels(obj_index, level_names)
    return self.apply_on_index(apply_func, axis=axis, inplace=inplace)


def drop_redundant_levels__of__BaseAccessor(self, axis=1, inplace=False):

    def apply_func(obj_index):
        return index_fns.drop_redundant_levels(obj_index)
    return self.apply_on_index(apply_func, axis=axis, inplace=inplace)


def drop_duplicate_levels__of__BaseAccessor(self, keep=None, axis=1, inplace=False):

    def apply_func(obj_index):
        return index_fns.drop_duplicate_levels(obj_index, keep=keep)
    return self.apply_on_index(apply_func, axis=axis, inplace=inplace)


def to_1d_array__of__BaseAccessor(self):
    return reshape_fns.to_1d_array(self.obj)


def to_2d_array__of__BaseAccessor(self):
    return reshape_fns.to_2d_array(self.obj)


def tile__of__BaseAccessor(self, n, keys=None, axis=1, wrap_kwargs=None):
    tiled = reshape_fns.tile(self.obj, n, axis=axis)
    if keys is not None:
        if axis == 1:
            new_columns = index_fns.combine_indexes([keys, self.wrapper.columns])
            return ArrayWrapper.from_obj(tiled).wrap(tiled.values, **merge_dicts(dict(columns=new_columns), wrap_kwargs))
        else:
            new_index = index_fns.combine_indexes([keys, self.wrapper.index])
            return ArrayWrapper.from_obj(tiled).wrap(tiled.values, **merge_dicts(dict(index=new_index), wrap_kwargs))
    return tiled


def repeat__of__BaseAccessor(self, n, keys=None, axis=1, wrap_kwargs=None):
    repeated = reshape_fns.repeat(self.obj, n, axis=axis)
    if keys is not None:
        if axis == 1:
            new_columns = index_fns.combine_indexes([self.wrapper.columns, keys])
            return ArrayWrapper.from_obj(repeated).wrap(repeated.values, **merge_dicts(dict(columns=new_columns), wrap_kwargs))
        else:
            new_index = index_fns.combine_indexes([self.wrapper.index, keys])
            return ArrayWrapper.from_obj(repeated).wrap(repeated.values, **merge_dicts(dict(index=new_index), wrap_kwargs))
    return repeated


def align_to__of__BaseAccessor(self, other, wrap_kwargs=None):
    checks.assert_instance_of(other, (pd.Series, pd.DataFrame))
    obj = reshape_fns.to_2d(self.obj)
    other = reshape_fns.to_2d(other)
    aligned_index = index_fns.align_index_to(obj.index, other.index)
    aligned_columns = index_fns.align_index_to(obj.columns, other.columns)
    obj = obj.iloc[aligned_index, aligned_columns]
    return self.wrapper.wrap(obj.values, group_by=False, **merge_dicts(dict(index=other.index, columns=other.columns), wrap_kwargs))


@class_or_instancemethod
def broadcast__of__BaseAccessor(cls_or_self, *others, **kwargs):
    others = tuple(map(lambda x: x.obj if isinstance(x, BaseAccessor) else x, others))
    if isinstance(cls_or_self, type):
        return reshape_fns.broadcast(*others, **kwargs)
    return reshape_fns.broadcast(cls_or_self.obj, *others, **kwargs)


def broadcast_to__of__BaseAccessor(self, other, **kwargs):
    if isinstance(other, BaseAccessor):
        other = other.obj
    return reshape_fns.broadcast_to(self.obj, other, **kwargs)


def make_symmetric__of__BaseAccessor(self):
    return reshape_fns.make_symmetric(self.obj)


def unstack_to_array__of__BaseAccessor(self, **kwargs):
    return reshape_fns.unstack_to_array(self.obj, **kwargs)


def unstack_to_df__of__BaseAccessor(self, **kwargs):
    return reshape_fns.unstack_to_df(self.obj, **kwargs)


def to_dict__of__BaseAccessor(self, **kwargs):
    return reshape_fns.to_dict(self.obj, **kwargs)


def apply__of__BaseAccessor(self, *args, apply_func=None, keep_pd=False, to_2d=False, wrap_kwargs=None, **kwargs):
    checks.assert_not_none(apply_func)
    if to_2d:
        obj = reshape_fns.to_2d(self.obj, raw=not keep_pd)
    elif not keep_pd:
        obj = np.asarray(self.obj)
    else:
        obj = self.obj
    result = apply_func(obj, *args, **kwargs)
    return self.wrapper.wrap(result, group_by=False, **merge_dicts({}, wrap_kwargs))


@class_or_instancemethod
def concat__of__BaseAccessor(cls_or_self, *others, broadcast_kwargs=None, keys=None):
    others = tuple(map(lambda x: x.obj if isinstance(x, BaseAccessor) else x, others))
    if isinstance(cls_or_self, type):
        objs = others
    else:
        objs = (cls_or_self.obj,) + others
    if broadcast_kwargs is None:
        broadcast_kwargs = {}
    broadcasted = reshape_fns.broadcast(*objs, **broadcast_kwargs)
    broadcasted = tuple(map(reshape_fns.to_2d, broadcasted))
    out = pd.concat(broadcasted, axis=1, keys=keys)
    if not isinstance(out.columns, pd.MultiIndex) and np.all(out.columns == 0):
        out.columns = pd.RangeIndex(start=0, stop=len(out.columns), step=1)
    return out


def apply_and_concat__of__BaseAccessor(self, ntimes, *args, apply_func=None, keep_pd=False, to_2d=False, numba_loop=False, use_ray=False, keys=None, wrap_kwargs=None, **kwargs):
    checks.assert_not_none(apply_func)
    if to_2d:
        obj = reshape_fns.to_2d(self.obj, raw=not keep_pd)
    elif not keep_pd:
        obj = np.asarray(self.obj)
    else:
        obj = self.obj
    if checks.is_numba_func(apply_func) and numba_loop:
        if use_ray:
            raise ValueError('Ray cannot be used within Numba')
        result = combine_fns.apply_and_concat_one_nb(ntimes, apply_func, obj, *args, **kwargs)
    elif use_ray:
        result = combine_fns.apply_and_concat_one_ray(ntimes, apply_func, obj, *args, **kwargs)
    else:
        result = combine_fns.apply_and_concat_one(ntimes, apply_func, obj, *args, **kwargs)
    if keys is not None:
        new_columns = index_fns.combine_indexes([keys, self.wrapper.columns])
    else:
        top_columns = pd.Index(np.arange(ntimes), name='apply_idx')
        new_columns = index_fns.combine_indexes([top_columns, self.wrapper.columns])
    return self.wrapper.wrap(result, group_by=False, **merge_dicts(dict(columns=new_columns), wrap_kwargs))


def combine__of__BaseAccessor(self, other, *args, allow_multiple=True, combine_func=None, keep_pd=False, to_2d=False, concat=False, numba_loop=False, use_ray=False, broadcast=True, broadcast_kwargs=None, keys=None, wrap_kwargs=None, **kwargs):
    if not allow_multiple or not isinstance(other, (tuple, list)):
        others = (other,)
    else:
        others = other
    others = tuple(map(lambda x: x.obj if isinstance(x, BaseAccessor) else x, others))
    checks.assert_not_none(combine_func)
    if broadcast:
        if broadcast_kwargs is None:
            broadcast_kwargs = {}
        if checks.is_numba_func(combine_func):
            broadcast_kwargs = merge_dicts(dict(require_kwargs=dict(requirements=['W', 'C'])), broadcast_kwargs)
        new_obj, *new_others = reshape_fns.broadcast(self.obj, *others, **broadcast_kwargs)
    else:
        new_obj, new_others = (self.obj, others)
    if not checks.is_pandas(new_obj):
        new_obj = ArrayWrapper.from_shape(new_obj.shape).wrap(new_obj)
    if to_2d:
        inputs = tuple(map(lambda x: reshape_fns.to_2d(x, raw=not keep_pd), (new_obj, *new_others)))
    elif not keep_pd:
        inputs = tuple(map(lambda x: np.asarray(x), (new_obj, *new_others)))
    else:
        inputs = (new_obj, *new_others)
    if len(inputs) == 2:
        result = combine_func(inputs[0], inputs[1], *args, **kwargs)
        return ArrayWrapper.from_obj(new_obj).wrap(result, **merge_dicts({}, wrap_kwargs))
    if concat:
        if checks.is_numba_func(combine_func) and numba_loop:
            if use_ray:
                raise ValueError('Ray cannot be used within Numba')
            for i in range(1, len(inputs)):
                checks.assert_meta_equal(inputs[i - 1], inputs[i])
            result = combine_fns.combine_and_concat_nb(inputs[0], inputs[1:], combine_func, *args, **kwargs)
        elif use_ray:
            result = combine_fns.combine_and_concat_ray(inputs[0], inputs[1:], combine_func, *args, **kwargs)
        else:
            result = combine_fns.combine_and_concat(inputs[0], inputs[1:], combine_func, *args, **kwargs)
        columns = ArrayWrapper.from_obj(new_obj).columns
        if keys is not None:
            new_columns = index_fns.combine_indexes([keys, columns])
        else:
            top_columns = pd.Index(np.arange(len(new_others)), name='combine_idx')
            new_columns = index_fns.combine_indexes([top_columns, columns])
        return ArrayWrapper.from_obj(new_obj).wrap(result, **merge_dicts(dict(columns=new_columns), wrap_kwargs))
    else:
        if use_ray:
            raise ValueError('Ray cannot be used with concat=False')
        if checks.is_numba_func(combine_func) and numba_loop:
            for i in range(1, len(inputs)):
                checks.assert_dtype_equal(inputs[i - 1], inputs[i])
            result = combine_fns.combine_multiple_nb(inputs, combine_func, *args, **kwargs)
        else:
            result = combine_fns.combine_multiple(inputs, combine_func, *args, **kwargs)
        return ArrayWrapper.from_obj(new_obj).wrap(result, **merge_dicts({}, wrap_kwargs))


def __init____of__BaseSRAccessor(self, obj, **kwargs):
    checks.assert_instance_of(obj, pd.Series)
    BaseAccessor.__init__(self, obj, **kwargs)


@class_or_instancemethod
def is_series__of__BaseSRAccessor(cls_or_self):
    return True


@class_or_instancemethod
def is_frame__of__BaseSRAccessor(cls_or_self):
    return False


def __init____of__BaseDFAccessor(self, obj, **kwargs):
    checks.assert_instance_of(obj, pd.DataFrame)
    BaseAccessor.__init__(self, obj, **kwargs)


@class_or_instancemethod
def is_series__of__BaseDFAccessor(cls_or_self):
    return False


@class_or_instancemethod
def is_frame__of__BaseDFAccessor(cls_or_self):
    return True
