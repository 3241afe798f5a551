"""Reviewed reference definitions of vectorbt.signals.accessors (functions as name__ref, methods as name__of__Class)."""
import warnings
import numpy as np
import pandas as pd
from vectorbt import _typing as tp
from vectorbt._engine import broadcast_2d_to_shape, broadcast_to_shape
from vectorbt.base import reshape_fns
from vectorbt.base.array_wrapper import ArrayWrapper
from vectorbt.generic import nb as generic_nb
from vectorbt.generic import plotting
from vectorbt.generic.accessors import GenericAccessor, GenericSRAccessor, GenericDFAccessor
from vectorbt.generic.ranges import Ranges
from vectorbt.records.mapped_array import MappedArray
from vectorbt.root_accessors import register_dataframe_vbt_accessor, register_series_vbt_accessor
from vectorbt.signals import dispatch
from vectorbt.utils import checks
from vectorbt.utils.colors import adjust_lightness
from vectorbt.utils.config import merge_dicts, Config
from vectorbt.utils.decorators import class_or_instancemethod
from vectorbt.utils.template import RepEval
from vectorbt.signals.accessors import SignalsAccessor, SignalsSRAccessor, SignalsDFAccessor


def __init____of__SignalsAccessor(self, obj, **kwargs):
    checks.assert_dtype(obj, np.bool_)
    GenericAccessor.__init__(self, obj, **kwargs)


def sr_accessor_cls__of__SignalsAccessor(self):
    return SignalsSRAccessor


def df_accessor_cls__of__SignalsAccessor(self):
    return SignalsDFAccessor


def bshift__of__SignalsAccessor(self, *args, fill_value=False, **kwargs):
    return GenericAccessor.bshift(self, *args, fill_value=fill_value, **kwargs)


def fshift__of__SignalsAccessor(self, *args, fill_value=False, **kwargs):
    return GenericAccessor.fshift(self, *args, fill_value=fill_value, **kwargs)


@classmethod
def empty__of__SignalsAccessor(cls, *args, fill_value=False, **kwargs):
    return GenericAccessor.empty(*args, fill_value=fill_value, dtype=np.bool_, **kwargs)


@classmethod
def empty_like__of__SignalsAccessor(cls, *args, fill_value=False, **kwargs):
    return GenericAccessor.empty_like(*args, fill_value=fill_value, dtype=np.bool_, **kwargs)


@classmethod
def generate__of__SignalsAccessor(cls, shape, choice_func, *args, pick_first=False, engine=None, **kwargs):
    checks.assert_engine_func(choice_func, engine=engine)
    if not isinstance(shape, tuple):
        shape = (shape, 1)
    elif isinstance(shape, tuple) and len(shape) == 1:
        shape = (shape[0], 1)
    result = dispatch.generate(shape, pick_first, choice_func, *args, engine=engine)
    if cls.is_series():
        if shape[1] > 1:
            raise ValueError('Use DataFrame accessor')
        return pd.Series(result[:, 0], **kwargs)
    return pd.DataFrame(result, **kwargs)


@classmethod
def generate_both__of__SignalsAccessor(cls, shape, entry_choice_func=None, entry_args=None, exit_choice_func=None, exit_args=None, entry_wait=1, exit_wait=1, entry_pick_first=True, exit_pick_first=True, engine=None, **kwargs):
    checks.assert_not_none(entry_choice_func)
    checks.assert_not_none(exit_choice_func)
    checks.assert_engine_func(entry_choice_func, engine=engine)
    checks.assert_engine_func(exit_choice_func, engine=engine)
    if entry_args is None:
        entry_args = ()
    if exit_args is None:
        exit_args = ()
    if not isinstance(shape, tuple):
        shape = (shape, 1)
    elif isinstance(shape, tuple) and len(shape) == 1:
        shape = (shape[0], 1)
    result1, result2 = dispatch.generate_enex(shape, entry_wait, exit_wait, entry_pick_first, exit_pick_first, entry_choice_func, entry_args, exit_choice_func, exit_args, engine=engine)
    if cls.is_series():
        if shape[1] > 1:
            raise ValueError('Use DataFrame accessor')
        return (pd.Series(result1[:, 0], **kwargs), pd.Series(result2[:, 0], **kwargs))
    return (pd.DataFrame(result1, **kwargs), pd.DataFrame(result2, **kwargs))


def generate_exits__of__SignalsAccessor(self, exit_choice_func, *args, wait=1, until_next=True, skip_until_exit=False, pick_first=False, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    checks.assert_engine_func(exit_choice_func, engine=engine)
    exits = dispatch.generate_ex(self.to_2d_array(), wait, until_next, skip_until_exit, pick_first, exit_choice_func, *args, engine=engine)
    return self.wrapper.wrap(exits, group_by=False, **merge_dicts({}, wrap_kwargs))


@class_or_instancemethod
def clean__of__SignalsAccessor(cls_or_self, *args, entry_first=True, engine=None, broadcast_kwargs=None, wrap_kwargs=None):
    if not isinstance(cls_or_self, type):
        engine = engine if engine is not None else cls_or_self.engine
        args = (cls_or_self.obj, *args)
    if len(args) == 1:
        obj = args[0]
        if not isinstance(obj, (pd.Series, pd.DataFrame)):
            wrapper = ArrayWrapper.from_shape(np.asarray(obj).shape)
            obj = wrapper.wrap(obj)
        return obj.vbt.signals.first(engine=engine, wrap_kwargs=wrap_kwargs)
    elif len(args) == 2:
        if broadcast_kwargs is None:
            broadcast_kwargs = {}
        entries, exits = reshape_fns.broadcast(*args, **broadcast_kwargs)
        entries_out, exits_out = dispatch.clean_enex(reshape_fns.to_2d_array(entries), reshape_fns.to_2d_array(exits), entry_first, engine=engine)
        return (ArrayWrapper.from_obj(entries).wrap(entries_out, group_by=False, **merge_dicts({}, wrap_kwargs)), ArrayWrapper.from_obj(exits).wrap(exits_out, group_by=False, **merge_dicts({}, wrap_kwargs)))
    else:
        raise ValueError('Either one or two arrays must be passed')


@classmethod
def generate_random__of__SignalsAccessor(cls, shape, n=None, prob=None, pick_first=False, seed=None, engine=None, **kwargs):
    flex_2d = True
    if not isinstance(shape, tuple):
        flex_2d = False
        shape = (shape, 1)
    elif isinstance(shape, tuple) and len(shape) == 1:
        flex_2d = False
        shape = (shape[0], 1)
    if n is not None and prob is not None:
        raise ValueError('Either n or prob should be set, not both')
    if n is not None:
        n = np.broadcast_to(n, shape[1])
        result = dispatch.generate_rand(shape, n, seed=seed, engine=engine)
    elif prob is not None:
        prob = broadcast_to_shape(prob, shape, np.float64)
        result = dispatch.generate_rand_by_prob(shape, prob, pick_first, flex_2d, seed=seed, engine=engine)
    else:
        raise ValueError('At least n or prob should be set')
    if cls.is_series():
        if shape[1] > 1:
            raise ValueError('Use DataFrame accessor')
        return pd.Series(result[:, 0], **kwargs)
    return pd.DataFrame(result, **kwargs)


@classmethod
def generate_random_both__of__SignalsAccessor(cls, shape, n=None, entry_prob=None, exit_prob=None, seed=None, entry_wait=1, exit_wait=1, entry_pick_first=True, exit_pick_first=True, engine=None, **kwargs):
    flex_2d = True
    if not isinstance(shape, tuple):
        flex_2d = False
        shape = (shape, 1)
    elif isinstance(shape, tuple) and len(shape) == 1:
        flex_2d = False
        shape = (shape[0], 1)
    if n is not None and (entry_prob is not None or exit_prob is not None):
        raise ValueError('Either n or any of the entry_prob and exit_prob should be set, not both')
    if n is not None:
        n = np.broadcast_to(np.asarray(n, dtype=np.int64), shape[1])
        entries, exits = dispatch.generate_rand_enex(shape, n, entry_wait, exit_wait, seed=seed, engine=engine)
    elif entry_prob is not None and exit_prob is not None:
        entry_prob = broadcast_to_shape(entry_prob, shape, np.float64)
        exit_prob = broadcast_to_shape(exit_prob, shape, np.float64)
        entries, exits = dispatch.generate_rand_enex_by_prob(shape, entry_prob, exit_prob, entry_wait, exit_wait, entry_pick_first, exit_pick_first, flex_2d, seed=seed, engine=engine)
    else:
        raise ValueError('At least n, or entry_prob and exit_prob should be set')
    if cls.is_series():
        if shape[1] > 1:
            raise ValueError('Use DataFrame accessor')
        return (pd.Series(entries[:, 0], **kwargs), pd.Series(exits[:, 0], **kwargs))
    return (pd.DataFrame(entries, **kwargs), pd.DataFrame(exits, **kwargs))


def generate_random_exits__of__SignalsAccessor(self, prob=None, seed=None, wait=1, until_next=True, skip_until_exit=False, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if prob is not None:
        obj, prob = reshape_fns.broadcast(self.obj, prob, keep_raw=[False, True])
        entries_2d = reshape_fns.to_2d_array(obj)
        prob = broadcast_to_shape(prob, entries_2d.shape, np.float64)
        exits = dispatch.generate_rand_ex_by_prob(entries_2d, prob, wait, until_next, skip_until_exit, obj.ndim == 2, seed=seed, engine=engine)
        return ArrayWrapper.from_obj(obj).wrap(exits, group_by=False, **merge_dicts({}, wrap_kwargs))
    exits = dispatch.generate_rand_ex(self.to_2d_array(), wait, until_next, skip_until_exit, seed=seed, engine=engine)
    return self.wrapper.wrap(exits, group_by=False, **merge_dicts({}, wrap_kwargs))


def generate_stop_exits__of__SignalsAccessor(self, ts, stop, trailing=False, entry_wait=1, exit_wait=1, until_next=True, skip_until_exit=False, pick_first=True, chain=False, broadcast_kwargs=None, wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    if broadcast_kwargs is None:
        broadcast_kwargs = {}
    entries = self.obj
    broadcast_kwargs = merge_dicts(dict(require_kwargs=dict(requirements='W')), broadcast_kwargs)
    entries, ts, stop, trailing = reshape_fns.broadcast(entries, ts, stop, trailing, **broadcast_kwargs, keep_raw=False)
    flex_2d = entries.ndim == 2
    entries_2d = reshape_fns.to_2d_array(entries)
    ts_2d = broadcast_2d_to_shape(ts, entries_2d.shape, np.float64)
    stop_2d = broadcast_2d_to_shape(stop, entries_2d.shape, np.float64)
    trailing_2d = broadcast_2d_to_shape(trailing, entries_2d.shape, np.bool_)
    if chain:
        new_entries, exits = dispatch.generate_stop_enex(entries_2d, ts_2d, stop_2d, trailing_2d, entry_wait, exit_wait, pick_first, flex_2d, engine=engine)
        return (ArrayWrapper.from_obj(entries).wrap(new_entries, group_by=False, **merge_dicts({}, wrap_kwargs)), ArrayWrapper.from_obj(entries).wrap(exits, group_by=False, **merge_dicts({}, wrap_kwargs)))
    else:
        if skip_until_exit and until_next:
            warnings.warn('skip_until_exit=True has only effect when until_next=False', stacklevel=2)
        exits = dispatch.generate_stop_ex(entries_2d, ts_2d, stop_2d, trailing_2d, exit_wait, until_next, skip_until_exit, pick_first, flex_2d, engine=engine)
        return ArrayWrapper.from_obj(entries).wrap(exits, group_by=False, **merge_dicts({}, wrap_kwargs))


def generate_ohlc_stop_exits__of__SignalsAccessor(self, open, high=None, low=None, close=None, is_open_safe=True, out_dict=None, sl_stop=np.nan, sl_trail=False, tp_stop=np.nan, reverse=False, entry_wait=1, exit_wait=1, until_next=True, skip_until_exit=False, pick_first=True, chain=False, broadcast_kwargs=None, wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    if broadcast_kwargs is None:
        broadcast_kwargs = {}
    entries = self.obj
    if high is None:
        high = open
    if low is None:
        low = open
    if close is None:
        close = open
    if out_dict is None:
        out_dict_passed = False
        out_dict = {}
    else:
        out_dict_passed = True
    stop_price_out = out_dict.get('stop_price', np.nan if out_dict_passed else None)
    stop_type_out = out_dict.get('stop_type', -1 if out_dict_passed else None)
    out_args = ()
    if stop_price_out is not None:
        out_args += (stop_price_out,)
    if stop_type_out is not None:
        out_args += (stop_type_out,)
    broadcast_kwargs = merge_dicts(dict(require_kwargs=dict(requirements='W')), broadcast_kwargs)
    entries, open, high, low, close, sl_stop, sl_trail, tp_stop, reverse, *out_args = reshape_fns.broadcast(entries, open, high, low, close, sl_stop, sl_trail, tp_stop, reverse, *out_args, **broadcast_kwargs, keep_raw=False)
    flex_2d = entries.ndim == 2
    entries_2d = reshape_fns.to_2d_array(entries)
    shape = entries_2d.shape
    open_2d = broadcast_2d_to_shape(open, shape, np.float64)
    high_2d = broadcast_2d_to_shape(high, shape, np.float64)
    low_2d = broadcast_2d_to_shape(low, shape, np.float64)
    close_2d = broadcast_2d_to_shape(close, shape, np.float64)
    sl_stop_2d = broadcast_2d_to_shape(sl_stop, shape, np.float64)
    sl_trail_2d = broadcast_2d_to_shape(sl_trail, shape, np.bool_)
    tp_stop_2d = broadcast_2d_to_shape(tp_stop, shape, np.float64)
    reverse_2d = broadcast_2d_to_shape(reverse, shape, np.bool_)
    if stop_price_out is None:
        stop_price_out = np.empty(shape, dtype=np.float64)
    else:
        stop_price_out = out_args[0]
        out_args = out_args[1:]
    if stop_type_out is None:
        stop_type_out = np.empty(shape, dtype=np.int64)
    else:
        stop_type_out = out_args[0]
    stop_price_out = np.ascontiguousarray(reshape_fns.to_2d_array(stop_price_out), dtype=np.float64)
    stop_type_out = np.ascontiguousarray(reshape_fns.to_2d_array(stop_type_out), dtype=np.int64)
    if chain:
        new_entries, exits = dispatch.generate_ohlc_stop_enex(entries_2d, open_2d, high_2d, low_2d, close_2d, stop_price_out, stop_type_out, sl_stop_2d, sl_trail_2d, tp_stop_2d, reverse_2d, is_open_safe, entry_wait, exit_wait, pick_first, flex_2d, engine=engine)
        out_dict['stop_price'] = ArrayWrapper.from_obj(entries).wrap(stop_price_out, group_by=False, **merge_dicts({}, wrap_kwargs))
        out_dict['stop_type'] = ArrayWrapper.from_obj(entries).wrap(stop_type_out, group_by=False, **merge_dicts({}, wrap_kwargs))
        return (ArrayWrapper.from_obj(entries).wrap(new_entries, group_by=False, **merge_dicts({}, wrap_kwargs)), ArrayWrapper.from_obj(entries).wrap(exits, group_by=False, **merge_dicts({}, wrap_kwargs)))
    else:
        if skip_until_exit and until_next:
            warnings.warn('skip_until_exit=True has only effect when until_next=False', stacklevel=2)
        exits = dispatch.generate_ohlc_stop_ex(entries_2d, open_2d, high_2d, low_2d, close_2d, stop_price_out, stop_type_out, sl_stop_2d, sl_trail_2d, tp_stop_2d, reverse_2d, is_open_safe, exit_wait, until_next, skip_until_exit, pick_first, flex_2d, engine=engine)
        out_dict['stop_price'] = ArrayWrapper.from_obj(entries).wrap(stop_price_out, group_by=False, **merge_dicts({}, wrap_kwargs))
        out_dict['stop_type'] = ArrayWrapper.from_obj(entries).wrap(stop_type_out, group_by=False, **merge_dicts({}, wrap_kwargs))
        return ArrayWrapper.from_obj(entries).wrap(exits, group_by=False, **merge_dicts({}, wrap_kwargs))


def between_ranges__of__SignalsAccessor(self, other=None, from_other=False, engine=None, broadcast_kwargs=None, group_by=None, attach_ts=True, attach_other=False, **kwargs):
    engine = engine if engine is not None else self.engine
    if broadcast_kwargs is None:
        broadcast_kwargs = {}
    if other is None:
        range_records = dispatch.between_ranges(self.to_2d_array(), engine=engine)
        wrapper = self.wrapper
        to_attach = self.obj
    else:
        obj, other = reshape_fns.broadcast(self.obj, other, **broadcast_kwargs)
        range_records = dispatch.between_two_ranges(reshape_fns.to_2d_array(obj), reshape_fns.to_2d_array(other), from_other=from_other, engine=engine)
        wrapper = ArrayWrapper.from_obj(obj)
        to_attach = other if attach_other else obj
    kwargs.setdefault('engine', engine)
    return Ranges(wrapper, range_records, ts=to_attach if attach_ts else None, **kwargs).regroup(group_by)


def partition_ranges__of__SignalsAccessor(self, group_by=None, attach_ts=True, engine=None, **kwargs):
    engine = engine if engine is not None else self.engine
    range_records = dispatch.partition_ranges(self.to_2d_array(), engine=engine)
    kwargs.setdefault('engine', engine)
    return Ranges(self.wrapper, range_records, ts=self.obj if attach_ts else None, **kwargs).regroup(group_by)


def between_partition_ranges__of__SignalsAccessor(self, group_by=None, attach_ts=True, engine=None, **kwargs):
    engine = engine if engine is not None else self.engine
    range_records = dispatch.between_partition_ranges(self.to_2d_array(), engine=engine)
    kwargs.setdefault('engine', engine)
    return Ranges(self.wrapper, range_records, ts=self.obj if attach_ts else None, **kwargs).regroup(group_by)


def rank__of__SignalsAccessor(self, rank_func, *args, prepare_func=None, reset_by=None, after_false=False, engine=None, broadcast_kwargs=None, wrap_kwargs=None, as_mapped=False, **kwargs):
    engine = engine if engine is not None else self.engine
    checks.assert_not_none(rank_func)
    checks.assert_engine_func(rank_func, engine=engine)
    if broadcast_kwargs is None:
        broadcast_kwargs = {}
    if reset_by is not None:
        obj, reset_by = reshape_fns.broadcast(self.obj, reset_by, **broadcast_kwargs)
        reset_by = reshape_fns.to_2d_array(reset_by)
    else:
        obj = self.obj
    obj_arr = reshape_fns.to_2d_array(obj)
    if prepare_func is not None:
        temp_arrs = prepare_func(obj_arr, reset_by)
    else:
        temp_arrs = ()
    rank = dispatch.rank(obj_arr, reset_by, after_false, rank_func, *temp_arrs, *args, engine=engine)
    rank_wrapped = ArrayWrapper.from_obj(obj).wrap(rank, group_by=False, **merge_dicts({}, wrap_kwargs))
    if as_mapped:
        rank_wrapped = rank_wrapped.replace(-1, np.nan)
        return rank_wrapped.vbt.to_mapped(dropna=True, dtype=np.int64, **kwargs)
    return rank_wrapped


def pos_rank__of__SignalsAccessor(self, allow_gaps=False, reset_by=None, after_false=False, engine=None, broadcast_kwargs=None, wrap_kwargs=None, as_mapped=False, **kwargs):
    engine = engine if engine is not None else self.engine
    if broadcast_kwargs is None:
        broadcast_kwargs = {}
    if reset_by is not None:
        obj, reset_by = reshape_fns.broadcast(self.obj, reset_by, **broadcast_kwargs)
        reset_by = reshape_fns.to_2d_array(reset_by)
    else:
        obj = self.obj
    rank = dispatch.sig_pos_rank(reshape_fns.to_2d_array(obj), reset_by, after_false, allow_gaps, engine=engine)
    rank_wrapped = ArrayWrapper.from_obj(obj).wrap(rank, group_by=False, **merge_dicts({}, wrap_kwargs))
    if as_mapped:
        rank_wrapped = rank_wrapped.replace(-1, np.nan)
        return rank_wrapped.vbt.to_mapped(dropna=True, dtype=np.int64, **kwargs)
    return rank_wrapped


def partition_pos_rank__of__SignalsAccessor(self, reset_by=None, after_false=False, engine=None, broadcast_kwargs=None, wrap_kwargs=None, as_mapped=False, **kwargs):
    engine = engine if engine is not None else self.engine
    if broadcast_kwargs is None:
        broadcast_kwargs = {}
    if reset_by is not None:
        obj, reset_by = reshape_fns.broadcast(self.obj, reset_by, **broadcast_kwargs)
        reset_by = reshape_fns.to_2d_array(reset_by)
    else:
        obj = self.obj
    rank = dispatch.part_pos_rank(reshape_fns.to_2d_array(obj), reset_by, after_false, engine=engine)
    rank_wrapped = ArrayWrapper.from_obj(obj).wrap(rank, group_by=False, **merge_dicts({}, wrap_kwargs))
    if as_mapped:
        rank_wrapped = rank_wrapped.replace(-1, np.nan)
        return rank_wrapped.vbt.to_mapped(dropna=True, dtype=np.int64, **kwargs)
    return rank_wrapped


def first__of__SignalsAccessor(self, engine=None, wrap_kwargs=None, **kwargs):
    engine = engine if engine is not None else self.engine
    pos_rank = self.pos_rank(engine=engine, **kwargs).values
    return self.wrapper.wrap(pos_rank == 0, group_by=False, **merge_dicts({}, wrap_kwargs))


def nth__of__SignalsAccessor(self, n, engine=None, wrap_kwargs=None, **kwargs):
    engine = engine if engine is not None else self.engine
    pos_rank = self.pos_rank(engine=engine, **kwargs).values
    return self.wrapper.wrap(pos_rank == n, group_by=False, **merge_dicts({}, wrap_kwargs))


def from_nth__of__SignalsAccessor(self, n, engine=None, wrap_kwargs=None, **kwargs):
    engine = engine if engine is not None else self.engine
    pos_rank = self.pos_rank(engine=engine, **kwargs).values
    return self.wrapper.wrap(pos_rank >= n, group_by=False, **merge_dicts({}, wrap_kwargs))


def pos_rank_mapped__of__SignalsAccessor(self, group_by=None, **kwargs):
    return self.pos_rank(as_mapped=True, group_by=group_by, **kwargs)


def partition_pos_rank_mapped__of__SignalsAccessor(self, group_by=None, **kwargs):
    return self.partition_pos_rank(as_mapped=True, group_by=group_by, **kwargs)


def nth_index__of__SignalsAccessor(self, n, return_labels=True, group_by=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if self.is_frame() and self.wrapper.grouper.is_grouped(group_by=group_by):
        squeezed = self.squeeze_grouped(generic_nb.any_squeeze_nb, group_by=group_by, engine=engine)
        arr = reshape_fns.to_2d_array(squeezed)
    else:
        arr = self.to_2d_array()
    nth_index = dispatch.nth_index(arr, n, engine=engine)
    if return_labels:
        minus_one_mask = nth_index == -1
        nth_index = nth_index.astype(object)
        nth_index[minus_one_mask] = np.nan
        nth_index[~minus_one_mask] = self.wrapper.index[nth_index[~minus_one_mask].astype(np.int64)]
    wrap_kwargs = merge_dicts(dict(name_or_index='nth_index'), wrap_kwargs)
    return self.wrapper.wrap_reduced(nth_index, group_by=group_by, **wrap_kwargs)


def norm_avg_index__of__SignalsAccessor(self, group_by=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    norm_avg_index = dispatch.norm_avg_index(self.to_2d_array(), engine=engine)
    wrap_kwargs = merge_dicts(dict(name_or_index='norm_avg_index'), wrap_kwargs)
    norm_avg_index = self.wrapper.wrap_reduced(norm_avg_index, group_by=False, **wrap_kwargs)
    if self.is_frame() and self.wrapper.grouper.is_grouped(group_by=group_by):
        if group_by is None:
            group_by = self.wrapper.grouper.group_by
        col_total = self.total(group_by=False)
        norm_avg_index *= col_total
        norm_avg_index = norm_avg_index.vbt.squeeze_grouped(generic_nb.sum_squeeze_nb, group_by=group_by)
        group_total = col_total.vbt.squeeze_grouped(generic_nb.sum_squeeze_nb, group_by=group_by)
        norm_avg_index /= group_total
    return norm_avg_index


def index_mapped__of__SignalsAccessor(self, group_by=None, **kwargs):
    indices = np.arange(len(self.wrapper.index), dtype=np.float64)[:, None]
    indices = np.tile(indices, (1, len(self.wrapper.columns)))
    indices = reshape_fns.soft_to_ndim(indices, self.wrapper.ndim)
    indices[~self.obj.values] = np.nan
    return self.wrapper.wrap(indices).vbt.to_mapped(dropna=True, dtype=np.int64, group_by=group_by, **kwargs)


def total__of__SignalsAccessor(self, wrap_kwargs=None, group_by=None):
    wrap_kwargs = merge_dicts(dict(name_or_index='total'), wrap_kwargs)
    return self.sum(group_by=group_by, wrap_kwargs=wrap_kwargs)


def rate__of__SignalsAccessor(self, wrap_kwargs=None, group_by=None, **kwargs):
    total = reshape_fns.to_1d_array(self.total(group_by=group_by, **kwargs))
    wrap_kwargs = merge_dicts(dict(name_or_index='rate'), wrap_kwargs)
    total_steps = self.wrapper.grouper.get_group_lens(group_by=group_by) * self.wrapper.shape[0]
    return self.wrapper.wrap_reduced(total / total_steps, group_by=group_by, **wrap_kwargs)


def total_partitions__of__SignalsAccessor(self, wrap_kwargs=None, group_by=None, **kwargs):
    wrap_kwargs = merge_dicts(dict(name_or_index='total_partitions'), wrap_kwargs)
    return self.partition_ranges(**kwargs).count(group_by=group_by, wrap_kwargs=wrap_kwargs)


def partition_rate__of__SignalsAccessor(self, wrap_kwargs=None, group_by=None, **kwargs):
    total_partitions = reshape_fns.to_1d_array(self.total_partitions(*kwargs, group_by=group_by))
    total = reshape_fns.to_1d_array(self.total(*kwargs, group_by=group_by))
    wrap_kwargs = merge_dicts(dict(name_or_index='partition_rate'), wrap_kwargs)
    return self.wrapper.wrap_reduced(total_partitions / total, group_by=group_by, **wrap_kwargs)


def AND__of__SignalsAccessor(self, other, **kwargs):
    return self.combine(other, combine_func=np.logical_and, **kwargs)


def OR__of__SignalsAccessor(self, other, **kwargs):
    return self.combine(other, combine_func=np.logical_or, **kwargs)


def XOR__of__SignalsAccessor(self, other, **kwargs):
    return self.combine(other, combine_func=np.logical_xor, **kwargs)


def stats_defaults__of__SignalsAccessor(self):
    from vectorbt._settings import settings
    signals_stats_cfg = settings['signals']['stats']
    return merge_dicts(GenericAccessor.stats_defaults.__get__(self), signals_stats_cfg)


def _metrics__decl__of__SignalsAccessor():
    return Config(dict(start=dict(title='Start', calc_func=lambda self: self.wrapper.index[0], agg_func=None, tags='wrapper'), end=dict(title='End', calc_func=lambda self: self.wrapper.index[-1], agg_func=None, tags='wrapper'), period=dict(title='Period', calc_func=lambda self: len(self.wrapper.index), apply_to_timedelta=True, agg_func=None, tags='wrapper'), total=dict(title='Total', calc_func='total', tags='signals'), rate=dict(title='Rate [%]', calc_func='rate', post_calc_func=lambda self, out, settings: out * 100, tags='signals'), total_overlapping=dict(title='Total Overlapping', calc_func=lambda self, other, group_by: (self & other).vbt.signals.total(group_by=group_by), check_silent_has_other=True, tags=['signals', 'other']), overlapping_rate=dict(title='Overlapping Rate [%]', calc_func=lambda self, other, group_by: (self & other).vbt.signals.total(group_by=group_by) / (self | other).vbt.signals.total(group_by=group_by), post_calc_func=lambda self, out, settings: out * 100, check_silent_has_other=True, tags=['signals', 'other']), first_index=dict(title='First Index', calc_func='nth_index', n=0, return_labels=True, tags=['signals', 'index']), last_index=dict(title='Last Index', calc_func='nth_index', n=-1, return_labels=True, tags=['signals', 'index']), norm_avg_index=dict(title='Norm Avg Index [-1, 1]', calc_func='norm_avg_index', tags=['signals', 'index']), distance=dict(title=RepEval('f\'Distance {"<-" if from_other else "->"} {other_name}\' if other is not None else \'Distance\''), calc_func='between_ranges.duration', post_calc_func=lambda self, out, settings: {'Min': out.min(), 'Max': out.max(), 'Mean': out.mean(), 'Std': out.std(ddof=settings.get('ddof', 1))}, apply_to_timedelta=True, tags=RepEval("['signals', 'distance', 'other'] if other is not None else ['signals', 'distance']")), total_partitions=dict(title='Total Partitions', calc_func='total_partitions', tags=['signals', 'partitions']), partition_rate=dict(title='Partition Rate [%]', calc_func='partition_rate', post_calc_func=lambda self, out, settings: out * 100, tags=['signals', 'partitions']), partition_len=dict(title='Partition Length', calc_func='partition_ranges.duration', post_calc_func=lambda self, out, settings: {'Min': out.min(), 'Max': out.max(), 'Mean': out.mean(), 'Std': out.std(ddof=settings.get('ddof', 1))}, apply_to_timedelta=True, tags=['signals', 'partitions', 'distance']), partition_distance=dict(title='Partition Distance', calc_func='between_partition_ranges.duration', post_calc_func=lambda self, out, settings: {'Min': out.min(), 'Max': out.max(), 'Mean': out.mean(), 'Std': out.std(ddof=settings.get('ddof', 1))}, apply_to_timedelta=True, tags=['signals', 'partitions', 'distance'])), copy_kwargs=dict(copy_mode='deep'))


def metrics__of__SignalsAccessor(self):
    return self._metrics


def plot__of__SignalsAccessor(self, yref='y', **kwargs):
    default_layout = dict()
    default_layout['yaxis' + yref[1:]] = dict(tickmode='array', tickvals=[0, 1], ticktext=['false', 'true'])
    return self.obj.vbt.lineplot(**merge_dicts(default_layout, kwargs))


def plots_defaults__of__SignalsAccessor(self):
    from vectorbt._settings import settings
    signals_plots_cfg = settings['signals']['plots']
    return merge_dicts(GenericAccessor.plots_defaults.__get__(self), signals_plots_cfg)


def subplots__of__SignalsAccessor(self):
    return self._subplots


def __init____of__SignalsSRAccessor(self, obj, **kwargs):
    GenericSRAccessor.__init__(self, obj, **kwargs)
    SignalsAccessor.__init__(self, obj, **kwargs)


def plot_as_markers__of__SignalsSRAccessor(self, y=None, **kwargs):
    from vectorbt._settings import settings
    plotting_cfg = settings['plotting']
    if y is None:
        y = pd.Series.vbt.empty_like(self.obj, 1)
    else:
        y = reshape_fns.to_pd_array(y)
    return y[self.obj].vbt.scatterplot(**merge_dicts(dict(trace_kwargs=dict(marker=dict(symbol='circle', color=plotting_cfg['contrast_color_schema']['blue'], size=7, line=dict(width=1, color=adjust_lightness(plotting_cfg['contrast_color_schema']['blue']))))), kwargs))


def plot_as_entry_markers__of__SignalsSRAccessor(self, y=None, **kwargs):
    from vectorbt._settings import settings
    plotting_cfg = settings['plotting']
    return self.plot_as_markers(y=y, **merge_dicts(dict(trace_kwargs=dict(marker=dict(symbol='triangle-up', color=plotting_cfg['contrast_color_schema']['green'], size=8, line=dict(width=1, color=adjust_lightness(plotting_cfg['contrast_color_schema']['green']))), name='Entry')), kwargs))


def plot_as_exit_markers__of__SignalsSRAccessor(self, y=None, **kwargs):
    from vectorbt._settings import settings
    plotting_cfg = settings['plotting']
    return self.plot_as_markers(y=y, **merge_dicts(dict(trace_kwargs=dict(marker=dict(symbol='triangle-down', color=plotting_cfg['contrast_color_schema']['red'], size=8, line=dict(width=1, color=adjust_lightness(plotting_cfg['contrast_color_schema']['red']))), name='Exit')), kwargs))


def __init____of__SignalsDFAccessor(self, obj, **kwargs):
    GenericDFAccessor.__init__(self, obj, **kwargs)
    SignalsAccessor.__init__(self, obj, **kwargs)
