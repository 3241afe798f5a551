"""Reviewed reference definitions of vectorbt.indicators.factory (functions as name__ref, methods as name__of__Class)."""
import inspect
import itertools
import warnings
from collections import Counter
from collections import OrderedDict
from datetime import datetime, timedelta
from types import ModuleType
import numpy as np
import pandas as pd
from numba import njit
from numba.typed import List
from vectorbt import _typing as tp
from vectorbt.base import index_fns, reshape_fns, combine_fns
from vectorbt.base.array_wrapper import ArrayWrapper, Wrapping
from vectorbt.base.indexing import build_param_indexer
from vectorbt.generic import nb as generic_nb
from vectorbt.generic.accessors import BaseAccessor
from vectorbt.generic.plots_builder import PlotsBuilderMixin
from vectorbt.generic.stats_builder import StatsBuilderMixin
from vectorbt.utils import checks
from vectorbt.utils.config import merge_dicts, resolve_dict, Config, Default
from vectorbt.utils.decorators import classproperty, cached_property
from vectorbt.utils.docs import to_doc
from vectorbt.utils.enum_ import map_enum_fields
from vectorbt.utils.mapping import to_mapping, apply_mapping
from vectorbt.utils.params import to_typed_list, broadcast_params, create_param_product
from vectorbt.utils.random_ import set_seed
from vectorbt.indicators.factory import IndicatorMixinT, params_to_list, prepare_params, build_columns, CacheOutputT, RawOutputT, InputListT, InputMapperT, InOutputListT, OutputListT, ParamListT, MapperListT, OtherListT, PipelineOutputT, run_pipeline, combine_objs, IndicatorBaseT, RunOutputT, RunCombsOutputT, MetaIndicatorBase, IndicatorBase, IndicatorFactory


def params_to_list__ref(params, is_tuple, is_array_like):
    check_against = [list, List]
    if not is_tuple:
        check_against.append(tuple)
    if not is_array_like:
        check_against.append(np.ndarray)
    if isinstance(params, tuple(check_against)):
        new_params = list(params)
    else:
        new_params = [params]
    return new_params


def prepare_params__ref(param_list, param_settings=None, input_shape=None, to_2d=False):
    new_param_list = []
    for i, params in enumerate(param_list):
        _param_settings = resolve_dict(param_settings, i=i)
        is_tuple = _param_settings.get('is_tuple', False)
        dtype = _param_settings.get('dtype', None)
        if checks.is_mapping_like(dtype):
            if checks.is_namedtuple(dtype):
                params = map_enum_fields(params, dtype)
            else:
                params = apply_mapping(params, dtype)
        is_array_like = _param_settings.get('is_array_like', False)
        bc_to_input = _param_settings.get('bc_to_input', False)
        broadcast_kwargs = _param_settings.get('broadcast_kwargs', dict(require_kwargs=dict(requirements='W')))
        new_params = params_to_list(params, is_tuple, is_array_like)
        if bc_to_input is not False:
            if is_tuple:
                raise ValueError('Cannot broadcast to input if tuple')
            if input_shape is None:
                raise ValueError('Cannot broadcast to input if input shape is unknown. Pass input_shape.')
            if bc_to_input is True:
                to_shape = input_shape
            else:
                checks.assert_in(bc_to_input, (0, 1))
                if bc_to_input == 0:
                    to_shape = (input_shape[0],)
                else:
                    to_shape = (input_shape[1],) if len(input_shape) > 1 else (1,)
            _new_params = reshape_fns.broadcast(*new_params, to_shape=to_shape, **broadcast_kwargs)
            if len(new_params) == 1:
                _new_params = [_new_params]
            else:
                _new_params = list(_new_params)
            if to_2d and bc_to_input is True:
                __new_params = _new_params.copy()
                for j, param in enumerate(__new_params):
                    keep_raw = broadcast_kwargs.get('keep_raw', False)
                    if keep_raw is False or (isinstance(keep_raw, (tuple, list)) and (not keep_raw[j])):
                        __new_params[j] = reshape_fns.to_2d(param)
                new_params = __new_params
            else:
                new_params = _new_params
        new_param_list.append(new_params)
    return new_param_list


def build_columns__ref(param_list, input_columns, level_names=None, hide_levels=None, param_settings=None, per_column=False, ignore_default=False, **kwargs):
    if level_names is not None:
        checks.assert_len_equal(param_list, level_names)
    if hide_levels is None:
        hide_levels = []
    input_columns = index_fns.to_any_index(input_columns)
    param_indexes = []
    shown_param_indexes = []
    for i in range(len(param_list)):
        params = param_list[i]
        level_name = None
        if level_names is not None:
            level_name = level_names[i]
        if per_column:
            param_index = index_fns.index_from_values(params, name=level_name)
        else:
            _param_settings = resolve_dict(param_settings, i=i)
            _per_column = _param_settings.get('per_column', False)
            if _per_column:
                param_index = None
                for param in params:
                    bc_param = np.broadcast_to(param, (len(input_columns),))
                    _param_index = index_fns.index_from_values(bc_param, name=level_name)
                    if param_index is None:
                        param_index = _param_index
                    else:
                        param_index = param_index.append(_param_index)
                if len(param_index) == 1 and len(input_columns) > 1:
                    param_index = index_fns.repeat_index(param_index, len(input_columns), ignore_default=ignore_default)
            else:
                param_index = index_fns.index_from_values(param_list[i], name=level_name)
                param_index = index_fns.repeat_index(param_index, len(input_columns), ignore_default=ignore_default)
        param_indexes.append(param_index)
        if i not in hide_levels:
            shown_param_indexes.append(param_index)
    if len(shown_param_indexes) > 0:
        if not per_column:
            n_param_values = len(param_list[0]) if len(param_list) > 0 else 1
            input_columns = index_fns.tile_index(input_columns, n_param_values, ignore_default=ignore_default)
        stacked_columns = index_fns.stack_indexes([*shown_param_indexes, input_columns], **kwargs)
        return (param_indexes, stacked_columns)
    return (param_indexes, input_columns)


def run_pipeline__ref(num_ret_outputs, custom_func, *args, require_input_shape=False, input_shape=None, input_index=None, input_columns=None, input_list=None, in_output_list=None, in_output_settings=None, broadcast_kwargs=None, param_list=None, param_product=False, param_settings=None, run_unique=False, silence_warnings=False, per_column=False, pass_col=False, keep_pd=False, to_2d=True, as_lists=False, pass_input_shape=False, pass_flex_2d=False, pass_seed=False, level_names=None, hide_levels=None, stacking_kwargs=None, return_raw=False, use_raw=None, wrapper_kwargs=None, seed=None, **kwargs):
    if require_input_shape:
        checks.assert_not_none(input_shape)
        pass_input_shape = True
    if input_index is not None:
        input_index = index_fns.to_any_index(input_index)
    if input_columns is not None:
        input_columns = index_fns.to_any_index(input_columns)
    if input_list is None:
        input_list = []
    else:
        input_list = list(input_list)
    if in_output_list is None:
        in_output_list = []
    else:
        in_output_list = list(in_output_list)
    if in_output_settings is None:
        in_output_settings = {}
    checks.assert_dict_sequence_valid(in_output_settings, ['dtype'])
    if broadcast_kwargs is None:
        broadcast_kwargs = {}
    if param_list is None:
        param_list = []
    else:
        param_list = list(param_list)
    if param_settings is None:
        param_settings = {}
    checks.assert_dict_sequence_valid(param_settings, ['dtype', 'is_tuple', 'is_array_like', 'bc_to_input', 'broadcast_kwargs', 'per_column'])
    if hide_levels is None:
        hide_levels = []
    if stacking_kwargs is None:
        stacking_kwargs = {}
    if wrapper_kwargs is None:
        wrapper_kwargs = {}
    if keep_pd and checks.is_engine_compatible_func(custom_func, engine='auto'):
        raise ValueError('Cannot pass pandas objects to an engine-compatible custom_func. Set keep_pd to False.')
    in_output_idxs = [i for i, x in enumerate(in_output_list) if x is not None]
    if len(in_output_idxs) > 0:
        input_list += [in_output_list[i] for i in in_output_idxs]
    if len(input_list) > 0:
        broadcast_kwargs = merge_dicts(dict(to_shape=input_shape, index_from=input_index, columns_from=input_columns, require_kwargs=dict(requirements='W')), broadcast_kwargs)
        bc_input_list, input_shape, input_index, input_columns = reshape_fns.broadcast(*input_list, return_meta=True, **broadcast_kwargs)
        if input_index is None:
            input_index = pd.RangeIndex(start=0, step=1, stop=input_shape[0])
        if input_columns is None:
            input_columns = pd.RangeIndex(start=0, step=1, stop=input_shape[1] if len(input_shape) > 1 else 1)
        if len(input_list) == 1:
            bc_input_list = (bc_input_list,)
        input_list = list(map(np.asarray, bc_input_list))
    if len(in_output_idxs) > 0:
        for i, bc_in_output in zip(in_output_idxs, input_list[-len(in_output_idxs):]):
            in_output_list[i] = bc_in_output
        input_list = input_list[:-len(in_output_idxs)]
    if input_shape is not None and (not isinstance(input_shape, tuple)):
        input_shape = (input_shape,)
    orig_input_shape = input_shape
    orig_input_shape_2d = input_shape
    if input_shape is not None:
        orig_input_shape_2d = input_shape if len(input_shape) > 1 else (input_shape[0], 1)
    if per_column:
        if input_shape is None:
            raise ValueError('input_shape is required when per_column=True')
        input_shape = (input_shape[0],)
    input_shape_ready = input_shape
    input_shape_2d = input_shape
    if input_shape is not None:
        input_shape_2d = input_shape if len(input_shape) > 1 else (input_shape[0], 1)
    if to_2d:
        if input_shape is not None:
            input_shape_ready = input_shape_2d
    param_list = prepare_params(param_list, param_settings, input_shape=input_shape, to_2d=to_2d)
    if len(param_list) > 1:
        if level_names is not None:
            checks.assert_len_equal(param_list, level_names)
            if input_columns is not None:
                for level_name in level_names:
                    if level_name is not None:
                        checks.assert_level_not_exists(input_columns, level_name)
        if param_product:
            param_list = create_param_product(param_list)
    if len(param_list) > 0:
        if per_column:
            param_list = broadcast_params(param_list, to_n=orig_input_shape_2d[1])
        else:
            param_list = broadcast_params(param_list)
    n_param_values = len(param_list[0]) if len(param_list) > 0 else 1
    use_run_unique = False
    param_list_unique = param_list
    if not per_column and run_unique:
        try:
            param_tuples = list(zip(*param_list))
            unique_param_tuples = list(OrderedDict.fromkeys(param_tuples).keys())
            if len(unique_param_tuples) < len(param_tuples):
                param_list_unique = list(map(list, zip(*unique_param_tuples)))
                use_run_unique = True
        except:
            pass
    if checks.is_numba_func(custom_func):
        param_list_ready = [to_typed_list(params) for params in param_list_unique]
    else:
        param_list_ready = param_list_unique
    n_unique_param_values = len(param_list_unique[0]) if len(param_list_unique) > 0 else 1
    if per_column:
        input_list_ready = []
        for input in input_list:
            input_2d = reshape_fns.to_2d(input)
            col_inputs = []
            for i in range(input_2d.shape[1]):
                if to_2d:
                    col_input = input_2d[:, [i]]
                else:
                    col_input = input_2d[:, i]
                if keep_pd:
                    col_input = ArrayWrapper(input_index, input_columns[[i]], col_input.ndim).wrap(col_input)
                col_inputs.append(col_input)
            input_list_ready.append(col_inputs)
    else:
        input_list_ready = []
        for input in input_list:
            new_input = input
            if to_2d:
                new_input = reshape_fns.to_2d(input)
            if keep_pd:
                new_input = ArrayWrapper(input_index, input_columns, new_input.ndim).wrap(new_input)
            input_list_ready.append(new_input)
    in_output_list_ready = []
    for i in range(len(in_output_list)):
        if input_shape_2d is None:
            raise ValueError('input_shape is required when using in-place outputs')
        if i in in_output_idxs:
            in_output_wide = np.require(in_output_list[i], requirements='W')
            if not per_column:
                in_output_wide = reshape_fns.tile(in_output_wide, n_unique_param_values, axis=1)
        else:
            _in_output_settings = in_output_settings if isinstance(in_output_settings, dict) else in_output_settings[i]
            dtype = _in_output_settings.get('dtype', None)
            in_output_shape = (input_shape_2d[0], input_shape_2d[1] * n_unique_param_values)
            in_output_wide = np.empty(in_output_shape, dtype=dtype)
        in_output_list[i] = in_output_wide
        in_outputs = []
        for i in range(n_unique_param_values):
            in_output = in_output_wide[:, i * input_shape_2d[1]:(i + 1) * input_shape_2d[1]]
            if len(input_shape_ready) == 1:
                in_output = in_output[:, 0]
            if keep_pd:
                if per_column:
                    in_output = ArrayWrapper(input_index, input_columns[[i]], in_output.ndim).wrap(in_output)
                else:
                    in_output = ArrayWrapper(input_index, input_columns, in_output.ndim).wrap(in_output)
            in_outputs.append(in_output)
        in_output_list_ready.append(in_outputs)
    if checks.is_numba_func(custom_func):
        in_output_list_ready = [to_typed_list(in_outputs) for in_outputs in in_output_list_ready]

    def _use_raw(_raw):
        _output_list, _param_map, _n_input_cols, _other_list = _raw
        idxs = np.array([_param_map.index(param_tuple) for param_tuple in zip(*param_list)])
        _output_list = [np.hstack([o[:, idx * _n_input_cols:(idx + 1) * _n_input_cols] for idx in idxs]) for o in _output_list]
        return (_output_list, _param_map, _n_input_cols, _other_list)
    if use_raw is not None:
        output_list, param_map, n_input_cols, other_list = _use_raw(use_raw)
    else:
        func_args = args
        func_kwargs = {}
        if pass_input_shape:
            func_kwargs['input_shape'] = input_shape_ready
        if pass_flex_2d:
            if input_shape is None:
                raise ValueError('Cannot determine flex_2d without inputs')
            func_kwargs['flex_2d'] = len(input_shape) == 2
        if pass_seed:
            func_kwargs['seed'] = seed
        func_kwargs = merge_dicts(func_kwargs, kwargs)
        if seed is not None:
            set_seed(seed)

        def _call_custom_func(_input_list_ready, _in_output_list_ready, _param_list_ready, *_func_args, **_func_kwargs):
            if as_lists:
                if checks.is_numba_func(custom_func):
                    return custom_func(tuple(_input_list_ready), tuple(_in_output_list_ready), tuple(_param_list_ready), *_func_args, **_func_kwargs)
                return custom_func(_input_list_ready, _in_output_list_ready, _param_list_ready, *_func_args, **_func_kwargs)
            return custom_func(*_input_list_ready, *_in_output_list_ready, *_param_list_ready, *_func_args, **_func_kwargs)
        if per_column:
            output = []
            for col in range(orig_input_shape_2d[1]):
                _input_list_ready = []
                for _inputs in input_list_ready:
                    _input_list_ready.append(_inputs[col])
                _in_output_list_ready = []
                for _in_outputs in in_output_list_ready:
                    if isinstance(_in_outputs, List):
                        __in_outputs = List()
                    else:
                        __in_outputs = []
                    __in_outputs.append(_in_outputs[col])
                    _in_output_list_ready.append(__in_outputs)
                _param_list_ready = []
                for _params in param_list_ready:
                    if isinstance(_params, List):
                        __params = List()
                    else:
                        __params = []
                    __params.append(_params[col])
                    _param_list_ready.append(__params)
                _func_args = func_args
                _func_kwargs = func_kwargs.copy()
                if 'use_cache' in func_kwargs:
                    use_cache = func_kwargs['use_cache']
                    if isinstance(use_cache, list) and len(use_cache) == orig_input_shape_2d[1]:
                        _func_kwargs['use_cache'] = func_kwargs['use_cache'][col]
                if pass_col:
                    _func_kwargs['col'] = col
                col_output = _call_custom_func(_input_list_ready, _in_output_list_ready, _param_list_ready, *_func_args, **_func_kwargs)
                output.append(col_output)
        else:
            output = _call_custom_func(input_list_ready, in_output_list_ready, param_list_ready, *func_args, **func_kwargs)
        if kwargs.get('return_cache', False):
            if use_run_unique and (not silence_warnings):
                warnings.warn('Cache is produced by unique parameter combinations when run_unique=True', stacklevel=2)
            return output

        def _split_output(output):
            if output is None:
                _output_list = []
                _other_list = []
            else:
                if isinstance(output, (tuple, list, List)):
                    _output_list = list(output)
                else:
                    _output_list = [output]
                if len(_output_list) > num_ret_outputs:
                    _other_list = _output_list[num_ret_outputs:]
                    if use_run_unique and (not silence_warnings):
                        warnings.warn('Additional output objects are produced by unique parameter combinations when run_unique=True', stacklevel=2)
                else:
                    _other_list = []
                _output_list = _output_list[:num_ret_outputs]
            if len(_output_list) != num_ret_outputs:
                raise ValueError('Number of returned outputs other than expected')
            _output_list = list(map(lambda x: reshape_fns.to_2d_array(x), _output_list))
            return (_output_list, _other_list)
        if per_column:
            output_list = []
            other_list = []
            for _output in output:
                __output_list, __other_list = _split_output(_output)
                output_list.append(__output_list)
                if len(__other_list) > 0:
                    other_list.append(__other_list)
            output_list = [np.hstack(input_group) for input_group in zip(*output_list)]
        else:
            output_list, other_list = _split_output(output)
        output_list = in_output_list + output_list
        param_map = list(zip(*param_list_unique))
        output_shape = output_list[0].shape
        for output in output_list:
            if output.shape != output_shape:
                raise ValueError('All outputs must have the same shape')
        if per_column:
            n_input_cols = 1
        else:
            n_input_cols = output_shape[1] // n_unique_param_values
        if input_shape_2d is not None:
            if n_input_cols != input_shape_2d[1]:
                if per_column:
                    raise ValueError('All outputs must have one column when per_column=True')
                else:
                    raise ValueError('All outputs must have the number of columns = #input columns x #parameters')
        raw = (output_list, param_map, n_input_cols, other_list)
        if return_raw:
            if use_run_unique and (not silence_warnings):
                warnings.warn('Raw output is produced by unique parameter combinations when run_unique=True', stacklevel=2)
            return raw
        if use_run_unique:
            output_list, param_map, n_input_cols, other_list = _use_raw(raw)
    if input_shape is None:
        if n_input_cols == 1:
            input_shape = (output_list[0].shape[0],)
        else:
            input_shape = (output_list[0].shape[0], n_input_cols)
    else:
        input_shape = orig_input_shape
    if input_index is None:
        input_index = pd.RangeIndex(start=0, step=1, stop=input_shape[0])
    if input_columns is None:
        input_columns = pd.RangeIndex(start=0, step=1, stop=input_shape[1] if len(input_shape) > 1 else 1)
    if len(param_list) > 0:
        param_indexes, new_columns = build_columns(param_list, input_columns, level_names=level_names, hide_levels=hide_levels, param_settings=param_settings, per_column=per_column, **stacking_kwargs)
        input_mapper = None
        if len(input_list) > 0:
            if per_column:
                input_mapper = np.arange(len(input_columns))
            else:
                input_mapper = np.tile(np.arange(len(input_columns)), n_param_values)
        mapper_list = [param_indexes[i] for i in range(len(param_list))]
    else:
        new_columns = input_columns
        input_mapper = None
        mapper_list = []
    new_ndim = len(input_shape) if output_list[0].shape[1] == 1 else output_list[0].ndim
    wrapper = ArrayWrapper(input_index, new_columns, new_ndim, **wrapper_kwargs)
    return (wrapper, input_list, input_mapper, output_list[:len(in_output_list)], output_list[len(in_output_list):], param_list, mapper_list, other_list)


def combine_objs__ref(obj, other, *args, level_name=None, keys=None, allow_multiple=True, **kwargs):
    if allow_multiple and isinstance(other, (tuple, list)):
        if keys is None:
            keys = index_fns.index_from_values(other, name=level_name)
    return obj.vbt.combine(other, *args, keys=keys, concat=True, allow_multiple=allow_multiple, **kwargs)


def short_name__of__IndicatorBase(self):
    return self._short_name


def level_names__of__IndicatorBase(self):
    return self._level_names


def input_names__of__IndicatorBase(cls_or_self):
    return cls_or_self._input_names


def param_names__of__IndicatorBase(cls_or_self):
    return cls_or_self._param_names


def in_output_names__of__IndicatorBase(cls_or_self):
    return cls_or_self._in_output_names


def output_names__of__IndicatorBase(cls_or_self):
    return cls_or_self._output_names


def output_flags__of__IndicatorBase(cls_or_self):
    return cls_or_self._output_flags


def __init____of__IndicatorBase(self, wrapper, input_list, input_mapper, in_output_list, output_list, param_list, mapper_list, short_name, level_names):
    Wrapping.__init__(self, wrapper, input_list=input_list, input_mapper=input_mapper, in_output_list=in_output_list, output_list=output_list, param_list=param_list, mapper_list=mapper_list, short_name=short_name, level_names=level_names)
    StatsBuilderMixin.__init__(self)
    PlotsBuilderMixin.__init__(self)
    if input_mapper is not None:
        checks.assert_equal(input_mapper.shape[0], wrapper.shape_2d[1])
    for ts in input_list:
        checks.assert_equal(ts.shape[0], wrapper.shape_2d[0])
    for ts in in_output_list + output_list:
        checks.assert_equal(ts.shape, wrapper.shape_2d)
    for params in param_list:
        checks.assert_len_equal(param_list[0], params)
    for mapper in mapper_list:
        checks.assert_equal(len(mapper), wrapper.shape_2d[1])
    checks.assert_instance_of(short_name, str)
    checks.assert_len_equal(level_names, param_list)
    setattr(self, '_short_name', short_name)
    setattr(self, '_level_names', level_names)
    for i, ts_name in enumerate(self.input_names):
        setattr(self, f'_{ts_name}', input_list[i])
    setattr(self, '_input_mapper', input_mapper)
    for i, in_output_name in enumerate(self.in_output_names):
        setattr(self, f'_{in_output_name}', in_output_list[i])
    for i, output_name in enumerate(self.output_names):
        setattr(self, f'_{output_name}', output_list[i])
    for i, param_name in enumerate(self.param_names):
        setattr(self, f'_{param_name}_list', param_list[i])
        setattr(self, f'_{param_name}_mapper', mapper_list[i])
    if len(self.param_names) > 1:
        tuple_mapper = list(zip(*list(mapper_list)))
        setattr(self, '_tuple_mapper', tuple_mapper)


def indexing_func__of__IndicatorBase(self, pd_indexing_func, **kwargs):
    new_wrapper, idx_idxs, _, col_idxs = self.wrapper.indexing_func_meta(pd_indexing_func, **kwargs)
    idx_idxs_arr = reshape_fns.to_1d_array(idx_idxs)
    col_idxs_arr = reshape_fns.to_1d_array(col_idxs)
    if np.array_equal(idx_idxs_arr, np.arange(self.wrapper.shape_2d[0])):
        idx_idxs_arr = slice(None, None, None)
    if np.array_equal(col_idxs_arr, np.arange(self.wrapper.shape_2d[1])):
        col_idxs_arr = slice(None, None, None)
    input_mapper = getattr(self, '_input_mapper', None)
    if input_mapper is not None:
        input_mapper = input_mapper[col_idxs_arr]
    input_list = []
    for input_name in self.input_names:
        new_input = getattr(self, f'_{input_name}')[idx_idxs_arr]
        if input_mapper is None:
            new_input = reshape_fns.to_2d_array(new_input)[:, col_idxs_arr]
        input_list.append(new_input)
    in_output_list = []
    for in_output_name in self.in_output_names:
        in_output_list.append(getattr(self, f'_{in_output_name}')[idx_idxs_arr, :][:, col_idxs_arr])
    output_list = []
    for output_name in self.output_names:
        output_list.append(getattr(self, f'_{output_name}')[idx_idxs_arr, :][:, col_idxs_arr])
    param_list = []
    for param_name in self.param_names:
        param_list.append(getattr(self, f'_{param_name}_list'))
    mapper_list = []
    for param_name in self.param_names:
        mapper_list.append(getattr(self, f'_{param_name}_mapper')[col_idxs_arr])
    return self.replace(wrapper=new_wrapper, input_list=input_list, input_mapper=input_mapper, in_output_list=in_output_list, output_list=output_list, param_list=param_list, mapper_list=mapper_list)


@classmethod
def _run__of__IndicatorBase(cls, *args, **kwargs):
    raise NotImplementedError


@classmethod
def run__of__IndicatorBase(cls, *args, **kwargs):
    return cls._run(*args, **kwargs)


@classmethod
def _run_combs__of__IndicatorBase(cls, *args, **kwargs):
    raise NotImplementedError


@classmethod
def run_combs__of__IndicatorBase(cls, *args, **kwargs):
    return cls._run_combs(*args, **kwargs)


def __init____of__IndicatorFactory(self, class_name='Indicator', class_docstring='', module_name=__name__, short_name=None, prepend_name=True, input_names=None, param_names=None, in_output_names=None, output_names=None, output_flags=None, custom_output_props=None, attr_settings=None, metrics=None, stats_defaults=None, subplots=None, plots_defaults=None):
    self.class_name = class_name
    checks.assert_instance_of(class_name, str)
    self.class_docstring = class_docstring
    checks.assert_instance_of(class_docstring, str)
    self.module_name = module_name
    if module_name is not None:
        checks.assert_instance_of(module_name, str)
    if short_name is None:
        if class_name == 'Indicator':
            short_name = 'custom'
        else:
            short_name = class_name.lower()
    self.short_name = short_name
    checks.assert_instance_of(short_name, str)
    self.prepend_name = prepend_name
    checks.assert_instance_of(prepend_name, bool)
    if input_names is None:
        input_names = []
    else:
        checks.assert_sequence(input_names)
        input_names = list(input_names)
    self.input_names = input_names
    if param_names is None:
        param_names = []
    else:
        checks.assert_sequence(param_names)
        param_names = list(param_names)
    self.param_names = param_names
    if in_output_names is None:
        in_output_names = []
    else:
        checks.assert_sequence(in_output_names)
        in_output_names = list(in_output_names)
    self.in_output_names = in_output_names
    if output_names is None:
        output_names = []
    else:
        checks.assert_sequence(output_names)
        output_names = list(output_names)
    self.output_names = output_names
    all_output_names = in_output_names + output_names
    if len(all_output_names) == 0:
        raise ValueError('Must have at least one in-place or regular output')
    if output_flags is None:
        output_flags = {}
    checks.assert_instance_of(output_flags, dict)
    if len(output_flags) > 0:
        checks.assert_dict_valid(output_flags, all_output_names)
    self.output_flags = output_flags
    if custom_output_props is None:
        custom_output_props = {}
    checks.assert_instance_of(custom_output_props, dict)
    self.custom_output_props = custom_output_props
    if attr_settings is None:
        attr_settings = {}
    checks.assert_instance_of(attr_settings, dict)
    all_attr_names = input_names + all_output_names + list(custom_output_props.keys())
    if len(attr_settings) > 0:
        checks.assert_dict_valid(attr_settings, all_attr_names)
    self.attr_settings = attr_settings
    ParamIndexer = build_param_indexer(param_names + (['tuple'] if len(param_names) > 1 else []), module_name=module_name)
    Indicator = type(self.class_name, (IndicatorBase, ParamIndexer), {})
    Indicator.__doc__ = self.class_docstring
    if module_name is not None:
        Indicator.__module__ = self.module_name
    setattr(Indicator, '_input_names', tuple(input_names))
    setattr(Indicator, '_param_names', tuple(param_names))
    setattr(Indicator, '_in_output_names', tuple(in_output_names))
    setattr(Indicator, '_output_names', tuple(output_names))
    setattr(Indicator, '_output_flags', output_flags)
    for param_name in param_names:

        def param_list_prop(self, _param_name=param_name):
            return getattr(self, f'_{_param_name}_list')
        param_list_prop.__doc__ = f'List of `{param_name}` values.'
        setattr(Indicator, f'{param_name}_list', property(param_list_prop))
    for input_name in input_names:

        def input_prop(self, _input_name=input_name):
            old_input = reshape_fns.to_2d_array(getattr(self, '_' + _input_name))
            input_mapper = getattr(self, '_input_mapper')
            if input_mapper is None:
                return self.wrapper.wrap(old_input)
            return self.wrapper.wrap(old_input[:, input_mapper])
        input_prop.__name__ = input_name
        setattr(Indicator, input_name, cached_property(input_prop))
    for output_name in all_output_names:

        def output_prop(self, _output_name=output_name):
            return self.wrapper.wrap(getattr(self, '_' + _output_name))
        if output_name in in_output_names:
            output_prop.__doc__ = 'In-place output array.'
        else:
            output_prop.__doc__ = 'Output array.'
        output_prop.__name__ = output_name
        if output_name in output_flags:
            _output_flags = output_flags[output_name]
            if isinstance(_output_flags, (tuple, list)):
                _output_flags = ', '.join(_output_flags)
            output_prop.__doc__ += '\n\n' + _output_flags
        setattr(Indicator, output_name, property(output_prop))

    def __init__(self, wrapper, input_list, input_mapper, in_output_list, output_list, param_list, mapper_list, short_name, level_names):
        IndicatorBase.__init__(self, wrapper, input_list, input_mapper, in_output_list, output_list, param_list, mapper_list, short_name, level_names)
        if len(param_names) > 1:
            tuple_mapper = list(zip(*list(mapper_list)))
        else:
            tuple_mapper = None
        mapper_sr_list = []
        for i, m in enumerate(mapper_list):
            mapper_sr_list.append(pd.Series(m, index=wrapper.columns))
        if tuple_mapper is not None:
            mapper_sr_list.append(pd.Series(tuple_mapper, index=wrapper.columns))
        ParamIndexer.__init__(self, mapper_sr_list, level_names=[*level_names, level_names])
    setattr(Indicator, '__init__', __init__)
    for prop_name, prop in custom_output_props.items():
        if prop.__doc__ is None:
            prop.__doc__ = 'Custom property.'
        prop.__name__ = prop_name
        prop = cached_property(prop)
        setattr(Indicator, prop_name, prop)

    def assign_combine_method(func_name, combine_func, def_kwargs, attr_name, docstring):

        def combine_method(self, other, level_name=None, allow_multiple=True, _prepend_name=prepend_name, **kwargs):
            if allow_multiple and isinstance(other, (tuple, list)):
                other = list(other)
                for i in range(len(other)):
                    if isinstance(other[i], IndicatorBase):
                        other[i] = getattr(other[i], attr_name)
            elif isinstance(other, IndicatorBase):
                other = getattr(other, attr_name)
            if level_name is None:
                if _prepend_name:
                    if attr_name == self.short_name:
                        level_name = f'{self.short_name}_{func_name}'
                    else:
                        level_name = f'{self.short_name}_{attr_name}_{func_name}'
                else:
                    level_name = f'{attr_name}_{func_name}'
            out = combine_objs(getattr(self, attr_name), other, combine_func=combine_func, level_name=level_name, allow_multiple=allow_multiple, **merge_dicts(def_kwargs, kwargs))
            return out
        combine_method.__qualname__ = f'{Indicator.__name__}.{attr_name}_{func_name}'
        combine_method.__doc__ = docstring
        setattr(Indicator, f'{attr_name}_{func_name}', combine_method)
    for attr_name in all_attr_names:
        _attr_settings = attr_settings.get(attr_name, {})
        checks.assert_dict_valid(_attr_settings, ['dtype'])
        dtype = _attr_settings.get('dtype', np.float64)
        if checks.is_mapping_like(dtype):

            def attr_readable(self, _attr_name=attr_name, _mapping=dtype):
                return getattr(self, _attr_name).vbt(mapping=_mapping).apply_mapping()
            attr_readable.__qualname__ = f'{Indicator.__name__}.{attr_name}_readable'
            attr_readable.__doc__ = inspect.cleandoc('`{attr_name}` in readable format based on the following mapping: \n                                \n                    ```json\n                    {dtype}\n                    ```').format(attr_name=attr_name, dtype=to_doc(to_mapping(dtype)))
            setattr(Indicator, f'{attr_name}_readable', property(attr_readable))

            def attr_stats(self, *args, _attr_name=attr_name, _mapping=dtype, **kwargs):
                return getattr(self, _attr_name).vbt(mapping=_mapping).stats(*args, **kwargs)
            attr_stats.__qualname__ = f'{Indicator.__name__}.{attr_name}_stats'
            attr_stats.__doc__ = inspect.cleandoc('Stats of `{attr_name}` based on the following mapping: \n\n                    ```json\n                    {dtype}\n                    ```').format(attr_name=attr_name, dtype=to_doc(to_mapping(dtype)))
            setattr(Indicator, f'{attr_name}_stats', attr_stats)
        elif np.issubdtype(dtype, np.number):
            func_info = [('above', np.greater, dict()), ('below', np.less, dict()), ('equal', np.equal, dict()), ('crossed_above', lambda x, y, wait=0: generic_nb.crossed_above_nb(x, y, wait), dict(to_2d=True)), ('crossed_below', lambda x, y, wait=0: generic_nb.crossed_above_nb(y, x, wait), dict(to_2d=True))]
            for func_name, np_func, def_kwargs in func_info:
                method_docstring = f'Return True for each element where `{attr_name}` is {func_name} `other`. \n                \n                    See `vectorbt.indicators.factory.combine_objs`.'
                assign_combine_method(func_name, np_func, def_kwargs, attr_name, method_docstring)

            def attr_stats(self, *args, _attr_name=attr_name, **kwargs):
                return getattr(self, _attr_name).vbt.stats(*args, **kwargs)
            attr_stats.__qualname__ = f'{Indicator.__name__}.{attr_name}_stats'
            attr_stats.__doc__ = f'Stats of `{attr_name}` as generic.'
            setattr(Indicator, f'{attr_name}_stats', attr_stats)
        elif np.issubdtype(dtype, np.bool_):
            func_info = [('and', np.logical_and, dict()), ('or', np.logical_or, dict()), ('xor', np.logical_xor, dict())]
            for func_name, np_func, def_kwargs in func_info:
                method_docstring = f'Return `{attr_name} {func_name.upper()} other`. \n\n                    See `vectorbt.indicators.factory.combine_objs`.'
                assign_combine_method(func_name, np_func, def_kwargs, attr_name, method_docstring)

            def attr_stats(self, *args, _attr_name=attr_name, **kwargs):
                return getattr(self, _attr_name).vbt.signals.stats(*args, **kwargs)
            attr_stats.__qualname__ = f'{Indicator.__name__}.{attr_name}_stats'
            attr_stats.__doc__ = f'Stats of `{attr_name}` as signals.'
            setattr(Indicator, f'{attr_name}_stats', attr_stats)
    if metrics is not None:
        if not isinstance(metrics, Config):
            metrics = Config(metrics, copy_kwargs=dict(copy_mode='deep'))
        setattr(Indicator, '_metrics', metrics.copy())
    if stats_defaults is not None:
        if isinstance(stats_defaults, dict):

            def stats_defaults_prop(self, _stats_defaults=stats_defaults):
                return _stats_defaults
        else:

            def stats_defaults_prop(self, _stats_defaults=stats_defaults):
                return stats_defaults(self)
        stats_defaults_prop.__name__ = 'stats_defaults'
        setattr(Indicator, 'stats_defaults', property(stats_defaults_prop))
    if subplots is not None:
        if not isinstance(subplots, Config):
            subplots = Config(subplots, copy_kwargs=dict(copy_mode='deep'))
        setattr(Indicator, '_subplots', subplots.copy())
    if plots_defaults is not None:
        if isinstance(plots_defaults, dict):

            def plots_defaults_prop(self, _plots_defaults=plots_defaults):
                return _plots_defaults
        else:

            def plots_defaults_prop(self, _plots_defaults=plots_defaults):
                return plots_defaults(self)
        plots_defaults_prop.__name__ = 'plots_defaults'
        setattr(Indicator, 'plots_defaults', property(plots_defaults_prop))
    self.Indicator = Indicator


def from_custom_func__of__IndicatorFactory(self, custom_func, require_input_shape=False, param_settings=None, in_output_settings=None, hide_params=None, hide_default=True, var_args=False, keyword_only_args=False, **pipeline_kwargs):
    Indicator = self.Indicator
    short_name = self.short_name
    prepend_name = self.prepend_name
    input_names = self.input_names
    param_names = self.param_names
    in_output_names = self.in_output_names
    output_names = self.output_names
    all_input_names = input_names + param_names + in_output_names
    setattr(Indicator, 'custom_func', custom_func)

    def _merge_settings(old_settings, new_settings, allowed_keys=None):
        new_settings = merge_dicts(old_settings, new_settings)
        if len(new_settings) > 0 and allowed_keys is not None:
            checks.assert_dict_valid(new_settings, allowed_keys)
        return new_settings

    def _resolve_refs(input_list, param_list, in_output_list):
        all_inputs = list(input_list) + list(param_list) + list(in_output_list)
        for i in range(len(all_inputs)):
            input = all_inputs[i]
            is_default = False
            if isinstance(input, Default):
                input = input.value
                is_default = True
            if isinstance(input, str):
                if input in all_input_names:
                    new_input = all_inputs[all_input_names.index(input)]
                    if is_default and (not isinstance(new_input, Default)):
                        new_input = Default(new_input)
                    all_inputs[i] = new_input
        input_list = all_inputs[:len(input_list)]
        all_inputs = all_inputs[len(input_list):]
        param_list = all_inputs[:len(param_list)]
        in_output_list = all_inputs[len(param_list):]
        return (input_list, param_list, in_output_list)

    def _extract_inputs(args):
        input_list = args[:len(input_names)]
        checks.assert_len_equal(input_list, input_names)
        args = args[len(input_names):]
        param_list = args[:len(param_names)]
        checks.assert_len_equal(param_list, param_names)
        args = args[len(param_names):]
        in_output_list = args[:len(in_output_names)]
        checks.assert_len_equal(in_output_list, in_output_names)
        args = args[len(in_output_names):]
        if not var_args and len(args) > 0:
            raise TypeError('Variable length arguments are not supported by this function (var_args is set to False)')
        input_list, param_list, in_output_list = _resolve_refs(input_list, param_list, in_output_list)
        return (input_list, param_list, in_output_list, args)
    for k, v in pipeline_kwargs.items():
        if k in param_names and (not isinstance(v, Default)):
            pipeline_kwargs[k] = Default(v)
    pipeline_kwargs = merge_dicts({k: None for k in in_output_names}, pipeline_kwargs)
    default_kwargs = {}
    for k in list(pipeline_kwargs.keys()):
        if k in input_names or k in param_names or k in in_output_names:
            default_kwargs[k] = pipeline_kwargs.pop(k)
    if var_args and keyword_only_args:
        raise ValueError('var_args and keyword_only_args cannot be used together')
    def_run_kwargs = dict(short_name=short_name, hide_params=hide_params, hide_default=hide_default, **default_kwargs)

    def _run(cls, *args, **kwargs):
        _short_name = kwargs.pop('short_name', def_run_kwargs['short_name'])
        _hide_params = kwargs.pop('hide_params', def_run_kwargs['hide_params'])
        _hide_default = kwargs.pop('hide_default', def_run_kwargs['hide_default'])
        _param_settings = _merge_settings(param_settings, kwargs.pop('param_settings', {}), [param_names])
        _in_output_settings = _merge_settings(in_output_settings, kwargs.pop('in_output_settings', {}), [in_output_names])
        if _hide_params is None:
            _hide_params = []
        args = list(args)
        input_list, param_list, in_output_list, args = _extract_inputs(args)
        level_names = []
        hide_levels = []
        for i, pname in enumerate(param_names):
            level_name = _short_name + '_' + pname if prepend_name else pname
            level_names.append(level_name)
            if pname in _hide_params or (_hide_default and isinstance(param_list[i], Default)):
                hide_levels.append(i)
        param_list = [params.value if isinstance(params, Default) else params for params in param_list]
        results = run_pipeline(len(output_names), custom_func, *args, require_input_shape=require_input_shape, input_list=input_list, in_output_list=in_output_list, param_list=param_list, level_names=level_names, hide_levels=hide_levels, param_settings=[_param_settings.get(n, {}) for n in param_names], in_output_settings=[_in_output_settings.get(n, {}) for n in in_output_names], **merge_dicts(pipeline_kwargs, kwargs))
        if kwargs.get('return_raw', False) or kwargs.get('return_cache', False):
            return results
        wrapper, new_input_list, input_mapper, in_output_list, output_list, new_param_list, mapper_list, other_list = results
        obj = cls(wrapper, new_input_list, input_mapper, in_output_list, output_list, new_param_list, mapper_list, short_name, tuple(level_names))
        if len(other_list) > 0:
            return (obj, *tuple(other_list))
        return obj
    setattr(Indicator, '_run', classmethod(_run))

    def compile_run_function(func_name, docstring, _default_kwargs=None):
        pos_names = []
        main_kw_names = []
        other_kw_names = []
        if _default_kwargs is None:
            _default_kwargs = {}
        for k in input_names + param_names:
            if k in _default_kwargs:
                main_kw_names.append(k)
            else:
                pos_names.append(k)
        main_kw_names.extend(in_output_names)
        for k, v in _default_kwargs.items():
            if k not in pos_names and k not in main_kw_names:
                other_kw_names.append(k)
        _0 = func_name
        _1 = '*, ' if keyword_only_args else ''
        _2 = []
        if require_input_shape:
            _2.append('input_shape')
        _2.extend(pos_names)
        _2 = ', '.join(_2) + ', ' if len(_2) > 0 else ''
        _3 = '*args, ' if var_args else ''
        _4 = ['{}={}'.format(k, k) for k in main_kw_names + other_kw_names]
        _4 = ', '.join(_4) + ', ' if len(_4) > 0 else ''
        _5 = docstring
        _6 = all_input_names
        _6 = ', '.join(_6) + ', ' if len(_6) > 0 else ''
        _7 = []
        if require_input_shape:
            _7.append('input_shape')
        _7.extend(other_kw_names)
        _7 = ['{}={}'.format(k, k) for k in _7]
        _7 = ', '.join(_7) + ', ' if len(_7) > 0 else ''
        func_str = '@classmethod\ndef {0}(cls, {1}{2}{3}{4}**kwargs):\n    """{5}"""\n    return cls._{0}({6}{3}{7}**kwargs)'.format(_0, _1, _2, _3, _4, _5, _6, _7)
        scope = {**dict(Default=Default), **_default_kwargs}
        filename = inspect.getfile(lambda: None)
        code = compile(func_str, filename, 'single')
        exec(code, scope)
        return scope[func_name]
    _0 = self.class_name
    _1 = ''
    if len(self.input_names) > 0:
        _1 += '\n* Inputs: ' + ', '.join(map(lambda x: f'`{x}`', self.input_names))
    if len(self.in_output_names) > 0:
        _1 += '\n* In-place outputs: ' + ', '.join(map(lambda x: f'`{x}`', self.in_output_names))
    if len(self.param_names) > 0:
        _1 += '\n* Parameters: ' + ', '.join(map(lambda x: f'`{x}`', self.param_names))
    if len(self.output_names) > 0:
        _1 += '\n* Outputs: ' + ', '.join(map(lambda x: f'`{x}`', self.output_names))
    run_docstring = 'Run `{0}` indicator.\n{1}\n\nPass a list of parameter names as `hide_params` to hide their column levels.\nSet `hide_default` to False to show the column levels of the parameters with a default value.\n\nOther keyword arguments are passed to `vectorbt.indicators.factory.run_pipeline`.'.format(_0, _1)
    run = compile_run_function('run', run_docstring, def_run_kwargs)
    setattr(Indicator, 'run', run)
    if len(param_names) > 0:
        def_run_combs_kwargs = dict(r=2, param_product=False, comb_func=itertools.combinations, run_unique=True, short_names=None, hide_params=hide_params, hide_default=hide_default, **default_kwargs)

        def _run_combs(cls, *args, **kwargs):
            _r = kwargs.pop('r', def_run_combs_kwargs['r'])
            _param_product = kwargs.pop('param_product', def_run_combs_kwargs['param_product'])
            _comb_func = kwargs.pop('comb_func', def_run_combs_kwargs['comb_func'])
            _run_unique = kwargs.pop('run_unique', def_run_combs_kwargs['run_unique'])
            _short_names = kwargs.pop('short_names', def_run_combs_kwargs['short_names'])
            _hide_params = kwargs.pop('hide_params', def_run_kwargs['hide_params'])
            _hide_default = kwargs.pop('hide_default', def_run_kwargs['hide_default'])
            _param_settings = _merge_settings(param_settings, kwargs.get('param_settings', {}), [param_names])
            _hide_params = [] if _hide_params is None else list(_hide_params)
            if _short_names is None:
                _short_names = [f'{short_name}_{str(i + 1)}' for i in range(_r)]
            args = list(args)
            input_list, param_list, in_output_list, args = _extract_inputs(args)
            for i, pname in enumerate(param_names):
                if _hide_default and isinstance(param_list[i], Default):
                    if pname not in _hide_params:
                        _hide_params.append(pname)
                    param_list[i] = param_list[i].value
            checks.assert_len_equal(param_list, param_names)
            param_settings_list = [_param_settings.get(n, {}) for n in param_names]
            for i in range(len(param_list)):
                is_tuple = param_settings_list[i].get('is_tuple', False)
                is_array_like = param_settings_list[i].get('is_array_like', False)
                param_list[i] = params_to_list(param_list[i], is_tuple, is_array_like)
            if _param_product:
                param_list = create_param_product(param_list)
            else:
                param_list = broadcast_params(param_list)
            if not isinstance(param_list, (tuple, list)):
                param_list = [param_list]
            if _run_unique:
                raw_results = cls._run(*input_list, *param_list, *in_output_list, *args, return_raw=True, run_unique=False, **kwargs)
                kwargs['use_raw'] = raw_results
            instances = []
            if _comb_func == itertools.product:
                param_lists = zip(*_comb_func(zip(*param_list), repeat=_r))
            else:
                param_lists = zip(*_comb_func(zip(*param_list), _r))
            for i, param_list in enumerate(param_lists):
                instances.append(cls._run(*input_list, *zip(*param_list), *in_output_list, *args, short_name=_short_names[i], hide_params=_hide_params, hide_default=_hide_default, run_unique=False, **kwargs))
            return tuple(instances)
        setattr(Indicator, '_run_combs', classmethod(_run_combs))
        _0 = self.class_name
        _1 = ''
        if len(self.input_names) > 0:
            _1 += '\n* Inputs: ' + ', '.join(map(lambda x: f'`{x}`', self.input_names))
        if len(self.in_output_names) > 0:
            _1 += '\n* In-place outputs: ' + ', '.join(map(lambda x: f'`{x}`', self.in_output_names))
        if len(self.param_names) > 0:
            _1 += '\n* Parameters: ' + ', '.join(map(lambda x: f'`{x}`', self.param_names))
        if len(self.output_names) > 0:
            _1 += '\n* Outputs: ' + ', '.join(map(lambda x: f'`{x}`', self.output_names))
        run_combs_docstring = 'Create a combination of multiple `{0}` indicators using function `comb_func`.\n{1}\n\n`comb_func` must accept an iterable of parameter tuples and `r`. \nAlso accepts all combinatoric iterators from itertools such as `itertools.combinations`.\nPass `r` to specify how many indicators to run. \nPass `short_names` to specify the short name for each indicator. \nSet `run_unique` to True to first compute raw outputs for all parameters, \nand then use them to build each indicator (faster).\n\nOther keyword arguments are passed to `{0}.run`.'.format(_0, _1)
        run_combs = compile_run_function('run_combs', run_combs_docstring, def_run_combs_kwargs)
        setattr(Indicator, 'run_combs', run_combs)
    return Indicator


def from_apply_func__of__IndicatorFactory(self, apply_func, cache_func=None, pass_packed=False, kwargs_to_args=None, numba_loop=False, pass_seed=False, **kwargs):
    Indicator = self.Indicator
    setattr(Indicator, 'apply_func', apply_func)
    if kwargs_to_args is None:
        kwargs_to_args = []
    module_name = self.module_name
    output_names = self.output_names
    in_output_names = self.in_output_names
    param_names = self.param_names
    num_ret_outputs = len(output_names)
    _0 = 'i'
    _0 += ', args_before'
    _0 += ', input_tuple'
    if len(in_output_names) > 0:
        _0 += ', in_output_tuples'
    if len(param_names) > 0:
        _0 += ', param_tuples'
    _0 += ', *args'
    if not numba_loop:
        _0 += ', **_kwargs'
    _1 = '*args_before'
    if pass_packed:
        _1 += ', input_tuple'
        if len(in_output_names) > 0:
            _1 += ', in_output_tuples[i]'
        else:
            _1 += ', ()'
        if len(param_names) > 0:
            _1 += ', param_tuples[i]'
        else:
            _1 += ', ()'
    else:
        _1 += ', *input_tuple'
        if len(in_output_names) > 0:
            _1 += ', *in_output_tuples[i]'
        if len(param_names) > 0:
            _1 += ', *param_tuples[i]'
    _1 += ', *args'
    if not numba_loop:
        _1 += ', **_kwargs'
    func_str = 'def select_params_func({0}):\n   return apply_func({1})'.format(_0, _1)
    scope = {'apply_func': apply_func}
    filename = inspect.getfile(lambda: None)
    code = compile(func_str, filename, 'single')
    exec(code, scope)
    select_params_func = scope['select_params_func']
    if module_name is not None:
        select_params_func.__module__ = module_name
    if numba_loop:
        select_params_func = njit(select_params_func)

    def custom_func(input_list, in_output_list, param_list, *args, input_shape=None, col=None, flex_2d=None, return_cache=False, use_cache=None, use_ray=False, **_kwargs):
        if use_ray:
            if len(in_output_names) > 0:
                raise ValueError("Ray doesn't support in-place outputs")
        if numba_loop:
            if use_ray:
                raise ValueError('Ray cannot be used within Numba')
            if num_ret_outputs > 1:
                apply_and_concat_func = combine_fns.apply_and_concat_multiple_nb
            elif num_ret_outputs == 1:
                apply_and_concat_func = combine_fns.apply_and_concat_one_nb
            else:
                apply_and_concat_func = combine_fns.apply_and_concat_none_nb
        elif num_ret_outputs > 1:
            if use_ray:
                apply_and_concat_func = combine_fns.apply_and_concat_multiple_ray
            else:
                apply_and_concat_func = combine_fns.apply_and_concat_multiple
        elif num_ret_outputs == 1:
            if use_ray:
                apply_and_concat_func = combine_fns.apply_and_concat_one_ray
            else:
                apply_and_concat_func = combine_fns.apply_and_concat_one
        else:
            if use_ray:
                raise ValueError('Ray requires regular outputs')
            apply_and_concat_func = combine_fns.apply_and_concat_none
        n_params = len(param_list[0]) if len(param_list) > 0 else 1
        input_tuple = tuple(input_list)
        in_output_tuples = list(zip(*in_output_list))
        param_tuples = list(zip(*param_list))
        args_before = ()
        if input_shape is not None and 'input_shape' not in kwargs_to_args:
            args_before += (input_shape,)
        if col is not None and 'col' not in kwargs_to_args:
            args_before += (col,)
        more_args = ()
        for key in kwargs_to_args:
            value = _kwargs.pop(key)
            more_args += (value,)
        if flex_2d is not None and 'flex_2d' not in kwargs_to_args:
            more_args += (flex_2d,)
        cache = use_cache
        if cache is None and cache_func is not None:
            _in_output_list = in_output_list
            _param_list = param_list
            if checks.is_numba_func(cache_func):
                if len(in_output_list) > 0:
                    _in_output_list = [to_typed_list(in_outputs) for in_outputs in in_output_list]
                if len(param_list) > 0:
                    _param_list = [to_typed_list(params) for params in param_list]
            cache = cache_func(*args_before, *input_tuple, *_in_output_list, *_param_list, *args, *more_args, **_kwargs)
        if return_cache:
            return cache
        if cache is None:
            cache = ()
        if not isinstance(cache, tuple):
            cache = (cache,)
        if len(in_output_names) > 0:
            _in_output_tuples = in_output_tuples
            if numba_loop:
                _in_output_tuples = to_typed_list(_in_output_tuples)
            _in_output_tuples = (_in_output_tuples,)
        else:
            _in_output_tuples = ()
        if len(param_names) > 0:
            _param_tuples = param_tuples
            if numba_loop:
                _param_tuples = to_typed_list(_param_tuples)
            _param_tuples = (_param_tuples,)
        else:
            _param_tuples = ()
        return apply_and_concat_func(n_params, select_params_func, args_before, input_tuple, *_in_output_tuples, *_param_tuples, *args, *more_args, *cache, **_kwargs)
    return self.from_custom_func(custom_func, as_lists=True, pass_seed=pass_seed, **kwargs)


@classmethod
def get_talib_indicators__of__IndicatorFactory(cls):
    import talib
    return set(talib.get_functions())


@classmethod
def from_talib__of__IndicatorFactory(cls, func_name, init_kwargs=None, **kwargs):
    import talib
    from talib import abstract
    func_name = func_name.upper()
    talib_func = getattr(talib, func_name)
    info = abstract.Function(func_name).info
    input_names = []
    for in_names in info['input_names'].values():
        if isinstance(in_names, (list, tuple)):
            input_names.extend(list(in_names))
        else:
            input_names.append(in_names)
    class_name = info['name']
    class_docstring = '{}, {}'.format(info['display_name'], info['group'])
    param_names = list(info['parameters'].keys())
    output_names = info['output_names']
    output_flags = info['output_flags']

    def apply_func(input_list, _in_output_tuple, param_tuple, **kwargs):
        n_input_cols = input_list[0].shape[1]
        outputs = []
        for col in range(n_input_cols):
            output = talib_func(*map(lambda x: x[:, col], input_list), *param_tuple, **kwargs)
            outputs.append(output)
        if isinstance(outputs[0], tuple):
            outputs = list(zip(*outputs))
            return list(map(np.column_stack, outputs))
        return np.column_stack(outputs)
    TALibIndicator = cls(**merge_dicts(dict(class_name=class_name, class_docstring=class_docstring, input_names=input_names, param_names=param_names, output_names=output_names, output_flags=output_flags), init_kwargs)).from_apply_func(apply_func, pass_packed=True, **info['parameters'], **kwargs)
    return TALibIndicator


@classmethod
def parse_pandas_ta_config__of__IndicatorFactory(cls, func, test_input_names=None, test_index_len=100):
    if test_input_names is None:
        test_input_names = {'open_', 'open', 'high', 'low', 'close', 'adj_close', 'volume', 'dividends', 'split'}
    input_names = []
    param_names = []
    defaults = {}
    output_names = []
    sig = inspect.signature(func)
    for k, v in sig.parameters.items():
        if v.kind not in (v.VAR_POSITIONAL, v.VAR_KEYWORD):
            if v.annotation != inspect.Parameter.empty and v.annotation == pd.Series:
                input_names.append(k)
            elif k in test_input_names:
                input_names.append(k)
            elif v.default == inspect.Parameter.empty:
                input_names.append(k)
            else:
                param_names.append(k)
                defaults[k] = v.default
    test_df = pd.DataFrame({c: np.random.uniform(1, 10, size=(test_index_len,)) for c in input_names}, index=[datetime(2020, 1, 1) + timedelta(days=i) for i in range(test_index_len)])
    new_args = {c: test_df[c] for c in input_names}
    try:
        result = func(**new_args)
    except Exception as e:
        raise ValueError("Couldn't parse the indicator: " + str(e))
    if isinstance(result, tuple):
        results = []
        for i, r in enumerate(result):
            if not pd.Index.equals(r.index, test_df.index):
                warnings.warn(f"Couldn't parse the output at index {i}: mismatching index", stacklevel=2)
            else:
                results.append(r)
        if len(results) > 1:
            result = pd.concat(results, axis=1)
        elif len(results) == 1:
            result = results[0]
        else:
            raise ValueError("Couldn't parse the output")
    if not pd.Index.equals(result.index, test_df.index):
        raise ValueError("Couldn't parse the output: mismatching index")
    output_cols = result.columns.tolist() if isinstance(result, pd.DataFrame) else [result.name]
    new_output_cols = []
    for i in range(len(output_cols)):
        name_parts = []
        for name_part in output_cols[i].split('_'):
            try:
                float(name_part)
                continue
            except:
                name_parts.append(name_part.replace('-', '_').lower())
        output_col = '_'.join(name_parts)
        new_output_cols.append(output_col)
    for k, v in Counter(new_output_cols).items():
        if v == 1:
            output_names.append(k)
        else:
            for i in range(v):
                output_names.append(k + str(i))
    return dict(class_name=func.__name__.upper(), class_docstring=func.__doc__, input_names=input_names, param_names=param_names, output_names=output_names, defaults=defaults)


@classmethod
def get_pandas_ta_indicators__of__IndicatorFactory(cls, silence_warnings=True):
    try:
        import pandas_ta
    except:
        import pandas_ta_classic as pandas_ta
    indicators = set()
    for func_name in [_k for k, v in pandas_ta.Category.items() for _k in v]:
        try:
            cls.parse_pandas_ta_config(getattr(pandas_ta, func_name))
            indicators.add(func_name.upper())
        except Exception as e:
            if not silence_warnings:
                warnings.warn(f'Function {func_name}: ' + str(e), stacklevel=2)
    return indicators


@classmethod
def from_pandas_ta__of__IndicatorFactory(cls, func_name, parse_kwargs=None, init_kwargs=None, **kwargs):
    try:
        import pandas_ta
    except:
        import pandas_ta_classic as pandas_ta
    func_name = func_name.lower()
    pandas_ta_func = getattr(pandas_ta, func_name)
    if parse_kwargs is None:
        parse_kwargs = {}
    config = cls.parse_pandas_ta_config(pandas_ta_func, **parse_kwargs)

    def apply_func(input_list, _in_output_tuple, param_tuple, **kwargs):
        is_series = isinstance(input_list[0], pd.Series)
        n_input_cols = 1 if is_series else len(input_list[0].columns)
        outputs = []
        for col in range(n_input_cols):
            output = pandas_ta_func(**{name: input_list[i] if is_series else input_list[i].iloc[:, col] for i, name in enumerate(config['input_names'])}, **{name: param_tuple[i] for i, name in enumerate(config['param_names'])}, **kwargs)
            if isinstance(output, tuple):
                _outputs = []
                for o in output:
                    if pd.Index.equals(input_list[0].index, o.index):
                        _outputs.append(o)
                if len(_outputs) > 1:
                    output = pd.concat(_outputs, axis=1)
                elif len(_outputs) == 1:
                    output = _outputs[0]
                else:
                    raise ValueError('No valid outputs were returned')
            if isinstance(output, pd.DataFrame):
                output = tuple([output.iloc[:, i] for i in range(len(output.columns))])
            outputs.append(output)
        if isinstance(outputs[0], tuple):
            outputs = list(zip(*outputs))
            return list(map(np.column_stack, outputs))
        return np.column_stack(outputs)
    defaults = config.pop('defaults')
    PTAIndicator = cls(**merge_dicts(config, init_kwargs)).from_apply_func(apply_func, pass_packed=True, keep_pd=True, to_2d=False, **defaults, **kwargs)
    return PTAIndicator


@classmethod
def get_ta_indicators__of__IndicatorFactory(cls):
    import ta
    ta_module_names = [k for k in dir(ta) if isinstance(getattr(ta, k), ModuleType)]
    indicators = set()
    for module_name in ta_module_names:
        module = getattr(ta, module_name)
        for name in dir(module):
            obj = getattr(module, name)
            if isinstance(obj, type) and obj != ta.utils.IndicatorMixin and issubclass(obj, ta.utils.IndicatorMixin):
                indicators.add(obj.__name__)
    return indicators


@classmethod
def find_ta_indicator__of__IndicatorFactory(cls, cls_name):
    import ta
    ta_module_names = [k for k in dir(ta) if isinstance(getattr(ta, k), ModuleType)]
    for module_name in ta_module_names:
        module = getattr(ta, module_name)
        if cls_name in dir(module):
            return getattr(module, cls_name)
    raise ValueError(f'Indicator "{cls_name}" not found')


@classmethod
def parse_ta_config__of__IndicatorFactory(cls, ind_cls):
    input_names = []
    param_names = []
    defaults = {}
    output_names = []
    sig = inspect.signature(ind_cls)
    for k, v in sig.parameters.items():
        if v.kind not in (v.VAR_POSITIONAL, v.VAR_KEYWORD):
            if v.annotation == inspect.Parameter.empty:
                raise ValueError(f'Argument "{k}" has no annotation')
            if v.annotation == pd.Series:
                input_names.append(k)
            else:
                param_names.append(k)
                if v.default != inspect.Parameter.empty:
                    defaults[k] = v.default
    for attr in dir(ind_cls):
        if not attr.startswith('_'):
            if inspect.signature(getattr(ind_cls, attr)).return_annotation == pd.Series:
                output_names.append(attr)
            elif 'Returns:\n            pandas.Series' in getattr(ind_cls, attr).__doc__:
                output_names.append(attr)
    return dict(class_name=ind_cls.__name__, class_docstring=ind_cls.__doc__, input_names=input_names, param_names=param_names, output_names=output_names, defaults=defaults)


@classmethod
def from_ta__of__IndicatorFactory(cls, cls_name, init_kwargs=None, **kwargs):
    ind_cls = cls.find_ta_indicator(cls_name)
    config = cls.parse_ta_config(ind_cls)

    def apply_func(input_list, _in_output_tuple, param_tuple, **kwargs):
        is_series = isinstance(input_list[0], pd.Series)
        n_input_cols = 1 if is_series else len(input_list[0].columns)
        outputs = []
        for col in range(n_input_cols):
            ind = ind_cls(**{name: input_list[i] if is_series else input_list[i].iloc[:, col] for i, name in enumerate(config['input_names'])}, **{name: param_tuple[i] for i, name in enumerate(config['param_names'])}, **kwargs)
            output = []
            for output_name in config['output_names']:
                output.append(getattr(ind, output_name)())
            if len(output) == 1:
                output = output[0]
            else:
                output = tuple(output)
            outputs.append(output)
        if isinstance(outputs[0], tuple):
            outputs = list(zip(*outputs))
            return list(map(np.column_stack, outputs))
        return np.column_stack(outputs)
    defaults = config.pop('defaults')
    TAIndicator = cls(**merge_dicts(config, init_kwargs)).from_apply_func(apply_func, pass_packed=True, keep_pd=True, to_2d=False, **defaults, **kwargs)
    return TAIndicator
