"""Reviewed reference definitions of vectorbt.signals.factory (functions as name__ref, methods as name__of__Class)."""
import inspect
import numpy as np
from numba import njit
from vectorbt import _typing as tp
from vectorbt._engine import callback_unsupported_with_rust, resolve_engine
from vectorbt.base import combine_fns
from vectorbt.indicators.factory import IndicatorFactory, IndicatorBase, CacheOutputT
from vectorbt.signals import dispatch
from vectorbt.signals.enums import FactoryMode
from vectorbt.signals.nb import generate_nb, generate_ex_nb, generate_enex_nb, first_choice_nb
from vectorbt.utils import checks
from vectorbt.utils.config import merge_dicts
from vectorbt.utils.enum_ import map_enum_fields
from vectorbt.utils.params import to_typed_list
from vectorbt.signals.factory import SignalFactory


def __init____of__SignalFactory(self, *args, mode=FactoryMode.Both, input_names=None, attr_settings=None, **kwargs):
    mode = map_enum_fields(mode, FactoryMode)
    if input_names is None:
        input_names = []
    else:
        input_names = list(input_names)
    if attr_settings is None:
        attr_settings = {}
    else:
        attr_settings = dict(attr_settings)
    if 'entries' in input_names:
        raise ValueError('entries cannot be used in input_names')
    if 'exits' in input_names:
        raise ValueError('exits cannot be used in input_names')
    if mode == FactoryMode.Entries:
        output_names = ['entries']
    elif mode == FactoryMode.Exits:
        input_names = ['entries'] + input_names
        output_names = ['exits']
    elif mode == FactoryMode.Both:
        output_names = ['entries', 'exits']
    else:
        input_names = ['entries'] + input_names
        output_names = ['new_entries', 'exits']
    if 'entries' in input_names:
        attr_settings['entries'] = dict(dtype=np.bool_)
    for output_name in output_names:
        attr_settings[output_name] = dict(dtype=np.bool_)
    IndicatorFactory.__init__(self, *args, input_names=input_names, output_names=output_names, attr_settings=attr_settings, **kwargs)
    self.mode = mode

    def plot(_self, entry_y=None, exit_y=None, entry_types=None, exit_types=None, entry_trace_kwargs=None, exit_trace_kwargs=None, fig=None, **kwargs):
        if _self.wrapper.ndim > 1:
            raise TypeError('Select a column first. Use indexing.')
        if entry_trace_kwargs is None:
            entry_trace_kwargs = {}
        if exit_trace_kwargs is None:
            exit_trace_kwargs = {}
        entry_trace_kwargs = merge_dicts(dict(name='New Entry' if mode == FactoryMode.Chain else 'Entry'), entry_trace_kwargs)
        exit_trace_kwargs = merge_dicts(dict(name='Exit'), exit_trace_kwargs)
        if entry_types is not None:
            entry_types = np.asarray(entry_types)
            entry_trace_kwargs = merge_dicts(dict(customdata=entry_types, hovertemplate='(%{x}, %{y})<br>Type: %{customdata}'), entry_trace_kwargs)
        if exit_types is not None:
            exit_types = np.asarray(exit_types)
            exit_trace_kwargs = merge_dicts(dict(customdata=exit_types, hovertemplate='(%{x}, %{y})<br>Type: %{customdata}'), exit_trace_kwargs)
        if mode == FactoryMode.Entries:
            fig = _self.entries.vbt.signals.plot_as_entry_markers(y=entry_y, trace_kwargs=entry_trace_kwargs, fig=fig, **kwargs)
        elif mode == FactoryMode.Exits:
            fig = _self.entries.vbt.signals.plot_as_entry_markers(y=entry_y, trace_kwargs=entry_trace_kwargs, fig=fig, **kwargs)
            fig = _self.exits.vbt.signals.plot_as_exit_markers(y=exit_y, trace_kwargs=exit_trace_kwargs, fig=fig, **kwargs)
        elif mode == FactoryMode.Both:
            fig = _self.entries.vbt.signals.plot_as_entry_markers(y=entry_y, trace_kwargs=entry_trace_kwargs, fig=fig, **kwargs)
            fig = _self.exits.vbt.signals.plot_as_exit_markers(y=exit_y, trace_kwargs=exit_trace_kwargs, fig=fig, **kwargs)
        else:
            fig = _self.new_entries.vbt.signals.plot_as_entry_markers(y=entry_y, trace_kwargs=entry_trace_kwargs, fig=fig, **kwargs)
            fig = _self.exits.vbt.signals.plot_as_exit_markers(y=exit_y, trace_kwargs=exit_trace_kwargs, fig=fig, **kwargs)
        return fig
    plot.__doc__ = 'Plot `{0}.{1}` and `{0}.exits`.\n\n        Args:\n            entry_y (array_like): Y-axis values to plot entry markers on.\n            exit_y (array_like): Y-axis values to plot exit markers on.\n            entry_types (array_like): Entry types in string format.\n            exit_types (array_like): Exit types in string format.\n            entry_trace_kwargs (dict): Keyword arguments passed to             `vectorbt.signals.accessors.SignalsSRAccessor.plot_as_entry_markers` for `{0}.{1}`.\n            exit_trace_kwargs (dict): Keyword arguments passed to             `vectorbt.signals.accessors.SignalsSRAccessor.plot_as_exit_markers` for `{0}.exits`.\n            fig (Figure or FigureWidget): Figure to add traces to.\n            **kwargs: Keyword arguments passed to `vectorbt.signals.accessors.SignalsSRAccessor.plot_as_markers`.\n        '.format(self.class_name, 'new_entries' if mode == FactoryMode.Chain else 'entries')
    setattr(self.Indicator, 'plot', plot)


def from_choice_func__of__SignalFactory(self, entry_choice_func=None, exit_choice_func=None, generate_func=dispatch.generate, generate_ex_func=dispatch.generate_ex, generate_enex_func=dispatch.generate_enex, cache_func=None, entry_settings=None, exit_settings=None, cache_settings=None, numba_loop=False, **kwargs):
    mode = self.mode
    input_names = self.input_names
    param_names = self.param_names
    in_output_names = self.in_output_names
    if numba_loop:
        if generate_func is dispatch.generate:
            generate_func = generate_nb
        if generate_ex_func is dispatch.generate_ex:
            generate_ex_func = generate_ex_nb
        if generate_enex_func is dispatch.generate_enex:
            generate_enex_func = generate_enex_nb
    if mode == FactoryMode.Entries:
        require_input_shape = True
        checks.assert_not_none(entry_choice_func)
        checks.assert_numba_func(entry_choice_func)
        if exit_choice_func is not None:
            raise ValueError('exit_choice_func cannot be used with FactoryMode.Entries')
    elif mode == FactoryMode.Exits:
        require_input_shape = False
        if entry_choice_func is not None:
            raise ValueError('entry_choice_func cannot be used with FactoryMode.Exits')
        checks.assert_not_none(exit_choice_func)
        checks.assert_numba_func(exit_choice_func)
    elif mode == FactoryMode.Both:
        require_input_shape = True
        checks.assert_not_none(entry_choice_func)
        checks.assert_numba_func(entry_choice_func)
        checks.assert_not_none(exit_choice_func)
        checks.assert_numba_func(exit_choice_func)
    else:
        require_input_shape = False
        if entry_choice_func is None:
            entry_choice_func = first_choice_nb
        if entry_settings is None:
            entry_settings = {}
        entry_settings = merge_dicts(dict(pass_inputs=['entries']), entry_settings)
        checks.assert_not_none(entry_choice_func)
        checks.assert_numba_func(entry_choice_func)
        checks.assert_not_none(exit_choice_func)
        checks.assert_numba_func(exit_choice_func)
    require_input_shape = kwargs.pop('require_input_shape', require_input_shape)
    if entry_settings is None:
        entry_settings = {}
    if exit_settings is None:
        exit_settings = {}
    if cache_settings is None:
        cache_settings = {}
    valid_keys = ['pass_inputs', 'pass_in_outputs', 'pass_params', 'pass_kwargs', 'pass_cache']
    checks.assert_dict_valid(entry_settings, valid_keys)
    checks.assert_dict_valid(exit_settings, valid_keys)
    checks.assert_dict_valid(cache_settings, valid_keys)

    def _get_func_names(func_settings, setting, all_names):
        func_input_names = func_settings.get(setting, None)
        if func_input_names is None:
            return []
        else:
            for name in func_input_names:
                checks.assert_in(name, all_names)
        return func_input_names
    entry_input_names = _get_func_names(entry_settings, 'pass_inputs', input_names)
    exit_input_names = _get_func_names(exit_settings, 'pass_inputs', input_names)
    cache_input_names = _get_func_names(cache_settings, 'pass_inputs', input_names)
    entry_in_output_names = _get_func_names(entry_settings, 'pass_in_outputs', in_output_names)
    exit_in_output_names = _get_func_names(exit_settings, 'pass_in_outputs', in_output_names)
    cache_in_output_names = _get_func_names(cache_settings, 'pass_in_outputs', in_output_names)
    entry_param_names = _get_func_names(entry_settings, 'pass_params', param_names)
    exit_param_names = _get_func_names(exit_settings, 'pass_params', param_names)
    cache_param_names = _get_func_names(cache_settings, 'pass_params', param_names)
    if mode == FactoryMode.Entries:
        _0 = 'i'
        _0 += ', shape'
        _0 += ', entry_pick_first'
        _0 += ', entry_input_tuple'
        if len(entry_in_output_names) > 0:
            _0 += ', entry_in_output_tuples'
        if len(entry_param_names) > 0:
            _0 += ', entry_param_tuples'
        _0 += ', entry_args'
        if not numba_loop:
            _0 += ', engine=None'
        _1 = 'shape'
        _1 += ', entry_pick_first'
        _1 += ', entry_choice_func'
        _1 += ', *entry_input_tuple'
        if len(entry_in_output_names) > 0:
            _1 += ', *entry_in_output_tuples[i]'
        if len(entry_param_names) > 0:
            _1 += ', *entry_param_tuples[i]'
        _1 += ', *entry_args'
        if not numba_loop:
            _1 += ', engine=engine'
        func_str = 'def apply_func({0}):\n   return generate_func({1})'.format(_0, _1)
        scope = {'generate_func': generate_func, 'entry_choice_func': entry_choice_func}
        filename = inspect.getfile(lambda: None)
        code = compile(func_str, filename, 'single')
        exec(code, scope)
        apply_func = scope['apply_func']
        if numba_loop:
            apply_func = njit(apply_func)
            apply_and_concat_func = combine_fns.apply_and_concat_one_nb
        else:
            apply_and_concat_func = combine_fns.apply_and_concat_one
    elif mode == FactoryMode.Exits:
        _0 = 'i'
        _0 += ', entries'
        _0 += ', exit_wait'
        _0 += ', until_next'
        _0 += ', skip_until_exit'
        _0 += ', exit_pick_first'
        _0 += ', exit_input_tuple'
        if len(exit_in_output_names) > 0:
            _0 += ', exit_in_output_tuples'
        if len(exit_param_names) > 0:
            _0 += ', exit_param_tuples'
        _0 += ', exit_args'
        if not numba_loop:
            _0 += ', engine=None'
        _1 = 'entries'
        _1 += ', exit_wait'
        _1 += ', until_next'
        _1 += ', skip_until_exit'
        _1 += ', exit_pick_first'
        _1 += ', exit_choice_func'
        _1 += ', *exit_input_tuple'
        if len(exit_in_output_names) > 0:
            _1 += ', *exit_in_output_tuples[i]'
        if len(exit_param_names) > 0:
            _1 += ', *exit_param_tuples[i]'
        _1 += ', *exit_args'
        if not numba_loop:
            _1 += ', engine=engine'
        func_str = 'def apply_func({0}):\n   return generate_ex_func({1})'.format(_0, _1)
        scope = {'generate_ex_func': generate_ex_func, 'exit_choice_func': exit_choice_func}
        filename = inspect.getfile(lambda: None)
        code = compile(func_str, filename, 'single')
        exec(code, scope)
        apply_func = scope['apply_func']
        if numba_loop:
            apply_func = njit(apply_func)
            apply_and_concat_func = combine_fns.apply_and_concat_one_nb
        else:
            apply_and_concat_func = combine_fns.apply_and_concat_one
    else:
        _0 = 'i'
        _0 += ', shape'
        _0 += ', entry_wait'
        _0 += ', exit_wait'
        _0 += ', entry_pick_first'
        _0 += ', exit_pick_first'
        _0 += ', entry_input_tuple'
        _0 += ', exit_input_tuple'
        if len(entry_in_output_names) > 0:
            _0 += ', entry_in_output_tuples'
        if len(exit_in_output_names) > 0:
            _0 += ', exit_in_output_tuples'
        if len(entry_param_names) > 0:
            _0 += ', entry_param_tuples'
        if len(exit_param_names) > 0:
            _0 += ', exit_param_tuples'
        _0 += ', entry_args'
        _0 += ', exit_args'
        if not numba_loop:
            _0 += ', engine=None'
        _1 = 'shape'
        _1 += ', entry_wait'
        _1 += ', exit_wait'
        _1 += ', entry_pick_first'
        _1 += ', exit_pick_first'
        _1 += ', entry_choice_func'
        _1 += ', (*entry_input_tuple'
        if len(entry_in_output_names) > 0:
            _1 += ', *entry_in_output_tuples[i]'
        if len(entry_param_names) > 0:
            _1 += ', *entry_param_tuples[i]'
        _1 += ', *entry_args)'
        _1 += ', exit_choice_func'
        _1 += ', (*exit_input_tuple'
        if len(exit_in_output_names) > 0:
            _1 += ', *exit_in_output_tuples[i]'
        if len(exit_param_names) > 0:
            _1 += ', *exit_param_tuples[i]'
        _1 += ', *exit_args)'
        if not numba_loop:
            _1 += ', engine=engine'
        func_str = 'def apply_func({0}):\n   return generate_enex_func({1})'.format(_0, _1)
        scope = {'generate_enex_func': generate_enex_func, 'entry_choice_func': entry_choice_func, 'exit_choice_func': exit_choice_func}
        filename = inspect.getfile(lambda: None)
        code = compile(func_str, filename, 'single')
        exec(code, scope)
        apply_func = scope['apply_func']
        if numba_loop:
            apply_func = njit(apply_func)
            apply_and_concat_func = combine_fns.apply_and_concat_multiple_nb
        else:
            apply_and_concat_func = combine_fns.apply_and_concat_multiple

    def custom_func(input_list, in_output_list, param_list, *args, input_shape=None, flex_2d=None, entry_args=None, exit_args=None, cache_args=None, entry_kwargs=None, exit_kwargs=None, cache_kwargs=None, return_cache=False, use_cache=None, engine=None, **_kwargs):
        resolve_engine(engine, supports_rust=callback_unsupported_with_rust())
        if len(input_list) == 0:
            if input_shape is None:
                raise ValueError('Pass input_shape if no input time series were passed')
        else:
            input_shape = input_list[0].shape
        if entry_args is None:
            entry_args = ()
        if exit_args is None:
            exit_args = ()
        if cache_args is None:
            cache_args = ()
        if mode == FactoryMode.Entries:
            if len(entry_args) > 0:
                raise ValueError('Use *args instead of entry_args with FactoryMode.Entries')
            entry_args = args
        elif mode == FactoryMode.Exits or (mode == FactoryMode.Chain and entry_choice_func == first_choice_nb):
            if len(exit_args) > 0:
                raise ValueError('Use *args instead of exit_args with FactoryMode.Exits or FactoryMode.Chain')
            exit_args = args
        elif len(args) > 0:
            raise ValueError('*args cannot be used with FactoryMode.Both')
        if entry_kwargs is None:
            entry_kwargs = {}
        if exit_kwargs is None:
            exit_kwargs = {}
        if cache_kwargs is None:
            cache_kwargs = {}
        if mode == FactoryMode.Entries:
            if len(entry_kwargs) > 0:
                raise ValueError('Use **kwargs instead of entry_kwargs with FactoryMode.Entries')
            entry_kwargs = _kwargs
        elif mode == FactoryMode.Exits or (mode == FactoryMode.Chain and entry_choice_func == first_choice_nb):
            if len(exit_kwargs) > 0:
                raise ValueError('Use **kwargs instead of exit_kwargs with FactoryMode.Exits or FactoryMode.Chain')
            exit_kwargs = _kwargs
        elif len(_kwargs) > 0:
            raise ValueError('*args cannot be used with FactoryMode.Both')
        kwargs_defaults = dict(input_shape=input_shape, wait=1, until_next=True, skip_until_exit=False, pick_first=True, flex_2d=flex_2d)
        if mode == FactoryMode.Entries:
            kwargs_defaults['pick_first'] = False
        entry_kwargs = merge_dicts(kwargs_defaults, entry_kwargs)
        exit_kwargs = merge_dicts(kwargs_defaults, exit_kwargs)
        cache_kwargs = merge_dicts(kwargs_defaults, cache_kwargs)
        entry_wait = entry_kwargs['wait']
        exit_wait = exit_kwargs['wait']
        entry_pick_first = entry_kwargs['pick_first']
        exit_pick_first = exit_kwargs['pick_first']
        until_next = exit_kwargs['until_next']
        skip_until_exit = exit_kwargs['skip_until_exit']
        entry_input_tuple = ()
        exit_input_tuple = ()
        cache_input_tuple = ()
        for input_name in entry_input_names:
            entry_input_tuple += (input_list[input_names.index(input_name)],)
        for input_name in exit_input_names:
            exit_input_tuple += (input_list[input_names.index(input_name)],)
        for input_name in cache_input_names:
            cache_input_tuple += (input_list[input_names.index(input_name)],)
        entry_in_output_list = []
        exit_in_output_list = []
        cache_in_output_list = []
        for in_output_name in entry_in_output_names:
            entry_in_output_list.append(in_output_list[in_output_names.index(in_output_name)])
        for in_output_name in exit_in_output_names:
            exit_in_output_list.append(in_output_list[in_output_names.index(in_output_name)])
        for in_output_name in cache_in_output_names:
            cache_in_output_list.append(in_output_list[in_output_names.index(in_output_name)])
        entry_param_list = []
        exit_param_list = []
        cache_param_list = []
        for param_name in entry_param_names:
            entry_param_list.append(param_list[param_names.index(param_name)])
        for param_name in exit_param_names:
            exit_param_list.append(param_list[param_names.index(param_name)])
        for param_name in cache_param_names:
            cache_param_list.append(param_list[param_names.index(param_name)])
        n_params = len(param_list[0]) if len(param_list) > 0 else 1
        entry_in_output_tuples = list(zip(*entry_in_output_list))
        exit_in_output_tuples = list(zip(*exit_in_output_list))
        entry_param_tuples = list(zip(*entry_param_list))
        exit_param_tuples = list(zip(*exit_param_list))

        def _build_more_args(func_settings, func_kwargs):
            pass_kwargs = func_settings.get('pass_kwargs', [])
            if isinstance(pass_kwargs, dict):
                pass_kwargs = list(pass_kwargs.items())
            more_args = ()
            for key in pass_kwargs:
                value = None
                if isinstance(key, tuple):
                    key, value = key
                elif key.startswith('temp_idx_arr'):
                    value = np.empty((input_shape[0],), dtype=np.int64)
                value = func_kwargs.get(key, value)
                more_args += (value,)
            return more_args
        entry_more_args = _build_more_args(entry_settings, entry_kwargs)
        exit_more_args = _build_more_args(exit_settings, exit_kwargs)
        cache_more_args = _build_more_args(cache_settings, cache_kwargs)
        cache = use_cache
        if cache is None and cache_func is not None:
            _cache_in_output_list = cache_in_output_list
            _cache_param_list = cache_param_list
            if checks.is_numba_func(cache_func):
                if len(_cache_in_output_list) > 0:
                    _cache_in_output_list = [to_typed_list(in_outputs) for in_outputs in _cache_in_output_list]
                if len(_cache_param_list) > 0:
                    _cache_param_list = [to_typed_list(params) for params in _cache_param_list]
            cache = cache_func(*cache_input_tuple, *_cache_in_output_list, *_cache_param_list, *cache_args, *cache_more_args)
        if return_cache:
            return cache
        if cache is None:
            cache = ()
        if not isinstance(cache, tuple):
            cache = (cache,)
        entry_cache = ()
        exit_cache = ()
        if entry_settings.get('pass_cache', False):
            entry_cache = cache
        if exit_settings.get('pass_cache', False):
            exit_cache = cache
        if mode == FactoryMode.Entries:
            if len(entry_in_output_names) > 0:
                if numba_loop:
                    _entry_in_output_tuples = (to_typed_list(entry_in_output_tuples),)
                else:
                    _entry_in_output_tuples = (entry_in_output_tuples,)
            else:
                _entry_in_output_tuples = ()
            if len(entry_param_names) > 0:
                if numba_loop:
                    _entry_param_tuples = (to_typed_list(entry_param_tuples),)
                else:
                    _entry_param_tuples = (entry_param_tuples,)
            else:
                _entry_param_tuples = ()
            apply_args = (n_params, apply_func, input_shape, entry_pick_first, entry_input_tuple, *_entry_in_output_tuples, *_entry_param_tuples, entry_args + entry_more_args + entry_cache)
            if not numba_loop:
                apply_args += (engine,)
            return apply_and_concat_func(*apply_args)
        elif mode == FactoryMode.Exits:
            if len(exit_in_output_names) > 0:
                if numba_loop:
                    _exit_in_output_tuples = (to_typed_list(exit_in_output_tuples),)
                else:
                    _exit_in_output_tuples = (exit_in_output_tuples,)
            else:
                _exit_in_output_tuples = ()
            if len(exit_param_names) > 0:
                if numba_loop:
                    _exit_param_tuples = (to_typed_list(exit_param_tuples),)
                else:
                    _exit_param_tuples = (exit_param_tuples,)
            else:
                _exit_param_tuples = ()
            apply_args = (n_params, apply_func, input_list[0], exit_wait, until_next, skip_until_exit, exit_pick_first, exit_input_tuple, *_exit_in_output_tuples, *_exit_param_tuples, exit_args + exit_more_args + exit_cache)
            if not numba_loop:
                apply_args += (engine,)
            return apply_and_concat_func(*apply_args)
        else:
            if len(entry_in_output_names) > 0:
                if numba_loop:
                    _entry_in_output_tuples = (to_typed_list(entry_in_output_tuples),)
                else:
                    _entry_in_output_tuples = (entry_in_output_tuples,)
            else:
                _entry_in_output_tuples = ()
            if len(entry_param_names) > 0:
                if numba_loop:
                    _entry_param_tuples = (to_typed_list(entry_param_tuples),)
                else:
                    _entry_param_tuples = (entry_param_tuples,)
            else:
                _entry_param_tuples = ()
            if len(exit_in_output_names) > 0:
                if numba_loop:
                    _exit_in_output_tuples = (to_typed_list(exit_in_output_tuples),)
                else:
                    _exit_in_output_tuples = (exit_in_output_tuples,)
            else:
                _exit_in_output_tuples = ()
            if len(exit_param_names) > 0:
                if numba_loop:
                    _exit_param_tuples = (to_typed_list(exit_param_tuples),)
                else:
                    _exit_param_tuples = (exit_param_tuples,)
            else:
                _exit_param_tuples = ()
            apply_args = (n_params, apply_func, input_shape, entry_wait, exit_wait, entry_pick_first, exit_pick_first, entry_input_tuple, exit_input_tuple, *_entry_in_output_tuples, *_exit_in_output_tuples, *_entry_param_tuples, *_exit_param_tuples, entry_args + entry_more_args + entry_cache, exit_args + exit_more_args + exit_cache)
            if not numba_loop:
                apply_args += (engine,)
            return apply_and_concat_func(*apply_args)
    return self.from_custom_func(custom_func, as_lists=True, require_input_shape=require_input_shape, **kwargs)
