"""Reviewed reference definitions of vectorbt.utils.checks (functions as name__ref, methods as name__of__Class)."""
import os
from collections.abc import Hashable, Mapping
from inspect import signature, getmro
from keyword import iskeyword
import dill
import numpy as np
import pandas as pd
from numba.core.registry import CPUDispatcher
from vectorbt import _typing as tp
from vectorbt.utils.checks import is_np_array, is_series, is_index, is_frame, is_pandas, is_any_array, _to_any_array, is_sequence, is_iterable, is_numba_func, is_rust_func, is_engine_dispatch_func, is_engine_compatible_func, is_hashable, is_index_equal, is_default_index, is_namedtuple, func_accepts_arg, is_equal, _functions_equal, is_deep_equal, is_subclass_of, is_instance_of, is_mapping, is_mapping_like, is_valid_variable_name, safe_assert, assert_in, assert_numba_func, assert_rust_func, assert_engine_func, assert_not_none, assert_instance_of, assert_subclass_of, assert_type_equal, assert_dtype, assert_subdtype, assert_dtype_equal, assert_ndim, assert_len_equal, assert_shape_equal, assert_index_equal, assert_meta_equal, assert_array_equal, assert_level_not_exists, assert_equal, assert_dict_valid, assert_dict_sequence_valid, assert_sequence, assert_iterable


def is_np_array__ref(arg):
    return isinstance(arg, np.ndarray)


def is_series__ref(arg):
    return isinstance(arg, pd.Series)


def is_index__ref(arg):
    return isinstance(arg, pd.Index)


def is_frame__ref(arg):
    return isinstance(arg, pd.DataFrame)


def is_pandas__ref(arg):
    return is_series(arg) or is_frame(arg)


def is_any_array__ref(arg):
    return is_pandas(arg) or isinstance(arg, np.ndarray)


def _to_any_array__ref(arg):
    if is_any_array(arg):
        return arg
    return np.asarray(arg)


def is_sequence__ref(arg):
    try:
        len(arg)
        arg[0:0]
        return True
    except TypeError:
        return False


def is_iterable__ref(arg):
    try:
        _ = iter(arg)
        return True
    except TypeError:
        return False


def is_numba_func__ref(arg, func_suffix='_nb'):
    from vectorbt._settings import settings
    numba_cfg = settings['numba']
    if not numba_cfg['check_func_type']:
        return True
    if 'NUMBA_DISABLE_JIT' in os.environ:
        if os.environ['NUMBA_DISABLE_JIT'] == '1':
            if not numba_cfg['check_func_suffix']:
                return True
            if arg.__name__.endswith(func_suffix):
                return True
    return isinstance(arg, CPUDispatcher)


def is_rust_func__ref(arg, func_suffix='_rs'):
    from vectorbt._settings import settings
    numba_cfg = settings['numba']
    if not numba_cfg['check_func_type']:
        return True
    if not callable(arg):
        return False
    if numba_cfg['check_func_suffix'] and (not getattr(arg, '__name__', '').endswith(func_suffix)):
        return False
    return getattr(arg, '__module__', '').startswith('vectorbt_rust') or getattr(arg, '__name__', '').endswith(func_suffix)


def is_engine_dispatch_func__ref(arg, func_suffix=None):
    if not callable(arg):
        return False
    if func_suffix is not None and (not getattr(arg, '__name__', '').endswith(func_suffix)):
        return False
    module = getattr(arg, '__module__', '')
    if not module.startswith('vectorbt.') or not module.endswith('.dispatch'):
        return False
    return func_accepts_arg(arg, 'engine')


def is_engine_compatible_func__ref(func, engine=None, func_suffix=None):
    from vectorbt._settings import settings
    if engine is None:
        engine = settings['engine']
    if engine == 'auto':
        return is_numba_func(func) or is_rust_func(func) or is_engine_dispatch_func(func, func_suffix=func_suffix)
    if engine == 'numba':
        return is_numba_func(func) or is_engine_dispatch_func(func, func_suffix=func_suffix)
    if engine == 'rust':
        return is_rust_func(func) or is_engine_dispatch_func(func, func_suffix=func_suffix)
    raise ValueError("Invalid engine. Expected 'auto', 'numba', or 'rust'.")


def is_hashable__ref(arg):
    if not isinstance(arg, Hashable):
        return False
    try:
        hash(arg)
    except TypeError:
        return False
    return True


def is_index_equal__ref(arg1, arg2, strict=True):
    if not strict:
        return pd.Index.equals(arg1, arg2)
    if isinstance(arg1, pd.MultiIndex) and isinstance(arg2, pd.MultiIndex):
        if arg1.names != arg2.names:
            return False
    elif isinstance(arg1, pd.MultiIndex) or isinstance(arg2, pd.MultiIndex):
        return False
    elif arg1.name != arg2.name:
        return False
    return pd.Index.equals(arg1, arg2)


def is_default_index__ref(arg):
    return is_index_equal(arg, pd.RangeIndex(start=0, stop=len(arg), step=1))


def is_namedtuple__ref(x):
    t = type(x)
    b = t.__bases__
    if len(b) != 1 or b[0] != tuple:
        return False
    f = getattr(t, '_fields', None)
    if not isinstance(f, tuple):
        return False
    return all((type(n) == str for n in f))


def func_accepts_arg__ref(func, arg_name, arg_kind=None):
    sig = signature(func)
    if arg_kind is not None and isinstance(arg_kind, int):
        arg_kind = (arg_kind,)
    if arg_kind is None:
        if arg_name.startswith('**'):
            return arg_name[2:] in [p.name for p in sig.parameters.values() if p.kind == p.VAR_KEYWORD]
        if arg_name.startswith('*'):
            return arg_name[1:] in [p.name for p in sig.parameters.values() if p.kind == p.VAR_POSITIONAL]
        return arg_name in [p.name for p in sig.parameters.values() if p.kind != p.VAR_POSITIONAL and p.kind != p.VAR_KEYWORD]
    return arg_name in [p.name for p in sig.parameters.values() if p.kind in arg_kind]


def is_equal__ref(arg1, arg2, equality_func=lambda x, y: x == y):
    try:
        return equality_func(arg1, arg2)
    except:
        pass
    return False


def _functions_equal__ref(f1, f2):
    if f1 is f2:
        return True
    if not (callable(f1) and callable(f2)):
        return False
    if not (hasattr(f1, '__code__') and hasattr(f2, '__code__')):
        return f1 is f2
    c1, c2 = (f1.__code__, f2.__code__)
    if c1.co_code != c2.co_code:
        return False
    if c1.co_consts != c2.co_consts:
        return False
    if c1.co_names != c2.co_names:
        return False
    if c1.co_varnames != c2.co_varnames:
        return False
    if c1.co_freevars != c2.co_freevars:
        return False
    if c1.co_cellvars != c2.co_cellvars:
        return False
    if c1.co_argcount != c2.co_argcount:
        return False
    if c1.co_kwonlyargcount != c2.co_kwonlyargcount:
        return False
    if c1.co_posonlyargcount != c2.co_posonlyargcount:
        return False
    if c1.co_flags != c2.co_flags:
        return False
    if getattr(f1, '__defaults__', None) != getattr(f2, '__defaults__', None):
        return False
    if getattr(f1, '__kwdefaults__', None) != getattr(f2, '__kwdefaults__', None):
        return False
    closure1 = getattr(f1, '__closure__', None)
    closure2 = getattr(f2, '__closure__', None)
    if closure1 is None and closure2 is None:
        pass
    elif closure1 is None or closure2 is None:
        return False
    elif len(closure1) != len(closure2):
        return False
    else:
        for cell1, cell2 in zip(closure1, closure2):
            if cell1.cell_contents != cell2.cell_contents:
                return False
    return True


def is_deep_equal__ref(arg1, arg2, check_exact=False, **kwargs):

    def _select_kwargs(_method, _kwargs):
        __kwargs = dict()
        if len(kwargs) > 0:
            for k, v in _kwargs.items():
                if func_accepts_arg(_method, k):
                    __kwargs[k] = v
        return __kwargs

    def _check_array(assert_method):
        __kwargs = _select_kwargs(assert_method, kwargs)
        safe_assert(arg1.dtype == arg2.dtype)
        if arg1.dtype.fields is not None:
            for field in arg1.dtype.names:
                assert_method(arg1[field], arg2[field], **__kwargs)
        else:
            assert_method(arg1, arg2, **__kwargs)
    try:
        safe_assert(type(arg1) == type(arg2))
        if isinstance(arg1, pd.Series):
            _kwargs = _select_kwargs(pd.testing.assert_series_equal, kwargs)
            pd.testing.assert_series_equal(arg1, arg2, check_exact=check_exact, **_kwargs)
        elif isinstance(arg1, pd.DataFrame):
            _kwargs = _select_kwargs(pd.testing.assert_frame_equal, kwargs)
            pd.testing.assert_frame_equal(arg1, arg2, check_exact=check_exact, **_kwargs)
        elif isinstance(arg1, pd.Index):
            _kwargs = _select_kwargs(pd.testing.assert_index_equal, kwargs)
            pd.testing.assert_index_equal(arg1, arg2, check_exact=check_exact, **_kwargs)
        elif isinstance(arg1, np.ndarray):
            try:
                _check_array(np.testing.assert_array_equal)
            except:
                if check_exact:
                    return False
                _check_array(np.testing.assert_allclose)
        elif isinstance(arg1, (tuple, list)):
            safe_assert(len(arg1) == len(arg2))
            for i in range(len(arg1)):
                safe_assert(is_deep_equal(arg1[i], arg2[i], check_exact=check_exact, **kwargs))
        elif isinstance(arg1, dict):
            safe_assert(arg1.keys() == arg2.keys())
            for k in arg1.keys():
                safe_assert(is_deep_equal(arg1[k], arg2[k], check_exact=check_exact, **kwargs))
        else:
            try:
                if arg1 == arg2:
                    return True
            except:
                pass
            if callable(arg1) and callable(arg2):
                if _functions_equal(arg1, arg2):
                    return True
                return False
            try:
                _kwargs = _select_kwargs(dill.dumps, kwargs)
                if dill.dumps(arg1, **_kwargs) == dill.dumps(arg2, **_kwargs):
                    return True
            except:
                pass
            return False
    except:
        return False
    return True


def is_subclass_of__ref(arg, types):
    if isinstance(types, type):
        return issubclass(arg, types)
    if isinstance(types, str):
        for base_t in getmro(arg):
            if str(base_t) == types or base_t.__name__ == types:
                return True
    if isinstance(types, tuple):
        for t in types:
            if is_subclass_of(arg, t):
                return True
    return False


def is_instance_of__ref(arg, types):
    return is_subclass_of(type(arg), types)


def is_mapping__ref(arg):
    return isinstance(arg, Mapping)


def is_mapping_like__ref(arg):
    return is_mapping(arg) or is_series(arg) or is_index(arg) or is_namedtuple(arg)


def is_valid_variable_name__ref(arg):
    return arg.isidentifier() and (not iskeyword(arg))


def safe_assert__ref(arg, msg=None):
    if not arg:
        raise AssertionError(msg)


def assert_in__ref(arg1, arg2):
    if arg1 not in arg2:
        raise AssertionError(f'{arg1} not found in {arg2}')


def assert_numba_func__ref(func):
    if not is_numba_func(func):
        raise AssertionError(f'Function {func} must be Numba compiled')


def assert_rust_func__ref(func):
    if not is_rust_func(func):
        raise AssertionError(f'Function {func} must be Rust backed')


def assert_engine_func__ref(func, engine=None, func_suffix=None):
    if not is_engine_compatible_func(func, engine=engine, func_suffix=func_suffix):
        raise AssertionError(f"Function {func} must be compatible with engine '{engine}'")


def assert_not_none__ref(arg):
    if arg is None:
        raise AssertionError('Argument cannot be None')


def assert_instance_of__ref(arg, types):
    if not is_instance_of(arg, types):
        if isinstance(types, tuple):
            raise AssertionError(f'Type must be one of {types}, not {type(arg)}')
        else:
            raise AssertionError(f'Type must be {types}, not {type(arg)}')


def assert_subclass_of__ref(arg, classes):
    if not is_subclass_of(arg, classes):
        if isinstance(classes, tuple):
            raise AssertionError(f'Class must be a subclass of one of {classes}, not {arg}')
        else:
            raise AssertionError(f'Class must be a subclass of {classes}, not {arg}')


def assert_type_equal__ref(arg1, arg2):
    if type(arg1) != type(arg2):
        raise AssertionError(f'Types {type(arg1)} and {type(arg2)} do not match')


def assert_dtype__ref(arg, dtype):
    arg = _to_any_array(arg)
    if isinstance(arg, pd.DataFrame):
        for i, col_dtype in enumerate(arg.dtypes):
            if col_dtype != dtype:
                raise AssertionError(f'Data type of column {i} must be {dtype}, not {col_dtype}')
    elif arg.dtype != dtype:
        raise AssertionError(f'Data type must be {dtype}, not {arg.dtype}')


def assert_subdtype__ref(arg, dtype):
    arg = _to_any_array(arg)
    if isinstance(arg, pd.DataFrame):
        for i, col_dtype in enumerate(arg.dtypes):
            if not np.issubdtype(col_dtype, dtype):
                raise AssertionError(f'Data type of column {i} must be {dtype}, not {col_dtype}')
    elif not np.issubdtype(arg.dtype, dtype):
        raise AssertionError(f'Data type must be {dtype}, not {arg.dtype}')


def assert_dtype_equal__ref(arg1, arg2):
    arg1 = _to_any_array(arg1)
    arg2 = _to_any_array(arg2)
    if isinstance(arg1, pd.DataFrame):
        dtypes1 = arg1.dtypes.to_numpy()
    else:
        dtypes1 = np.asarray([arg1.dtype])
    if isinstance(arg2, pd.DataFrame):
        dtypes2 = arg2.dtypes.to_numpy()
    else:
        dtypes2 = np.asarray([arg2.dtype])
    if len(dtypes1) == len(dtypes2):
        if (dtypes1 == dtypes2).all():
            return
    elif len(np.unique(dtypes1)) == 1 and len(np.unique(dtypes2)) == 1:
        if np.all(np.unique(dtypes1) == np.unique(dtypes2)):
            return
    raise AssertionError(f'Data types {dtypes1} and {dtypes2} do not match')


def assert_ndim__ref(arg, ndims):
    arg = _to_any_array(arg)
    if isinstance(ndims, tuple):
        if arg.ndim not in ndims:
            raise AssertionError(f'Number of dimensions must be one of {ndims}, not {arg.ndim}')
    elif arg.ndim != ndims:
        raise AssertionError(f'Number of dimensions must be {ndims}, not {arg.ndim}')


def assert_len_equal__ref(arg1, arg2):
    if len(arg1) != len(arg2):
        raise AssertionError(f'Lengths of {arg1} and {arg2} do not match')


def assert_shape_equal__ref(arg1, arg2, axis=None):
    arg1 = _to_any_array(arg1)
    arg2 = _to_any_array(arg2)
    if axis is None:
        if arg1.shape != arg2.shape:
            raise AssertionError(f'Shapes {arg1.shape} and {arg2.shape} do not match')
    elif isinstance(axis, tuple):
        if arg1.shape[axis[0]] != arg2.shape[axis[1]]:
            raise AssertionError(f'Axis {axis[0]} of {arg1.shape} and axis {axis[1]} of {arg2.shape} do not match')
    elif arg1.shape[axis] != arg2.shape[axis]:
        raise AssertionError(f'Axis {axis} of {arg1.shape} and {arg2.shape} do not match')


def assert_index_equal__ref(arg1, arg2, **kwargs):
    if not is_index_equal(arg1, arg2, **kwargs):
        raise AssertionError(f'Indexes {arg1} and {arg2} do not match')


def assert_meta_equal__ref(arg1, arg2):
    arg1 = _to_any_array(arg1)
    arg2 = _to_any_array(arg2)
    assert_type_equal(arg1, arg2)
    assert_shape_equal(arg1, arg2)
    if is_pandas(arg1) and is_pandas(arg2):
        assert_index_equal(arg1.index, arg2.index)
        if is_frame(arg1) and is_frame(arg2):
            assert_index_equal(arg1.columns, arg2.columns)


def assert_array_equal__ref(arg1, arg2):
    arg1 = _to_any_array(arg1)
    arg2 = _to_any_array(arg2)
    assert_meta_equal(arg1, arg2)
    if is_pandas(arg1) and is_pandas(arg2):
        if arg1.equals(arg2):
            return
    elif not is_pandas(arg1) and (not is_pandas(arg2)):
        if np.array_equal(arg1, arg2):
            return
    raise AssertionError(f'Arrays {arg1} and {arg2} do not match')


def assert_level_not_exists__ref(arg, level_name):
    if isinstance(arg, pd.MultiIndex):
        names = arg.names
    else:
        names = [arg.name]
    if level_name in names:
        raise AssertionError(f'Level {level_name} already exists in {names}')


def assert_equal__ref(arg1, arg2, deep=False):
    if deep:
        if not is_deep_equal(arg1, arg2):
            raise AssertionError(f'{arg1} and {arg2} do not match (deep check)')
    elif not is_equal(arg1, arg2):
        raise AssertionError(f'{arg1} and {arg2} do not match')


def assert_dict_valid__ref(arg, lvl_keys):
    if arg is None:
        arg = {}
    if len(lvl_keys) == 0:
        return
    if isinstance(lvl_keys[0], str):
        lvl_keys = [lvl_keys]
    set1 = set(arg.keys())
    set2 = set(lvl_keys[0])
    if not set1.issubset(set2):
        raise AssertionError(f'Keys {set1.difference(set2)} are not recognized. Possible keys are {set2}.')
    for k, v in arg.items():
        if isinstance(v, dict):
            assert_dict_valid(v, lvl_keys[1:])


def assert_dict_sequence_valid__ref(arg, lvl_keys):
    if arg is None:
        arg = {}
    if isinstance(arg, dict):
        assert_dict_valid(arg, lvl_keys)
    else:
        for _arg in arg:
            assert_dict_valid(_arg, lvl_keys)


def assert_sequence__ref(arg):
    if not is_sequence(arg):
        raise ValueError(f'{arg} must be a sequence')


def assert_iterable__ref(arg):
    if not is_iterable(arg):
        raise ValueError(f'{arg} must be an iterable')
