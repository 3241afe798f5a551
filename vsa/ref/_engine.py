"""Reviewed reference definitions of vectorbt._engine (functions as name__ref, methods as name__of__Class)."""
from dataclasses import dataclass, field
import numpy as np
from vectorbt import _typing as tp
from vectorbt._settings import settings
from vectorbt.base import reshape_fns
from vectorbt._engine import _rust_status, RustConversion, RustSupport, is_rust_available, clear_engine_cache, callback_unsupported_with_rust, combine_rust_support, non_neg_int_compatible_with_rust, array_compatible_with_rust, exact_array_compatible_with_rust, prepare_array_for_rust, prepare_flex_array_for_rust, matching_shape_compatible_with_rust, array_shape_compatible_with_rust, flex_array_compatible_with_rust, scalar_compatible_with_rust, unit_interval_compatible_with_rust, non_neg_array_compatible_with_rust, array_and_non_neg_int_compatible_with_rust, mask_and_array_compatible_with_rust, mask_and_values_compatible_with_rust, col_range_compatible_with_rust, col_map_compatible_with_rust, rolling_compatible_with_rust, broadcast_to_shape, broadcast_2d_to_shape, resolve_random_engine, seed_for_rust, resolve_engine


def _rust_status__decl():
    return None


def dtype__decl__of__RustConversion():
    return field()


def n_elements__decl__of__RustConversion():
    return field()


def supported__decl__of__RustSupport():
    return field()


def reason__decl__of__RustSupport():
    return field(default='')


def conversions__decl__of__RustSupport():
    return field(default_factory=tuple)


def requires_conversion__of__RustSupport(self):
    return len(self.conversions) > 0


def __bool____of__RustSupport(self):
    return self.supported


def is_rust_available__ref():
    global _rust_status
    if _rust_status is None:
        try:
            import vectorbt_rust
            from vectorbt._version import __version__
            vbt_ver = __version__.rsplit('.', 1)[0]
            rust_ver = vectorbt_rust.__version__.rsplit('.', 1)[0]
            if vbt_ver != rust_ver:
                import warnings
                warnings.warn(f'vectorbt {__version__} / vectorbt-rust {vectorbt_rust.__version__} version mismatch; falling back to numba')
                _rust_status = False
            else:
                _rust_status = True
        except ImportError:
            _rust_status = False
    return _rust_status


def clear_engine_cache__ref():
    global _rust_status
    _rust_status = None


def callback_unsupported_with_rust__ref():
    return RustSupport(False, 'Rust engine is not implemented for callback-accepting functions.')


def combine_rust_support__ref(*support_results):
    conversions = []
    for support in support_results:
        if not isinstance(support, RustSupport):
            raise TypeError('Each support result must be a RustSupport instance.')
        if not support.supported:
            return support
        conversions.extend(support.conversions)
    return RustSupport(True, conversions=tuple(conversions))


def non_neg_int_compatible_with_rust__ref(name, value):
    if value is not None and value < 0:
        return RustSupport(False, f'Rust engine requires `{name}` to be non-negative.')
    return RustSupport(True)


def array_compatible_with_rust__ref(a, dtype=np.float64):
    if not isinstance(a, np.ndarray):
        return RustSupport(False, 'Rust engine requires a NumPy array.')
    dtype = np.dtype(dtype)
    if a.dtype != dtype:
        same_kind = a.dtype.kind == dtype.kind or (a.dtype.kind in 'iu' and dtype.kind in 'iu')
        if not same_kind or not np.can_cast(a.dtype, dtype, casting='safe'):
            return RustSupport(False, f'Rust engine requires {dtype.name} arrays and `{a.dtype.name}` cannot be safely cast.')
        if a.ndim not in (1, 2):
            return RustSupport(False, 'Rust engine requires 1D or 2D arrays.')
        return RustSupport(True, conversions=(RustConversion(dtype, a.size),))
    if a.ndim not in (1, 2):
        return RustSupport(False, 'Rust engine requires 1D or 2D arrays.')
    return RustSupport(True)


def exact_array_compatible_with_rust__ref(a, dtype=np.float64):
    support = array_compatible_with_rust(a, dtype=dtype)
    if not support.supported:
        return support
    if support.requires_conversion:
        dtype = np.dtype(dtype)
        return RustSupport(False, f'Rust engine requires exact {dtype.name} arrays for mutable arguments.')
    return support


def prepare_array_for_rust__ref(a, dtype=np.float64):
    support = array_compatible_with_rust(a, dtype=dtype)
    if not support.supported:
        raise ValueError(support.reason)
    dtype = np.dtype(dtype)
    if a.dtype == dtype:
        return a
    return np.asarray(a, dtype=dtype)


def prepare_flex_array_for_rust__ref(a, shape, dtype=np.float64, flex_2d=True, name='array'):
    support = flex_array_compatible_with_rust(name, a, shape, dtype=dtype, flex_2d=flex_2d)
    if not support.supported:
        raise ValueError(support.reason)
    dtype = np.dtype(dtype)
    arr = np.asarray(a)
    if arr.dtype == dtype:
        return arr
    return np.asarray(a, dtype=dtype)


def matching_shape_compatible_with_rust__ref(name, a, other):
    if not isinstance(a, np.ndarray) or not isinstance(other, np.ndarray):
        return RustSupport(False, f'Rust engine requires `{name}` to be a NumPy array.')
    if a.shape != other.shape:
        return RustSupport(False, f'Rust engine requires `{name}` to have the same shape as input.')
    return RustSupport(True)


def array_shape_compatible_with_rust__ref(name, a, shape):
    if not isinstance(a, np.ndarray):
        return RustSupport(False, f'Rust engine requires `{name}` to be a NumPy array.')
    if a.shape != tuple(shape):
        return RustSupport(False, f'Rust engine requires `{name}` to have shape {tuple(shape)}.')
    return RustSupport(True)


def flex_array_compatible_with_rust__ref(name, a, shape, dtype=np.float64, flex_2d=True):
    arr = np.asarray(a)
    dtype = np.dtype(dtype)
    if arr.ndim == 0:
        try:
            np.asarray(a, dtype=dtype)
        except (TypeError, ValueError):
            return RustSupport(False, f'Rust engine requires `{name}` to be convertible to {dtype.name}.')
        support = RustSupport(True)
        if arr.dtype != dtype:
            support = RustSupport(True, conversions=(RustConversion(dtype, 1),))
    else:
        support = array_compatible_with_rust(arr, dtype=dtype)
        if not support.supported:
            return RustSupport(False, f'Rust engine requires `{name}` to be {dtype.name}-compatible.')
    try:
        if arr.ndim == 1 and len(shape) == 2:
            if flex_2d:
                arr = arr.reshape(1, -1)
            else:
                arr = arr.reshape(-1, 1)
        else:
            arr = reshape_fns.to_2d_array(arr)
        np.broadcast_to(arr, shape)
    except ValueError:
        return RustSupport(False, f'Rust engine requires `{name}` to broadcast to shape {tuple(shape)}.')
    return support


def scalar_compatible_with_rust__ref(name, value):
    if isinstance(value, np.ndarray):
        return RustSupport(False, f'Rust engine requires `{name}` to be a scalar.')
    try:
        float(value)
    except (TypeError, ValueError):
        return RustSupport(False, f'Rust engine requires `{name}` to be convertible to float64.')
    return RustSupport(True)


def unit_interval_compatible_with_rust__ref(name, value):
    scalar_support = scalar_compatible_with_rust(name, value)
    if not scalar_support.supported:
        return scalar_support
    value = float(value)
    if value < 0.0 or value > 1.0:
        return RustSupport(False, f'Rust engine requires `{name}` to be between 0 and 1.')
    return RustSupport(True)


def non_neg_array_compatible_with_rust__ref(name, a):
    support = array_compatible_with_rust(a, dtype=np.int64)
    if not support.supported:
        return support
    if np.any(a < 0):
        return RustSupport(False, f'Rust engine requires `{name}` to contain non-negative values.')
    return RustSupport(True)


def array_and_non_neg_int_compatible_with_rust__ref(a, name, value):
    return combine_rust_support(array_compatible_with_rust(a), non_neg_int_compatible_with_rust(name, value))


def mask_and_array_compatible_with_rust__ref(a, mask):
    return combine_rust_support(array_compatible_with_rust(a), array_compatible_with_rust(mask, dtype=np.bool_), matching_shape_compatible_with_rust('mask', a, mask))


def mask_and_values_compatible_with_rust__ref(a, mask, values):
    return combine_rust_support(mask_and_array_compatible_with_rust(a, mask), array_compatible_with_rust(values), matching_shape_compatible_with_rust('values', a, values))


def col_range_compatible_with_rust__ref(col_range):
    if not isinstance(col_range, np.ndarray):
        return RustSupport(False, 'Rust engine requires `col_range` to be a NumPy array.')
    if col_range.ndim != 2 or col_range.shape[1] != 2:
        return RustSupport(False, 'Rust engine requires `col_range` to have shape (n_cols, 2).')
    return array_compatible_with_rust(col_range, dtype=np.int64)


def col_map_compatible_with_rust__ref(col_map):
    try:
        col_idxs, col_lens = col_map
    except (TypeError, ValueError):
        return RustSupport(False, 'Rust engine requires `col_map` to be a pair of NumPy arrays.')
    return combine_rust_support(array_compatible_with_rust(col_idxs, dtype=np.int64), non_neg_array_compatible_with_rust('col_lens', col_lens))


def rolling_compatible_with_rust__ref(a, window, minp):
    return combine_rust_support(array_compatible_with_rust(a), non_neg_int_compatible_with_rust('window', window), non_neg_int_compatible_with_rust('minp', minp))


def broadcast_to_shape__ref(a, shape, dtype=None):
    arr = np.asarray(a, dtype=dtype)
    return np.broadcast_to(arr, shape)


def broadcast_2d_to_shape__ref(a, shape, dtype=None):
    arr = np.asarray(a, dtype=dtype)
    arr = reshape_fns.to_2d_array(arr)
    return np.broadcast_to(arr, shape)


def resolve_random_engine__ref(engine=None):
    if engine is None or engine == 'auto':
        return 'numba'
    return engine


def seed_for_rust__ref(seed, engine, supports_rust):
    if resolve_engine(engine, supports_rust=supports_rust) == 'rust':
        return seed
    return None


def resolve_engine__ref(engine=None, supports_rust=RustSupport(True)):
    if engine is None:
        engine = settings['engine']
    if not isinstance(supports_rust, RustSupport):
        raise TypeError('supports_rust must be a RustSupport instance.')
    if engine == 'numba':
        return 'numba'
    if engine == 'rust':
        if not is_rust_available():
            raise ImportError('vectorbt-rust is not installed. Install with: pip install vectorbt-rust (or pip install vectorbt[rust])')
        if not supports_rust.supported:
            raise ValueError(f"{supports_rust.reason} Use engine='numba'.")
        return 'rust'
    if engine != 'auto':
        raise ValueError("Invalid engine. Expected 'auto', 'numba', or 'rust'.")
    if supports_rust.supported and is_rust_available():
        return 'rust'
    return 'numba'
