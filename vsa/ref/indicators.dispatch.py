"""Reviewed reference definitions of vectorbt.indicators.dispatch (functions as name__ref, methods as name__of__Class)."""
import numpy as np
from vectorbt import _typing as tp
from vectorbt._engine import array_compatible_with_rust, prepare_array_for_rust, combine_rust_support, matching_shape_compatible_with_rust, resolve_engine
from vectorbt.indicators.dispatch import ma, mstd, ma_cache, ma_apply, mstd_cache, mstd_apply, bb_cache, bb_apply, rsi_cache, rsi_apply, stoch_cache, stoch_apply, macd_cache, macd_apply, true_range, atr_cache, atr_apply, obv_custom


def ma__ref(a, window, ewm, adjust=False, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a))
    if eng == 'rust':
        from vectorbt_rust.indicators import ma_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return ma_rs(a, window, ewm, adjust)
    from vectorbt.indicators.nb import ma_nb
    return ma_nb(a, window, ewm, adjust=adjust)


def mstd__ref(a, window, ewm, adjust=False, ddof=0, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a))
    if eng == 'rust':
        from vectorbt_rust.indicators import mstd_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return mstd_rs(a, window, ewm, adjust, ddof)
    from vectorbt.indicators.nb import mstd_nb
    return mstd_nb(a, window, ewm, adjust=adjust, ddof=ddof)


def ma_cache__ref(close, windows, ewms, adjust, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(close))
    if eng == 'rust':
        from vectorbt_rust.indicators import ma_cache_rs
        close = prepare_array_for_rust(close, dtype=np.float64)
        return ma_cache_rs(close, windows, ewms, adjust)
    from vectorbt.indicators.nb import ma_cache_nb
    return ma_cache_nb(close, windows, ewms, adjust)


def ma_apply__ref(close, window, ewm, adjust, cache_dict, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(close))
    if eng == 'rust':
        from vectorbt_rust.indicators import ma_apply_rs
        close = prepare_array_for_rust(close, dtype=np.float64)
        return ma_apply_rs(close, window, ewm, adjust, cache_dict)
    from vectorbt.indicators.nb import ma_apply_nb
    return ma_apply_nb(close, window, ewm, adjust, cache_dict)


def mstd_cache__ref(close, windows, ewms, adjust, ddof, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(close))
    if eng == 'rust':
        from vectorbt_rust.indicators import mstd_cache_rs
        close = prepare_array_for_rust(close, dtype=np.float64)
        return mstd_cache_rs(close, windows, ewms, adjust, ddof)
    from vectorbt.indicators.nb import mstd_cache_nb
    return mstd_cache_nb(close, windows, ewms, adjust, ddof)


def mstd_apply__ref(close, window, ewm, adjust, ddof, cache_dict, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(close))
    if eng == 'rust':
        from vectorbt_rust.indicators import mstd_apply_rs
        close = prepare_array_for_rust(close, dtype=np.float64)
        return mstd_apply_rs(close, window, ewm, adjust, ddof, cache_dict)
    from vectorbt.indicators.nb import mstd_apply_nb
    return mstd_apply_nb(close, window, ewm, adjust, ddof, cache_dict)


def bb_cache__ref(close, windows, ewms, alphas, adjust, ddof, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(close))
    if eng == 'rust':
        from vectorbt_rust.indicators import bb_cache_rs
        close = prepare_array_for_rust(close, dtype=np.float64)
        return bb_cache_rs(close, windows, ewms, alphas, adjust, ddof)
    from vectorbt.indicators.nb import bb_cache_nb
    return bb_cache_nb(close, windows, ewms, alphas, adjust, ddof)


def bb_apply__ref(close, window, ewm, alpha, adjust, ddof, ma_cache_dict, mstd_cache_dict, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(close))
    if eng == 'rust':
        from vectorbt_rust.indicators import bb_apply_rs
        close = prepare_array_for_rust(close, dtype=np.float64)
        return bb_apply_rs(close, window, ewm, alpha, adjust, ddof, ma_cache_dict, mstd_cache_dict)
    from vectorbt.indicators.nb import bb_apply_nb
    return bb_apply_nb(close, window, ewm, alpha, adjust, ddof, ma_cache_dict, mstd_cache_dict)


def rsi_cache__ref(close, windows, ewms, adjust, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(close))
    if eng == 'rust':
        from vectorbt_rust.indicators import rsi_cache_rs
        close = prepare_array_for_rust(close, dtype=np.float64)
        return rsi_cache_rs(close, windows, ewms, adjust)
    from vectorbt.indicators.nb import rsi_cache_nb
    return rsi_cache_nb(close, windows, ewms, adjust)


def rsi_apply__ref(close, window, ewm, adjust, cache_dict, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(close))
    if eng == 'rust':
        from vectorbt_rust.indicators import rsi_apply_rs
        close = prepare_array_for_rust(close, dtype=np.float64)
        return rsi_apply_rs(close, window, ewm, adjust, cache_dict)
    from vectorbt.indicators.nb import rsi_apply_nb
    return rsi_apply_nb(close, window, ewm, adjust, cache_dict)


def stoch_cache__ref(high, low, close, k_windows, d_windows, d_ewms, adjust, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(high), array_compatible_with_rust(low), array_compatible_with_rust(close), matching_shape_compatible_with_rust('low', high, low), matching_shape_compatible_with_rust('close', high, close)))
    if eng == 'rust':
        from vectorbt_rust.indicators import stoch_cache_rs
        high = prepare_array_for_rust(high, dtype=np.float64)
        low = prepare_array_for_rust(low, dtype=np.float64)
        close = prepare_array_for_rust(close, dtype=np.float64)
        return stoch_cache_rs(high, low, close, k_windows, d_windows, d_ewms, adjust)
    from vectorbt.indicators.nb import stoch_cache_nb
    return stoch_cache_nb(high, low, close, k_windows, d_windows, d_ewms, adjust)


def stoch_apply__ref(high, low, close, k_window, d_window, d_ewm, adjust, cache_dict, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(high), array_compatible_with_rust(low), array_compatible_with_rust(close), matching_shape_compatible_with_rust('low', high, low), matching_shape_compatible_with_rust('close', high, close)))
    if eng == 'rust':
        from vectorbt_rust.indicators import stoch_apply_rs
        high = prepare_array_for_rust(high, dtype=np.float64)
        low = prepare_array_for_rust(low, dtype=np.float64)
        close = prepare_array_for_rust(close, dtype=np.float64)
        return stoch_apply_rs(high, low, close, k_window, d_window, d_ewm, adjust, cache_dict)
    from vectorbt.indicators.nb import stoch_apply_nb
    return stoch_apply_nb(high, low, close, k_window, d_window, d_ewm, adjust, cache_dict)


def macd_cache__ref(close, fast_windows, slow_windows, signal_windows, macd_ewms, signal_ewms, adjust, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(close))
    if eng == 'rust':
        from vectorbt_rust.indicators import macd_cache_rs
        close = prepare_array_for_rust(close, dtype=np.float64)
        return macd_cache_rs(close, fast_windows, slow_windows, signal_windows, macd_ewms, signal_ewms, adjust)
    from vectorbt.indicators.nb import macd_cache_nb
    return macd_cache_nb(close, fast_windows, slow_windows, signal_windows, macd_ewms, signal_ewms, adjust)


def macd_apply__ref(close, fast_window, slow_window, signal_window, macd_ewm, signal_ewm, adjust, cache_dict, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(close))
    if eng == 'rust':
        from vectorbt_rust.indicators import macd_apply_rs
        close = prepare_array_for_rust(close, dtype=np.float64)
        return macd_apply_rs(close, fast_window, slow_window, signal_window, macd_ewm, signal_ewm, adjust, cache_dict)
    from vectorbt.indicators.nb import macd_apply_nb
    return macd_apply_nb(close, fast_window, slow_window, signal_window, macd_ewm, signal_ewm, adjust, cache_dict)


def true_range__ref(high, low, close, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(high), array_compatible_with_rust(low), array_compatible_with_rust(close), matching_shape_compatible_with_rust('low', high, low), matching_shape_compatible_with_rust('close', high, close)))
    if eng == 'rust':
        from vectorbt_rust.indicators import true_range_rs
        high = prepare_array_for_rust(high, dtype=np.float64)
        low = prepare_array_for_rust(low, dtype=np.float64)
        close = prepare_array_for_rust(close, dtype=np.float64)
        return true_range_rs(high, low, close)
    from vectorbt.indicators.nb import true_range_nb
    return true_range_nb(high, low, close)


def atr_cache__ref(high, low, close, windows, ewms, adjust, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(high), array_compatible_with_rust(low), array_compatible_with_rust(close), matching_shape_compatible_with_rust('low', high, low), matching_shape_compatible_with_rust('close', high, close)))
    if eng == 'rust':
        from vectorbt_rust.indicators import atr_cache_rs
        high = prepare_array_for_rust(high, dtype=np.float64)
        low = prepare_array_for_rust(low, dtype=np.float64)
        close = prepare_array_for_rust(close, dtype=np.float64)
        return atr_cache_rs(high, low, close, windows, ewms, adjust)
    from vectorbt.indicators.nb import atr_cache_nb
    return atr_cache_nb(high, low, close, windows, ewms, adjust)


def atr_apply__ref(high, low, close, window, ewm, adjust, tr, cache_dict, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(high), array_compatible_with_rust(low), array_compatible_with_rust(close), array_compatible_with_rust(tr), matching_shape_compatible_with_rust('low', high, low), matching_shape_compatible_with_rust('close', high, close), matching_shape_compatible_with_rust('tr', high, tr)))
    if eng == 'rust':
        from vectorbt_rust.indicators import atr_apply_rs
        high = prepare_array_for_rust(high, dtype=np.float64)
        low = prepare_array_for_rust(low, dtype=np.float64)
        close = prepare_array_for_rust(close, dtype=np.float64)
        tr = prepare_array_for_rust(tr, dtype=np.float64)
        return atr_apply_rs(high, low, close, window, ewm, adjust, tr, cache_dict)
    from vectorbt.indicators.nb import atr_apply_nb
    return atr_apply_nb(high, low, close, window, ewm, adjust, tr, cache_dict)


def obv_custom__ref(close, volume_ts, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(close), array_compatible_with_rust(volume_ts), matching_shape_compatible_with_rust('volume_ts', close, volume_ts)))
    if eng == 'rust':
        from vectorbt_rust.indicators import obv_custom_rs
        close = prepare_array_for_rust(close, dtype=np.float64)
        volume_ts = prepare_array_for_rust(volume_ts, dtype=np.float64)
        return obv_custom_rs(close, volume_ts)
    from vectorbt.indicators.nb import obv_custom_nb
    return obv_custom_nb(close, volume_ts)
