"""Reviewed reference definitions of vectorbt.labels.dispatch (functions as name__ref, methods as name__of__Class)."""
import numpy as np
from vectorbt import _typing as tp
from vectorbt._engine import array_compatible_with_rust, prepare_array_for_rust, prepare_flex_array_for_rust, combine_rust_support, flex_array_compatible_with_rust, matching_shape_compatible_with_rust, non_neg_int_compatible_with_rust, resolve_engine
from vectorbt.labels.dispatch import future_mean_apply, future_std_apply, future_min_apply, future_max_apply, fixed_labels_apply, mean_labels_apply, local_extrema_apply, bn_trend_labels, bn_cont_trend_labels, bn_cont_sat_trend_labels, pct_trend_labels, trend_labels_apply, breakout_labels


def future_mean_apply__ref(close, window, ewm, wait=1, adjust=False, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(close, dtype=np.float64), non_neg_int_compatible_with_rust('window', window), non_neg_int_compatible_with_rust('wait', wait)))
    if eng == 'rust':
        from vectorbt_rust.labels import future_mean_apply_rs
        close = prepare_array_for_rust(close, dtype=np.float64)
        return future_mean_apply_rs(close, window, ewm, wait, adjust)
    from vectorbt.labels.nb import future_mean_apply_nb
    return future_mean_apply_nb(close, window, ewm, wait, adjust)


def future_std_apply__ref(close, window, ewm, wait=1, adjust=False, ddof=0, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(close, dtype=np.float64), non_neg_int_compatible_with_rust('window', window), non_neg_int_compatible_with_rust('wait', wait), non_neg_int_compatible_with_rust('ddof', ddof)))
    if eng == 'rust':
        from vectorbt_rust.labels import future_std_apply_rs
        close = prepare_array_for_rust(close, dtype=np.float64)
        return future_std_apply_rs(close, window, ewm, wait, adjust, ddof)
    from vectorbt.labels.nb import future_std_apply_nb
    return future_std_apply_nb(close, window, ewm, wait, adjust, ddof)


def future_min_apply__ref(close, window, wait=1, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(close, dtype=np.float64), non_neg_int_compatible_with_rust('window', window), non_neg_int_compatible_with_rust('wait', wait)))
    if eng == 'rust':
        from vectorbt_rust.labels import future_min_apply_rs
        close = prepare_array_for_rust(close, dtype=np.float64)
        return future_min_apply_rs(close, window, wait)
    from vectorbt.labels.nb import future_min_apply_nb
    return future_min_apply_nb(close, window, wait)


def future_max_apply__ref(close, window, wait=1, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(close, dtype=np.float64), non_neg_int_compatible_with_rust('window', window), non_neg_int_compatible_with_rust('wait', wait)))
    if eng == 'rust':
        from vectorbt_rust.labels import future_max_apply_rs
        close = prepare_array_for_rust(close, dtype=np.float64)
        return future_max_apply_rs(close, window, wait)
    from vectorbt.labels.nb import future_max_apply_nb
    return future_max_apply_nb(close, window, wait)


def fixed_labels_apply__ref(close, n, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(close, dtype=np.float64), non_neg_int_compatible_with_rust('n', n)))
    if eng == 'rust':
        from vectorbt_rust.labels import fixed_labels_apply_rs
        close = prepare_array_for_rust(close, dtype=np.float64)
        return fixed_labels_apply_rs(close, n)
    from vectorbt.labels.nb import fixed_labels_apply_nb
    return fixed_labels_apply_nb(close, n)


def mean_labels_apply__ref(close, window, ewm, wait=1, adjust=False, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(close, dtype=np.float64), non_neg_int_compatible_with_rust('window', window), non_neg_int_compatible_with_rust('wait', wait)))
    if eng == 'rust':
        from vectorbt_rust.labels import mean_labels_apply_rs
        close = prepare_array_for_rust(close, dtype=np.float64)
        return mean_labels_apply_rs(close, window, ewm, wait, adjust)
    from vectorbt.labels.nb import mean_labels_apply_nb
    return mean_labels_apply_nb(close, window, ewm, wait, adjust)


def local_extrema_apply__ref(close, pos_th, neg_th, flex_2d=True, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(close, dtype=np.float64), flex_array_compatible_with_rust('pos_th', pos_th, close.shape, np.float64, flex_2d), flex_array_compatible_with_rust('neg_th', neg_th, close.shape, np.float64, flex_2d)))
    if eng == 'rust':
        from vectorbt_rust.labels import local_extrema_apply_rs
        pos_th = prepare_flex_array_for_rust(pos_th, close.shape, np.float64, flex_2d, name='pos_th')
        neg_th = prepare_flex_array_for_rust(neg_th, close.shape, np.float64, flex_2d, name='neg_th')
        close = prepare_array_for_rust(close, dtype=np.float64)
        return local_extrema_apply_rs(close, pos_th, neg_th, flex_2d=flex_2d)
    from vectorbt.labels.nb import local_extrema_apply_nb
    return local_extrema_apply_nb(close, pos_th, neg_th, flex_2d)


def bn_trend_labels__ref(close, local_extrema, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(close, dtype=np.float64), array_compatible_with_rust(local_extrema, dtype=np.int64), matching_shape_compatible_with_rust('local_extrema', close, local_extrema)))
    if eng == 'rust':
        from vectorbt_rust.labels import bn_trend_labels_rs
        close = prepare_array_for_rust(close, dtype=np.float64)
        local_extrema = prepare_array_for_rust(local_extrema, dtype=np.int64)
        return bn_trend_labels_rs(close, local_extrema)
    from vectorbt.labels.nb import bn_trend_labels_nb
    return bn_trend_labels_nb(close, local_extrema)


def bn_cont_trend_labels__ref(close, local_extrema, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(close, dtype=np.float64), array_compatible_with_rust(local_extrema, dtype=np.int64), matching_shape_compatible_with_rust('local_extrema', close, local_extrema)))
    if eng == 'rust':
        from vectorbt_rust.labels import bn_cont_trend_labels_rs
        close = prepare_array_for_rust(close, dtype=np.float64)
        local_extrema = prepare_array_for_rust(local_extrema, dtype=np.int64)
        return bn_cont_trend_labels_rs(close, local_extrema)
    from vectorbt.labels.nb import bn_cont_trend_labels_nb
    return bn_cont_trend_labels_nb(close, local_extrema)


def bn_cont_sat_trend_labels__ref(close, local_extrema, pos_th, neg_th, flex_2d=True, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(close, dtype=np.float64), array_compatible_with_rust(local_extrema, dtype=np.int64), matching_shape_compatible_with_rust('local_extrema', close, local_extrema), flex_array_compatible_with_rust('pos_th', pos_th, close.shape, np.float64, flex_2d), flex_array_compatible_with_rust('neg_th', neg_th, close.shape, np.float64, flex_2d)))
    if eng == 'rust':
        from vectorbt_rust.labels import bn_cont_sat_trend_labels_rs
        pos_th = prepare_flex_array_for_rust(pos_th, close.shape, np.float64, flex_2d, name='pos_th')
        neg_th = prepare_flex_array_for_rust(neg_th, close.shape, np.float64, flex_2d, name='neg_th')
        close = prepare_array_for_rust(close, dtype=np.float64)
        local_extrema = prepare_array_for_rust(local_extrema, dtype=np.int64)
        return bn_cont_sat_trend_labels_rs(close, local_extrema, pos_th, neg_th, flex_2d=flex_2d)
    from vectorbt.labels.nb import bn_cont_sat_trend_labels_nb
    return bn_cont_sat_trend_labels_nb(close, local_extrema, pos_th, neg_th, flex_2d)


def pct_trend_labels__ref(close, local_extrema, normalize, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(close, dtype=np.float64), array_compatible_with_rust(local_extrema, dtype=np.int64), matching_shape_compatible_with_rust('local_extrema', close, local_extrema)))
    if eng == 'rust':
        from vectorbt_rust.labels import pct_trend_labels_rs
        close = prepare_array_for_rust(close, dtype=np.float64)
        local_extrema = prepare_array_for_rust(local_extrema, dtype=np.int64)
        return pct_trend_labels_rs(close, local_extrema, normalize)
    from vectorbt.labels.nb import pct_trend_labels_nb
    return pct_trend_labels_nb(close, local_extrema, normalize)


def trend_labels_apply__ref(close, pos_th, neg_th, mode, flex_2d=True, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(close, dtype=np.float64), flex_array_compatible_with_rust('pos_th', pos_th, close.shape, np.float64, flex_2d), flex_array_compatible_with_rust('neg_th', neg_th, close.shape, np.float64, flex_2d)))
    if eng == 'rust':
        from vectorbt_rust.labels import trend_labels_apply_rs
        pos_th = prepare_flex_array_for_rust(pos_th, close.shape, np.float64, flex_2d, name='pos_th')
        neg_th = prepare_flex_array_for_rust(neg_th, close.shape, np.float64, flex_2d, name='neg_th')
        close = prepare_array_for_rust(close, dtype=np.float64)
        return trend_labels_apply_rs(close, pos_th, neg_th, int(mode), flex_2d=flex_2d)
    from vectorbt.labels.nb import trend_labels_apply_nb
    return trend_labels_apply_nb(close, pos_th, neg_th, mode, flex_2d)


def breakout_labels__ref(close, window, pos_th, neg_th, wait=1, flex_2d=True, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(close, dtype=np.float64), non_neg_int_compatible_with_rust('window', window), non_neg_int_compatible_with_rust('wait', wait), flex_array_compatible_with_rust('pos_th', pos_th, close.shape, np.float64, flex_2d), flex_array_compatible_with_rust('neg_th', neg_th, close.shape, np.float64, flex_2d)))
    if eng == 'rust':
        from vectorbt_rust.labels import breakout_labels_rs
        pos_th = prepare_flex_array_for_rust(pos_th, close.shape, np.float64, flex_2d, name='pos_th')
        neg_th = prepare_flex_array_for_rust(neg_th, close.shape, np.float64, flex_2d, name='neg_th')
        close = prepare_array_for_rust(close, dtype=np.float64)
        return breakout_labels_rs(close, window, pos_th, neg_th, wait, flex_2d=flex_2d)
    from vectorbt.labels.nb import breakout_labels_nb
    return breakout_labels_nb(close, window, pos_th, neg_th, wait, flex_2d)
