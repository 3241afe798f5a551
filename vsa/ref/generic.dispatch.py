"""Reviewed reference definitions of vectorbt.generic.dispatch (functions as name__ref, methods as name__of__Class)."""
import numpy as np
from vectorbt import _typing as tp
from vectorbt._engine import array_and_non_neg_int_compatible_with_rust, array_compatible_with_rust, prepare_array_for_rust, callback_unsupported_with_rust, col_map_compatible_with_rust, combine_rust_support, mask_and_array_compatible_with_rust, mask_and_values_compatible_with_rust, matching_shape_compatible_with_rust, non_neg_array_compatible_with_rust, non_neg_int_compatible_with_rust, resolve_engine, resolve_random_engine, rolling_compatible_with_rust, scalar_compatible_with_rust
from vectorbt.utils import checks
from vectorbt.generic.dispatch import shuffle_1d, shuffle, set_by_mask_1d, set_by_mask, set_by_mask_mult_1d, set_by_mask_mult, fillna_1d, fillna, bshift_1d, bshift, fshift_1d, fshift, diff_1d, diff, pct_change_1d, pct_change, bfill_1d, bfill, ffill_1d, ffill, nanprod, nancumsum, nancumprod, nansum, nancnt, nanmin, nanmax, nanmean, nanmedian, nanstd_1d, nanstd, rolling_min_1d, rolling_min, rolling_max_1d, rolling_max, rolling_mean_1d, rolling_mean, rolling_std_1d, rolling_std, ewm_mean_1d, ewm_mean, ewm_std_1d, ewm_std, expanding_min_1d, expanding_min, expanding_max_1d, expanding_max, expanding_mean_1d, expanding_mean, expanding_std_1d, expanding_std, apply, row_apply, rolling_apply, rolling_matrix_apply, expanding_apply, expanding_matrix_apply, groupby_apply, groupby_matrix_apply, applymap, filter, filter_, apply_and_reduce, reduce, reduce_to_array, reduce_grouped, flatten_forder, flat_reduce_grouped, reduce_grouped_to_array, flat_reduce_grouped_to_array, squeeze_grouped, flatten_grouped, flatten_uniform_grouped, nth_reduce, nth_index_reduce, min_reduce, max_reduce, mean_reduce, median_reduce, std_reduce, sum_reduce, count_reduce, argmin_reduce, argmax_reduce, describe_reduce, value_counts, min_squeeze, max_squeeze, sum_squeeze, any_squeeze, find_ranges, range_duration, range_coverage, ranges_to_mask, get_drawdowns, dd_drawdown, dd_decline_duration, dd_recovery_duration, dd_recovery_duration_ratio, dd_recovery_return, crossed_above_1d, crossed_above


def shuffle_1d__ref(a, seed=None, engine=None):
    eng = resolve_random_engine(engine)
    if eng == 'numba':
        from vectorbt.generic.nb import shuffle_1d_nb
        return shuffle_1d_nb(a, seed)
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(a), non_neg_int_compatible_with_rust('seed', seed)))
    if eng == 'rust':
        from vectorbt_rust.generic import shuffle_1d_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return shuffle_1d_rs(a, seed)
    from vectorbt.generic.nb import shuffle_1d_nb
    return shuffle_1d_nb(a, seed)


def shuffle__ref(a, seed=None, engine=None):
    eng = resolve_random_engine(engine)
    if eng == 'numba':
        from vectorbt.generic.nb import shuffle_nb
        return shuffle_nb(a, seed)
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(a), non_neg_int_compatible_with_rust('seed', seed)))
    if eng == 'rust':
        from vectorbt_rust.generic import shuffle_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return shuffle_rs(a, seed)
    from vectorbt.generic.nb import shuffle_nb
    return shuffle_nb(a, seed)


def set_by_mask_1d__ref(arr, mask, value, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(mask_and_array_compatible_with_rust(arr, mask), scalar_compatible_with_rust('value', value)))
    if eng == 'rust':
        from vectorbt_rust.generic import set_by_mask_1d_rs
        arr = prepare_array_for_rust(arr, dtype=np.float64)
        mask = prepare_array_for_rust(mask, dtype=np.bool_)
        return set_by_mask_1d_rs(arr, mask, value)
    from vectorbt.generic.nb import set_by_mask_1d_nb
    return set_by_mask_1d_nb(arr, mask, value)


def set_by_mask__ref(arr, mask, value, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(mask_and_array_compatible_with_rust(arr, mask), scalar_compatible_with_rust('value', value)))
    if eng == 'rust':
        from vectorbt_rust.generic import set_by_mask_rs
        arr = prepare_array_for_rust(arr, dtype=np.float64)
        mask = prepare_array_for_rust(mask, dtype=np.bool_)
        return set_by_mask_rs(arr, mask, value)
    from vectorbt.generic.nb import set_by_mask_nb
    return set_by_mask_nb(arr, mask, value)


def set_by_mask_mult_1d__ref(arr, mask, values, engine=None):
    eng = resolve_engine(engine, supports_rust=mask_and_values_compatible_with_rust(arr, mask, values))
    if eng == 'rust':
        from vectorbt_rust.generic import set_by_mask_mult_1d_rs
        arr = prepare_array_for_rust(arr, dtype=np.float64)
        mask = prepare_array_for_rust(mask, dtype=np.bool_)
        values = prepare_array_for_rust(values, dtype=np.float64)
        return set_by_mask_mult_1d_rs(arr, mask, values)
    from vectorbt.generic.nb import set_by_mask_mult_1d_nb
    return set_by_mask_mult_1d_nb(arr, mask, values)


def set_by_mask_mult__ref(arr, mask, values, engine=None):
    eng = resolve_engine(engine, supports_rust=mask_and_values_compatible_with_rust(arr, mask, values))
    if eng == 'rust':
        from vectorbt_rust.generic import set_by_mask_mult_rs
        arr = prepare_array_for_rust(arr, dtype=np.float64)
        mask = prepare_array_for_rust(mask, dtype=np.bool_)
        values = prepare_array_for_rust(values, dtype=np.float64)
        return set_by_mask_mult_rs(arr, mask, values)
    from vectorbt.generic.nb import set_by_mask_mult_nb
    return set_by_mask_mult_nb(arr, mask, values)


def fillna_1d__ref(a, value, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(a), scalar_compatible_with_rust('value', value)))
    if eng == 'rust':
        from vectorbt_rust.generic import fillna_1d_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return fillna_1d_rs(a, value)
    from vectorbt.generic.nb import fillna_1d_nb
    return fillna_1d_nb(a, value)


def fillna__ref(a, value, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(a), scalar_compatible_with_rust('value', value)))
    if eng == 'rust':
        from vectorbt_rust.generic import fillna_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return fillna_rs(a, value)
    from vectorbt.generic.nb import fillna_nb
    return fillna_nb(a, value)


def bshift_1d__ref(arr, n=1, fill_value=float('nan'), engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_and_non_neg_int_compatible_with_rust(arr, 'n', n), scalar_compatible_with_rust('fill_value', fill_value)))
    if eng == 'rust':
        from vectorbt_rust.generic import bshift_1d_rs
        arr = prepare_array_for_rust(arr, dtype=np.float64)
        return bshift_1d_rs(arr, n, fill_value)
    from vectorbt.generic.nb import bshift_1d_nb
    return bshift_1d_nb(arr, n, fill_value)


def bshift__ref(arr, n=1, fill_value=float('nan'), engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_and_non_neg_int_compatible_with_rust(arr, 'n', n), scalar_compatible_with_rust('fill_value', fill_value)))
    if eng == 'rust':
        from vectorbt_rust.generic import bshift_rs
        arr = prepare_array_for_rust(arr, dtype=np.float64)
        return bshift_rs(arr, n, fill_value)
    from vectorbt.generic.nb import bshift_nb
    return bshift_nb(arr, n, fill_value)


def fshift_1d__ref(arr, n=1, fill_value=float('nan'), engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_and_non_neg_int_compatible_with_rust(arr, 'n', n), scalar_compatible_with_rust('fill_value', fill_value)))
    if eng == 'rust':
        from vectorbt_rust.generic import fshift_1d_rs
        arr = prepare_array_for_rust(arr, dtype=np.float64)
        return fshift_1d_rs(arr, n, fill_value)
    from vectorbt.generic.nb import fshift_1d_nb
    return fshift_1d_nb(arr, n, fill_value)


def fshift__ref(arr, n=1, fill_value=float('nan'), engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_and_non_neg_int_compatible_with_rust(arr, 'n', n), scalar_compatible_with_rust('fill_value', fill_value)))
    if eng == 'rust':
        from vectorbt_rust.generic import fshift_rs
        arr = prepare_array_for_rust(arr, dtype=np.float64)
        return fshift_rs(arr, n, fill_value)
    from vectorbt.generic.nb import fshift_nb
    return fshift_nb(arr, n, fill_value)


def diff_1d__ref(a, n=1, engine=None):
    eng = resolve_engine(engine, supports_rust=array_and_non_neg_int_compatible_with_rust(a, 'n', n))
    if eng == 'rust':
        from vectorbt_rust.generic import diff_1d_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return diff_1d_rs(a, n)
    from vectorbt.generic.nb import diff_1d_nb
    return diff_1d_nb(a, n)


def diff__ref(a, n=1, engine=None):
    eng = resolve_engine(engine, supports_rust=array_and_non_neg_int_compatible_with_rust(a, 'n', n))
    if eng == 'rust':
        from vectorbt_rust.generic import diff_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return diff_rs(a, n)
    from vectorbt.generic.nb import diff_nb
    return diff_nb(a, n)


def pct_change_1d__ref(a, n=1, engine=None):
    eng = resolve_engine(engine, supports_rust=array_and_non_neg_int_compatible_with_rust(a, 'n', n))
    if eng == 'rust':
        from vectorbt_rust.generic import pct_change_1d_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return pct_change_1d_rs(a, n)
    from vectorbt.generic.nb import pct_change_1d_nb
    return pct_change_1d_nb(a, n)


def pct_change__ref(a, n=1, engine=None):
    eng = resolve_engine(engine, supports_rust=array_and_non_neg_int_compatible_with_rust(a, 'n', n))
    if eng == 'rust':
        from vectorbt_rust.generic import pct_change_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return pct_change_rs(a, n)
    from vectorbt.generic.nb import pct_change_nb
    return pct_change_nb(a, n)


def bfill_1d__ref(a, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a))
    if eng == 'rust':
        from vectorbt_rust.generic import bfill_1d_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return bfill_1d_rs(a)
    from vectorbt.generic.nb import bfill_1d_nb
    return bfill_1d_nb(a)


def bfill__ref(a, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a))
    if eng == 'rust':
        from vectorbt_rust.generic import bfill_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return bfill_rs(a)
    from vectorbt.generic.nb import bfill_nb
    return bfill_nb(a)


def ffill_1d__ref(a, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a))
    if eng == 'rust':
        from vectorbt_rust.generic import ffill_1d_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return ffill_1d_rs(a)
    from vectorbt.generic.nb import ffill_1d_nb
    return ffill_1d_nb(a)


def ffill__ref(a, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a))
    if eng == 'rust':
        from vectorbt_rust.generic import ffill_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return ffill_rs(a)
    from vectorbt.generic.nb import ffill_nb
    return ffill_nb(a)


def nanprod__ref(arr, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(arr))
    if eng == 'rust':
        from vectorbt_rust.generic import nanprod_rs
        arr = prepare_array_for_rust(arr, dtype=np.float64)
        return nanprod_rs(arr)
    from vectorbt.generic.nb import nanprod_nb
    return nanprod_nb(arr)


def nancumsum__ref(arr, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(arr))
    if eng == 'rust':
        from vectorbt_rust.generic import nancumsum_rs
        arr = prepare_array_for_rust(arr, dtype=np.float64)
        return nancumsum_rs(arr)
    from vectorbt.generic.nb import nancumsum_nb
    return nancumsum_nb(arr)


def nancumprod__ref(arr, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(arr))
    if eng == 'rust':
        from vectorbt_rust.generic import nancumprod_rs
        arr = prepare_array_for_rust(arr, dtype=np.float64)
        return nancumprod_rs(arr)
    from vectorbt.generic.nb import nancumprod_nb
    return nancumprod_nb(arr)


def nansum__ref(arr, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(arr))
    if eng == 'rust':
        from vectorbt_rust.generic import nansum_rs
        arr = prepare_array_for_rust(arr, dtype=np.float64)
        return nansum_rs(arr)
    from vectorbt.generic.nb import nansum_nb
    return nansum_nb(arr)


def nancnt__ref(a, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a))
    if eng == 'rust':
        from vectorbt_rust.generic import nancnt_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return nancnt_rs(a)
    from vectorbt.generic.nb import nancnt_nb
    return nancnt_nb(a)


def nanmin__ref(a, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a))
    if eng == 'rust':
        from vectorbt_rust.generic import nanmin_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return nanmin_rs(a)
    from vectorbt.generic.nb import nanmin_nb
    return nanmin_nb(a)


def nanmax__ref(a, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a))
    if eng == 'rust':
        from vectorbt_rust.generic import nanmax_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return nanmax_rs(a)
    from vectorbt.generic.nb import nanmax_nb
    return nanmax_nb(a)


def nanmean__ref(a, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a))
    if eng == 'rust':
        from vectorbt_rust.generic import nanmean_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return nanmean_rs(a)
    from vectorbt.generic.nb import nanmean_nb
    return nanmean_nb(a)


def nanmedian__ref(a, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a))
    if eng == 'rust':
        from vectorbt_rust.generic import nanmedian_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return nanmedian_rs(a)
    from vectorbt.generic.nb import nanmedian_nb
    return nanmedian_nb(a)


def nanstd_1d__ref(a, ddof=0, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(a), non_neg_int_compatible_with_rust('ddof', ddof)))
    if eng == 'rust':
        from vectorbt_rust.generic import nanstd_1d_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return nanstd_1d_rs(a, ddof)
    from vectorbt.generic.nb import nanstd_1d_nb
    return nanstd_1d_nb(a, ddof)


def nanstd__ref(a, ddof=0, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(a), non_neg_int_compatible_with_rust('ddof', ddof)))
    if eng == 'rust':
        from vectorbt_rust.generic import nanstd_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return nanstd_rs(a, ddof)
    from vectorbt.generic.nb import nanstd_nb
    return nanstd_nb(a, ddof)


def rolling_min_1d__ref(a, window, minp=None, engine=None):
    eng = resolve_engine(engine, supports_rust=rolling_compatible_with_rust(a, window, minp))
    if eng == 'rust':
        from vectorbt_rust.generic import rolling_min_1d_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return rolling_min_1d_rs(a, window, minp)
    from vectorbt.generic.nb import rolling_min_1d_nb
    return rolling_min_1d_nb(a, window, minp)


def rolling_min__ref(a, window, minp=None, engine=None):
    eng = resolve_engine(engine, supports_rust=rolling_compatible_with_rust(a, window, minp))
    if eng == 'rust':
        from vectorbt_rust.generic import rolling_min_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return rolling_min_rs(a, window, minp)
    from vectorbt.generic.nb import rolling_min_nb
    return rolling_min_nb(a, window, minp)


def rolling_max_1d__ref(a, window, minp=None, engine=None):
    eng = resolve_engine(engine, supports_rust=rolling_compatible_with_rust(a, window, minp))
    if eng == 'rust':
        from vectorbt_rust.generic import rolling_max_1d_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return rolling_max_1d_rs(a, window, minp)
    from vectorbt.generic.nb import rolling_max_1d_nb
    return rolling_max_1d_nb(a, window, minp)


def rolling_max__ref(a, window, minp=None, engine=None):
    eng = resolve_engine(engine, supports_rust=rolling_compatible_with_rust(a, window, minp))
    if eng == 'rust':
        from vectorbt_rust.generic import rolling_max_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return rolling_max_rs(a, window, minp)
    from vectorbt.generic.nb import rolling_max_nb
    return rolling_max_nb(a, window, minp)


def rolling_mean_1d__ref(a, window, minp=None, engine=None):
    eng = resolve_engine(engine, supports_rust=rolling_compatible_with_rust(a, window, minp))
    if eng == 'rust':
        from vectorbt_rust.generic import rolling_mean_1d_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return rolling_mean_1d_rs(a, window, minp)
    from vectorbt.generic.nb import rolling_mean_1d_nb
    return rolling_mean_1d_nb(a, window, minp)


def rolling_mean__ref(a, window, minp=None, engine=None):
    eng = resolve_engine(engine, supports_rust=rolling_compatible_with_rust(a, window, minp))
    if eng == 'rust':
        from vectorbt_rust.generic import rolling_mean_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return rolling_mean_rs(a, window, minp)
    from vectorbt.generic.nb import rolling_mean_nb
    return rolling_mean_nb(a, window, minp)


def rolling_std_1d__ref(a, window, minp=None, ddof=0, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(rolling_compatible_with_rust(a, window, minp), non_neg_int_compatible_with_rust('ddof', ddof)))
    if eng == 'rust':
        from vectorbt_rust.generic import rolling_std_1d_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return rolling_std_1d_rs(a, window, minp, ddof)
    from vectorbt.generic.nb import rolling_std_1d_nb
    return rolling_std_1d_nb(a, window, minp, ddof)


def rolling_std__ref(a, window, minp=None, ddof=0, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(rolling_compatible_with_rust(a, window, minp), non_neg_int_compatible_with_rust('ddof', ddof)))
    if eng == 'rust':
        from vectorbt_rust.generic import rolling_std_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return rolling_std_rs(a, window, minp, ddof)
    from vectorbt.generic.nb import rolling_std_nb
    return rolling_std_nb(a, window, minp, ddof)


def ewm_mean_1d__ref(a, span, minp=0, adjust=False, engine=None):
    if minp is None:
        minp = span
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(a), non_neg_int_compatible_with_rust('span', span), non_neg_int_compatible_with_rust('minp', minp)))
    if eng == 'rust':
        from vectorbt_rust.generic import ewm_mean_1d_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return ewm_mean_1d_rs(a, span, minp, adjust)
    from vectorbt.generic.nb import ewm_mean_1d_nb
    return ewm_mean_1d_nb(a, span, minp, adjust)


def ewm_mean__ref(a, span, minp=0, adjust=False, engine=None):
    if minp is None:
        minp = span
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(a), non_neg_int_compatible_with_rust('span', span), non_neg_int_compatible_with_rust('minp', minp)))
    if eng == 'rust':
        from vectorbt_rust.generic import ewm_mean_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return ewm_mean_rs(a, span, minp, adjust)
    from vectorbt.generic.nb import ewm_mean_nb
    return ewm_mean_nb(a, span, minp, adjust)


def ewm_std_1d__ref(a, span, minp=0, adjust=False, ddof=0, engine=None):
    if minp is None:
        minp = span
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(a), non_neg_int_compatible_with_rust('span', span), non_neg_int_compatible_with_rust('minp', minp), non_neg_int_compatible_with_rust('ddof', ddof)))
    if eng == 'rust':
        from vectorbt_rust.generic import ewm_std_1d_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return ewm_std_1d_rs(a, span, minp, adjust, ddof)
    from vectorbt.generic.nb import ewm_std_1d_nb
    return ewm_std_1d_nb(a, span, minp, adjust, ddof)


def ewm_std__ref(a, span, minp=0, adjust=False, ddof=0, engine=None):
    if minp is None:
        minp = span
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(a), non_neg_int_compatible_with_rust('span', span), non_neg_int_compatible_with_rust('minp', minp), non_neg_int_compatible_with_rust('ddof', ddof)))
    if eng == 'rust':
        from vectorbt_rust.generic import ewm_std_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return ewm_std_rs(a, span, minp, adjust, ddof)
    from vectorbt.generic.nb import ewm_std_nb
    return ewm_std_nb(a, span, minp, adjust, ddof)


def expanding_min_1d__ref(a, minp=1, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(a), non_neg_int_compatible_with_rust('minp', minp)))
    if eng == 'rust':
        from vectorbt_rust.generic import expanding_min_1d_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return expanding_min_1d_rs(a, minp)
    from vectorbt.generic.nb import expanding_min_1d_nb
    return expanding_min_1d_nb(a, minp)


def expanding_min__ref(a, minp=1, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(a), non_neg_int_compatible_with_rust('minp', minp)))
    if eng == 'rust':
        from vectorbt_rust.generic import expanding_min_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return expanding_min_rs(a, minp)
    from vectorbt.generic.nb import expanding_min_nb
    return expanding_min_nb(a, minp)


def expanding_max_1d__ref(a, minp=1, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(a), non_neg_int_compatible_with_rust('minp', minp)))
    if eng == 'rust':
        from vectorbt_rust.generic import expanding_max_1d_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return expanding_max_1d_rs(a, minp)
    from vectorbt.generic.nb import expanding_max_1d_nb
    return expanding_max_1d_nb(a, minp)


def expanding_max__ref(a, minp=1, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(a), non_neg_int_compatible_with_rust('minp', minp)))
    if eng == 'rust':
        from vectorbt_rust.generic import expanding_max_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return expanding_max_rs(a, minp)
    from vectorbt.generic.nb import expanding_max_nb
    return expanding_max_nb(a, minp)


def expanding_mean_1d__ref(a, minp=1, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(a), non_neg_int_compatible_with_rust('minp', minp)))
    if eng == 'rust':
        from vectorbt_rust.generic import expanding_mean_1d_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return expanding_mean_1d_rs(a, minp)
    from vectorbt.generic.nb import expanding_mean_1d_nb
    return expanding_mean_1d_nb(a, minp)


def expanding_mean__ref(a, minp=1, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(a), non_neg_int_compatible_with_rust('minp', minp)))
    if eng == 'rust':
        from vectorbt_rust.generic import expanding_mean_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return expanding_mean_rs(a, minp)
    from vectorbt.generic.nb import expanding_mean_nb
    return expanding_mean_nb(a, minp)


def expanding_std_1d__ref(a, minp=1, ddof=0, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(a), non_neg_int_compatible_with_rust('minp', minp), non_neg_int_compatible_with_rust('ddof', ddof)))
    if eng == 'rust':
        from vectorbt_rust.generic import expanding_std_1d_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return expanding_std_1d_rs(a, minp, ddof)
    from vectorbt.generic.nb import expanding_std_1d_nb
    return expanding_std_1d_nb(a, minp, ddof)


def expanding_std__ref(a, minp=1, ddof=0, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(a), non_neg_int_compatible_with_rust('minp', minp), non_neg_int_compatible_with_rust('ddof', ddof)))
    if eng == 'rust':
        from vectorbt_rust.generic import expanding_std_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return expanding_std_rs(a, minp, ddof)
    from vectorbt.generic.nb import expanding_std_nb
    return expanding_std_nb(a, minp, ddof)


def apply__ref(a, apply_func, *args, engine=None):
    resolve_engine(engine, supports_rust=callback_unsupported_with_rust())
    from vectorbt.generic.nb import apply_nb
    return apply_nb(a, apply_func, *args)


def row_apply__ref(a, apply_func, *args, engine=None):
    resolve_engine(engine, supports_rust=callback_unsupported_with_rust())
    from vectorbt.generic.nb import row_apply_nb
    return row_apply_nb(a, apply_func, *args)


def rolling_apply__ref(a, window, minp, apply_func, *args, engine=None):
    resolve_engine(engine, supports_rust=callback_unsupported_with_rust())
    from vectorbt.generic.nb import rolling_apply_nb
    return rolling_apply_nb(a, window, minp, apply_func, *args)


def rolling_matrix_apply__ref(a, window, minp, apply_func, *args, engine=None):
    resolve_engine(engine, supports_rust=callback_unsupported_with_rust())
    from vectorbt.generic.nb import rolling_matrix_apply_nb
    return rolling_matrix_apply_nb(a, window, minp, apply_func, *args)


def expanding_apply__ref(a, minp, apply_func, *args, engine=None):
    resolve_engine(engine, supports_rust=callback_unsupported_with_rust())
    from vectorbt.generic.nb import expanding_apply_nb
    return expanding_apply_nb(a, minp, apply_func, *args)


def expanding_matrix_apply__ref(a, minp, apply_func, *args, engine=None):
    resolve_engine(engine, supports_rust=callback_unsupported_with_rust())
    from vectorbt.generic.nb import expanding_matrix_apply_nb
    return expanding_matrix_apply_nb(a, minp, apply_func, *args)


def groupby_apply__ref(a, groups, apply_func, *args, engine=None):
    resolve_engine(engine, supports_rust=callback_unsupported_with_rust())
    from vectorbt.generic.nb import groupby_apply_nb
    return groupby_apply_nb(a, groups, apply_func, *args)


def groupby_matrix_apply__ref(a, groups, apply_func, *args, engine=None):
    resolve_engine(engine, supports_rust=callback_unsupported_with_rust())
    from vectorbt.generic.nb import groupby_matrix_apply_nb
    return groupby_matrix_apply_nb(a, groups, apply_func, *args)


def applymap__ref(a, map_func, *args, engine=None):
    resolve_engine(engine, supports_rust=callback_unsupported_with_rust())
    from vectorbt.generic.nb import applymap_nb
    return applymap_nb(a, map_func, *args)


def filter__ref(a, filter_func, *args, engine=None):
    resolve_engine(engine, supports_rust=callback_unsupported_with_rust())
    from vectorbt.generic.nb import filter_nb
    return filter_nb(a, filter_func, *args)


def filter___decl():
    return filter


def apply_and_reduce__ref(a, apply_func, apply_args, reduce_func, reduce_args, engine=None):
    if checks.is_engine_dispatch_func(reduce_func, func_suffix='_reduce'):
        out = None
        apply_is_dispatch = checks.is_engine_dispatch_func(apply_func)
        for col in range(a.shape[1]):
            if apply_is_dispatch:
                temp = apply_func(col, a[:, col], *apply_args, engine=engine)
            else:
                temp = apply_func(col, a[:, col], *apply_args)
            _out = reduce_func(col, temp, *reduce_args, engine=engine)
            if out is None:
                out = np.empty(a.shape[1], dtype=np.asarray(_out).dtype)
            out[col] = _out
        return out
    resolve_engine(engine, supports_rust=callback_unsupported_with_rust())
    from vectorbt.generic.nb import apply_and_reduce_nb
    return apply_and_reduce_nb(a, apply_func, apply_args, reduce_func, reduce_args)


def reduce__ref(a, reduce_func, *args, engine=None):
    if checks.is_engine_dispatch_func(reduce_func, func_suffix='_reduce'):
        first_out = reduce_func(0, a[:, 0], *args, engine=engine)
        out = np.empty(a.shape[1], dtype=np.asarray(first_out).dtype)
        out[0] = first_out
        for col in range(1, a.shape[1]):
            out[col] = reduce_func(col, a[:, col], *args, engine=engine)
        return out
    resolve_engine(engine, supports_rust=callback_unsupported_with_rust())
    from vectorbt.generic.nb import reduce_nb
    return reduce_nb(a, reduce_func, *args)


def reduce_to_array__ref(a, reduce_func, *args, engine=None):
    if checks.is_engine_dispatch_func(reduce_func, func_suffix='_reduce'):
        out = None
        for col in range(a.shape[1]):
            _out = np.asarray(reduce_func(col, a[:, col], *args, engine=engine))
            if out is None:
                out = np.empty((_out.shape[0], a.shape[1]), dtype=_out.dtype)
            out[:, col] = _out
        return out
    resolve_engine(engine, supports_rust=callback_unsupported_with_rust())
    from vectorbt.generic.nb import reduce_to_array_nb
    return reduce_to_array_nb(a, reduce_func, *args)


def reduce_grouped__ref(a, group_lens, reduce_func, *args, engine=None):
    resolve_engine(engine, supports_rust=callback_unsupported_with_rust())
    from vectorbt.generic.nb import reduce_grouped_nb
    return reduce_grouped_nb(a, group_lens, reduce_func, *args)


def flatten_forder__ref(a, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a))
    if eng == 'rust':
        from vectorbt_rust.generic import flatten_forder_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return flatten_forder_rs(a)
    from vectorbt.generic.nb import flatten_forder_nb
    return flatten_forder_nb(a)


def flat_reduce_grouped__ref(a, group_lens, in_c_order, reduce_func, *args, engine=None):
    if checks.is_engine_dispatch_func(reduce_func, func_suffix='_reduce'):
        from_col = 0
        out = None
        for group, group_len in enumerate(group_lens):
            to_col = from_col + group_len
            group_arr = a[:, from_col:to_col]
            flat_arr = group_arr.ravel(order='C' if in_c_order else 'F')
            _out = reduce_func(group, flat_arr, *args, engine=engine)
            if out is None:
                out = np.empty(len(group_lens), dtype=np.asarray(_out).dtype)
            out[group] = _out
            from_col = to_col
        return out
    resolve_engine(engine, supports_rust=callback_unsupported_with_rust())
    from vectorbt.generic.nb import flat_reduce_grouped_nb
    return flat_reduce_grouped_nb(a, group_lens, in_c_order, reduce_func, *args)


def reduce_grouped_to_array__ref(a, group_lens, reduce_func, *args, engine=None):
    resolve_engine(engine, supports_rust=callback_unsupported_with_rust())
    from vectorbt.generic.nb import reduce_grouped_to_array_nb
    return reduce_grouped_to_array_nb(a, group_lens, reduce_func, *args)


def flat_reduce_grouped_to_array__ref(a, group_lens, in_c_order, reduce_func, *args, engine=None):
    if checks.is_engine_dispatch_func(reduce_func, func_suffix='_reduce'):
        from_col = 0
        out = None
        for group, group_len in enumerate(group_lens):
            to_col = from_col + group_len
            group_arr = a[:, from_col:to_col]
            flat_arr = group_arr.ravel(order='C' if in_c_order else 'F')
            _out = np.asarray(reduce_func(group, flat_arr, *args, engine=engine))
            if out is None:
                out = np.full((_out.shape[0], len(group_lens)), np.nan, dtype=_out.dtype)
            out[:, group] = _out
            from_col = to_col
        return out
    resolve_engine(engine, supports_rust=callback_unsupported_with_rust())
    from vectorbt.generic.nb import flat_reduce_grouped_to_array_nb
    return flat_reduce_grouped_to_array_nb(a, group_lens, in_c_order, reduce_func, *args)


def squeeze_grouped__ref(a, group_lens, squeeze_func, *args, engine=None):
    if checks.is_engine_dispatch_func(squeeze_func, func_suffix='_squeeze'):
        from_col = 0
        out = None
        for group, group_len in enumerate(group_lens):
            to_col = from_col + group_len
            for i in range(a.shape[0]):
                _out = squeeze_func(i, group, a[i, from_col:to_col], *args, engine=engine)
                if out is None:
                    out = np.empty((a.shape[0], len(group_lens)), dtype=np.asarray(_out).dtype)
                out[i, group] = _out
            from_col = to_col
        return out
    resolve_engine(engine, supports_rust=callback_unsupported_with_rust())
    from vectorbt.generic.nb import squeeze_grouped_nb
    return squeeze_grouped_nb(a, group_lens, squeeze_func, *args)


def flatten_grouped__ref(a, group_lens, in_c_order, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(a), non_neg_array_compatible_with_rust('group_lens', group_lens)))
    if eng == 'rust':
        from vectorbt_rust.generic import flatten_grouped_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        group_lens = prepare_array_for_rust(group_lens, dtype=np.int64)
        return flatten_grouped_rs(a, group_lens, in_c_order)
    from vectorbt.generic.nb import flatten_grouped_nb
    return flatten_grouped_nb(a, group_lens, in_c_order)


def flatten_uniform_grouped__ref(a, group_lens, in_c_order, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(a), non_neg_array_compatible_with_rust('group_lens', group_lens)))
    if eng == 'rust':
        from vectorbt_rust.generic import flatten_uniform_grouped_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        group_lens = prepare_array_for_rust(group_lens, dtype=np.int64)
        return flatten_uniform_grouped_rs(a, group_lens, in_c_order)
    from vectorbt.generic.nb import flatten_uniform_grouped_nb
    return flatten_uniform_grouped_nb(a, group_lens, in_c_order)


def nth_reduce__ref(col, a, n, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a))
    if eng == 'rust':
        from vectorbt_rust.generic import nth_reduce_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return nth_reduce_rs(a, n)
    from vectorbt.generic.nb import nth_reduce_nb
    return nth_reduce_nb(col, a, n)


def nth_index_reduce__ref(col, a, n, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a))
    if eng == 'rust':
        from vectorbt_rust.generic import nth_index_reduce_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return nth_index_reduce_rs(a, n)
    from vectorbt.generic.nb import nth_index_reduce_nb
    return nth_index_reduce_nb(col, a, n)


def min_reduce__ref(col, a, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a))
    if eng == 'rust':
        from vectorbt_rust.generic import min_reduce_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return min_reduce_rs(a)
    from vectorbt.generic.nb import min_reduce_nb
    return min_reduce_nb(col, a)


def max_reduce__ref(col, a, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a))
    if eng == 'rust':
        from vectorbt_rust.generic import max_reduce_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return max_reduce_rs(a)
    from vectorbt.generic.nb import max_reduce_nb
    return max_reduce_nb(col, a)


def mean_reduce__ref(col, a, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a))
    if eng == 'rust':
        from vectorbt_rust.generic import mean_reduce_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return mean_reduce_rs(a)
    from vectorbt.generic.nb import mean_reduce_nb
    return mean_reduce_nb(col, a)


def median_reduce__ref(col, a, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a))
    if eng == 'rust':
        from vectorbt_rust.generic import median_reduce_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return median_reduce_rs(a)
    from vectorbt.generic.nb import median_reduce_nb
    return median_reduce_nb(col, a)


def std_reduce__ref(col, a, ddof, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(a), non_neg_int_compatible_with_rust('ddof', ddof)))
    if eng == 'rust':
        from vectorbt_rust.generic import std_reduce_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return std_reduce_rs(a, ddof)
    from vectorbt.generic.nb import std_reduce_nb
    return std_reduce_nb(col, a, ddof)


def sum_reduce__ref(col, a, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a))
    if eng == 'rust':
        from vectorbt_rust.generic import sum_reduce_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return sum_reduce_rs(a)
    from vectorbt.generic.nb import sum_reduce_nb
    return sum_reduce_nb(col, a)


def count_reduce__ref(col, a, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a))
    if eng == 'rust':
        from vectorbt_rust.generic import count_reduce_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return count_reduce_rs(a)
    from vectorbt.generic.nb import count_reduce_nb
    return count_reduce_nb(col, a)


def argmin_reduce__ref(col, a, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a))
    if eng == 'rust':
        from vectorbt_rust.generic import argmin_reduce_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return argmin_reduce_rs(a)
    from vectorbt.generic.nb import argmin_reduce_nb
    return argmin_reduce_nb(col, a)


def argmax_reduce__ref(col, a, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a))
    if eng == 'rust':
        from vectorbt_rust.generic import argmax_reduce_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return argmax_reduce_rs(a)
    from vectorbt.generic.nb import argmax_reduce_nb
    return argmax_reduce_nb(col, a)


def describe_reduce__ref(col, a, perc, ddof, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(a), array_compatible_with_rust(perc), non_neg_int_compatible_with_rust('ddof', ddof)))
    if eng == 'rust':
        from vectorbt_rust.generic import describe_reduce_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        perc = prepare_array_for_rust(perc, dtype=np.float64)
        return describe_reduce_rs(a, perc, ddof)
    from vectorbt.generic.nb import describe_reduce_nb
    return describe_reduce_nb(col, a, perc, ddof)


def value_counts__ref(codes, n_uniques, group_lens, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(non_neg_array_compatible_with_rust('codes', codes), non_neg_int_compatible_with_rust('n_uniques', n_uniques), non_neg_array_compatible_with_rust('group_lens', group_lens)))
    if eng == 'rust':
        from vectorbt_rust.generic import value_counts_rs
        codes = prepare_array_for_rust(codes, dtype=np.int64)
        group_lens = prepare_array_for_rust(group_lens, dtype=np.int64)
        return value_counts_rs(codes, n_uniques, group_lens)
    from vectorbt.generic.nb import value_counts_nb
    return value_counts_nb(codes, n_uniques, group_lens)


def min_squeeze__ref(col, group, a, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a))
    if eng == 'rust':
        from vectorbt_rust.generic import min_squeeze_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return min_squeeze_rs(a)
    from vectorbt.generic.nb import min_squeeze_nb
    return min_squeeze_nb(col, group, a)


def max_squeeze__ref(col, group, a, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a))
    if eng == 'rust':
        from vectorbt_rust.generic import max_squeeze_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return max_squeeze_rs(a)
    from vectorbt.generic.nb import max_squeeze_nb
    return max_squeeze_nb(col, group, a)


def sum_squeeze__ref(col, group, a, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a))
    if eng == 'rust':
        from vectorbt_rust.generic import sum_squeeze_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return sum_squeeze_rs(a)
    from vectorbt.generic.nb import sum_squeeze_nb
    return sum_squeeze_nb(col, group, a)


def any_squeeze__ref(col, group, a, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(a))
    if eng == 'rust':
        from vectorbt_rust.generic import any_squeeze_rs
        a = prepare_array_for_rust(a, dtype=np.float64)
        return any_squeeze_rs(a)
    from vectorbt.generic.nb import any_squeeze_nb
    return any_squeeze_nb(col, group, a)


def find_ranges__ref(ts, gap_value, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(ts), scalar_compatible_with_rust('gap_value', gap_value)))
    if eng == 'rust':
        from vectorbt_rust.generic import find_ranges_rs
        ts = prepare_array_for_rust(ts, dtype=np.float64)
        return find_ranges_rs(ts, gap_value)
    from vectorbt.generic.nb import find_ranges_nb
    return find_ranges_nb(ts, gap_value)


def range_duration__ref(start_idx_arr, end_idx_arr, status_arr, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(start_idx_arr, np.int64), array_compatible_with_rust(end_idx_arr, np.int64), array_compatible_with_rust(status_arr, np.int64)))
    if eng == 'rust':
        from vectorbt_rust.generic import range_duration_rs
        start_idx_arr = prepare_array_for_rust(start_idx_arr, dtype=np.int64)
        end_idx_arr = prepare_array_for_rust(end_idx_arr, dtype=np.int64)
        status_arr = prepare_array_for_rust(status_arr, dtype=np.int64)
        return range_duration_rs(start_idx_arr, end_idx_arr, status_arr)
    from vectorbt.generic.nb import range_duration_nb
    return range_duration_nb(start_idx_arr, end_idx_arr, status_arr)


def range_coverage__ref(start_idx_arr, end_idx_arr, status_arr, col_map, index_lens, overlapping=False, normalize=False, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(start_idx_arr, np.int64), array_compatible_with_rust(end_idx_arr, np.int64), array_compatible_with_rust(status_arr, np.int64), col_map_compatible_with_rust(col_map), non_neg_array_compatible_with_rust('index_lens', index_lens)))
    if eng == 'rust':
        from vectorbt_rust.generic import range_coverage_rs
        start_idx_arr = prepare_array_for_rust(start_idx_arr, dtype=np.int64)
        end_idx_arr = prepare_array_for_rust(end_idx_arr, dtype=np.int64)
        status_arr = prepare_array_for_rust(status_arr, dtype=np.int64)
        col_idxs = prepare_array_for_rust(col_map[0], dtype=np.int64)
        col_lens = prepare_array_for_rust(col_map[1], dtype=np.int64)
        index_lens = prepare_array_for_rust(index_lens, dtype=np.int64)
        return range_coverage_rs(start_idx_arr, end_idx_arr, status_arr, (col_idxs, col_lens), index_lens, overlapping, normalize)
    from vectorbt.generic.nb import range_coverage_nb
    return range_coverage_nb(start_idx_arr, end_idx_arr, status_arr, col_map, index_lens, overlapping, normalize)


def ranges_to_mask__ref(start_idx_arr, end_idx_arr, status_arr, col_map, index_len, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(start_idx_arr, np.int64), array_compatible_with_rust(end_idx_arr, np.int64), array_compatible_with_rust(status_arr, np.int64), col_map_compatible_with_rust(col_map), non_neg_int_compatible_with_rust('index_len', index_len)))
    if eng == 'rust':
        from vectorbt_rust.generic import ranges_to_mask_rs
        start_idx_arr = prepare_array_for_rust(start_idx_arr, dtype=np.int64)
        end_idx_arr = prepare_array_for_rust(end_idx_arr, dtype=np.int64)
        status_arr = prepare_array_for_rust(status_arr, dtype=np.int64)
        col_idxs = prepare_array_for_rust(col_map[0], dtype=np.int64)
        col_lens = prepare_array_for_rust(col_map[1], dtype=np.int64)
        return ranges_to_mask_rs(start_idx_arr, end_idx_arr, status_arr, (col_idxs, col_lens), index_len)
    from vectorbt.generic.nb import ranges_to_mask_nb
    return ranges_to_mask_nb(start_idx_arr, end_idx_arr, status_arr, col_map, index_len)


def get_drawdowns__ref(ts, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(ts))
    if eng == 'rust':
        from vectorbt_rust.generic import get_drawdowns_rs
        ts = prepare_array_for_rust(ts, dtype=np.float64)
        return get_drawdowns_rs(ts)
    from vectorbt.generic.nb import get_drawdowns_nb
    return get_drawdowns_nb(ts)


def dd_drawdown__ref(peak_val_arr, valley_val_arr, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(peak_val_arr), array_compatible_with_rust(valley_val_arr)))
    if eng == 'rust':
        from vectorbt_rust.generic import dd_drawdown_rs
        peak_val_arr = prepare_array_for_rust(peak_val_arr, dtype=np.float64)
        valley_val_arr = prepare_array_for_rust(valley_val_arr, dtype=np.float64)
        return dd_drawdown_rs(peak_val_arr, valley_val_arr)
    from vectorbt.generic.nb import dd_drawdown_nb
    return dd_drawdown_nb(peak_val_arr, valley_val_arr)


def dd_decline_duration__ref(start_idx_arr, valley_idx_arr, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(start_idx_arr, np.int64), array_compatible_with_rust(valley_idx_arr, np.int64)))
    if eng == 'rust':
        from vectorbt_rust.generic import dd_decline_duration_rs
        start_idx_arr = prepare_array_for_rust(start_idx_arr, dtype=np.int64)
        valley_idx_arr = prepare_array_for_rust(valley_idx_arr, dtype=np.int64)
        return dd_decline_duration_rs(start_idx_arr, valley_idx_arr)
    from vectorbt.generic.nb import dd_decline_duration_nb
    return dd_decline_duration_nb(start_idx_arr, valley_idx_arr)


def dd_recovery_duration__ref(valley_idx_arr, end_idx_arr, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(valley_idx_arr, np.int64), array_compatible_with_rust(end_idx_arr, np.int64)))
    if eng == 'rust':
        from vectorbt_rust.generic import dd_recovery_duration_rs
        valley_idx_arr = prepare_array_for_rust(valley_idx_arr, dtype=np.int64)
        end_idx_arr = prepare_array_for_rust(end_idx_arr, dtype=np.int64)
        return dd_recovery_duration_rs(valley_idx_arr, end_idx_arr)
    from vectorbt.generic.nb import dd_recovery_duration_nb
    return dd_recovery_duration_nb(valley_idx_arr, end_idx_arr)


def dd_recovery_duration_ratio__ref(start_idx_arr, valley_idx_arr, end_idx_arr, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(start_idx_arr, np.int64), array_compatible_with_rust(valley_idx_arr, np.int64), array_compatible_with_rust(end_idx_arr, np.int64)))
    if eng == 'rust':
        from vectorbt_rust.generic import dd_recovery_duration_ratio_rs
        start_idx_arr = prepare_array_for_rust(start_idx_arr, dtype=np.int64)
        valley_idx_arr = prepare_array_for_rust(valley_idx_arr, dtype=np.int64)
        end_idx_arr = prepare_array_for_rust(end_idx_arr, dtype=np.int64)
        return dd_recovery_duration_ratio_rs(start_idx_arr, valley_idx_arr, end_idx_arr)
    from vectorbt.generic.nb import dd_recovery_duration_ratio_nb
    return dd_recovery_duration_ratio_nb(start_idx_arr, valley_idx_arr, end_idx_arr)


def dd_recovery_return__ref(valley_val_arr, end_val_arr, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(valley_val_arr), array_compatible_with_rust(end_val_arr)))
    if eng == 'rust':
        from vectorbt_rust.generic import dd_recovery_return_rs
        valley_val_arr = prepare_array_for_rust(valley_val_arr, dtype=np.float64)
        end_val_arr = prepare_array_for_rust(end_val_arr, dtype=np.float64)
        return dd_recovery_return_rs(valley_val_arr, end_val_arr)
    from vectorbt.generic.nb import dd_recovery_return_nb
    return dd_recovery_return_nb(valley_val_arr, end_val_arr)


def crossed_above_1d__ref(arr1, arr2, wait=0, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(arr1), array_compatible_with_rust(arr2), matching_shape_compatible_with_rust('arr2', arr1, arr2), non_neg_int_compatible_with_rust('wait', wait)))
    if eng == 'rust':
        from vectorbt_rust.generic import crossed_above_1d_rs
        arr1 = prepare_array_for_rust(arr1, dtype=np.float64)
        arr2 = prepare_array_for_rust(arr2, dtype=np.float64)
        return crossed_above_1d_rs(arr1, arr2, wait)
    from vectorbt.generic.nb import crossed_above_1d_nb
    return crossed_above_1d_nb(arr1, arr2, wait)


def crossed_above__ref(arr1, arr2, wait=0, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(arr1), array_compatible_with_rust(arr2), matching_shape_compatible_with_rust('arr2', arr1, arr2), non_neg_int_compatible_with_rust('wait', wait)))
    if eng == 'rust':
        from vectorbt_rust.generic import crossed_above_rs
        arr1 = prepare_array_for_rust(arr1, dtype=np.float64)
        arr2 = prepare_array_for_rust(arr2, dtype=np.float64)
        return crossed_above_rs(arr1, arr2, wait)
    from vectorbt.generic.nb import crossed_above_nb
    return crossed_above_nb(arr1, arr2, wait)
