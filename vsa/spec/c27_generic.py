import numpy as np
from numba import njit
from numba.core.types import Type, Omitted
from numba.extending import overload
from numba.np.numpy_support import as_dtype
from numba.typed import Dict
from vectorbt import _typing as tp
from vectorbt.generic.enums import RangeStatus, DrawdownStatus, range_dt, drawdown_dt
_INV_COND_TOL = np.finfo(np.float64).eps * 1000.0

def shuffle_1d_nb(a, seed=None):
    if seed is not None:
        np.random.seed(seed)
    return np.random.permutation(a)

def shuffle_nb(a, seed=None):
    if seed is not None:
        np.random.seed(seed)
    out = np.empty_like(a, dtype=a.dtype)
    for col in range(a.shape[1]):
        out[:, col] = np.random.permutation(a[:, col])
    return out

def _set_by_mask_1d_nb(arr, mask, value):
    a_dtype = arr.dtype
    value_dtype = np.array(value).dtype
    dtype = np.promote_types(a_dtype, value_dtype)
    out = arr.astype(dtype)
    out[mask] = value
    return out

def set_by_mask_1d_nb(arr, mask, value):
    return _set_by_mask_1d_nb(arr, mask, value)

def _set_by_mask_nb(arr, mask, value):
    a_dtype = arr.dtype
    value_dtype = np.array(value).dtype
    dtype = np.promote_types(a_dtype, value_dtype)
    out = arr.astype(dtype)
    for col in range(arr.shape[1]):
        out[mask[:, col], col] = value
    return out

def set_by_mask_nb(arr, mask, value):
    return _set_by_mask_nb(arr, mask, value)

def _set_by_mask_mult_1d_nb(arr, mask, values):
    a_dtype = arr.dtype
    value_dtype = values.dtype
    dtype = np.promote_types(a_dtype, value_dtype)
    out = arr.astype(dtype)
    out[mask] = values[mask]
    return out

def set_by_mask_mult_1d_nb(arr, mask, values):
    return _set_by_mask_mult_1d_nb(arr, mask, values)

def _set_by_mask_mult_nb(arr, mask, values):
    a_dtype = arr.dtype
    value_dtype = values.dtype
    dtype = np.promote_types(a_dtype, value_dtype)
    out = arr.astype(dtype)
    for col in range(arr.shape[1]):
        out[mask[:, col], col] = values[mask[:, col], col]
    return out

def set_by_mask_mult_nb(arr, mask, values):
    return _set_by_mask_mult_nb(arr, mask, values)

def fillna_1d_nb(a, value):
    return set_by_mask_1d_nb(a, np.isnan(a), value)

def fillna_nb(a, value):
    return set_by_mask_nb(a, np.isnan(a), value)

def _bshift_1d_nb(arr, n, fill_value):
    a_dtype = arr.dtype
    fill_value_dtype = np.array(fill_value).dtype
    dtype = np.promote_types(a_dtype, fill_value_dtype)
    out = np.empty(arr.shape[0], dtype=dtype)
    for i in range(out.shape[0]):
        if i + n <= out.shape[0] - 1:
            out[i] = arr[i + n]
        else:
            out[i] = fill_value
    return out

def bshift_1d_nb(arr, n=1, fill_value=np.nan):
    return _bshift_1d_nb(arr, n, fill_value)

def _bshift_nb(arr, n, fill_value):
    a_dtype = arr.dtype
    fill_value_dtype = np.array(fill_value).dtype
    dtype = np.promote_types(a_dtype, fill_value_dtype)
    out = np.empty_like(arr, dtype=dtype)
    for col in range(arr.shape[1]):
        out[:, col] = bshift_1d_nb(arr[:, col], n=n, fill_value=fill_value)
    return out

def bshift_nb(arr, n=1, fill_value=np.nan):
    return _bshift_nb(arr, n, fill_value)

def _fshift_1d_nb(arr, n, fill_value):
    a_dtype = arr.dtype
    fill_value_dtype = np.array(fill_value).dtype
    dtype = np.promote_types(a_dtype, fill_value_dtype)
    out = np.empty(arr.shape[0], dtype=dtype)
    for i in range(out.shape[0]):
        if i - n >= 0:
            out[i] = arr[i - n]
        else:
            out[i] = fill_value
    return out

def fshift_1d_nb(arr, n=1, fill_value=np.nan):
    return _fshift_1d_nb(arr, n, fill_value)

def _fshift_nb(arr, n, fill_value):
    a_dtype = arr.dtype
    fill_value_dtype = np.array(fill_value).dtype
    dtype = np.promote_types(a_dtype, fill_value_dtype)
    out = np.empty_like(arr, dtype=dtype)
    for col in range(arr.shape[1]):
        out[:, col] = fshift_1d_nb(arr[:, col], n=n, fill_value=fill_value)
    return out

def fshift_nb(arr, n=1, fill_value=np.nan):
    return _fshift_nb(arr, n, fill_value)

def diff_1d_nb(a, n=1):
    out = np.empty_like(a, dtype=np.float64)
    out[:n] = np.nan
    out[n:] = a[n:] - a[:-n]
    return out

def diff_nb(a, n=1):
    out = np.empty_like(a, dtype=np.float64)
    for col in range(a.shape[1]):
        out[:, col] = diff_1d_nb(a[:, col], n=n)
    return out

def pct_change_1d_nb(a, n=1):
    out = np.empty_like(a, dtype=np.float64)
    out[:n] = np.nan
    out[n:] = a[n:] / a[:-n] - 1
    return out

def pct_change_nb(a, n=1):
    out = np.empty_like(a, dtype=np.float64)
    for col in range(a.shape[1]):
        out[:, col] = pct_change_1d_nb(a[:, col], n=n)
    return out

def bfill_1d_nb(a):
    out = np.empty_like(a, dtype=a.dtype)
    lastval = a[-1]
    for i in range(a.shape[0] - 1, -1, -1):
        if np.isnan(a[i]):
            out[i] = lastval
        else:
            lastval = out[i] = a[i]
    return out

def bfill_nb(a):
    out = np.empty_like(a, dtype=a.dtype)
    for col in range(a.shape[1]):
        out[:, col] = bfill_1d_nb(a[:, col])
    return out

def ffill_1d_nb(a):
    out = np.empty_like(a, dtype=a.dtype)
    lastval = a[0]
    for i in range(a.shape[0]):
        if np.isnan(a[i]):
            out[i] = lastval
        else:
            lastval = out[i] = a[i]
    return out

def ffill_nb(a):
    out = np.empty_like(a, dtype=a.dtype)
    for col in range(a.shape[1]):
        out[:, col] = ffill_1d_nb(a[:, col])
    return out

def _nanprod_nb(arr):
    a_dtype = arr.dtype
    dtype = np.promote_types(a_dtype, int)
    out = np.empty(arr.shape[1], dtype=dtype)
    for col in range(arr.shape[1]):
        out[col] = np.nanprod(arr[:, col])
    return out

def nanprod_nb(arr):
    return _nanprod_nb(arr)

def _nancumsum_nb(arr):
    a_dtype = arr.dtype
    dtype = np.promote_types(a_dtype, int)
    out = np.empty(arr.shape, dtype=dtype)
    for col in range(arr.shape[1]):
        out[:, col] = np.nancumsum(arr[:, col])
    return out

def nancumsum_nb(arr):
    return _nancumsum_nb(arr)

def _nancumprod_nb(arr):
    a_dtype = arr.dtype
    dtype = np.promote_types(a_dtype, int)
    out = np.empty(arr.shape, dtype=dtype)
    for col in range(arr.shape[1]):
        out[:, col] = np.nancumprod(arr[:, col])
    return out

def nancumprod_nb(arr):
    return _nancumprod_nb(arr)

def _nansum_nb(arr):
    a_dtype = arr.dtype
    dtype = np.promote_types(a_dtype, int)
    out = np.empty(arr.shape[1], dtype=dtype)
    for col in range(arr.shape[1]):
        out[col] = np.nansum(arr[:, col])
    return out

def nansum_nb(arr):
    return _nansum_nb(arr)

def nancnt_nb(a):
    out = np.empty(a.shape[1], dtype=np.int64)
    for col in range(a.shape[1]):
        out[col] = np.sum(~np.isnan(a[:, col]))
    return out

def nanmin_nb(a):
    out = np.empty(a.shape[1], dtype=a.dtype)
    for col in range(a.shape[1]):
        out[col] = np.nanmin(a[:, col])
    return out

def nanmax_nb(a):
    out = np.empty(a.shape[1], dtype=a.dtype)
    for col in range(a.shape[1]):
        out[col] = np.nanmax(a[:, col])
    return out

def nanmean_nb(a):
    out = np.empty(a.shape[1], dtype=np.float64)
    for col in range(a.shape[1]):
        out[col] = np.nanmean(a[:, col])
    return out

def nanmedian_nb(a):
    out = np.empty(a.shape[1], dtype=np.float64)
    for col in range(a.shape[1]):
        out[col] = np.nanmedian(a[:, col])
    return out

def nanstd_1d_nb(a, ddof=0):
    cnt = a.shape[0] - np.count_nonzero(np.isnan(a))
    rcount = max(cnt - ddof, 0)
    if rcount == 0:
        return np.nan
    return np.sqrt(np.nanvar(a) * cnt / rcount)

def nanstd_nb(a, ddof=0):
    out = np.empty(a.shape[1], dtype=np.float64)
    for col in range(a.shape[1]):
        out[col] = nanstd_1d_nb(a[:, col], ddof=ddof)
    return out

def rolling_min_1d_nb(a, window, minp=None):
    if minp is None:
        minp = window
    if minp > window:
        raise ValueError('minp must be <= window')
    out = np.empty_like(a, dtype=np.float64)
    for i in range(a.shape[0]):
        minv = a[i]
        cnt = 0
        for j in range(max(i - window + 1, 0), i + 1):
            if np.isnan(a[j]):
                continue
            if np.isnan(minv) or a[j] < minv:
                minv = a[j]
            cnt += 1
        if cnt < minp:
            out[i] = np.nan
        else:
            out[i] = minv
    return out

def rolling_min_nb(a, window, minp=None):
    out = np.empty_like(a, dtype=np.float64)
    for col in range(a.shape[1]):
        out[:, col] = rolling_min_1d_nb(a[:, col], window, minp=minp)
    return out

def rolling_max_1d_nb(a, window, minp=None):
    if minp is None:
        minp = window
    if minp > window:
        raise ValueError('minp must be <= window')
    out = np.empty_like(a, dtype=np.float64)
    for i in range(a.shape[0]):
        maxv = a[i]
        cnt = 0
        for j in range(max(i - window + 1, 0), i + 1):
            if np.isnan(a[j]):
                continue
            if np.isnan(maxv) or a[j] > maxv:
                maxv = a[j]
            cnt += 1
        if cnt < minp:
            out[i] = np.nan
        else:
            out[i] = maxv
    return out

def rolling_max_nb(a, window, minp=None):
    out = np.empty_like(a, dtype=np.float64)
    for col in range(a.shape[1]):
        out[:, col] = rolling_max_1d_nb(a[:, col], window, minp=minp)
    return out

def rolling_mean_1d_nb(a, window, minp=None):
    if minp is None:
        minp = window
    if minp > window:
        raise ValueError('minp must be <= window')
    out = np.empty_like(a, dtype=np.float64)
    cumsum_arr = np.zeros_like(a)
    cumsum = 0
    nancnt_arr = np.zeros_like(a)
    nancnt = 0
    for i in range(a.shape[0]):
        if np.isnan(a[i]):
            nancnt = nancnt + 1
        else:
            cumsum = cumsum + a[i]
        nancnt_arr[i] = nancnt
        cumsum_arr[i] = cumsum
        if i < window:
            window_len = i + 1 - nancnt
            window_cumsum = cumsum
        else:
            window_len = window - (nancnt - nancnt_arr[i - window])
            window_cumsum = cumsum - cumsum_arr[i - window]
        if window_len < minp or window_len == 0:
            out[i] = np.nan
        else:
            out[i] = window_cumsum / window_len
    return out

def rolling_mean_nb(a, window, minp=None):
    out = np.empty_like(a, dtype=np.float64)
    for col in range(a.shape[1]):
        out[:, col] = rolling_mean_1d_nb(a[:, col], window, minp=minp)
    return out

def _add_var_nb(val, nobs, mean, m2, compensation, numerically_unstable):
    if np.isnan(val):
        return (nobs, mean, m2, compensation, numerically_unstable)
    prev_m2 = m2
    nobs += 1
    prev_mean = mean - compensation
    y = val - compensation
    delta = y - mean
    compensation = delta + mean - y
    mean += delta / nobs
    m2 += (val - prev_mean) * (val - mean)
    if prev_m2 * _INV_COND_TOL > m2:
        numerically_unstable = True
    return (nobs, mean, m2, compensation, numerically_unstable)

def _remove_var_nb(val, nobs, mean, m2, compensation, numerically_unstable):
    if np.isnan(val):
        return (nobs, mean, m2, compensation, numerically_unstable)
    prev_m2 = m2
    nobs -= 1
    if nobs:
        prev_mean = mean - compensation
        y = val - compensation
        delta = y - mean
        compensation = delta + mean - y
        mean -= delta / nobs
        m2 -= (val - prev_mean) * (val - mean)
        if prev_m2 * _INV_COND_TOL > m2:
            numerically_unstable = True
    else:
        mean = 0.0
        m2 = 0.0
        numerically_unstable = False
    return (nobs, mean, m2, compensation, numerically_unstable)

def rolling_std_1d_nb(a, window, minp=None, ddof=0):
    if minp is None:
        minp = window
    if minp > window:
        raise ValueError('minp must be <= window')
    minp = max(minp, 1)
    out = np.empty_like(a, dtype=np.float64)
    mean = 0.0
    m2 = 0.0
    nobs = 0.0
    compensation_add = 0.0
    compensation_remove = 0.0
    numerically_unstable = False
    for i in range(a.shape[0]):
        requires_recompute = i == 0 or window == 0
        if not requires_recompute:
            if i >= window:
                nobs, mean, m2, compensation_remove, numerically_unstable = _remove_var_nb(a[i - window], nobs, mean, m2, compensation_remove, numerically_unstable)
            nobs, mean, m2, compensation_add, numerically_unstable = _add_var_nb(a[i], nobs, mean, m2, compensation_add, numerically_unstable)
        if requires_recompute or numerically_unstable:
            mean = 0.0
            m2 = 0.0
            nobs = 0.0
            compensation_add = 0.0
            compensation_remove = 0.0
            start = max(0, i - window + 1)
            for j in range(start, i + 1):
                nobs, mean, m2, compensation_add, numerically_unstable = _add_var_nb(a[j], nobs, mean, m2, compensation_add, numerically_unstable)
            numerically_unstable = False
        if nobs >= minp and nobs > ddof:
            out[i] = np.sqrt(m2 / (nobs - ddof))
        else:
            out[i] = np.nan
    return out

def rolling_std_nb(a, window, minp=None, ddof=0):
    out = np.empty_like(a, dtype=np.float64)
    for col in range(a.shape[1]):
        out[:, col] = rolling_std_1d_nb(a[:, col], window, minp=minp, ddof=ddof)
    return out

def ewm_mean_1d_nb(a, span, minp=0, adjust=False):
    if minp is None:
        minp = span
    if minp > span:
        raise ValueError('minp must be <= span')
    N = len(a)
    out = np.empty(N, dtype=np.float64)
    if N == 0:
        return out
    com = (span - 1) / 2.0
    alpha = 1.0 / (1.0 + com)
    old_wt_factor = 1.0 - alpha
    new_wt = 1.0 if adjust else alpha
    weighted_avg = a[0]
    is_observation = weighted_avg == weighted_avg
    nobs = int(is_observation)
    out[0] = weighted_avg if nobs >= minp else np.nan
    old_wt = 1.0
    for i in range(1, N):
        cur = a[i]
        is_observation = cur == cur
        nobs += is_observation
        if weighted_avg == weighted_avg:
            old_wt *= old_wt_factor
            if is_observation:
                if weighted_avg != cur:
                    weighted_avg = (old_wt * weighted_avg + new_wt * cur) / (old_wt + new_wt)
                if adjust:
                    old_wt += new_wt
                else:
                    old_wt = 1.0
        elif is_observation:
            weighted_avg = cur
        out[i] = weighted_avg if nobs >= minp else np.nan
    return out

def ewm_mean_nb(a, span, minp=0, adjust=False):
    out = np.empty_like(a, dtype=np.float64)
    for col in range(a.shape[1]):
        out[:, col] = ewm_mean_1d_nb(a[:, col], span, minp=minp, adjust=adjust)
    return out

def ewm_std_1d_nb(a, span, minp=0, adjust=False, ddof=0):
    if minp is None:
        minp = span
    if minp > span:
        raise ValueError('minp must be <= span')
    N = len(a)
    out = np.empty(N, dtype=np.float64)
    if N == 0:
        return out
    com = (span - 1) / 2.0
    alpha = 1.0 / (1.0 + com)
    old_wt_factor = 1.0 - alpha
    new_wt = 1.0 if adjust else alpha
    mean_x = a[0]
    mean_y = a[0]
    is_observation = mean_x == mean_x and mean_y == mean_y
    nobs = int(is_observation)
    if not is_observation:
        mean_x = np.nan
        mean_y = np.nan
    out[0] = np.nan
    cov = 0.0
    sum_wt = 1.0
    sum_wt2 = 1.0
    old_wt = 1.0
    for i in range(1, N):
        cur_x = a[i]
        cur_y = a[i]
        is_observation = cur_x == cur_x and cur_y == cur_y
        nobs += is_observation
        if mean_x == mean_x:
            sum_wt *= old_wt_factor
            sum_wt2 *= old_wt_factor * old_wt_factor
            old_wt *= old_wt_factor
            if is_observation:
                old_mean_x = mean_x
                old_mean_y = mean_y
                if mean_x != cur_x:
                    mean_x = (old_wt * old_mean_x + new_wt * cur_x) / (old_wt + new_wt)
                if mean_y != cur_y:
                    mean_y = (old_wt * old_mean_y + new_wt * cur_y) / (old_wt + new_wt)
                cov = (old_wt * (cov + (old_mean_x - mean_x) * (old_mean_y - mean_y)) + new_wt * ((cur_x - mean_x) * (cur_y - mean_y))) / (old_wt + new_wt)
                sum_wt += new_wt
                sum_wt2 += new_wt * new_wt
                old_wt += new_wt
                if not adjust:
                    sum_wt /= old_wt
                    sum_wt2 /= old_wt * old_wt
                    old_wt = 1.0
        elif is_observation:
            mean_x = cur_x
            mean_y = cur_y
        if nobs >= minp:
            numerator = sum_wt * sum_wt
            denominator = numerator - sum_wt2
            if denominator > 0.0:
                out[i] = numerator / denominator * cov
            else:
                out[i] = np.nan
        else:
            out[i] = np.nan
    return np.sqrt(out)

def ewm_std_nb(a, span, minp=0, adjust=False, ddof=0):
    out = np.empty_like(a, dtype=np.float64)
    for col in range(a.shape[1]):
        out[:, col] = ewm_std_1d_nb(a[:, col], span, minp=minp, adjust=adjust, ddof=ddof)
    return out

def expanding_min_1d_nb(a, minp=1):
    out = np.empty_like(a, dtype=np.float64)
    minv = a[0]
    cnt = 0
    for i in range(a.shape[0]):
        if np.isnan(minv) or a[i] < minv:
            minv = a[i]
        if not np.isnan(a[i]):
            cnt += 1
        if cnt < minp:
            out[i] = np.nan
        else:
            out[i] = minv
    return out

def expanding_min_nb(a, minp=1):
    out = np.empty_like(a, dtype=np.float64)
    for col in range(a.shape[1]):
        out[:, col] = expanding_min_1d_nb(a[:, col], minp=minp)
    return out

def expanding_max_1d_nb(a, minp=1):
    out = np.empty_like(a, dtype=np.float64)
    maxv = a[0]
    cnt = 0
    for i in range(a.shape[0]):
        if np.isnan(maxv) or a[i] > maxv:
            maxv = a[i]
        if not np.isnan(a[i]):
            cnt += 1
        if cnt < minp:
            out[i] = np.nan
        else:
            out[i] = maxv
    return out

def expanding_max_nb(a, minp=1):
    out = np.empty_like(a, dtype=np.float64)
    for col in range(a.shape[1]):
        out[:, col] = expanding_max_1d_nb(a[:, col], minp=minp)
    return out

def expanding_mean_1d_nb(a, minp=1):
    return rolling_mean_1d_nb(a, a.shape[0], minp=minp)

def expanding_mean_nb(a, minp=1):
    return rolling_mean_nb(a, a.shape[0], minp=minp)

def expanding_std_1d_nb(a, minp=1, ddof=0):
    return rolling_std_1d_nb(a, a.shape[0], minp=minp, ddof=ddof)

def expanding_std_nb(a, minp=1, ddof=0):
    return rolling_std_nb(a, a.shape[0], minp=minp, ddof=ddof)

def apply_nb(a, apply_func_nb, *args):
    for col in range(a.shape[1]):
        _out = apply_func_nb(col, a[:, col], *args)
        if col == 0:
            out = np.empty_like(a, dtype=np.asarray(_out).dtype)
        out[:, col] = _out
    return out

def row_apply_nb(a, apply_func_nb, *args):
    for i in range(a.shape[0]):
        _out = apply_func_nb(i, a[i, :], *args)
        if i == 0:
            out = np.empty_like(a, dtype=np.asarray(_out).dtype)
        out[i, :] = _out
    return out

def rolling_apply_nb(a, window, minp, apply_func_nb, *args):
    if minp is None:
        minp = window
    out = np.empty_like(a, dtype=np.float64)
    nancnt_arr = np.empty((a.shape[0],), dtype=np.int64)
    for col in range(a.shape[1]):
        nancnt = 0
        for i in range(a.shape[0]):
            if np.isnan(a[i, col]):
                nancnt = nancnt + 1
            nancnt_arr[i] = nancnt
            if i < window:
                valid_cnt = i + 1 - nancnt
            else:
                valid_cnt = window - (nancnt - nancnt_arr[i - window])
            if valid_cnt < minp:
                out[i, col] = np.nan
            else:
                window_a = a[max(0, i + 1 - window):i + 1, col]
                out[i, col] = apply_func_nb(i, col, window_a, *args)
    return out

def rolling_matrix_apply_nb(a, window, minp, apply_func_nb, *args):
    if minp is None:
        minp = window
    out = np.empty_like(a, dtype=np.float64)
    nancnt_arr = np.empty((a.shape[0],), dtype=np.int64)
    for i in range(a.shape[0]):
        nancnt = 0
        for col in range(a.shape[1]):
            if np.isnan(a[i, col]):
                nancnt = nancnt + 1
        nancnt_arr[i] = nancnt
        if i < window:
            valid_cnt = i + 1 - nancnt
        else:
            valid_cnt = window - (nancnt - nancnt_arr[i - window])
        if valid_cnt < minp:
            out[i, :] = np.nan
        else:
            window_a = a[max(0, i + 1 - window):i + 1, :]
            out[i, :] = apply_func_nb(i, window_a, *args)
    return out

def expanding_apply_nb(a, minp, apply_func_nb, *args):
    return rolling_apply_nb(a, a.shape[0], minp, apply_func_nb, *args)

def expanding_matrix_apply_nb(a, minp, apply_func_nb, *args):
    return rolling_matrix_apply_nb(a, a.shape[0], minp, apply_func_nb, *args)

def groupby_apply_nb(a, groups, apply_func_nb, *args):
    for col in range(a.shape[1]):
        for g, (i, idxs) in enumerate(groups.items()):
            _out = apply_func_nb(idxs, col, a[idxs, col], *args)
            if col == 0 and g == 0:
                out = np.empty((len(groups), a.shape[1]), dtype=np.asarray(_out).dtype)
            out[i, col] = _out
    return out

def groupby_matrix_apply_nb(a, groups, apply_func_nb, *args):
    for g, (i, idxs) in enumerate(groups.items()):
        _out = apply_func_nb(idxs, a[idxs, :], *args)
        if g == 0:
            out = np.empty((len(groups), a.shape[1]), dtype=np.asarray(_out).dtype)
        out[i, :] = _out
    return out

def applymap_nb(a, map_func_nb, *args):
    out = np.full_like(a, np.nan, dtype=np.float64)
    for col in range(out.shape[1]):
        idxs = np.flatnonzero(~np.isnan(a[:, col]))
        for i in idxs:
            out[i, col] = map_func_nb(i, col, a[i, col], *args)
    return out

def filter_nb(a, filter_func_nb, *args):
    out = a.astype(np.float64)
    for col in range(out.shape[1]):
        idxs = np.flatnonzero(~np.isnan(a[:, col]))
        for i in idxs:
            if not filter_func_nb(i, col, a[i, col], *args):
                out[i, col] = np.nan
    return out

def apply_and_reduce_nb(a, apply_func_nb, apply_args, reduce_func_nb, reduce_args):
    for col in range(a.shape[1]):
        mapped = apply_func_nb(col, a[:, col], *apply_args)
        _out = reduce_func_nb(col, mapped, *reduce_args)
        if col == 0:
            out = np.empty(a.shape[1], dtype=np.asarray(_out).dtype)
        out[col] = _out
    return out

def reduce_nb(a, reduce_func_nb, *args):
    for col in range(a.shape[1]):
        _out = reduce_func_nb(col, a[:, col], *args)
        if col == 0:
            out = np.empty(a.shape[1], dtype=np.asarray(_out).dtype)
        out[col] = _out
    return out

def reduce_to_array_nb(a, reduce_func_nb, *args):
    for col in range(a.shape[1]):
        _out = reduce_func_nb(col, a[:, col], *args)
        if col == 0:
            out = np.empty((_out.shape[0], a.shape[1]), dtype=_out.dtype)
        out[:, col] = _out
    return out

def reduce_grouped_nb(a, group_lens, reduce_func_nb, *args):
    from_col = 0
    for group in range(len(group_lens)):
        to_col = from_col + group_lens[group]
        _out = reduce_func_nb(group, a[:, from_col:to_col], *args)
        if group == 0:
            out = np.empty(len(group_lens), dtype=np.asarray(_out).dtype)
        out[group] = _out
        from_col = to_col
    return out

def flatten_forder_nb(a):
    out = np.empty(a.shape[0] * a.shape[1], dtype=a.dtype)
    for col in range(a.shape[1]):
        out[col * a.shape[0]:(col + 1) * a.shape[0]] = a[:, col]
    return out

def flat_reduce_grouped_nb(a, group_lens, in_c_order, reduce_func_nb, *args):
    from_col = 0
    for group in range(len(group_lens)):
        to_col = from_col + group_lens[group]
        if in_c_order:
            _out = reduce_func_nb(group, a[:, from_col:to_col].flatten(), *args)
        else:
            _out = reduce_func_nb(group, flatten_forder_nb(a[:, from_col:to_col]), *args)
        if group == 0:
            out = np.empty(len(group_lens), dtype=np.asarray(_out).dtype)
        out[group] = _out
        from_col = to_col
    return out

def reduce_grouped_to_array_nb(a, group_lens, reduce_func_nb, *args):
    from_col = 0
    for group in range(len(group_lens)):
        to_col = from_col + group_lens[group]
        _out = reduce_func_nb(group, a[:, from_col:to_col], *args)
        if group == 0:
            out = np.empty((_out.shape[0], len(group_lens)), dtype=_out.dtype)
        out[:, group] = _out
        from_col = to_col
    return out

def flat_reduce_grouped_to_array_nb(a, group_lens, in_c_order, reduce_func_nb, *args):
    from_col = 0
    for group in range(len(group_lens)):
        to_col = from_col + group_lens[group]
        if in_c_order:
            _out = reduce_func_nb(group, a[:, from_col:to_col].flatten(), *args)
        else:
            _out = reduce_func_nb(group, flatten_forder_nb(a[:, from_col:to_col]), *args)
        if group == 0:
            out = np.full((_out.shape[0], len(group_lens)), np.nan, dtype=_out.dtype)
        out[:, group] = _out
        from_col = to_col
    return out

def squeeze_grouped_nb(a, group_lens, squeeze_func_nb, *args):
    from_col = 0
    for group in range(len(group_lens)):
        to_col = from_col + group_lens[group]
        for i in range(a.shape[0]):
            _out = squeeze_func_nb(i, group, a[i, from_col:to_col], *args)
            if group == 0 and i == 0:
                out = np.empty((a.shape[0], len(group_lens)), dtype=np.asarray(_out).dtype)
            out[i, group] = _out
        from_col = to_col
    return out

def flatten_grouped_nb(a, group_lens, in_c_order):
    out = np.full((a.shape[0] * np.max(group_lens), len(group_lens)), np.nan, dtype=np.float64)
    from_col = 0
    for group in range(len(group_lens)):
        to_col = from_col + group_lens[group]
        group_len = to_col - from_col
        for k in range(group_len):
            if in_c_order:
                out[k::np.max(group_lens), group] = a[:, from_col + k]
            else:
                out[k * a.shape[0]:(k + 1) * a.shape[0], group] = a[:, from_col + k]
        from_col = to_col
    return out

def flatten_uniform_grouped_nb(a, group_lens, in_c_order):
    out = np.empty((a.shape[0] * np.max(group_lens), len(group_lens)), dtype=a.dtype)
    from_col = 0
    for group in range(len(group_lens)):
        to_col = from_col + group_lens[group]
        group_len = to_col - from_col
        for k in range(group_len):
            if in_c_order:
                out[k::np.max(group_lens), group] = a[:, from_col + k]
            else:
                out[k * a.shape[0]:(k + 1) * a.shape[0], group] = a[:, from_col + k]
        from_col = to_col
    return out

def nth_reduce_nb(col, a, n):
    if n < 0 and abs(n) > a.shape[0] or n >= a.shape[0]:
        raise ValueError('index is out of bounds')
    return a[n]

def nth_index_reduce_nb(col, a, n):
    if n < 0 and abs(n) > a.shape[0] or n >= a.shape[0]:
        raise ValueError('index is out of bounds')
    if n >= 0:
        return n
    return a.shape[0] + n

def min_reduce_nb(col, a):
    return np.nanmin(a)

def max_reduce_nb(col, a):
    return np.nanmax(a)

def mean_reduce_nb(col, a):
    return np.nanmean(a)

def median_reduce_nb(col, a):
    return np.nanmedian(a)

def std_reduce_nb(col, a, ddof):
    return nanstd_1d_nb(a, ddof=ddof)

def sum_reduce_nb(col, a):
    return np.nansum(a)

def count_reduce_nb(col, a):
    return np.sum(~np.isnan(a))

def argmin_reduce_nb(col, a):
    a = np.copy(a)
    mask = np.isnan(a)
    if np.all(mask):
        raise ValueError('All-NaN slice encountered')
    a[mask] = np.inf
    return np.argmin(a)

def argmax_reduce_nb(col, a):
    a = np.copy(a)
    mask = np.isnan(a)
    if np.all(mask):
        raise ValueError('All-NaN slice encountered')
    a[mask] = -np.inf
    return np.argmax(a)

def describe_reduce_nb(col, a, perc, ddof):
    a = a[~np.isnan(a)]
    out = np.empty(5 + len(perc), dtype=np.float64)
    out[0] = len(a)
    if len(a) > 0:
        out[1] = np.mean(a)
        out[2] = nanstd_1d_nb(a, ddof=ddof)
        out[3] = np.min(a)
        out[4:-1] = np.percentile(a, perc * 100)
        out[4 + len(perc)] = np.max(a)
    else:
        out[1:] = np.nan
    return out

def value_counts_nb(codes, n_uniques, group_lens):
    out = np.full((n_uniques, group_lens.shape[0]), 0, dtype=np.int64)
    from_col = 0
    for group in range(len(group_lens)):
        to_col = from_col + group_lens[group]
        for col in range(from_col, to_col):
            for i in range(codes.shape[0]):
                out[codes[i, col], group] += 1
        from_col = to_col
    return out

def min_squeeze_nb(col, group, a):
    return np.nanmin(a)

def max_squeeze_nb(col, group, a):
    return np.nanmax(a)

def sum_squeeze_nb(col, group, a):
    return np.nansum(a)

def any_squeeze_nb(col, group, a):
    return np.any(a)

def find_ranges_nb(ts, gap_value):
    out = np.empty(ts.shape[0] * ts.shape[1], dtype=range_dt)
    ridx = 0
    for col in range(ts.shape[1]):
        range_started = False
        start_idx = -1
        end_idx = -1
        store_record = False
        status = -1
        for i in range(ts.shape[0]):
            cur_val = ts[i, col]
            if cur_val == gap_value or (np.isnan(cur_val) and np.isnan(gap_value)):
                if range_started:
                    end_idx = i
                    range_started = False
                    store_record = True
                    status = RangeStatus.Closed
            elif not range_started:
                start_idx = i
                range_started = True
            if i == ts.shape[0] - 1 and range_started:
                end_idx = ts.shape[0] - 1
                range_started = False
                store_record = True
                status = RangeStatus.Open
            if store_record:
                out[ridx]['id'] = ridx
                out[ridx]['col'] = col
                out[ridx]['start_idx'] = start_idx
                out[ridx]['end_idx'] = end_idx
                out[ridx]['status'] = status
                ridx += 1
                store_record = False
    return out[:ridx]

def range_duration_nb(start_idx_arr, end_idx_arr, status_arr):
    out = np.empty(start_idx_arr.shape[0], dtype=np.int64)
    for ridx in range(out.shape[0]):
        if status_arr[ridx] == RangeStatus.Open:
            out[ridx] = end_idx_arr[ridx] - start_idx_arr[ridx] + 1
        else:
            out[ridx] = end_idx_arr[ridx] - start_idx_arr[ridx]
    return out

def range_coverage_nb(start_idx_arr, end_idx_arr, status_arr, col_map, index_lens, overlapping=False, normalize=False):
    col_idxs, col_lens = col_map
    col_start_idxs = np.cumsum(col_lens) - col_lens
    out = np.full(col_lens.shape[0], np.nan, dtype=np.float64)
    for col in range(col_lens.shape[0]):
        col_len = col_lens[col]
        if col_len == 0:
            continue
        col_start_idx = col_start_idxs[col]
        ridxs = col_idxs[col_start_idx:col_start_idx + col_len]
        temp = np.full(index_lens[col], 0, dtype=np.int64)
        for ridx in ridxs:
            if status_arr[ridx] == RangeStatus.Open:
                temp[start_idx_arr[ridx]:end_idx_arr[ridx] + 1] += 1
            else:
                temp[start_idx_arr[ridx]:end_idx_arr[ridx]] += 1
        if overlapping:
            if normalize:
                out[col] = np.sum(temp > 1) / np.sum(temp > 0)
            else:
                out[col] = np.sum(temp > 1)
        elif normalize:
            out[col] = np.sum(temp > 0) / index_lens[col]
        else:
            out[col] = np.sum(temp > 0)
    return out

def ranges_to_mask_nb(start_idx_arr, end_idx_arr, status_arr, col_map, index_len):
    col_idxs, col_lens = col_map
    col_start_idxs = np.cumsum(col_lens) - col_lens
    out = np.full((index_len, col_lens.shape[0]), False, dtype=np.bool_)
    for col in range(col_lens.shape[0]):
        col_len = col_lens[col]
        if col_len == 0:
            continue
        col_start_idx = col_start_idxs[col]
        ridxs = col_idxs[col_start_idx:col_start_idx + col_len]
        for ridx in ridxs:
            if status_arr[ridx] == RangeStatus.Open:
                out[start_idx_arr[ridx]:end_idx_arr[ridx] + 1, col] = True
            else:
                out[start_idx_arr[ridx]:end_idx_arr[ridx], col] = True
    return out

def get_drawdowns_nb(ts):
    out = np.empty(ts.shape[0] * ts.shape[1], dtype=drawdown_dt)
    ddidx = 0
    for col in range(ts.shape[1]):
        drawdown_started = False
        peak_idx = -1
        valley_idx = -1
        peak_val = ts[0, col]
        valley_val = ts[0, col]
        store_record = False
        status = -1
        for i in range(ts.shape[0]):
            cur_val = ts[i, col]
            if not np.isnan(cur_val):
                if np.isnan(peak_val) or cur_val >= peak_val:
                    if not drawdown_started:
                        peak_val = cur_val
                        peak_idx = i
                    elif cur_val >= peak_val:
                        drawdown_started = False
                        store_record = True
                        status = DrawdownStatus.Recovered
                elif not drawdown_started:
                    drawdown_started = True
                    valley_val = cur_val
                    valley_idx = i
                elif cur_val < valley_val:
                    valley_val = cur_val
                    valley_idx = i
                if i == ts.shape[0] - 1 and drawdown_started:
                    drawdown_started = False
                    store_record = True
                    status = DrawdownStatus.Active
                if store_record:
                    out[ddidx]['id'] = ddidx
                    out[ddidx]['col'] = col
                    out[ddidx]['peak_idx'] = peak_idx
                    out[ddidx]['start_idx'] = peak_idx + 1
                    out[ddidx]['valley_idx'] = valley_idx
                    out[ddidx]['end_idx'] = i
                    out[ddidx]['peak_val'] = peak_val
                    out[ddidx]['valley_val'] = valley_val
                    out[ddidx]['end_val'] = cur_val
                    out[ddidx]['status'] = status
                    ddidx += 1
                    peak_idx = i
                    valley_idx = i
                    peak_val = cur_val
                    valley_val = cur_val
                    store_record = False
                    status = -1
    return out[:ddidx]

def dd_drawdown_nb(peak_val_arr, valley_val_arr):
    return (valley_val_arr - peak_val_arr) / peak_val_arr

def dd_decline_duration_nb(start_idx_arr, valley_idx_arr):
    return valley_idx_arr - start_idx_arr + 1

def dd_recovery_duration_nb(valley_idx_arr, end_idx_arr):
    return end_idx_arr - valley_idx_arr

def dd_recovery_duration_ratio_nb(start_idx_arr, valley_idx_arr, end_idx_arr):
    recovery_duration = dd_recovery_duration_nb(valley_idx_arr, end_idx_arr)
    decline_duration = dd_decline_duration_nb(start_idx_arr, valley_idx_arr)
    return recovery_duration / decline_duration

def dd_recovery_return_nb(valley_val_arr, end_val_arr):
    return (end_val_arr - valley_val_arr) / valley_val_arr

def crossed_above_1d_nb(arr1, arr2, wait=0):
    out = np.empty(arr1.shape, dtype=np.bool_)
    was_below = False
    crossed_ago = -1
    for i in range(arr1.shape[0]):
        if np.isnan(arr1[i]) or np.isnan(arr2[i]):
            crossed_ago = -1
            was_below = False
            out[i] = False
        elif arr1[i] > arr2[i]:
            if was_below:
                crossed_ago += 1
                out[i] = crossed_ago == wait
            else:
                out[i] = False
        elif arr1[i] == arr2[i]:
            crossed_ago = -1
            out[i] = False
        else:
            crossed_ago = -1
            was_below = True
            out[i] = False
    return out

def crossed_above_nb(arr1, arr2, wait=0):
    out = np.empty(arr1.shape, dtype=np.bool_)
    for col in range(arr1.shape[1]):
        out[:, col] = crossed_above_1d_nb(arr1[:, col], arr2[:, col], wait=wait)
    return out
