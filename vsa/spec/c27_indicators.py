import numpy as np
from numba import njit
from vectorbt import _typing as tp
from vectorbt.generic import nb as generic_nb

def ma_nb(a, window, ewm, adjust=False):
    if ewm:
        return generic_nb.ewm_mean_nb(a, window, minp=window, adjust=adjust)
    return generic_nb.rolling_mean_nb(a, window, minp=window)

def mstd_nb(a, window, ewm, adjust=False, ddof=0):
    if ewm:
        return generic_nb.ewm_std_nb(a, window, minp=window, adjust=adjust, ddof=ddof)
    return generic_nb.rolling_std_nb(a, window, minp=window, ddof=ddof)

def ma_cache_nb(close, windows, ewms, adjust):
    cache_dict = dict()
    for i in range(len(windows)):
        h = hash((windows[i], ewms[i]))
        if h not in cache_dict:
            cache_dict[h] = ma_nb(close, windows[i], ewms[i], adjust=adjust)
    return cache_dict

def ma_apply_nb(close, window, ewm, adjust, cache_dict):
    h = hash((window, ewm))
    return cache_dict[h]

def mstd_cache_nb(close, windows, ewms, adjust, ddof):
    cache_dict = dict()
    for i in range(len(windows)):
        h = hash((windows[i], ewms[i]))
        if h not in cache_dict:
            cache_dict[h] = mstd_nb(close, windows[i], ewms[i], adjust=adjust, ddof=ddof)
    return cache_dict

def mstd_apply_nb(close, window, ewm, adjust, ddof, cache_dict):
    h = hash((window, ewm))
    return cache_dict[h]

def bb_cache_nb(close, windows, ewms, alphas, adjust, ddof):
    ma_cache_dict = ma_cache_nb(close, windows, ewms, adjust)
    mstd_cache_dict = mstd_cache_nb(close, windows, ewms, adjust, ddof)
    return (ma_cache_dict, mstd_cache_dict)

def bb_apply_nb(close, window, ewm, alpha, adjust, ddof, ma_cache_dict, mstd_cache_dict):
    h = hash((window, ewm))
    ma = np.copy(ma_cache_dict[h])
    mstd = np.copy(mstd_cache_dict[h])
    return (ma, ma + alpha * mstd, ma - alpha * mstd)

def rsi_cache_nb(close, windows, ewms, adjust):
    delta = generic_nb.diff_nb(close)
    up, down = (delta.copy(), delta.copy())
    up = generic_nb.set_by_mask_nb(up, up < 0, 0)
    down = np.abs(generic_nb.set_by_mask_nb(down, down > 0, 0))
    cache_dict = dict()
    for i in range(len(windows)):
        h = hash((windows[i], ewms[i]))
        if h not in cache_dict:
            roll_up = ma_nb(up, windows[i], ewms[i], adjust=adjust)
            roll_down = ma_nb(down, windows[i], ewms[i], adjust=adjust)
            cache_dict[h] = (roll_up, roll_down)
    return cache_dict

def rsi_apply_nb(close, window, ewm, adjust, cache_dict):
    h = hash((window, ewm))
    roll_up, roll_down = cache_dict[h]
    rs = roll_up / roll_down
    return 100 - 100 / (1 + rs)

def stoch_cache_nb(high, low, close, k_windows, d_windows, d_ewms, adjust):
    cache_dict = dict()
    for i in range(len(k_windows)):
        h = hash(k_windows[i])
        if h not in cache_dict:
            roll_min = generic_nb.rolling_min_nb(low, k_windows[i])
            roll_max = generic_nb.rolling_max_nb(high, k_windows[i])
            cache_dict[h] = (roll_min, roll_max)
    return cache_dict

def stoch_apply_nb(high, low, close, k_window, d_window, d_ewm, adjust, cache_dict):
    h = hash(k_window)
    roll_min, roll_max = cache_dict[h]
    percent_k = 100 * (close - roll_min) / (roll_max - roll_min)
    percent_d = ma_nb(percent_k, d_window, d_ewm, adjust=adjust)
    return (percent_k, percent_d)

def macd_cache_nb(close, fast_windows, slow_windows, signal_windows, macd_ewms, signal_ewms, adjust):
    windows = fast_windows.copy()
    windows.extend(slow_windows)
    ewms = macd_ewms.copy()
    ewms.extend(macd_ewms)
    return ma_cache_nb(close, windows, ewms, adjust)

def macd_apply_nb(close, fast_window, slow_window, signal_window, macd_ewm, signal_ewm, adjust, cache_dict):
    fast_h = hash((fast_window, macd_ewm))
    slow_h = hash((slow_window, macd_ewm))
    fast_ma = cache_dict[fast_h]
    slow_ma = cache_dict[slow_h]
    macd_ts = fast_ma - slow_ma
    signal_ts = ma_nb(macd_ts, signal_window, signal_ewm, adjust=adjust)
    return (macd_ts, signal_ts)

def true_range_nb(high, low, close):
    tr = np.empty(high.shape, dtype=np.float64)
    for col in range(tr.shape[1]):
        for i in range(tr.shape[0]):
            tr1 = high[i, col] - low[i, col]
            if i == 0:
                tr[i, col] = tr1
            else:
                tr2 = abs(high[i, col] - close[i - 1, col])
                tr3 = abs(low[i, col] - close[i - 1, col])
                tr[i, col] = max(tr1, tr2, tr3)
    return tr

def atr_cache_nb(high, low, close, windows, ewms, adjust):
    tr = true_range_nb(high, low, close)
    cache_dict = dict()
    for i in range(len(windows)):
        h = hash((windows[i], ewms[i]))
        if h not in cache_dict:
            cache_dict[h] = ma_nb(tr, windows[i], ewms[i], adjust=adjust)
    return (tr, cache_dict)

def atr_apply_nb(high, low, close, window, ewm, adjust, tr, cache_dict):
    h = hash((window, ewm))
    return (tr, cache_dict[h])

def obv_custom_nb(close, volume_ts):
    obv = generic_nb.set_by_mask_mult_nb(volume_ts, close < generic_nb.fshift_nb(close, 1), -volume_ts)
    obv = generic_nb.nancumsum_nb(obv)
    return obv
