import numpy as np
from numba import njit
from vectorbt import _typing as tp
from vectorbt.generic import nb as generic_nb

def get_return_nb(input_value, output_value):
    if input_value == 0:
        if output_value == 0:
            return 0.0
        return np.inf * np.sign(output_value)
    return_value = (output_value - input_value) / input_value
    if input_value < 0:
        return_value *= -1
    return return_value

def returns_1d_nb(value, init_value):
    out = np.empty(value.shape, dtype=np.float64)
    input_value = init_value
    for i in range(out.shape[0]):
        output_value = value[i]
        out[i] = get_return_nb(input_value, output_value)
        input_value = output_value
    return out

def returns_nb(value, init_value):
    out = np.empty(value.shape, dtype=np.float64)
    for col in range(out.shape[1]):
        out[:, col] = returns_1d_nb(value[:, col], init_value[col])
    return out

def total_return_apply_nb(idxs, col, returns):
    return np.nanprod(returns + 1) - 1

def cum_returns_1d_nb(returns, start_value):
    out = np.empty_like(returns, dtype=np.float64)
    cumprod = 1
    for i in range(returns.shape[0]):
        if not np.isnan(returns[i]):
            cumprod *= returns[i] + 1
        out[i] = cumprod
    if start_value == 0.0:
        return out - 1.0
    return out * start_value

def cum_returns_nb(returns, start_value):
    out = np.empty_like(returns, dtype=np.float64)
    for col in range(returns.shape[1]):
        out[:, col] = cum_returns_1d_nb(returns[:, col], start_value)
    return out

def cum_returns_final_1d_nb(returns, start_value=0.0):
    out = np.nanprod(returns + 1.0)
    if start_value == 0.0:
        return out - 1.0
    return out * start_value

def cum_returns_final_nb(returns, start_value=0.0):
    out = np.empty(returns.shape[1], dtype=np.float64)
    for col in range(returns.shape[1]):
        out[col] = cum_returns_final_1d_nb(returns[:, col], start_value)
    return out

def rolling_cum_returns_final_nb(returns, window, minp, start_value=0.0):

    def _apply_func_nb(i, col, _returns, _start_value):
        return cum_returns_final_1d_nb(_returns, _start_value)
    return generic_nb.rolling_apply_nb(returns, window, minp, _apply_func_nb, start_value)

def annualized_return_1d_nb(returns, ann_factor):
    if returns.shape[0] == 0:
        return np.nan
    end_value = cum_returns_final_1d_nb(returns, 1.0)
    return end_value ** (ann_factor / returns.shape[0]) - 1

def annualized_return_nb(returns, ann_factor):
    out = np.empty(returns.shape[1], dtype=np.float64)
    for col in range(returns.shape[1]):
        out[col] = annualized_return_1d_nb(returns[:, col], ann_factor)
    return out

def rolling_annualized_return_nb(returns, window, minp, ann_factor):

    def _apply_func_nb(i, col, _returns, _ann_factor):
        return annualized_return_1d_nb(_returns, _ann_factor)
    return generic_nb.rolling_apply_nb(returns, window, minp, _apply_func_nb, ann_factor)

def annualized_volatility_1d_nb(returns, ann_factor, levy_alpha=2.0, ddof=1):
    if returns.shape[0] < 2:
        return np.nan
    return generic_nb.nanstd_1d_nb(returns, ddof) * ann_factor ** (1.0 / levy_alpha)

def annualized_volatility_nb(returns, ann_factor, levy_alpha=2.0, ddof=1):
    out = np.empty(returns.shape[1], dtype=np.float64)
    for col in range(returns.shape[1]):
        out[col] = annualized_volatility_1d_nb(returns[:, col], ann_factor, levy_alpha, ddof)
    return out

def rolling_annualized_volatility_nb(returns, window, minp, ann_factor, levy_alpha=2.0, ddof=1):

    def _apply_func_nb(i, col, _returns, _ann_factor, _levy_alpha, _ddof):
        return annualized_volatility_1d_nb(_returns, _ann_factor, _levy_alpha, _ddof)
    return generic_nb.rolling_apply_nb(returns, window, minp, _apply_func_nb, ann_factor, levy_alpha, ddof)

def drawdown_1d_nb(returns):
    cum_returns = cum_returns_1d_nb(returns, start_value=100.0)
    max_returns = generic_nb.expanding_max_1d_nb(cum_returns, minp=1)
    return cum_returns / max_returns - 1

def drawdown_nb(returns):
    out = np.empty_like(returns, dtype=np.float64)
    for col in range(returns.shape[1]):
        out[:, col] = drawdown_1d_nb(returns[:, col])
    return out

def max_drawdown_1d_nb(returns):
    return np.min(drawdown_1d_nb(returns))

def max_drawdown_nb(returns):
    out = np.empty(returns.shape[1], dtype=np.float64)
    for col in range(returns.shape[1]):
        out[col] = max_drawdown_1d_nb(returns[:, col])
    return out

def rolling_max_drawdown_nb(returns, window, minp):

    def _apply_func_nb(i, col, _returns):
        return max_drawdown_1d_nb(_returns)
    return generic_nb.rolling_apply_nb(returns, window, minp, _apply_func_nb)

def calmar_ratio_1d_nb(returns, ann_factor):
    max_drawdown = max_drawdown_1d_nb(returns)
    if max_drawdown == 0.0:
        return np.nan
    annualized_return = annualized_return_1d_nb(returns, ann_factor)
    if max_drawdown == 0.0:
        return np.inf
    return annualized_return / np.abs(max_drawdown)

def calmar_ratio_nb(returns, ann_factor):
    out = np.empty(returns.shape[1], dtype=np.float64)
    for col in range(returns.shape[1]):
        out[col] = calmar_ratio_1d_nb(returns[:, col], ann_factor)
    return out

def rolling_calmar_ratio_nb(returns, window, minp, ann_factor):

    def _apply_func_nb(i, col, _returns, _ann_factor):
        return calmar_ratio_1d_nb(_returns, _ann_factor)
    return generic_nb.rolling_apply_nb(returns, window, minp, _apply_func_nb, ann_factor)

def omega_ratio_1d_nb(returns, ann_factor, risk_free=0.0, required_return=0.0):
    if ann_factor == 1:
        return_threshold = required_return
    elif ann_factor <= -1:
        return np.nan
    else:
        return_threshold = (1 + required_return) ** (1.0 / ann_factor) - 1
    returns_less_thresh = returns - risk_free - return_threshold
    numer = np.sum(returns_less_thresh[returns_less_thresh > 0.0])
    denom = -1.0 * np.sum(returns_less_thresh[returns_less_thresh < 0.0])
    if denom == 0.0:
        return np.inf
    return numer / denom

def omega_ratio_nb(returns, ann_factor, risk_free=0.0, required_return=0.0):
    out = np.empty(returns.shape[1], dtype=np.float64)
    for col in range(returns.shape[1]):
        out[col] = omega_ratio_1d_nb(returns[:, col], ann_factor, risk_free, required_return)
    return out

def rolling_omega_ratio_nb(returns, window, minp, ann_factor, risk_free=0.0, required_return=0.0):

    def _apply_func_nb(i, col, _returns, _ann_factor, _risk_free, _required_return):
        return omega_ratio_1d_nb(_returns, _ann_factor, _risk_free, _required_return)
    return generic_nb.rolling_apply_nb(returns, window, minp, _apply_func_nb, ann_factor, risk_free, required_return)

def sharpe_ratio_1d_nb(returns, ann_factor, risk_free=0.0, ddof=1):
    if returns.shape[0] < 2:
        return np.nan
    returns_risk_adj = returns - risk_free
    mean = np.nanmean(returns_risk_adj)
    std = generic_nb.nanstd_1d_nb(returns_risk_adj, ddof)
    if std == 0.0:
        return np.inf
    return mean / std * np.sqrt(ann_factor)

def sharpe_ratio_nb(returns, ann_factor, risk_free=0.0, ddof=1):
    out = np.empty(returns.shape[1], dtype=np.float64)
    for col in range(returns.shape[1]):
        out[col] = sharpe_ratio_1d_nb(returns[:, col], ann_factor, risk_free, ddof)
    return out

def rolling_sharpe_ratio_nb(returns, window, minp, ann_factor, risk_free=0.0, ddof=1):

    def _apply_func_nb(i, col, _returns, _ann_factor, _risk_free, _ddof):
        return sharpe_ratio_1d_nb(_returns, _ann_factor, _risk_free, _ddof)
    return generic_nb.rolling_apply_nb(returns, window, minp, _apply_func_nb, ann_factor, risk_free, ddof)

def downside_risk_1d_nb(returns, ann_factor, required_return=0.0):
    adj_returns = returns - required_return
    adj_returns[adj_returns > 0] = 0
    return np.sqrt(np.nanmean(adj_returns ** 2)) * np.sqrt(ann_factor)

def downside_risk_nb(returns, ann_factor, required_return=0.0):
    out = np.empty(returns.shape[1], dtype=np.float64)
    for col in range(returns.shape[1]):
        out[col] = downside_risk_1d_nb(returns[:, col], ann_factor, required_return)
    return out

def rolling_downside_risk_nb(returns, window, minp, ann_factor, required_return=0.0):

    def _apply_func_nb(i, col, _returns, _ann_factor, _required_return):
        return downside_risk_1d_nb(_returns, _ann_factor, _required_return)
    return generic_nb.rolling_apply_nb(returns, window, minp, _apply_func_nb, ann_factor, required_return)

def sortino_ratio_1d_nb(returns, ann_factor, required_return=0.0):
    if returns.shape[0] < 2:
        return np.nan
    adj_returns = returns - required_return
    average_annualized_return = np.nanmean(adj_returns) * ann_factor
    downside_risk = downside_risk_1d_nb(returns, ann_factor, required_return)
    if downside_risk == 0.0:
        return np.inf
    return average_annualized_return / downside_risk

def sortino_ratio_nb(returns, ann_factor, required_return=0.0):
    out = np.empty(returns.shape[1], dtype=np.float64)
    for col in range(returns.shape[1]):
        out[col] = sortino_ratio_1d_nb(returns[:, col], ann_factor, required_return)
    return out

def rolling_sortino_ratio_nb(returns, window, minp, ann_factor, required_return=0.0):

    def _apply_func_nb(i, col, _returns, _ann_factor, _required_return):
        return sortino_ratio_1d_nb(_returns, _ann_factor, _required_return)
    return generic_nb.rolling_apply_nb(returns, window, minp, _apply_func_nb, ann_factor, required_return)

def information_ratio_1d_nb(returns, benchmark_rets, ddof=1):
    if returns.shape[0] < 2:
        return np.nan
    active_return = returns - benchmark_rets
    mean = np.nanmean(active_return)
    std = generic_nb.nanstd_1d_nb(active_return, ddof)
    if std == 0.0:
        return np.inf
    return mean / std

def information_ratio_nb(returns, benchmark_rets, ddof=1):
    out = np.empty(returns.shape[1], dtype=np.float64)
    for col in range(returns.shape[1]):
        out[col] = information_ratio_1d_nb(returns[:, col], benchmark_rets[:, col], ddof)
    return out

def rolling_information_ratio_nb(returns, window, minp, benchmark_rets, ddof=1):

    def _apply_func_nb(i, col, _returns, _benchmark_rets, _ddof):
        return information_ratio_1d_nb(_returns, _benchmark_rets[i + 1 - len(_returns):i + 1, col], _ddof)
    return generic_nb.rolling_apply_nb(returns, window, minp, _apply_func_nb, benchmark_rets, ddof)

def beta_1d_nb(returns, benchmark_rets):
    if benchmark_rets.shape[0] < 2:
        return np.nan
    independent = np.where(np.isnan(returns), np.nan, benchmark_rets)
    ind_residual = independent - np.nanmean(independent)
    covariances = np.nanmean(ind_residual * returns)
    ind_residual = ind_residual ** 2
    ind_variances = np.nanmean(ind_residual)
    if ind_variances < 1e-30:
        ind_variances = np.nan
    if ind_variances == 0.0:
        return np.inf
    return covariances / ind_variances

def beta_nb(returns, benchmark_rets):
    out = np.empty(returns.shape[1], dtype=np.float64)
    for col in range(returns.shape[1]):
        out[col] = beta_1d_nb(returns[:, col], benchmark_rets[:, col])
    return out

def rolling_beta_nb(returns, window, minp, benchmark_rets):

    def _apply_func_nb(i, col, _returns, _benchmark_rets):
        return beta_1d_nb(_returns, _benchmark_rets[i + 1 - len(_returns):i + 1, col])
    return generic_nb.rolling_apply_nb(returns, window, minp, _apply_func_nb, benchmark_rets)

def alpha_1d_nb(returns, benchmark_rets, ann_factor, risk_free=0.0):
    if returns.shape[0] < 2:
        return np.nan
    adj_returns = returns - risk_free
    adj_benchmark_rets = benchmark_rets - risk_free
    beta = beta_1d_nb(returns, benchmark_rets)
    alpha_series = adj_returns - beta * adj_benchmark_rets
    return (np.nanmean(alpha_series) + 1) ** ann_factor - 1

def alpha_nb(returns, benchmark_rets, ann_factor, risk_free=0.0):
    out = np.empty(returns.shape[1], dtype=np.float64)
    for col in range(returns.shape[1]):
        out[col] = alpha_1d_nb(returns[:, col], benchmark_rets[:, col], ann_factor, risk_free)
    return out

def rolling_alpha_nb(returns, window, minp, benchmark_rets, ann_factor, risk_free=0.0):

    def _apply_func_nb(i, col, _returns, _benchmark_rets, _ann_factor, _risk_free):
        return alpha_1d_nb(_returns, _benchmark_rets[i + 1 - len(_returns):i + 1, col], _ann_factor, _risk_free)
    return generic_nb.rolling_apply_nb(returns, window, minp, _apply_func_nb, benchmark_rets, ann_factor, risk_free)

def tail_ratio_1d_nb(returns):
    returns = returns[~np.isnan(returns)]
    if len(returns) < 1:
        return np.nan
    perc_95 = np.abs(np.percentile(returns, 95))
    perc_5 = np.abs(np.percentile(returns, 5))
    if perc_5 == 0.0:
        return np.inf
    return perc_95 / perc_5

def tail_ratio_nb(returns):
    out = np.empty(returns.shape[1], dtype=np.float64)
    for col in range(returns.shape[1]):
        out[col] = tail_ratio_1d_nb(returns[:, col])
    return out

def rolling_tail_ratio_nb(returns, window, minp):

    def _apply_func_nb(i, col, _returns):
        return tail_ratio_1d_nb(_returns)
    return generic_nb.rolling_apply_nb(returns, window, minp, _apply_func_nb)

def value_at_risk_1d_nb(returns, cutoff=0.05):
    returns = returns[~np.isnan(returns)]
    if len(returns) < 1:
        return np.nan
    return np.percentile(returns, 100 * cutoff)

def value_at_risk_nb(returns, cutoff=0.05):
    out = np.empty(returns.shape[1], dtype=np.float64)
    for col in range(returns.shape[1]):
        out[col] = value_at_risk_1d_nb(returns[:, col], cutoff)
    return out

def rolling_value_at_risk_nb(returns, window, minp, cutoff=0.05):

    def _apply_func_nb(i, col, _returns, _cutoff):
        return value_at_risk_1d_nb(_returns, _cutoff)
    return generic_nb.rolling_apply_nb(returns, window, minp, _apply_func_nb, cutoff)

def cond_value_at_risk_1d_nb(returns, cutoff=0.05):
    if len(returns) == 0:
        return np.nan
    cutoff_index = int((len(returns) - 1) * cutoff)
    return np.mean(np.partition(returns, cutoff_index)[:cutoff_index + 1])

def cond_value_at_risk_nb(returns, cutoff=0.05):
    out = np.empty(returns.shape[1], dtype=np.float64)
    for col in range(returns.shape[1]):
        out[col] = cond_value_at_risk_1d_nb(returns[:, col], cutoff)
    return out

def rolling_cond_value_at_risk_nb(returns, window, minp, cutoff=0.05):

    def _apply_func_nb(i, col, _returns, _cutoff):
        return cond_value_at_risk_1d_nb(_returns, _cutoff)
    return generic_nb.rolling_apply_nb(returns, window, minp, _apply_func_nb, cutoff)

def capture_1d_nb(returns, benchmark_rets, ann_factor):
    annualized_return1 = annualized_return_1d_nb(returns, ann_factor)
    annualized_return2 = annualized_return_1d_nb(benchmark_rets, ann_factor)
    if annualized_return2 == 0.0:
        return np.inf
    return annualized_return1 / annualized_return2

def capture_nb(returns, benchmark_rets, ann_factor):
    out = np.empty(returns.shape[1], dtype=np.float64)
    for col in range(returns.shape[1]):
        out[col] = capture_1d_nb(returns[:, col], benchmark_rets[:, col], ann_factor)
    return out

def rolling_capture_nb(returns, window, minp, benchmark_rets, ann_factor):

    def _apply_func_nb(i, col, _returns, _benchmark_rets, _ann_factor):
        return capture_1d_nb(_returns, _benchmark_rets[i + 1 - len(_returns):i + 1, col], _ann_factor)
    return generic_nb.rolling_apply_nb(returns, window, minp, _apply_func_nb, benchmark_rets, ann_factor)

def up_capture_1d_nb(returns, benchmark_rets, ann_factor):
    returns = returns[benchmark_rets > 0]
    benchmark_rets = benchmark_rets[benchmark_rets > 0]
    if returns.shape[0] < 1:
        return np.nan
    annualized_return1 = annualized_return_1d_nb(returns, ann_factor)
    annualized_return2 = annualized_return_1d_nb(benchmark_rets, ann_factor)
    if annualized_return2 == 0.0:
        return np.inf
    return annualized_return1 / annualized_return2

def up_capture_nb(returns, benchmark_rets, ann_factor):
    out = np.empty(returns.shape[1], dtype=np.float64)
    for col in range(returns.shape[1]):
        out[col] = up_capture_1d_nb(returns[:, col], benchmark_rets[:, col], ann_factor)
    return out

def rolling_up_capture_nb(returns, window, minp, benchmark_rets, ann_factor):

    def _apply_func_nb(i, col, _returns, _benchmark_rets, _ann_factor):
        return up_capture_1d_nb(_returns, _benchmark_rets[i + 1 - len(_returns):i + 1, col], _ann_factor)
    return generic_nb.rolling_apply_nb(returns, window, minp, _apply_func_nb, benchmark_rets, ann_factor)

def down_capture_1d_nb(returns, benchmark_rets, ann_factor):
    returns = returns[benchmark_rets < 0]
    benchmark_rets = benchmark_rets[benchmark_rets < 0]
    if returns.shape[0] < 1:
        return np.nan
    annualized_return1 = annualized_return_1d_nb(returns, ann_factor)
    annualized_return2 = annualized_return_1d_nb(benchmark_rets, ann_factor)
    if annualized_return2 == 0.0:
        return np.inf
    return annualized_return1 / annualized_return2

def down_capture_nb(returns, benchmark_rets, ann_factor):
    out = np.empty(returns.shape[1], dtype=np.float64)
    for col in range(returns.shape[1]):
        out[col] = down_capture_1d_nb(returns[:, col], benchmark_rets[:, col], ann_factor)
    return out

def rolling_down_capture_nb(returns, window, minp, benchmark_rets, ann_factor):

    def _apply_func_nb(i, col, _returns, _benchmark_rets, _ann_factor):
        return down_capture_1d_nb(_returns, _benchmark_rets[i + 1 - len(_returns):i + 1, col], _ann_factor)
    return generic_nb.rolling_apply_nb(returns, window, minp, _apply_func_nb, benchmark_rets, ann_factor)
