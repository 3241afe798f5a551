"""Reviewed reference definitions of vectorbt.returns.metrics (functions as name__ref, methods as name__of__Class)."""
import numpy as np
from scipy.stats import norm
from vectorbt import _typing as tp
from vectorbt.returns.metrics import approx_exp_max_sharpe, deflated_sharpe_ratio


def approx_exp_max_sharpe__ref(mean_sharpe, var_sharpe, nb_trials):
    return mean_sharpe + np.sqrt(var_sharpe) * ((1 - np.euler_gamma) * norm.ppf(1 - 1 / nb_trials) + np.euler_gamma * norm.ppf(1 - 1 / (nb_trials * np.e)))


def deflated_sharpe_ratio__ref(*, est_sharpe, var_sharpe, nb_trials, backtest_horizon, skew, kurtosis):
    SR0 = approx_exp_max_sharpe(0, var_sharpe, nb_trials)
    return norm.cdf((est_sharpe - SR0) * np.sqrt(backtest_horizon - 1) / np.sqrt(1 - skew * est_sharpe + (kurtosis - 1) / 4 * est_sharpe ** 2))
