"""Reviewed reference definitions of vectorbt.returns.accessors (functions as name__ref, methods as name__of__Class)."""
import warnings
import numpy as np
import pandas as pd
from scipy.stats import skew, kurtosis
from vectorbt import _typing as tp
from vectorbt.base.array_wrapper import ArrayWrapper, Wrapping
from vectorbt.base.reshape_fns import to_1d_array, to_2d_array, broadcast, broadcast_to
from vectorbt.generic.accessors import GenericAccessor, GenericSRAccessor, GenericDFAccessor
from vectorbt.generic.drawdowns import Drawdowns
from vectorbt.returns import dispatch, metrics
from vectorbt.root_accessors import register_dataframe_vbt_accessor, register_series_vbt_accessor
from vectorbt.utils import checks
from vectorbt.utils.config import merge_dicts, Config
from vectorbt.utils.datetime_ import freq_to_timedelta, DatetimeIndexes
from vectorbt.utils.figure import make_figure, get_domain
from vectorbt.returns.accessors import ReturnsAccessorT, ReturnsAccessor, ReturnsSRAccessor, ReturnsDFAccessor


def __init____of__ReturnsAccessor(self, obj, benchmark_rets=None, year_freq=None, defaults=None, **kwargs):
    GenericAccessor.__init__(self, obj, benchmark_rets=benchmark_rets, year_freq=year_freq, defaults=defaults, **kwargs)
    if benchmark_rets is not None:
        benchmark_rets = broadcast_to(benchmark_rets, obj)
    self._benchmark_rets = benchmark_rets
    self._year_freq = year_freq
    self._defaults = defaults


def sr_accessor_cls__of__ReturnsAccessor(self):
    return ReturnsSRAccessor


def df_accessor_cls__of__ReturnsAccessor(self):
    return ReturnsDFAccessor


def indexing_func__of__ReturnsAccessor(self, pd_indexing_func, **kwargs):
    new_wrapper, idx_idxs, _, col_idxs = self.wrapper.indexing_func_meta(pd_indexing_func, **kwargs)
    new_obj = new_wrapper.wrap(self.to_2d_array()[idx_idxs, :][:, col_idxs], group_by=False)
    if self.benchmark_rets is not None:
        new_benchmark_rets = new_wrapper.wrap(to_2d_array(self.benchmark_rets)[idx_idxs, :][:, col_idxs], group_by=False)
    else:
        new_benchmark_rets = None
    if checks.is_series(new_obj):
        return self.replace(cls_=self.sr_accessor_cls, obj=new_obj, benchmark_rets=new_benchmark_rets, wrapper=new_wrapper)
    return self.replace(cls_=self.df_accessor_cls, obj=new_obj, benchmark_rets=new_benchmark_rets, wrapper=new_wrapper)


@classmethod
def from_value__of__ReturnsAccessor(cls, value, init_value=np.nan, broadcast_kwargs=None, engine=None, wrap_kwargs=None, **kwargs):
    if broadcast_kwargs is None:
        broadcast_kwargs = {}
    if wrap_kwargs is None:
        wrap_kwargs = {}
    if not checks.is_any_array(value):
        value = np.asarray(value)
    value_2d = to_2d_array(value)
    init_value = broadcast(init_value, to_shape=value_2d.shape[1], **broadcast_kwargs)
    returns = dispatch.returns(value_2d, init_value, engine=engine)
    returns = ArrayWrapper.from_obj(value).wrap(returns, **wrap_kwargs)
    return cls(returns, engine=engine, **kwargs)


def benchmark_rets__of__ReturnsAccessor(self):
    return self._benchmark_rets


def year_freq__of__ReturnsAccessor(self):
    if self._year_freq is None:
        from vectorbt._settings import settings
        returns_cfg = settings['returns']
        year_freq = returns_cfg['year_freq']
        if year_freq is None:
            return None
        return freq_to_timedelta(year_freq)
    return freq_to_timedelta(self._year_freq)


def ann_factor__of__ReturnsAccessor(self):
    if self.wrapper.freq is None:
        raise ValueError('Index frequency is None. Pass it as `freq` or define it globally under `settings.array_wrapper`.')
    if self.year_freq is None:
        raise ValueError('Year frequency is None. Pass `year_freq` or define it globally under `settings.returns`.')
    return self.year_freq / self.wrapper.freq


def defaults__of__ReturnsAccessor(self):
    from vectorbt._settings import settings
    returns_defaults_cfg = settings['returns']['defaults']
    return merge_dicts(returns_defaults_cfg, self._defaults)


def resample_total_return__of__ReturnsAccessor(self, freq, engine=None, wrap_kwargs=None, **kwargs):
    engine = engine if engine is not None else self.engine
    returns_2d = self.to_2d_array()
    resampled = self.obj.resample(freq, **kwargs)
    out = np.full((resampled.ngroups, returns_2d.shape[1]), np.nan)
    for i, idxs in enumerate(resampled.indices.values()):
        out[i] = dispatch.cum_returns_final(returns_2d[np.asarray(idxs)], 0.0, engine=engine)
    out_obj = self.wrapper.wrap(out, group_by=False, index=list(resampled.indices.keys()))
    resampled_arr = np.full((resampled.ngroups, returns_2d.shape[1]), np.nan)
    resampled_obj = self.wrapper.wrap(resampled_arr, index=resampled.asfreq().index, group_by=False, **merge_dicts({}, wrap_kwargs))
    resampled_obj.loc[out_obj.index] = out_obj.values
    return resampled_obj


def daily__of__ReturnsAccessor(self, engine=None, **kwargs):
    checks.assert_instance_of(self.wrapper.index, DatetimeIndexes)
    if self.wrapper.freq == pd.Timedelta('1D'):
        return self.obj
    return self.resample_total_return('1D', engine=engine, **kwargs)


def annual__of__ReturnsAccessor(self, engine=None, **kwargs):
    checks.assert_instance_of(self.obj.index, DatetimeIndexes)
    if self.wrapper.freq == self.year_freq:
        return self.obj
    return self.resample_total_return(self.year_freq, engine=engine, **kwargs)


def cumulative__of__ReturnsAccessor(self, start_value=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if start_value is None:
        start_value = self.defaults['start_value']
    cumulative = dispatch.cum_returns(self.to_2d_array(), start_value, engine=engine)
    wrap_kwargs = merge_dicts({}, wrap_kwargs)
    return self.wrapper.wrap(cumulative, group_by=False, **wrap_kwargs)


def total__of__ReturnsAccessor(self, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    result = dispatch.cum_returns_final(self.to_2d_array(), 0.0, engine=engine)
    wrap_kwargs = merge_dicts(dict(name_or_index='total_return'), wrap_kwargs)
    return self.wrapper.wrap_reduced(result, group_by=False, **wrap_kwargs)


def rolling_total__of__ReturnsAccessor(self, window=None, minp=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if window is None:
        window = self.defaults['window']
    if minp is None:
        minp = self.defaults['minp']
    result = dispatch.rolling_cum_returns_final(self.to_2d_array(), window, minp, 0.0, engine=engine)
    wrap_kwargs = merge_dicts({}, wrap_kwargs)
    return self.wrapper.wrap(result, group_by=False, **wrap_kwargs)


def annualized__of__ReturnsAccessor(self, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    result = dispatch.annualized_return(self.to_2d_array(), self.ann_factor, engine=engine)
    wrap_kwargs = merge_dicts(dict(name_or_index='annualized_return'), wrap_kwargs)
    return self.wrapper.wrap_reduced(result, group_by=False, **wrap_kwargs)


def rolling_annualized__of__ReturnsAccessor(self, window=None, minp=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if window is None:
        window = self.defaults['window']
    if minp is None:
        minp = self.defaults['minp']
    result = dispatch.rolling_annualized_return(self.to_2d_array(), window, minp, self.ann_factor, engine=engine)
    wrap_kwargs = merge_dicts({}, wrap_kwargs)
    return self.wrapper.wrap(result, group_by=False, **wrap_kwargs)


def annualized_volatility__of__ReturnsAccessor(self, levy_alpha=None, ddof=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if levy_alpha is None:
        levy_alpha = self.defaults['levy_alpha']
    if ddof is None:
        ddof = self.defaults['ddof']
    result = dispatch.annualized_volatility(self.to_2d_array(), self.ann_factor, levy_alpha, ddof, engine=engine)
    wrap_kwargs = merge_dicts(dict(name_or_index='annualized_volatility'), wrap_kwargs)
    return self.wrapper.wrap_reduced(result, group_by=False, **wrap_kwargs)


def rolling_annualized_volatility__of__ReturnsAccessor(self, window=None, minp=None, levy_alpha=None, ddof=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if window is None:
        window = self.defaults['window']
    if minp is None:
        minp = self.defaults['minp']
    if levy_alpha is None:
        levy_alpha = self.defaults['levy_alpha']
    if ddof is None:
        ddof = self.defaults['ddof']
    result = dispatch.rolling_annualized_volatility(self.to_2d_array(), window, minp, self.ann_factor, levy_alpha, ddof, engine=engine)
    wrap_kwargs = merge_dicts({}, wrap_kwargs)
    return self.wrapper.wrap(result, group_by=False, **wrap_kwargs)


def calmar_ratio__of__ReturnsAccessor(self, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    result = dispatch.calmar_ratio(self.to_2d_array(), self.ann_factor, engine=engine)
    wrap_kwargs = merge_dicts(dict(name_or_index='calmar_ratio'), wrap_kwargs)
    return self.wrapper.wrap_reduced(result, group_by=False, **wrap_kwargs)


def rolling_calmar_ratio__of__ReturnsAccessor(self, window=None, minp=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if window is None:
        window = self.defaults['window']
    if minp is None:
        minp = self.defaults['minp']
    result = dispatch.rolling_calmar_ratio(self.to_2d_array(), window, minp, self.ann_factor, engine=engine)
    wrap_kwargs = merge_dicts({}, wrap_kwargs)
    return self.wrapper.wrap(result, group_by=False, **wrap_kwargs)


def omega_ratio__of__ReturnsAccessor(self, risk_free=None, required_return=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if risk_free is None:
        risk_free = self.defaults['risk_free']
    if required_return is None:
        required_return = self.defaults['required_return']
    result = dispatch.omega_ratio(self.to_2d_array(), self.ann_factor, risk_free, required_return, engine=engine)
    wrap_kwargs = merge_dicts(dict(name_or_index='omega_ratio'), wrap_kwargs)
    return self.wrapper.wrap_reduced(result, group_by=False, **wrap_kwargs)


def rolling_omega_ratio__of__ReturnsAccessor(self, window=None, minp=None, risk_free=None, required_return=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if window is None:
        window = self.defaults['window']
    if minp is None:
        minp = self.defaults['minp']
    if risk_free is None:
        risk_free = self.defaults['risk_free']
    if required_return is None:
        required_return = self.defaults['required_return']
    result = dispatch.rolling_omega_ratio(self.to_2d_array(), window, minp, self.ann_factor, risk_free, required_return, engine=engine)
    wrap_kwargs = merge_dicts({}, wrap_kwargs)
    return self.wrapper.wrap(result, group_by=False, **wrap_kwargs)


def sharpe_ratio__of__ReturnsAccessor(self, risk_free=None, ddof=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if risk_free is None:
        risk_free = self.defaults['risk_free']
    if ddof is None:
        ddof = self.defaults['ddof']
    result = dispatch.sharpe_ratio(self.to_2d_array(), self.ann_factor, risk_free, ddof, engine=engine)
    wrap_kwargs = merge_dicts(dict(name_or_index='sharpe_ratio'), wrap_kwargs)
    return self.wrapper.wrap_reduced(result, group_by=False, **wrap_kwargs)


def rolling_sharpe_ratio__of__ReturnsAccessor(self, window=None, minp=None, risk_free=None, ddof=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if window is None:
        window = self.defaults['window']
    if minp is None:
        minp = self.defaults['minp']
    if risk_free is None:
        risk_free = self.defaults['risk_free']
    if ddof is None:
        ddof = self.defaults['ddof']
    result = dispatch.rolling_sharpe_ratio(self.to_2d_array(), window, minp, self.ann_factor, risk_free, ddof, engine=engine)
    wrap_kwargs = merge_dicts({}, wrap_kwargs)
    return self.wrapper.wrap(result, group_by=False, **wrap_kwargs)


def deflated_sharpe_ratio__of__ReturnsAccessor(self, risk_free=None, ddof=None, var_sharpe=None, nb_trials=None, bias=True, wrap_kwargs=None):
    if risk_free is None:
        risk_free = self.defaults['risk_free']
    if ddof is None:
        ddof = self.defaults['ddof']
    sharpe_ratio = to_1d_array(self.sharpe_ratio(risk_free=risk_free, ddof=ddof))
    if var_sharpe is None:
        var_sharpe = np.var(sharpe_ratio, ddof=ddof)
    if nb_trials is None:
        nb_trials = self.wrapper.shape_2d[1]
    returns = to_2d_array(self.obj)
    nanmask = np.isnan(returns)
    if nanmask.any():
        returns = returns.copy()
        returns[nanmask] = 0.0
    result = metrics.deflated_sharpe_ratio(est_sharpe=sharpe_ratio / np.sqrt(self.ann_factor), var_sharpe=var_sharpe / self.ann_factor, nb_trials=nb_trials, backtest_horizon=self.wrapper.shape_2d[0], skew=skew(returns, axis=0, bias=bias), kurtosis=kurtosis(returns, axis=0, bias=bias))
    wrap_kwargs = merge_dicts(dict(name_or_index='deflated_sharpe_ratio'), wrap_kwargs)
    return self.wrapper.wrap_reduced(result, group_by=False, **wrap_kwargs)


def downside_risk__of__ReturnsAccessor(self, required_return=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if required_return is None:
        required_return = self.defaults['required_return']
    result = dispatch.downside_risk(self.to_2d_array(), self.ann_factor, required_return, engine=engine)
    wrap_kwargs = merge_dicts(dict(name_or_index='downside_risk'), wrap_kwargs)
    return self.wrapper.wrap_reduced(result, group_by=False, **wrap_kwargs)


def rolling_downside_risk__of__ReturnsAccessor(self, window=None, minp=None, required_return=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if window is None:
        window = self.defaults['window']
    if minp is None:
        minp = self.defaults['minp']
    if required_return is None:
        required_return = self.defaults['required_return']
    result = dispatch.rolling_downside_risk(self.to_2d_array(), window, minp, self.ann_factor, required_return, engine=engine)
    wrap_kwargs = merge_dicts({}, wrap_kwargs)
    return self.wrapper.wrap(result, group_by=False, **wrap_kwargs)


def sortino_ratio__of__ReturnsAccessor(self, required_return=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if required_return is None:
        required_return = self.defaults['required_return']
    result = dispatch.sortino_ratio(self.to_2d_array(), self.ann_factor, required_return, engine=engine)
    wrap_kwargs = merge_dicts(dict(name_or_index='sortino_ratio'), wrap_kwargs)
    return self.wrapper.wrap_reduced(result, group_by=False, **wrap_kwargs)


def rolling_sortino_ratio__of__ReturnsAccessor(self, window=None, minp=None, required_return=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if window is None:
        window = self.defaults['window']
    if minp is None:
        minp = self.defaults['minp']
    if required_return is None:
        required_return = self.defaults['required_return']
    result = dispatch.rolling_sortino_ratio(self.to_2d_array(), window, minp, self.ann_factor, required_return, engine=engine)
    wrap_kwargs = merge_dicts({}, wrap_kwargs)
    return self.wrapper.wrap(result, group_by=False, **wrap_kwargs)


def information_ratio__of__ReturnsAccessor(self, benchmark_rets=None, ddof=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if benchmark_rets is None:
        benchmark_rets = self.benchmark_rets
    if ddof is None:
        ddof = self.defaults['ddof']
    benchmark_rets = broadcast_to(to_2d_array(benchmark_rets), to_2d_array(self.obj))
    result = dispatch.information_ratio(self.to_2d_array(), benchmark_rets, ddof, engine=engine)
    wrap_kwargs = merge_dicts(dict(name_or_index='information_ratio'), wrap_kwargs)
    return self.wrapper.wrap_reduced(result, group_by=False, **wrap_kwargs)


def rolling_information_ratio__of__ReturnsAccessor(self, benchmark_rets=None, window=None, minp=None, ddof=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if benchmark_rets is None:
        benchmark_rets = self.benchmark_rets
    if window is None:
        window = self.defaults['window']
    if minp is None:
        minp = self.defaults['minp']
    if ddof is None:
        ddof = self.defaults['ddof']
    wrap_kwargs = merge_dicts({}, wrap_kwargs)
    benchmark_rets = broadcast_to(to_2d_array(benchmark_rets), to_2d_array(self.obj))
    result = dispatch.rolling_information_ratio(self.to_2d_array(), window, minp, benchmark_rets, ddof, engine=engine)
    return self.wrapper.wrap(result, group_by=False, **wrap_kwargs)


def beta__of__ReturnsAccessor(self, benchmark_rets=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if benchmark_rets is None:
        benchmark_rets = self.benchmark_rets
    benchmark_rets = broadcast_to(to_2d_array(benchmark_rets), to_2d_array(self.obj))
    result = dispatch.beta(self.to_2d_array(), benchmark_rets, engine=engine)
    wrap_kwargs = merge_dicts(dict(name_or_index='beta'), wrap_kwargs)
    return self.wrapper.wrap_reduced(result, group_by=False, **wrap_kwargs)


def rolling_beta__of__ReturnsAccessor(self, benchmark_rets=None, window=None, minp=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if benchmark_rets is None:
        benchmark_rets = self.benchmark_rets
    if window is None:
        window = self.defaults['window']
    if minp is None:
        minp = self.defaults['minp']
    benchmark_rets = broadcast_to(to_2d_array(benchmark_rets), to_2d_array(self.obj))
    result = dispatch.rolling_beta(self.to_2d_array(), window, minp, benchmark_rets, engine=engine)
    wrap_kwargs = merge_dicts({}, wrap_kwargs)
    return self.wrapper.wrap(result, group_by=False, **wrap_kwargs)


def alpha__of__ReturnsAccessor(self, benchmark_rets=None, risk_free=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if benchmark_rets is None:
        benchmark_rets = self.benchmark_rets
    if risk_free is None:
        risk_free = self.defaults['risk_free']
    benchmark_rets = broadcast_to(to_2d_array(benchmark_rets), to_2d_array(self.obj))
    result = dispatch.alpha(self.to_2d_array(), benchmark_rets, self.ann_factor, risk_free, engine=engine)
    wrap_kwargs = merge_dicts(dict(name_or_index='alpha'), wrap_kwargs)
    return self.wrapper.wrap_reduced(result, group_by=False, **wrap_kwargs)


def rolling_alpha__of__ReturnsAccessor(self, benchmark_rets=None, window=None, minp=None, risk_free=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if benchmark_rets is None:
        benchmark_rets = self.benchmark_rets
    if window is None:
        window = self.defaults['window']
    if minp is None:
        minp = self.defaults['minp']
    if risk_free is None:
        risk_free = self.defaults['risk_free']
    benchmark_rets = broadcast_to(to_2d_array(benchmark_rets), to_2d_array(self.obj))
    result = dispatch.rolling_alpha(self.to_2d_array(), window, minp, benchmark_rets, self.ann_factor, risk_free, engine=engine)
    wrap_kwargs = merge_dicts({}, wrap_kwargs)
    return self.wrapper.wrap(result, group_by=False, **wrap_kwargs)


def tail_ratio__of__ReturnsAccessor(self, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    result = dispatch.tail_ratio(self.to_2d_array(), engine=engine)
    wrap_kwargs = merge_dicts(dict(name_or_index='tail_ratio'), wrap_kwargs)
    return self.wrapper.wrap_reduced(result, group_by=False, **wrap_kwargs)


def rolling_tail_ratio__of__ReturnsAccessor(self, window=None, minp=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if window is None:
        window = self.defaults['window']
    if minp is None:
        minp = self.defaults['minp']
    result = dispatch.rolling_tail_ratio(self.to_2d_array(), window, minp, engine=engine)
    wrap_kwargs = merge_dicts({}, wrap_kwargs)
    return self.wrapper.wrap(result, group_by=False, **wrap_kwargs)


def common_sense_ratio__of__ReturnsAccessor(self, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    result = to_1d_array(self.tail_ratio(engine=engine)) * (1 + to_1d_array(self.annualized(engine=engine)))
    wrap_kwargs = merge_dicts(dict(name_or_index='common_sense_ratio'), wrap_kwargs)
    return self.wrapper.wrap_reduced(result, group_by=False, **wrap_kwargs)


def rolling_common_sense_ratio__of__ReturnsAccessor(self, window=None, minp=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if window is None:
        window = self.defaults['window']
    if minp is None:
        minp = self.defaults['minp']
    rolling_tail_ratio = to_2d_array(self.rolling_tail_ratio(window, minp=minp, engine=engine))
    rolling_annualized = to_2d_array(self.rolling_annualized(window, minp=minp, engine=engine))
    result = rolling_tail_ratio * (1 + rolling_annualized)
    wrap_kwargs = merge_dicts({}, wrap_kwargs)
    return self.wrapper.wrap(result, group_by=False, **wrap_kwargs)


def value_at_risk__of__ReturnsAccessor(self, cutoff=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if cutoff is None:
        cutoff = self.defaults['cutoff']
    result = dispatch.value_at_risk(self.to_2d_array(), cutoff, engine=engine)
    wrap_kwargs = merge_dicts(dict(name_or_index='value_at_risk'), wrap_kwargs)
    return self.wrapper.wrap_reduced(result, group_by=False, **wrap_kwargs)


def rolling_value_at_risk__of__ReturnsAccessor(self, window=None, minp=None, cutoff=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if window is None:
        window = self.defaults['window']
    if minp is None:
        minp = self.defaults['minp']
    if cutoff is None:
        cutoff = self.defaults['cutoff']
    result = dispatch.rolling_value_at_risk(self.to_2d_array(), window, minp, cutoff, engine=engine)
    wrap_kwargs = merge_dicts({}, wrap_kwargs)
    return self.wrapper.wrap(result, group_by=False, **wrap_kwargs)


def cond_value_at_risk__of__ReturnsAccessor(self, cutoff=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if cutoff is None:
        cutoff = self.defaults['cutoff']
    result = dispatch.cond_value_at_risk(self.to_2d_array(), cutoff, engine=engine)
    wrap_kwargs = merge_dicts(dict(name_or_index='cond_value_at_risk'), wrap_kwargs)
    return self.wrapper.wrap_reduced(result, group_by=False, **wrap_kwargs)


def rolling_cond_value_at_risk__of__ReturnsAccessor(self, window=None, minp=None, cutoff=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if window is None:
        window = self.defaults['window']
    if minp is None:
        minp = self.defaults['minp']
    if cutoff is None:
        cutoff = self.defaults['cutoff']
    result = dispatch.rolling_cond_value_at_risk(self.to_2d_array(), window, minp, cutoff, engine=engine)
    wrap_kwargs = merge_dicts({}, wrap_kwargs)
    return self.wrapper.wrap(result, group_by=False, **wrap_kwargs)


def capture__of__ReturnsAccessor(self, benchmark_rets=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if benchmark_rets is None:
        benchmark_rets = self.benchmark_rets
    benchmark_rets = broadcast_to(to_2d_array(benchmark_rets), to_2d_array(self.obj))
    result = dispatch.capture(self.to_2d_array(), benchmark_rets, self.ann_factor, engine=engine)
    wrap_kwargs = merge_dicts(dict(name_or_index='capture'), wrap_kwargs)
    return self.wrapper.wrap_reduced(result, group_by=False, **wrap_kwargs)


def rolling_capture__of__ReturnsAccessor(self, benchmark_rets=None, window=None, minp=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if benchmark_rets is None:
        benchmark_rets = self.benchmark_rets
    if window is None:
        window = self.defaults['window']
    if minp is None:
        minp = self.defaults['minp']
    benchmark_rets = broadcast_to(to_2d_array(benchmark_rets), to_2d_array(self.obj))
    result = dispatch.rolling_capture(self.to_2d_array(), window, minp, benchmark_rets, self.ann_factor, engine=engine)
    wrap_kwargs = merge_dicts({}, wrap_kwargs)
    return self.wrapper.wrap(result, group_by=False, **wrap_kwargs)


def up_capture__of__ReturnsAccessor(self, benchmark_rets=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if benchmark_rets is None:
        benchmark_rets = self.benchmark_rets
    benchmark_rets = broadcast_to(to_2d_array(benchmark_rets), to_2d_array(self.obj))
    result = dispatch.up_capture(self.to_2d_array(), benchmark_rets, self.ann_factor, engine=engine)
    wrap_kwargs = merge_dicts(dict(name_or_index='up_capture'), wrap_kwargs)
    return self.wrapper.wrap_reduced(result, group_by=False, **wrap_kwargs)


def rolling_up_capture__of__ReturnsAccessor(self, benchmark_rets=None, window=None, minp=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if benchmark_rets is None:
        benchmark_rets = self.benchmark_rets
    if window is None:
        window = self.defaults['window']
    if minp is None:
        minp = self.defaults['minp']
    benchmark_rets = broadcast_to(to_2d_array(benchmark_rets), to_2d_array(self.obj))
    result = dispatch.rolling_up_capture(self.to_2d_array(), window, minp, benchmark_rets, self.ann_factor, engine=engine)
    wrap_kwargs = merge_dicts({}, wrap_kwargs)
    return self.wrapper.wrap(result, group_by=False, **wrap_kwargs)


def down_capture__of__ReturnsAccessor(self, benchmark_rets=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if benchmark_rets is None:
        benchmark_rets = self.benchmark_rets
    benchmark_rets = broadcast_to(to_2d_array(benchmark_rets), to_2d_array(self.obj))
    result = dispatch.down_capture(self.to_2d_array(), benchmark_rets, self.ann_factor, engine=engine)
    wrap_kwargs = merge_dicts(dict(name_or_index='down_capture'), wrap_kwargs)
    return self.wrapper.wrap_reduced(result, group_by=False, **wrap_kwargs)


def rolling_down_capture__of__ReturnsAccessor(self, benchmark_rets=None, window=None, minp=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if benchmark_rets is None:
        benchmark_rets = self.benchmark_rets
    if window is None:
        window = self.defaults['window']
    if minp is None:
        minp = self.defaults['minp']
    benchmark_rets = broadcast_to(to_2d_array(benchmark_rets), to_2d_array(self.obj))
    result = dispatch.rolling_down_capture(self.to_2d_array(), window, minp, benchmark_rets, self.ann_factor, engine=engine)
    wrap_kwargs = merge_dicts({}, wrap_kwargs)
    return self.wrapper.wrap(result, group_by=False, **wrap_kwargs)


def drawdown__of__ReturnsAccessor(self, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    result = dispatch.drawdown(self.to_2d_array(), engine=engine)
    wrap_kwargs = merge_dicts({}, wrap_kwargs)
    return self.wrapper.wrap(result, group_by=False, **wrap_kwargs)


def max_drawdown__of__ReturnsAccessor(self, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    result = dispatch.max_drawdown(self.to_2d_array(), engine=engine)
    wrap_kwargs = merge_dicts(dict(name_or_index='max_drawdown'), wrap_kwargs)
    return self.wrapper.wrap_reduced(result, group_by=False, **wrap_kwargs)


def rolling_max_drawdown__of__ReturnsAccessor(self, window=None, minp=None, engine=None, wrap_kwargs=None):
    engine = engine if engine is not None else self.engine
    if window is None:
        window = self.defaults['window']
    if minp is None:
        minp = self.defaults['minp']
    result = dispatch.rolling_max_drawdown(self.to_2d_array(), window, minp, engine=engine)
    wrap_kwargs = merge_dicts({}, wrap_kwargs)
    return self.wrapper.wrap(result, group_by=False, **wrap_kwargs)


def drawdowns__of__ReturnsAccessor(self):
    return self.get_drawdowns()


def get_drawdowns__of__ReturnsAccessor(self, wrapper_kwargs=None, engine=None, **kwargs):
    engine = engine if engine is not None else self.engine
    wrapper_kwargs = merge_dicts(self.wrapper.config, wrapper_kwargs)
    return Drawdowns.from_ts(self.cumulative(start_value=1.0, engine=engine), wrapper_kwargs=wrapper_kwargs, engine=engine, **kwargs)


def qs__of__ReturnsAccessor(self):
    from vectorbt.returns.qs_adapter import QSAdapter
    return QSAdapter(self)


def resolve_self__of__ReturnsAccessor(self, cond_kwargs=None, custom_arg_names=None, impacts_caching=True, silence_warnings=False):
    if cond_kwargs is None:
        cond_kwargs = {}
    if custom_arg_names is None:
        custom_arg_names = set()
    reself = Wrapping.resolve_self(self, cond_kwargs=cond_kwargs, custom_arg_names=custom_arg_names, impacts_caching=impacts_caching, silence_warnings=silence_warnings)
    if 'year_freq' in cond_kwargs:
        self_copy = reself.replace(year_freq=cond_kwargs['year_freq'])
        if self_copy.year_freq != reself.year_freq:
            if not silence_warnings:
                warnings.warn('Changing the year frequency will create a copy of this object. Consider setting it upon object creation to re-use existing cache.', stacklevel=2)
            for alias in reself.self_aliases:
                if alias not in custom_arg_names:
                    cond_kwargs[alias] = self_copy
            cond_kwargs['year_freq'] = self_copy.year_freq
            if impacts_caching:
                cond_kwargs['use_caching'] = False
            return self_copy
    return reself


def stats_defaults__of__ReturnsAccessor(self):
    from vectorbt._settings import settings
    returns_stats_cfg = settings['returns']['stats']
    return merge_dicts(GenericAccessor.stats_defaults.__get__(self), dict(settings=self.defaults), dict(settings=dict(year_freq=self.year_freq)), returns_stats_cfg)


def _metrics__decl__of__ReturnsAccessor():
    return Config(dict(start=dict(title='Start', calc_func=lambda self: self.wrapper.index[0], agg_func=None, check_is_not_grouped=False, tags='wrapper'), end=dict(title='End', calc_func=lambda self: self.wrapper.index[-1], agg_func=None, check_is_not_grouped=False, tags='wrapper'), period=dict(title='Period', calc_func=lambda self: len(self.wrapper.index), apply_to_timedelta=True, agg_func=None, check_is_not_grouped=False, tags='wrapper'), total_return=dict(title='Total Return [%]', calc_func='total', post_calc_func=lambda self, out, settings: out * 100, tags='returns'), benchmark_return=dict(title='Benchmark Return [%]', calc_func='benchmark_rets.vbt.returns.total', post_calc_func=lambda self, out, settings: out * 100, check_has_benchmark_rets=True, tags='returns'), ann_return=dict(title='Annualized Return [%]', calc_func='annualized', post_calc_func=lambda self, out, settings: out * 100, check_has_freq=True, check_has_year_freq=True, tags='returns'), ann_volatility=dict(title='Annualized Volatility [%]', calc_func='annualized_volatility', post_calc_func=lambda self, out, settings: out * 100, check_has_freq=True, check_has_year_freq=True, tags='returns'), max_dd=dict(title='Max Drawdown [%]', calc_func='drawdowns.max_drawdown', post_calc_func=lambda self, out, settings: -out * 100, tags=['returns', 'drawdowns']), max_dd_duration=dict(title='Max Drawdown Duration', calc_func='drawdowns.max_duration', fill_wrap_kwargs=True, tags=['returns', 'drawdowns', 'duration']), sharpe_ratio=dict(title='Sharpe Ratio', calc_func='sharpe_ratio', check_has_freq=True, check_has_year_freq=True, tags='returns'), calmar_ratio=dict(title='Calmar Ratio', calc_func='calmar_ratio', check_has_freq=True, check_has_year_freq=True, tags='returns'), omega_ratio=dict(title='Omega Ratio', calc_func='omega_ratio', check_has_freq=True, check_has_year_freq=True, tags='returns'), sortino_ratio=dict(title='Sortino Ratio', calc_func='sortino_ratio', check_has_freq=True, check_has_year_freq=True, tags='returns'), skew=dict(title='Skew', calc_func='obj.skew', tags='returns'), kurtosis=dict(title='Kurtosis', calc_func='obj.kurtosis', tags='returns'), tail_ratio=dict(title='Tail Ratio', calc_func='tail_ratio', tags='returns'), common_sense_ratio=dict(title='Common Sense Ratio', calc_func='common_sense_ratio', check_has_freq=True, check_has_year_freq=True, tags='returns'), value_at_risk=dict(title='Value at Risk', calc_func='value_at_risk', tags='returns'), alpha=dict(title='Alpha', calc_func='alpha', check_has_freq=True, check_has_year_freq=True, check_has_benchmark_rets=True, tags='returns'), beta=dict(title='Beta', calc_func='beta', check_has_benchmark_rets=True, tags='returns')), copy_kwargs=dict(copy_mode='deep'))


def metrics__of__ReturnsAccessor(self):
    return self._metrics


def plots_defaults__of__ReturnsAccessor(self):
    from vectorbt._settings import settings
    returns_plots_cfg = settings['returns']['plots']
    return merge_dicts(GenericAccessor.plots_defaults.__get__(self), dict(settings=self.defaults), dict(settings=dict(year_freq=self.year_freq)), returns_plots_cfg)


def subplots__of__ReturnsAccessor(self):
    return self._subplots


def __init____of__ReturnsSRAccessor(self, obj, benchmark_rets=None, year_freq=None, defaults=None, **kwargs):
    GenericSRAccessor.__init__(self, obj, **kwargs)
    ReturnsAccessor.__init__(self, obj, benchmark_rets=benchmark_rets, year_freq=year_freq, defaults=defaults, **kwargs)


def plot_cumulative__of__ReturnsSRAccessor(self, benchmark_rets=None, start_value=1, fill_to_benchmark=False, main_kwargs=None, benchmark_kwargs=None, hline_shape_kwargs=None, add_trace_kwargs=None, xref='x', yref='y', fig=None, **layout_kwargs):
    from vectorbt._settings import settings
    plotting_cfg = settings['plotting']
    if fig is None:
        fig = make_figure()
    fig.update_layout(**layout_kwargs)
    x_domain = get_domain(xref, fig)
    if benchmark_rets is None:
        benchmark_rets = self.benchmark_rets
    fill_to_benchmark = fill_to_benchmark and benchmark_rets is not None
    if benchmark_rets is not None:
        benchmark_rets = broadcast_to(benchmark_rets, self.obj)
        if benchmark_kwargs is None:
            benchmark_kwargs = {}
        benchmark_kwargs = merge_dicts(dict(trace_kwargs=dict(line=dict(color=plotting_cfg['color_schema']['gray']), name='Benchmark')), benchmark_kwargs)
        benchmark_cumrets = benchmark_rets.vbt.returns.cumulative(start_value=start_value)
        benchmark_cumrets.vbt.plot(**benchmark_kwargs, add_trace_kwargs=add_trace_kwargs, fig=fig)
    else:
        benchmark_cumrets = None
    if main_kwargs is None:
        main_kwargs = {}
    main_kwargs = merge_dicts(dict(trace_kwargs=dict(line=dict(color=plotting_cfg['color_schema']['purple'])), other_trace_kwargs='hidden'), main_kwargs)
    cumrets = self.cumulative(start_value=start_value)
    if fill_to_benchmark:
        cumrets.vbt.plot_against(benchmark_cumrets, **main_kwargs, add_trace_kwargs=add_trace_kwargs, fig=fig)
    else:
        cumrets.vbt.plot_against(start_value, **main_kwargs, add_trace_kwargs=add_trace_kwargs, fig=fig)
    if hline_shape_kwargs is None:
        hline_shape_kwargs = {}
    fig.add_shape(**merge_dicts(dict(type='line', xref='paper', yref=yref, x0=x_domain[0], y0=start_value, x1=x_domain[1], y1=start_value, line=dict(color='gray', dash='dash')), hline_shape_kwargs))
    return fig


def __init____of__ReturnsDFAccessor(self, obj, benchmark_rets=None, year_freq=None, defaults=None, **kwargs):
    GenericDFAccessor.__init__(self, obj, **kwargs)
    ReturnsAccessor.__init__(self, obj, benchmark_rets=benchmark_rets, year_freq=year_freq, defaults=defaults, **kwargs)
