"""Reviewed reference definitions of vectorbt.indicators.basic (functions as name__ref, methods as name__of__Class)."""
import numpy as np
import plotly.graph_objects as go
from vectorbt import _typing as tp
from vectorbt.generic import dispatch as generic_dispatch
from vectorbt.indicators import dispatch
from vectorbt.indicators.factory import IndicatorFactory
from vectorbt.utils.colors import adjust_opacity
from vectorbt.utils.config import merge_dicts
from vectorbt.utils.figure import make_figure
from vectorbt.indicators.basic import MA, _MA, MSTD, _MSTD, BBANDS, _BBANDS, RSI, _RSI, STOCH, _STOCH, MACD, _MACD, ATR, _ATR, OBV, _OBV


def MA__decl():
    return IndicatorFactory(class_name='MA', module_name=__name__, short_name='ma', input_names=['close'], param_names=['window', 'ewm'], output_names=['ma']).from_apply_func(dispatch.ma_apply, cache_func=dispatch.ma_cache, kwargs_to_args=['adjust'], ewm=False, adjust=False)


def plot__of___MA(self, column=None, plot_close=True, close_trace_kwargs=None, ma_trace_kwargs=None, add_trace_kwargs=None, fig=None, **layout_kwargs):
    from vectorbt._settings import settings
    plotting_cfg = settings['plotting']
    self_col = self.select_one(column=column)
    if fig is None:
        fig = make_figure()
    fig.update_layout(**layout_kwargs)
    if close_trace_kwargs is None:
        close_trace_kwargs = {}
    if ma_trace_kwargs is None:
        ma_trace_kwargs = {}
    close_trace_kwargs = merge_dicts(dict(name='Close', line=dict(color=plotting_cfg['color_schema']['blue'])), close_trace_kwargs)
    ma_trace_kwargs = merge_dicts(dict(name='MA'), ma_trace_kwargs)
    if plot_close:
        fig = self_col.close.vbt.plot(trace_kwargs=close_trace_kwargs, add_trace_kwargs=add_trace_kwargs, fig=fig)
    fig = self_col.ma.vbt.plot(trace_kwargs=ma_trace_kwargs, add_trace_kwargs=add_trace_kwargs, fig=fig)
    return fig


def MSTD__decl():
    return IndicatorFactory(class_name='MSTD', module_name=__name__, short_name='mstd', input_names=['close'], param_names=['window', 'ewm'], output_names=['mstd']).from_apply_func(dispatch.mstd_apply, cache_func=dispatch.mstd_cache, kwargs_to_args=['adjust', 'ddof'], ewm=False, adjust=False, ddof=0)


def plot__of___MSTD(self, column=None, mstd_trace_kwargs=None, add_trace_kwargs=None, fig=None, **layout_kwargs):
    self_col = self.select_one(column=column)
    if fig is None:
        fig = make_figure()
    fig.update_layout(**layout_kwargs)
    if mstd_trace_kwargs is None:
        mstd_trace_kwargs = {}
    mstd_trace_kwargs = merge_dicts(dict(name='MSTD'), mstd_trace_kwargs)
    fig = self_col.mstd.vbt.plot(trace_kwargs=mstd_trace_kwargs, add_trace_kwargs=add_trace_kwargs, fig=fig)
    return fig


def BBANDS__decl():
    return IndicatorFactory(class_name='BBANDS', module_name=__name__, short_name='bb', input_names=['close'], param_names=['window', 'ewm', 'alpha'], output_names=['middle', 'upper', 'lower'], custom_output_props=dict(percent_b=lambda self: self.wrapper.wrap((self.close.values - self.lower.values) / (self.upper.values - self.lower.values)), bandwidth=lambda self: self.wrapper.wrap((self.upper.values - self.lower.values) / self.middle.values))).from_apply_func(dispatch.bb_apply, cache_func=dispatch.bb_cache, kwargs_to_args=['adjust', 'ddof'], window=20, ewm=False, alpha=2, adjust=False, ddof=0)


def plot__of___BBANDS(self, column=None, plot_close=True, close_trace_kwargs=None, middle_trace_kwargs=None, upper_trace_kwargs=None, lower_trace_kwargs=None, add_trace_kwargs=None, fig=None, **layout_kwargs):
    from vectorbt._settings import settings
    plotting_cfg = settings['plotting']
    self_col = self.select_one(column=column)
    if fig is None:
        fig = make_figure()
    fig.update_layout(**layout_kwargs)
    if close_trace_kwargs is None:
        close_trace_kwargs = {}
    if middle_trace_kwargs is None:
        middle_trace_kwargs = {}
    if upper_trace_kwargs is None:
        upper_trace_kwargs = {}
    if lower_trace_kwargs is None:
        lower_trace_kwargs = {}
    lower_trace_kwargs = merge_dicts(dict(name='Lower Band', line=dict(color=adjust_opacity(plotting_cfg['color_schema']['gray'], 0.75))), lower_trace_kwargs)
    upper_trace_kwargs = merge_dicts(dict(name='Upper Band', line=dict(color=adjust_opacity(plotting_cfg['color_schema']['gray'], 0.75)), fill='tonexty', fillcolor='rgba(128, 128, 128, 0.2)'), upper_trace_kwargs)
    middle_trace_kwargs = merge_dicts(dict(name='Middle Band'), middle_trace_kwargs)
    close_trace_kwargs = merge_dicts(dict(name='Close', line=dict(color=plotting_cfg['color_schema']['blue'])), close_trace_kwargs)
    fig = self_col.lower.vbt.plot(trace_kwargs=lower_trace_kwargs, add_trace_kwargs=add_trace_kwargs, fig=fig)
    fig = self_col.upper.vbt.plot(trace_kwargs=upper_trace_kwargs, add_trace_kwargs=add_trace_kwargs, fig=fig)
    fig = self_col.middle.vbt.plot(trace_kwargs=middle_trace_kwargs, add_trace_kwargs=add_trace_kwargs, fig=fig)
    if plot_close:
        fig = self_col.close.vbt.plot(trace_kwargs=close_trace_kwargs, add_trace_kwargs=add_trace_kwargs, fig=fig)
    return fig


def RSI__decl():
    return IndicatorFactory(class_name='RSI', module_name=__name__, short_name='rsi', input_names=['close'], param_names=['window', 'ewm'], output_names=['rsi']).from_apply_func(dispatch.rsi_apply, cache_func=dispatch.rsi_cache, kwargs_to_args=['adjust'], window=14, ewm=False, adjust=False)


def plot__of___RSI(self, column=None, levels=(30, 70), rsi_trace_kwargs=None, add_trace_kwargs=None, xref='x', yref='y', fig=None, **layout_kwargs):
    self_col = self.select_one(column=column)
    if fig is None:
        fig = make_figure()
    default_layout = dict()
    default_layout['yaxis' + yref[1:]] = dict(range=[-5, 105])
    fig.update_layout(**default_layout)
    fig.update_layout(**layout_kwargs)
    if rsi_trace_kwargs is None:
        rsi_trace_kwargs = {}
    rsi_trace_kwargs = merge_dicts(dict(name='RSI'), rsi_trace_kwargs)
    fig = self_col.rsi.vbt.plot(trace_kwargs=rsi_trace_kwargs, add_trace_kwargs=add_trace_kwargs, fig=fig)
    fig.add_shape(type='rect', xref=xref, yref=yref, x0=self_col.rsi.index[0], y0=levels[0], x1=self_col.rsi.index[-1], y1=levels[1], fillcolor='purple', opacity=0.2, layer='below', line_width=0)
    return fig


def STOCH__decl():
    return IndicatorFactory(class_name='STOCH', module_name=__name__, short_name='stoch', input_names=['high', 'low', 'close'], param_names=['k_window', 'd_window', 'd_ewm'], output_names=['percent_k', 'percent_d']).from_apply_func(dispatch.stoch_apply, cache_func=dispatch.stoch_cache, kwargs_to_args=['adjust'], k_window=14, d_window=3, d_ewm=False, adjust=False)


def plot__of___STOCH(self, column=None, levels=(30, 70), percent_k_trace_kwargs=None, percent_d_trace_kwargs=None, shape_kwargs=None, add_trace_kwargs=None, xref='x', yref='y', fig=None, **layout_kwargs):
    self_col = self.select_one(column=column)
    if fig is None:
        fig = make_figure()
    default_layout = dict()
    default_layout['yaxis' + yref[1:]] = dict(range=[-5, 105])
    fig.update_layout(**default_layout)
    fig.update_layout(**layout_kwargs)
    if percent_k_trace_kwargs is None:
        percent_k_trace_kwargs = {}
    if percent_d_trace_kwargs is None:
        percent_d_trace_kwargs = {}
    if shape_kwargs is None:
        shape_kwargs = {}
    percent_k_trace_kwargs = merge_dicts(dict(name='%K'), percent_k_trace_kwargs)
    percent_d_trace_kwargs = merge_dicts(dict(name='%D'), percent_d_trace_kwargs)
    fig = self_col.percent_k.vbt.plot(trace_kwargs=percent_k_trace_kwargs, add_trace_kwargs=add_trace_kwargs, fig=fig)
    fig = self_col.percent_d.vbt.plot(trace_kwargs=percent_d_trace_kwargs, add_trace_kwargs=add_trace_kwargs, fig=fig)
    shape_kwargs = merge_dicts(dict(type='rect', xref=xref, yref=yref, x0=self_col.percent_k.index[0], y0=levels[0], x1=self_col.percent_k.index[-1], y1=levels[1], fillcolor='purple', opacity=0.2, layer='below', line_width=0), shape_kwargs)
    fig.add_shape(**shape_kwargs)
    return fig


def MACD__decl():
    return IndicatorFactory(class_name='MACD', module_name=__name__, short_name='macd', input_names=['close'], param_names=['fast_window', 'slow_window', 'signal_window', 'macd_ewm', 'signal_ewm'], output_names=['macd', 'signal'], custom_output_props=dict(hist=lambda self: self.wrapper.wrap(self.macd.values - self.signal.values))).from_apply_func(dispatch.macd_apply, cache_func=dispatch.macd_cache, kwargs_to_args=['adjust'], fast_window=12, slow_window=26, signal_window=9, macd_ewm=False, signal_ewm=False, adjust=False)


def plot__of___MACD(self, column=None, macd_trace_kwargs=None, signal_trace_kwargs=None, hist_trace_kwargs=None, add_trace_kwargs=None, fig=None, engine=None, **layout_kwargs):
    self_col = self.select_one(column=column)
    if fig is None:
        fig = make_figure()
        fig.update_layout(bargap=0)
    fig.update_layout(**layout_kwargs)
    if macd_trace_kwargs is None:
        macd_trace_kwargs = {}
    if signal_trace_kwargs is None:
        signal_trace_kwargs = {}
    if hist_trace_kwargs is None:
        hist_trace_kwargs = {}
    macd_trace_kwargs = merge_dicts(dict(name='MACD'), macd_trace_kwargs)
    signal_trace_kwargs = merge_dicts(dict(name='Signal'), signal_trace_kwargs)
    hist_trace_kwargs = merge_dicts(dict(name='Histogram'), hist_trace_kwargs)
    fig = self_col.macd.vbt.plot(trace_kwargs=macd_trace_kwargs, add_trace_kwargs=add_trace_kwargs, fig=fig)
    fig = self_col.signal.vbt.plot(trace_kwargs=signal_trace_kwargs, add_trace_kwargs=add_trace_kwargs, fig=fig)
    hist = self_col.hist.values
    hist_diff = generic_dispatch.diff_1d(hist, engine=engine)
    marker_colors = np.full(hist.shape, adjust_opacity('silver', 0.75), dtype=object)
    marker_colors[(hist > 0) & (hist_diff > 0)] = adjust_opacity('green', 0.75)
    marker_colors[(hist > 0) & (hist_diff <= 0)] = adjust_opacity('lightgreen', 0.75)
    marker_colors[(hist < 0) & (hist_diff < 0)] = adjust_opacity('red', 0.75)
    marker_colors[(hist < 0) & (hist_diff >= 0)] = adjust_opacity('lightcoral', 0.75)
    hist_bar = go.Bar(x=self_col.hist.index, y=self_col.hist.values, marker_color=marker_colors, marker_line_width=0)
    hist_bar.update(**hist_trace_kwargs)
    if add_trace_kwargs is None:
        add_trace_kwargs = {}
    fig.add_trace(hist_bar, **add_trace_kwargs)
    return fig


def ATR__decl():
    return IndicatorFactory(class_name='ATR', module_name=__name__, short_name='atr', input_names=['high', 'low', 'close'], param_names=['window', 'ewm'], output_names=['tr', 'atr']).from_apply_func(dispatch.atr_apply, cache_func=dispatch.atr_cache, kwargs_to_args=['adjust'], window=14, ewm=True, adjust=False)


def plot__of___ATR(self, column=None, tr_trace_kwargs=None, atr_trace_kwargs=None, add_trace_kwargs=None, fig=None, **layout_kwargs):
    self_col = self.select_one(column=column)
    if fig is None:
        fig = make_figure()
    fig.update_layout(**layout_kwargs)
    if tr_trace_kwargs is None:
        tr_trace_kwargs = {}
    if atr_trace_kwargs is None:
        atr_trace_kwargs = {}
    tr_trace_kwargs = merge_dicts(dict(name='TR'), tr_trace_kwargs)
    atr_trace_kwargs = merge_dicts(dict(name='ATR'), atr_trace_kwargs)
    fig = self_col.tr.vbt.plot(trace_kwargs=tr_trace_kwargs, add_trace_kwargs=add_trace_kwargs, fig=fig)
    fig = self_col.atr.vbt.plot(trace_kwargs=atr_trace_kwargs, add_trace_kwargs=add_trace_kwargs, fig=fig)
    return fig


def OBV__decl():
    return IndicatorFactory(class_name='OBV', module_name=__name__, short_name='obv', input_names=['close', 'volume'], param_names=[], output_names=['obv']).from_custom_func(dispatch.obv_custom)


def plot__of___OBV(self, column=None, obv_trace_kwargs=None, add_trace_kwargs=None, fig=None, **layout_kwargs):
    self_col = self.select_one(column=column)
    if fig is None:
        fig = make_figure()
    fig.update_layout(**layout_kwargs)
    if obv_trace_kwargs is None:
        obv_trace_kwargs = {}
    obv_trace_kwargs = merge_dicts(dict(name='OBV'), obv_trace_kwargs)
    fig = self_col.obv.vbt.plot(trace_kwargs=obv_trace_kwargs, add_trace_kwargs=add_trace_kwargs, fig=fig)
    return fig
