"""Reviewed reference definitions of vectorbt.ohlcv_accessors (functions as name__ref, methods as name__of__Class)."""
import numpy as np
import pandas as pd
import plotly.graph_objects as go
from vectorbt import _typing as tp
from vectorbt.generic import dispatch
from vectorbt.generic.accessors import GenericAccessor, GenericDFAccessor
from vectorbt.root_accessors import register_dataframe_vbt_accessor
from vectorbt.utils.config import merge_dicts, Config
from vectorbt.utils.figure import make_figure, make_subplots
from vectorbt.ohlcv_accessors import first_price, last_price, first_volume, last_volume, OHLCVDFAccessor


def first_price__ref(ohlc, engine=None):
    return dispatch.bfill_1d(ohlc.values.flatten(), engine=engine)[0]


def last_price__ref(ohlc, engine=None):
    return dispatch.ffill_1d(ohlc.values.flatten(), engine=engine)[-1]


def first_volume__ref(volume, engine=None):
    return dispatch.bfill_1d(volume.values, engine=engine)[0]


def last_volume__ref(volume, engine=None):
    return dispatch.ffill_1d(volume.values, engine=engine)[-1]


def __init____of__OHLCVDFAccessor(self, obj, column_names=None, **kwargs):
    self._column_names = column_names
    GenericDFAccessor.__init__(self, obj, column_names=column_names, **kwargs)


def column_names__of__OHLCVDFAccessor(self):
    from vectorbt._settings import settings
    ohlcv_cfg = settings['ohlcv']
    return merge_dicts(ohlcv_cfg['column_names'], self._column_names)


def get_column__of__OHLCVDFAccessor(self, col_name):
    df_column_names = self.obj.columns.str.lower().tolist()
    col_name = self.column_names[col_name].lower()
    if col_name not in df_column_names:
        return None
    return self.obj.iloc[:, df_column_names.index(col_name)]


def open__of__OHLCVDFAccessor(self):
    return self.get_column('open')


def high__of__OHLCVDFAccessor(self):
    return self.get_column('high')


def low__of__OHLCVDFAccessor(self):
    return self.get_column('low')


def close__of__OHLCVDFAccessor(self):
    return self.get_column('close')


def ohlc__of__OHLCVDFAccessor(self):
    to_concat = []
    if self.open is not None:
        to_concat.append(self.open)
    if self.high is not None:
        to_concat.append(self.high)
    if self.low is not None:
        to_concat.append(self.low)
    if self.close is not None:
        to_concat.append(self.close)
    if len(to_concat) == 0:
        return None
    return pd.concat(to_concat, axis=1)


def volume__of__OHLCVDFAccessor(self):
    return self.get_column('volume')


def stats_defaults__of__OHLCVDFAccessor(self):
    from vectorbt._settings import settings
    ohlcv_stats_cfg = settings['ohlcv']['stats']
    return merge_dicts(GenericAccessor.stats_defaults.__get__(self), ohlcv_stats_cfg)


def _metrics__decl__of__OHLCVDFAccessor():
    return Config(dict(start=dict(title='Start', calc_func=lambda self: self.wrapper.index[0], agg_func=None, tags='wrapper'), end=dict(title='End', calc_func=lambda self: self.wrapper.index[-1], agg_func=None, tags='wrapper'), period=dict(title='Period', calc_func=lambda self: len(self.wrapper.index), apply_to_timedelta=True, agg_func=None, tags='wrapper'), first_price=dict(title='First Price', calc_func=first_price, resolve_ohlc=True, tags=['ohlcv', 'ohlc']), lowest_price=dict(title='Lowest Price', calc_func=lambda ohlc: ohlc.values.min(), resolve_ohlc=True, tags=['ohlcv', 'ohlc']), highest_price=dict(title='Highest Price', calc_func=lambda ohlc: ohlc.values.max(), resolve_ohlc=True, tags=['ohlcv', 'ohlc']), last_price=dict(title='Last Price', calc_func=last_price, resolve_ohlc=True, tags=['ohlcv', 'ohlc']), first_volume=dict(title='First Volume', calc_func=first_volume, resolve_volume=True, tags=['ohlcv', 'volume']), lowest_volume=dict(title='Lowest Volume', calc_func=lambda volume: volume.values.min(), resolve_volume=True, tags=['ohlcv', 'volume']), highest_volume=dict(title='Highest Volume', calc_func=lambda volume: volume.values.max(), resolve_volume=True, tags=['ohlcv', 'volume']), last_volume=dict(title='Last Volume', calc_func=last_volume, resolve_volume=True, tags=['ohlcv', 'volume'])), copy_kwargs=dict(copy_mode='deep'))


def metrics__of__OHLCVDFAccessor(self):
    return self._metrics


def plot__of__OHLCVDFAccessor(self, plot_type=None, show_volume=None, ohlc_kwargs=None, volume_kwargs=None, ohlc_add_trace_kwargs=None, volume_add_trace_kwargs=None, fig=None, **layout_kwargs):
    from vectorbt._settings import settings
    plotting_cfg = settings['plotting']
    ohlcv_cfg = settings['ohlcv']
    if ohlc_kwargs is None:
        ohlc_kwargs = {}
    if volume_kwargs is None:
        volume_kwargs = {}
    if ohlc_add_trace_kwargs is None:
        ohlc_add_trace_kwargs = {}
    if volume_add_trace_kwargs is None:
        volume_add_trace_kwargs = {}
    if show_volume is None:
        show_volume = self.volume is not None
    if show_volume:
        ohlc_add_trace_kwargs = merge_dicts(dict(row=1, col=1), ohlc_add_trace_kwargs)
        volume_add_trace_kwargs = merge_dicts(dict(row=2, col=1), volume_add_trace_kwargs)
    if fig is None:
        if show_volume:
            fig = make_subplots(rows=2, cols=1, shared_xaxes=True, vertical_spacing=0, row_heights=[0.7, 0.3])
        else:
            fig = make_figure()
        fig.update_layout(showlegend=True, xaxis=dict(rangeslider_visible=False, showgrid=True), yaxis=dict(showgrid=True))
        if show_volume:
            fig.update_layout(xaxis2=dict(showgrid=True), yaxis2=dict(showgrid=True), bargap=0)
    fig.update_layout(**layout_kwargs)
    if plot_type is None:
        plot_type = ohlcv_cfg['plot_type']
    if isinstance(plot_type, str):
        if plot_type.lower() == 'ohlc':
            plot_type = 'OHLC'
            plot_obj = go.Ohlc
        elif plot_type.lower() == 'candlestick':
            plot_type = 'Candlestick'
            plot_obj = go.Candlestick
        else:
            raise ValueError("Plot type can be either 'OHLC' or 'Candlestick'")
    else:
        plot_obj = plot_type
    ohlc = plot_obj(x=self.wrapper.index, open=self.open, high=self.high, low=self.low, close=self.close, name=plot_type, increasing=dict(line=dict(color=plotting_cfg['color_schema']['increasing'])), decreasing=dict(line=dict(color=plotting_cfg['color_schema']['decreasing'])))
    ohlc.update(**ohlc_kwargs)
    fig.add_trace(ohlc, **ohlc_add_trace_kwargs)
    if show_volume:
        marker_colors = np.empty(self.volume.shape, dtype=object)
        marker_colors[self.close.values - self.open.values > 0] = plotting_cfg['color_schema']['increasing']
        marker_colors[self.close.values - self.open.values == 0] = plotting_cfg['color_schema']['gray']
        marker_colors[self.close.values - self.open.values < 0] = plotting_cfg['color_schema']['decreasing']
        volume_bar = go.Bar(x=self.wrapper.index, y=self.volume, marker=dict(color=marker_colors, line_width=0), opacity=0.5, name='Volume')
        volume_bar.update(**volume_kwargs)
        fig.add_trace(volume_bar, **volume_add_trace_kwargs)
    return fig


def plots_defaults__of__OHLCVDFAccessor(self):
    from vectorbt._settings import settings
    ohlcv_plots_cfg = settings['ohlcv']['plots']
    return merge_dicts(GenericAccessor.plots_defaults.__get__(self), ohlcv_plots_cfg)


def _subplots__decl__of__OHLCVDFAccessor():
    return Config(dict(plot=dict(title='OHLC', xaxis_kwargs=dict(showgrid=True, rangeslider_visible=False), yaxis_kwargs=dict(showgrid=True), check_is_not_grouped=True, plot_func='plot', show_volume=False, tags='ohlcv')), copy_kwargs=dict(copy_mode='deep'))


def subplots__of__OHLCVDFAccessor(self):
    return self._subplots
