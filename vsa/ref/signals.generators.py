"""Reviewed reference definitions of vectorbt.signals.generators (functions as name__ref, methods as name__of__Class)."""
import numpy as np
import plotly.graph_objects as go
from vectorbt import _typing as tp
from vectorbt.indicators.configs import flex_col_param_config, flex_elem_param_config
from vectorbt.signals import dispatch
from vectorbt.signals.enums import StopType
from vectorbt.signals.factory import SignalFactory
from vectorbt.utils.config import Config
from vectorbt.utils.figure import make_figure
from vectorbt.signals.generators import RAND, _RAND, RANDX, _RANDX, RANDNX, _RANDNX, RPROB, _RPROB, rprobx_config, rprobx_func_config, RPROBX, _RPROBX, RPROBCX, _RPROBCX, RPROBNX, _RPROBNX, stx_config, stx_func_config, STX, _STX, STCX, _STCX, ohlcstx_config, ohlcstx_func_config, OHLCSTX, _bind_ohlcstx_plot, _OHLCSTX, OHLCSTCX, _OHLCSTCX


def RAND__decl():
    return SignalFactory(class_name='RAND', module_name=__name__, short_name='rand', mode='entries', param_names=['n']).from_apply_func(dispatch.rand_apply, require_input_shape=True, param_settings=dict(n=flex_col_param_config), pass_seed=True, seed=None)


def RANDX__decl():
    return SignalFactory(class_name='RANDX', module_name=__name__, short_name='randx', mode='exits').from_apply_func(dispatch.rand_ex_apply, pass_seed=True, wait=1, until_next=True, skip_until_exit=False, seed=None)


def RANDNX__decl():
    return SignalFactory(class_name='RANDNX', module_name=__name__, short_name='randnx', mode='both', param_names=['n']).from_apply_func(dispatch.rand_enex_apply, require_input_shape=True, param_settings=dict(n=flex_col_param_config), pass_seed=True, entry_wait=1, exit_wait=1, seed=None)


def RPROB__decl():
    return SignalFactory(class_name='RPROB', module_name=__name__, short_name='rprob', mode='entries', param_names=['prob']).from_apply_func(dispatch.rand_by_prob_apply, require_input_shape=True, pass_flex_2d=True, param_settings=dict(prob=flex_elem_param_config), pass_seed=True, pick_first=False, seed=None)


def rprobx_config__decl():
    return Config(dict(class_name='RPROBX', module_name=__name__, short_name='rprobx', mode='exits', param_names=['prob']))


def rprobx_func_config__decl():
    return Config(dict(pass_flex_2d=True, param_settings=dict(prob=flex_elem_param_config), pass_seed=True, wait=1, until_next=True, skip_until_exit=False, seed=None))


def RPROBX__decl():
    return SignalFactory(**rprobx_config).from_apply_func(dispatch.rand_ex_by_prob_apply, **rprobx_func_config)


def RPROBCX__decl():
    return SignalFactory(**rprobx_config.merge_with(dict(class_name='RPROBCX', short_name='rprobcx', mode='chain'))).from_apply_func(dispatch.rand_chain_by_prob_apply, **rprobx_func_config)


def RPROBNX__decl():
    return SignalFactory(class_name='RPROBNX', module_name=__name__, short_name='rprobnx', mode='both', param_names=['entry_prob', 'exit_prob']).from_apply_func(dispatch.rand_enex_by_prob_apply, require_input_shape=True, pass_flex_2d=True, param_settings=dict(entry_prob=flex_elem_param_config, exit_prob=flex_elem_param_config), pass_seed=True, entry_wait=1, exit_wait=1, entry_pick_first=True, exit_pick_first=True, seed=None)


def stx_config__decl():
    return Config(dict(class_name='STX', module_name=__name__, short_name='stx', mode='exits', input_names=['ts'], param_names=['stop', 'trailing']))


def stx_func_config__decl():
    return Config(dict(pass_flex_2d=True, param_settings=dict(stop=flex_elem_param_config, trailing=flex_elem_param_config), trailing=False, wait=1, until_next=True, skip_until_exit=False, pick_first=True))


def STX__decl():
    return SignalFactory(**stx_config).from_apply_func(dispatch.stop_ex_apply, **stx_func_config)


def STCX__decl():
    return SignalFactory(**stx_config.merge_with(dict(class_name='STCX', short_name='stcx', mode='chain'))).from_apply_func(dispatch.stop_enex_apply, **stx_func_config)


def ohlcstx_config__decl():
    return Config(dict(class_name='OHLCSTX', module_name=__name__, short_name='ohlcstx', mode='exits', input_names=['open', 'high', 'low', 'close'], in_output_names=['stop_price', 'stop_type'], param_names=['sl_stop', 'sl_trail', 'tp_stop', 'reverse'], attr_settings=dict(stop_type=dict(dtype=StopType))))


def ohlcstx_func_config__decl():
    return Config(dict(pass_flex_2d=True, in_output_settings=dict(stop_price=dict(dtype=np.float64), stop_type=dict(dtype=np.int64)), param_settings=dict(sl_stop=flex_elem_param_config, sl_trail=flex_elem_param_config, tp_stop=flex_elem_param_config, reverse=flex_elem_param_config), sl_stop=np.nan, sl_trail=False, tp_stop=np.nan, reverse=False, stop_price=np.nan, stop_type=-1, is_open_safe=True, wait=1, until_next=True, skip_until_exit=False, pick_first=True))


def OHLCSTX__decl():
    return SignalFactory(**ohlcstx_config).from_apply_func(dispatch.ohlc_stop_ex_apply, **ohlcstx_func_config)


def _bind_ohlcstx_plot__ref(base_cls, entries_attr):
    base_cls_plot = base_cls.plot

    def plot(self, plot_type=None, ohlc_kwargs=None, entry_trace_kwargs=None, exit_trace_kwargs=None, add_trace_kwargs=None, fig=None, _base_cls_plot=base_cls_plot, **layout_kwargs):
        from vectorbt._settings import settings
        ohlcv_cfg = settings['ohlcv']
        plotting_cfg = settings['plotting']
        if self.wrapper.ndim > 1:
            raise TypeError('Select a column first. Use indexing.')
        if ohlc_kwargs is None:
            ohlc_kwargs = {}
        if add_trace_kwargs is None:
            add_trace_kwargs = {}
        if fig is None:
            fig = make_figure()
            fig.update_layout(showlegend=True, xaxis_rangeslider_visible=False, xaxis_showgrid=True, yaxis_showgrid=True)
        fig.update_layout(**layout_kwargs)
        if plot_type is None:
            plot_type = ohlcv_cfg['plot_type']
        if isinstance(plot_type, str):
            if plot_type.lower() == 'ohlc':
                plot_type = 'OHLC'
                plot_obj = go.Ohlc
            elif plot_type.lower() == 'candlestick':
                plot_type = 'Candlestick'
                plot_obj = go.Candlestick
            else:
                raise ValueError("Plot type can be either 'OHLC' or 'Candlestick'")
        else:
            plot_obj = plot_type
        ohlc = plot_obj(x=self.wrapper.index, open=self.open, high=self.high, low=self.low, close=self.close, name=plot_type, increasing=dict(line=dict(color=plotting_cfg['color_schema']['increasing'])), decreasing=dict(line=dict(color=plotting_cfg['color_schema']['decreasing'])))
        ohlc.update(**ohlc_kwargs)
        fig.add_trace(ohlc, **add_trace_kwargs)
        _base_cls_plot(self, entry_y=self.open, exit_y=self.stop_price, exit_types=self.stop_type_readable, entry_trace_kwargs=entry_trace_kwargs, exit_trace_kwargs=exit_trace_kwargs, add_trace_kwargs=add_trace_kwargs, fig=fig)
        return fig
    plot.__doc__ = "Plot OHLC, `{0}.{1}` and `{0}.exits`.\n    \n    Args:\n        plot_type: Either 'OHLC', 'Candlestick' or Plotly trace.\n        ohlc_kwargs (dict): Keyword arguments passed to `plot_type`.\n        entry_trace_kwargs (dict): Keyword arguments passed to         `vectorbt.signals.accessors.SignalsSRAccessor.plot_as_entry_markers` for `{0}.{1}`.\n        exit_trace_kwargs (dict): Keyword arguments passed to         `vectorbt.signals.accessors.SignalsSRAccessor.plot_as_exit_markers` for `{0}.exits`.\n        fig (Figure or FigureWidget): Figure to add traces to.\n        **layout_kwargs: Keyword arguments for layout.".format(base_cls.__name__, entries_attr)
    if entries_attr == 'entries':
        plot.__doc__ += '\n    Usage:\n        ```pycon\n        >>> ohlcstx.iloc[:, 0].plot()\n        ```\n        \n        ![](/assets/images/OHLCSTX.svg)\n    '
    return plot


def plot__decl__of___OHLCSTX():
    return _bind_ohlcstx_plot(OHLCSTX, 'entries')


def OHLCSTCX__decl():
    return SignalFactory(**ohlcstx_config.merge_with(dict(class_name='OHLCSTCX', short_name='ohlcstcx', mode='chain'))).from_apply_func(dispatch.ohlc_stop_enex_apply, **ohlcstx_func_config)


def plot__decl__of___OHLCSTCX():
    return _bind_ohlcstx_plot(OHLCSTCX, 'new_entries')
