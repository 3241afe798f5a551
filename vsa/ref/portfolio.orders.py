"""Reviewed reference definitions of vectorbt.portfolio.orders (functions as name__ref, methods as name__of__Class)."""
import numpy as np
import plotly.graph_objects as go
from vectorbt import _typing as tp
from vectorbt.base.array_wrapper import ArrayWrapper
from vectorbt.base.reshape_fns import to_2d_array
from vectorbt.portfolio.enums import order_dt, OrderSide
from vectorbt.records.base import Records
from vectorbt.records.decorators import attach_fields, override_field_config
from vectorbt.utils.colors import adjust_lightness
from vectorbt.utils.config import merge_dicts, Config
from vectorbt.utils.figure import make_figure
from vectorbt.portfolio.orders import orders_field_config, orders_attach_field_config, OrdersT, Orders


def orders_field_config__decl():
    return Config(dict(dtype=order_dt, settings=dict(id=dict(title='Order Id'), size=dict(title='Size'), price=dict(title='Price'), fees=dict(title='Fees'), side=dict(title='Side', mapping=OrderSide))), readonly=True, as_attrs=False)


def orders_attach_field_config__decl():
    return Config(dict(side=dict(attach_filters=True)), readonly=True, as_attrs=False)


def field_config__of__Orders(self):
    return self._field_config


def __init____of__Orders(self, wrapper, records_arr, close=None, **kwargs):
    Records.__init__(self, wrapper, records_arr, close=close, **kwargs)
    self._close = close


def indexing_func__of__Orders(self, pd_indexing_func, **kwargs):
    new_wrapper, new_records_arr, group_idxs, col_idxs = Records.indexing_func_meta(self, pd_indexing_func, **kwargs)
    if self.close is not None:
        new_close = new_wrapper.wrap(to_2d_array(self.close)[:, col_idxs], group_by=False)
    else:
        new_close = None
    return self.replace(wrapper=new_wrapper, records_arr=new_records_arr, close=new_close)


def close__of__Orders(self):
    return self._close


def stats_defaults__of__Orders(self):
    from vectorbt._settings import settings
    orders_stats_cfg = settings['orders']['stats']
    return merge_dicts(Records.stats_defaults.__get__(self), orders_stats_cfg)


def _metrics__decl__of__Orders():
    return Config(dict(start=dict(title='Start', calc_func=lambda self: self.wrapper.index[0], agg_func=None, tags='wrapper'), end=dict(title='End', calc_func=lambda self: self.wrapper.index[-1], agg_func=None, tags='wrapper'), period=dict(title='Period', calc_func=lambda self: len(self.wrapper.index), apply_to_timedelta=True, agg_func=None, tags='wrapper'), total_records=dict(title='Total Records', calc_func='count', tags='records'), total_buy_orders=dict(title='Total Buy Orders', calc_func='buy.count', tags=['orders', 'buy']), total_sell_orders=dict(title='Total Sell Orders', calc_func='sell.count', tags=['orders', 'sell']), min_size=dict(title='Min Size', calc_func='size.min', tags=['orders', 'size']), max_size=dict(title='Max Size', calc_func='size.max', tags=['orders', 'size']), avg_size=dict(title='Avg Size', calc_func='size.mean', tags=['orders', 'size']), avg_buy_size=dict(title='Avg Buy Size', calc_func='buy.size.mean', tags=['orders', 'buy', 'size']), avg_sell_size=dict(title='Avg Sell Size', calc_func='sell.size.mean', tags=['orders', 'sell', 'size']), avg_buy_price=dict(title='Avg Buy Price', calc_func='buy.price.mean', tags=['orders', 'buy', 'price']), avg_sell_price=dict(title='Avg Sell Price', calc_func='sell.price.mean', tags=['orders', 'sell', 'price']), total_fees=dict(title='Total Fees', calc_func='fees.sum', tags=['orders', 'fees']), min_fees=dict(title='Min Fees', calc_func='fees.min', tags=['orders', 'fees']), max_fees=dict(title='Max Fees', calc_func='fees.max', tags=['orders', 'fees']), avg_fees=dict(title='Avg Fees', calc_func='fees.mean', tags=['orders', 'fees']), avg_buy_fees=dict(title='Avg Buy Fees', calc_func='buy.fees.mean', tags=['orders', 'buy', 'fees']), avg_sell_fees=dict(title='Avg Sell Fees', calc_func='sell.fees.mean', tags=['orders', 'sell', 'fees'])), copy_kwargs=dict(copy_mode='deep'))


def metrics__of__Orders(self):
    return self._metrics


def plot__of__Orders(self, column=None, close_trace_kwargs=None, buy_trace_kwargs=None, sell_trace_kwargs=None, add_trace_kwargs=None, fig=None, **layout_kwargs):
    from vectorbt._settings import settings
    plotting_cfg = settings['plotting']
    self_col = self.select_one(column=column, group_by=False)
    if close_trace_kwargs is None:
        close_trace_kwargs = {}
    close_trace_kwargs = merge_dicts(dict(line=dict(color=plotting_cfg['color_schema']['blue']), name='Close'), close_trace_kwargs)
    if buy_trace_kwargs is None:
        buy_trace_kwargs = {}
    if sell_trace_kwargs is None:
        sell_trace_kwargs = {}
    if add_trace_kwargs is None:
        add_trace_kwargs = {}
    if fig is None:
        fig = make_figure()
    fig.update_layout(**layout_kwargs)
    if self_col.close is not None:
        fig = self_col.close.vbt.plot(trace_kwargs=close_trace_kwargs, add_trace_kwargs=add_trace_kwargs, fig=fig)
    if self_col.count() > 0:
        id_ = self_col.get_field_arr('id')
        id_title = self_col.get_field_title('id')
        idx = self_col.get_map_field_to_index('idx')
        idx_title = self_col.get_field_title('idx')
        size = self_col.get_field_arr('size')
        size_title = self_col.get_field_title('size')
        fees = self_col.get_field_arr('fees')
        fees_title = self_col.get_field_title('fees')
        price = self_col.get_field_arr('price')
        price_title = self_col.get_field_title('price')
        side = self_col.get_field_arr('side')
        buy_mask = side == OrderSide.Buy
        if buy_mask.any():
            buy_customdata = np.stack((id_[buy_mask], size[buy_mask], fees[buy_mask]), axis=1)
            buy_scatter = go.Scatter(x=idx[buy_mask], y=price[buy_mask], mode='markers', marker=dict(symbol='triangle-up', color=plotting_cfg['contrast_color_schema']['green'], size=8, line=dict(width=1, color=adjust_lightness(plotting_cfg['contrast_color_schema']['green']))), name='Buy', customdata=buy_customdata, hovertemplate=f'{id_title}: %{{customdata[0]}}<br>{idx_title}: %{{x}}<br>{price_title}: %{{y}}<br>{size_title}: %{{customdata[1]:.6f}}<br>{fees_title}: %{{customdata[2]:.6f}}')
            buy_scatter.update(**buy_trace_kwargs)
            fig.add_trace(buy_scatter, **add_trace_kwargs)
        sell_mask = side == OrderSide.Sell
        if sell_mask.any():
            sell_customdata = np.stack((id_[sell_mask], size[sell_mask], fees[sell_mask]), axis=1)
            sell_scatter = go.Scatter(x=idx[sell_mask], y=price[sell_mask], mode='markers', marker=dict(symbol='triangle-down', color=plotting_cfg['contrast_color_schema']['red'], size=8, line=dict(width=1, color=adjust_lightness(plotting_cfg['contrast_color_schema']['red']))), name='Sell', customdata=sell_customdata, hovertemplate=f'{id_title}: %{{customdata[0]}}<br>{idx_title}: %{{x}}<br>{price_title}: %{{y}}<br>{size_title}: %{{customdata[1]:.6f}}<br>{fees_title}: %{{customdata[2]:.6f}}')
            sell_scatter.update(**sell_trace_kwargs)
            fig.add_trace(sell_scatter, **add_trace_kwargs)
    return fig


def plots_defaults__of__Orders(self):
    from vectorbt._settings import settings
    orders_plots_cfg = settings['orders']['plots']
    return merge_dicts(Records.plots_defaults.__get__(self), orders_plots_cfg)


def _subplots__decl__of__Orders():
    return Config(dict(plot=dict(title='Orders', yaxis_kwargs=dict(title='Price'), check_is_not_grouped=True, plot_func='plot', tags='orders')), copy_kwargs=dict(copy_mode='deep'))


def subplots__of__Orders(self):
    return self._subplots
