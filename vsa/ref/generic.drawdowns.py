"""Reviewed reference definitions of vectorbt.generic.drawdowns (functions as name__ref, methods as name__of__Class)."""
import numpy as np
import plotly.graph_objects as go
from vectorbt import _typing as tp
from vectorbt.base.array_wrapper import ArrayWrapper
from vectorbt.base.reshape_fns import to_2d_array, to_pd_array
from vectorbt.generic import dispatch
from vectorbt.generic.enums import DrawdownStatus, drawdown_dt
from vectorbt.generic.ranges import Ranges
from vectorbt.records.decorators import override_field_config, attach_fields
from vectorbt.records.mapped_array import MappedArray
from vectorbt.utils.colors import adjust_lightness
from vectorbt.utils.config import merge_dicts, Config
from vectorbt.utils.decorators import cached_property, cached_method
from vectorbt.utils.figure import make_figure, get_domain
from vectorbt.utils.template import RepEval
from vectorbt.generic.drawdowns import dd_field_config, dd_attach_field_config, DrawdownsT, Drawdowns


def dd_field_config__decl():
    return Config(dict(dtype=drawdown_dt, settings=dict(id=dict(title='Drawdown Id'), peak_idx=dict(title='Peak Timestamp', mapping='index'), valley_idx=dict(title='Valley Timestamp', mapping='index'), peak_val=dict(title='Peak Value'), valley_val=dict(title='Valley Value'), end_val=dict(title='End Value'), status=dict(mapping=DrawdownStatus))), readonly=True, as_attrs=False)


def dd_attach_field_config__decl():
    return Config(dict(status=dict(attach_filters=True)), readonly=True, as_attrs=False)


def field_config__of__Drawdowns(self):
    return self._field_config


def __init____of__Drawdowns(self, wrapper, records_arr, ts=None, **kwargs):
    Ranges.__init__(self, wrapper, records_arr, ts=ts, **kwargs)
    self._ts = ts


def indexing_func__of__Drawdowns(self, pd_indexing_func, **kwargs):
    new_wrapper, new_records_arr, _, col_idxs = Ranges.indexing_func_meta(self, pd_indexing_func, **kwargs)
    if self.ts is not None:
        new_ts = new_wrapper.wrap(self.ts.values[:, col_idxs], group_by=False)
    else:
        new_ts = None
    return self.replace(wrapper=new_wrapper, records_arr=new_records_arr, ts=new_ts)


@classmethod
def from_ts__of__Drawdowns(cls, ts, attach_ts=True, wrapper_kwargs=None, engine=None, **kwargs):
    ts_pd = to_pd_array(ts)
    records_arr = dispatch.get_drawdowns(to_2d_array(ts_pd), engine=engine)
    wrapper = ArrayWrapper.from_obj(ts_pd, **merge_dicts({}, wrapper_kwargs))
    return cls(wrapper, records_arr, ts=ts_pd if attach_ts else None, engine=engine, **kwargs)


def ts__of__Drawdowns(self):
    return self._ts


def drawdown__of__Drawdowns(self):
    drawdown = dispatch.dd_drawdown(self.get_field_arr('peak_val'), self.get_field_arr('valley_val'), engine=self.engine)
    return self.map_array(drawdown)


def avg_drawdown__of__Drawdowns(self, group_by=None, wrap_kwargs=None, **kwargs):
    wrap_kwargs = merge_dicts(dict(name_or_index='avg_drawdown'), wrap_kwargs)
    return self.drawdown.mean(group_by=group_by, wrap_kwargs=wrap_kwargs, **kwargs)


def max_drawdown__of__Drawdowns(self, group_by=None, wrap_kwargs=None, **kwargs):
    wrap_kwargs = merge_dicts(dict(name_or_index='max_drawdown'), wrap_kwargs)
    return self.drawdown.min(group_by=group_by, wrap_kwargs=wrap_kwargs, **kwargs)


def recovery_return__of__Drawdowns(self):
    recovery_return = dispatch.dd_recovery_return(self.get_field_arr('valley_val'), self.get_field_arr('end_val'), engine=self.engine)
    return self.map_array(recovery_return)


def avg_recovery_return__of__Drawdowns(self, group_by=None, wrap_kwargs=None, **kwargs):
    wrap_kwargs = merge_dicts(dict(name_or_index='avg_recovery_return'), wrap_kwargs)
    return self.recovery_return.mean(group_by=group_by, wrap_kwargs=wrap_kwargs, **kwargs)


def max_recovery_return__of__Drawdowns(self, group_by=None, wrap_kwargs=None, **kwargs):
    wrap_kwargs = merge_dicts(dict(name_or_index='max_recovery_return'), wrap_kwargs)
    return self.recovery_return.max(group_by=group_by, wrap_kwargs=wrap_kwargs, **kwargs)


def decline_duration__of__Drawdowns(self):
    decline_duration = dispatch.dd_decline_duration(self.get_field_arr('start_idx'), self.get_field_arr('valley_idx'), engine=self.engine)
    return self.map_array(decline_duration)


def recovery_duration__of__Drawdowns(self):
    recovery_duration = dispatch.dd_recovery_duration(self.get_field_arr('valley_idx'), self.get_field_arr('end_idx'), engine=self.engine)
    return self.map_array(recovery_duration)


def recovery_duration_ratio__of__Drawdowns(self):
    recovery_duration_ratio = dispatch.dd_recovery_duration_ratio(self.get_field_arr('start_idx'), self.get_field_arr('valley_idx'), self.get_field_arr('end_idx'), engine=self.engine)
    return self.map_array(recovery_duration_ratio)


def active_drawdown__of__Drawdowns(self, group_by=None, wrap_kwargs=None):
    if self.wrapper.grouper.is_grouped(group_by=group_by):
        raise ValueError('Grouping is not supported by this method')
    wrap_kwargs = merge_dicts(dict(name_or_index='active_drawdown'), wrap_kwargs)
    active = self.active
    curr_end_val = active.end_val.nth(-1, group_by=group_by)
    curr_peak_val = active.peak_val.nth(-1, group_by=group_by)
    curr_drawdown = (curr_end_val - curr_peak_val) / curr_peak_val
    return self.wrapper.wrap_reduced(curr_drawdown, group_by=group_by, **wrap_kwargs)


def active_duration__of__Drawdowns(self, group_by=None, wrap_kwargs=None, **kwargs):
    if self.wrapper.grouper.is_grouped(group_by=group_by):
        raise ValueError('Grouping is not supported by this method')
    wrap_kwargs = merge_dicts(dict(to_timedelta=True, name_or_index='active_duration'), wrap_kwargs)
    return self.active.duration.nth(-1, group_by=group_by, wrap_kwargs=wrap_kwargs, **kwargs)


def active_recovery__of__Drawdowns(self, group_by=None, wrap_kwargs=None):
    if self.wrapper.grouper.is_grouped(group_by=group_by):
        raise ValueError('Grouping is not supported by this method')
    wrap_kwargs = merge_dicts(dict(name_or_index='active_recovery'), wrap_kwargs)
    active = self.active
    curr_peak_val = active.peak_val.nth(-1, group_by=group_by)
    curr_end_val = active.end_val.nth(-1, group_by=group_by)
    curr_valley_val = active.valley_val.nth(-1, group_by=group_by)
    curr_recovery = (curr_end_val - curr_valley_val) / (curr_peak_val - curr_valley_val)
    return self.wrapper.wrap_reduced(curr_recovery, group_by=group_by, **wrap_kwargs)


def active_recovery_return__of__Drawdowns(self, group_by=None, wrap_kwargs=None, **kwargs):
    if self.wrapper.grouper.is_grouped(group_by=group_by):
        raise ValueError('Grouping is not supported by this method')
    wrap_kwargs = merge_dicts(dict(name_or_index='active_recovery_return'), wrap_kwargs)
    return self.active.recovery_return.nth(-1, group_by=group_by, wrap_kwargs=wrap_kwargs, **kwargs)


def active_recovery_duration__of__Drawdowns(self, group_by=None, wrap_kwargs=None, **kwargs):
    if self.wrapper.grouper.is_grouped(group_by=group_by):
        raise ValueError('Grouping is not supported by this method')
    wrap_kwargs = merge_dicts(dict(to_timedelta=True, name_or_index='active_recovery_duration'), wrap_kwargs)
    return self.active.recovery_duration.nth(-1, group_by=group_by, wrap_kwargs=wrap_kwargs, **kwargs)


def stats_defaults__of__Drawdowns(self):
    from vectorbt._settings import settings
    drawdowns_stats_cfg = settings['drawdowns']['stats']
    return merge_dicts(Ranges.stats_defaults.__get__(self), drawdowns_stats_cfg)


def _metrics__decl__of__Drawdowns():
    return Config(dict(start=dict(title='Start', calc_func=lambda self: self.wrapper.index[0], agg_func=None, tags='wrapper'), end=dict(title='End', calc_func=lambda self: self.wrapper.index[-1], agg_func=None, tags='wrapper'), period=dict(title='Period', calc_func=lambda self: len(self.wrapper.index), apply_to_timedelta=True, agg_func=None, tags='wrapper'), coverage=dict(title='Coverage [%]', calc_func='coverage', post_calc_func=lambda self, out, settings: out * 100, tags=['ranges', 'duration']), total_records=dict(title='Total Records', calc_func='count', tags='records'), total_recovered=dict(title='Total Recovered Drawdowns', calc_func='recovered.count', tags='drawdowns'), total_active=dict(title='Total Active Drawdowns', calc_func='active.count', tags='drawdowns'), active_dd=dict(title='Active Drawdown [%]', calc_func='active_drawdown', post_calc_func=lambda self, out, settings: -out * 100, check_is_not_grouped=True, tags=['drawdowns', 'active']), active_duration=dict(title='Active Duration', calc_func='active_duration', fill_wrap_kwargs=True, check_is_not_grouped=True, tags=['drawdowns', 'active', 'duration']), active_recovery=dict(title='Active Recovery [%]', calc_func='active_recovery', post_calc_func=lambda self, out, settings: out * 100, check_is_not_grouped=True, tags=['drawdowns', 'active']), active_recovery_return=dict(title='Active Recovery Return [%]', calc_func='active_recovery_return', post_calc_func=lambda self, out, settings: out * 100, check_is_not_grouped=True, tags=['drawdowns', 'active']), active_recovery_duration=dict(title='Active Recovery Duration', calc_func='active_recovery_duration', fill_wrap_kwargs=True, check_is_not_grouped=True, tags=['drawdowns', 'active', 'duration']), max_dd=dict(title='Max Drawdown [%]', calc_func=RepEval("'max_drawdown' if incl_active else 'recovered.max_drawdown'"), post_calc_func=lambda self, out, settings: -out * 100, tags=RepEval("['drawdowns'] if incl_active else ['drawdowns', 'recovered']")), avg_dd=dict(title='Avg Drawdown [%]', calc_func=RepEval("'avg_drawdown' if incl_active else 'recovered.avg_drawdown'"), post_calc_func=lambda self, out, settings: -out * 100, tags=RepEval("['drawdowns'] if incl_active else ['drawdowns', 'recovered']")), max_dd_duration=dict(title='Max Drawdown Duration', calc_func=RepEval("'max_duration' if incl_active else 'recovered.max_duration'"), fill_wrap_kwargs=True, tags=RepEval("['drawdowns', 'duration'] if incl_active else ['drawdowns', 'recovered', 'duration']")), avg_dd_duration=dict(title='Avg Drawdown Duration', calc_func=RepEval("'avg_duration' if incl_active else 'recovered.avg_duration'"), fill_wrap_kwargs=True, tags=RepEval("['drawdowns', 'duration'] if incl_active else ['drawdowns', 'recovered', 'duration']")), max_return=dict(title='Max Recovery Return [%]', calc_func='recovered.recovery_return.max', post_calc_func=lambda self, out, settings: out * 100, tags=['drawdowns', 'recovered']), avg_return=dict(title='Avg Recovery Return [%]', calc_func='recovered.recovery_return.mean', post_calc_func=lambda self, out, settings: out * 100, tags=['drawdowns', 'recovered']), max_recovery_duration=dict(title='Max Recovery Duration', calc_func='recovered.recovery_duration.max', apply_to_timedelta=True, tags=['drawdowns', 'recovered', 'duration']), avg_recovery_duration=dict(title='Avg Recovery Duration', calc_func='recovered.recovery_duration.mean', apply_to_timedelta=True, tags=['drawdowns', 'recovered', 'duration']), recovery_duration_ratio=dict(title='Avg Recovery Duration Ratio', calc_func='recovered.recovery_duration_ratio.mean', tags=['drawdowns', 'recovered'])), copy_kwargs=dict(copy_mode='deep'))


def metrics__of__Drawdowns(self):
    return self._metrics


def plot__of__Drawdowns(self, column=None, top_n=5, plot_zones=True, ts_trace_kwargs=None, peak_trace_kwargs=None, valley_trace_kwargs=None, recovery_trace_kwargs=None, active_trace_kwargs=None, decline_shape_kwargs=None, recovery_shape_kwargs=None, active_shape_kwargs=None, add_trace_kwargs=None, xref='x', yref='y', fig=None, **layout_kwargs):
    from vectorbt._settings import settings
    plotting_cfg = settings['plotting']
    self_col = self.select_one(column=column, group_by=False)
    if top_n is not None:
        self_col = self_col.apply_mask(self_col.drawdown.bottom_n_mask(top_n))
    if ts_trace_kwargs is None:
        ts_trace_kwargs = {}
    ts_trace_kwargs = merge_dicts(dict(line=dict(color=plotting_cfg['color_schema']['blue'])), ts_trace_kwargs)
    if peak_trace_kwargs is None:
        peak_trace_kwargs = {}
    if valley_trace_kwargs is None:
        valley_trace_kwargs = {}
    if recovery_trace_kwargs is None:
        recovery_trace_kwargs = {}
    if active_trace_kwargs is None:
        active_trace_kwargs = {}
    if decline_shape_kwargs is None:
        decline_shape_kwargs = {}
    if recovery_shape_kwargs is None:
        recovery_shape_kwargs = {}
    if active_shape_kwargs is None:
        active_shape_kwargs = {}
    if add_trace_kwargs is None:
        add_trace_kwargs = {}
    if fig is None:
        fig = make_figure()
    fig.update_layout(**layout_kwargs)
    y_domain = get_domain(yref, fig)
    if self_col.ts is not None:
        fig = self_col.ts.vbt.plot(trace_kwargs=ts_trace_kwargs, add_trace_kwargs=add_trace_kwargs, fig=fig)
    if self_col.count() > 0:
        id_ = self_col.get_field_arr('id')
        id_title = self_col.get_field_title('id')
        peak_idx = self_col.get_map_field_to_index('peak_idx')
        peak_idx_title = self_col.get_field_title('peak_idx')
        if self_col.ts is not None:
            peak_val = self_col.ts.loc[peak_idx]
        else:
            peak_val = self_col.get_field_arr('peak_val')
        peak_val_title = self_col.get_field_title('peak_val')
        valley_idx = self_col.get_map_field_to_index('valley_idx')
        valley_idx_title = self_col.get_field_title('valley_idx')
        if self_col.ts is not None:
            valley_val = self_col.ts.loc[valley_idx]
        else:
            valley_val = self_col.get_field_arr('valley_val')
        valley_val_title = self_col.get_field_title('valley_val')
        end_idx = self_col.get_map_field_to_index('end_idx')
        end_idx_title = self_col.get_field_title('end_idx')
        if self_col.ts is not None:
            end_val = self_col.ts.loc[end_idx]
        else:
            end_val = self_col.get_field_arr('end_val')
        end_val_title = self_col.get_field_title('end_val')
        drawdown = self_col.drawdown.values
        recovery_return = self_col.recovery_return.values
        decline_duration = np.vectorize(str)(self_col.wrapper.to_timedelta(self_col.decline_duration.values, to_pd=True, silence_warnings=True))
        recovery_duration = np.vectorize(str)(self_col.wrapper.to_timedelta(self_col.recovery_duration.values, to_pd=True, silence_warnings=True))
        duration = np.vectorize(str)(self_col.wrapper.to_timedelta(self_col.duration.values, to_pd=True, silence_warnings=True))
        status = self_col.get_field_arr('status')
        peak_mask = peak_idx != np.roll(end_idx, 1)
        if peak_mask.any():
            peak_customdata = id_[peak_mask][:, None]
            peak_scatter = go.Scatter(x=peak_idx[peak_mask], y=peak_val[peak_mask], mode='markers', marker=dict(symbol='diamond', color=plotting_cfg['contrast_color_schema']['blue'], size=7, line=dict(width=1, color=adjust_lightness(plotting_cfg['contrast_color_schema']['blue']))), name='Peak', customdata=peak_customdata, hovertemplate=f'{id_title}: %{{customdata[0]}}<br>{peak_idx_title}: %{{x}}<br>{peak_val_title}: %{{y}}')
            peak_scatter.update(**peak_trace_kwargs)
            fig.add_trace(peak_scatter, **add_trace_kwargs)
        recovered_mask = status == DrawdownStatus.Recovered
        if recovered_mask.any():
            valley_customdata = np.stack((id_[recovered_mask], drawdown[recovered_mask], decline_duration[recovered_mask]), axis=1)
            valley_scatter = go.Scatter(x=valley_idx[recovered_mask], y=valley_val[recovered_mask], mode='markers', marker=dict(symbol='diamond', color=plotting_cfg['contrast_color_schema']['red'], size=7, line=dict(width=1, color=adjust_lightness(plotting_cfg['contrast_color_schema']['red']))), name='Valley', customdata=valley_customdata, hovertemplate=f'{id_title}: %{{customdata[0]}}<br>{valley_idx_title}: %{{x}}<br>{valley_val_title}: %{{y}}<br>Drawdown: %{{customdata[1]:.2%}}<br>Duration: %{{customdata[2]}}')
            valley_scatter.update(**valley_trace_kwargs)
            fig.add_trace(valley_scatter, **add_trace_kwargs)
            if plot_zones:
                for i in range(len(id_[recovered_mask])):
                    fig.add_shape(**merge_dicts(dict(type='rect', xref=xref, yref='paper', x0=peak_idx[recovered_mask][i], y0=y_domain[0], x1=valley_idx[recovered_mask][i], y1=y_domain[1], fillcolor='red', opacity=0.2, layer='below', line_width=0), decline_shape_kwargs))
            recovery_customdata = np.stack((id_[recovered_mask], recovery_return[recovered_mask], recovery_duration[recovered_mask]), axis=1)
            recovery_scatter = go.Scatter(x=end_idx[recovered_mask], y=end_val[recovered_mask], mode='markers', marker=dict(symbol='diamond', color=plotting_cfg['contrast_color_schema']['green'], size=7, line=dict(width=1, color=adjust_lightness(plotting_cfg['contrast_color_schema']['green']))), name='Recovery/Peak', customdata=recovery_customdata, hovertemplate=f'{id_title}: %{{customdata[0]}}<br>{end_idx_title}: %{{x}}<br>{end_val_title}: %{{y}}<br>Return: %{{customdata[1]:.2%}}<br>Duration: %{{customdata[2]}}')
            recovery_scatter.update(**recovery_trace_kwargs)
            fig.add_trace(recovery_scatter, **add_trace_kwargs)
            if plot_zones:
                for i in range(len(id_[recovered_mask])):
                    fig.add_shape(**merge_dicts(dict(type='rect', xref=xref, yref='paper', x0=valley_idx[recovered_mask][i], y0=y_domain[0], x1=end_idx[recovered_mask][i], y1=y_domain[1], fillcolor='green', opacity=0.2, layer='below', line_width=0), recovery_shape_kwargs))
        active_mask = status == DrawdownStatus.Active
        if active_mask.any():
            active_customdata = np.stack((id_[active_mask], drawdown[active_mask], duration[active_mask]), axis=1)
            active_scatter = go.Scatter(x=end_idx[active_mask], y=end_val[active_mask], mode='markers', marker=dict(symbol='diamond', color=plotting_cfg['contrast_color_schema']['orange'], size=7, line=dict(width=1, color=adjust_lightness(plotting_cfg['contrast_color_schema']['orange']))), name='Active', customdata=active_customdata, hovertemplate=f'{id_title}: %{{customdata[0]}}<br>{end_idx_title}: %{{x}}<br>{end_val_title}: %{{y}}<br>Return: %{{customdata[1]:.2%}}<br>Duration: %{{customdata[2]}}')
            active_scatter.update(**active_trace_kwargs)
            fig.add_trace(active_scatter, **add_trace_kwargs)
            if plot_zones:
                for i in range(len(id_[active_mask])):
                    fig.add_shape(**merge_dicts(dict(type='rect', xref=xref, yref='paper', x0=peak_idx[active_mask][i], y0=y_domain[0], x1=end_idx[active_mask][i], y1=y_domain[1], fillcolor='orange', opacity=0.2, layer='below', line_width=0), active_shape_kwargs))
    return fig


def plots_defaults__of__Drawdowns(self):
    from vectorbt._settings import settings
    drawdowns_plots_cfg = settings['drawdowns']['plots']
    return merge_dicts(Ranges.plots_defaults.__get__(self), drawdowns_plots_cfg)


def _subplots__decl__of__Drawdowns():
    return Config(dict(plot=dict(title='Drawdowns', check_is_not_grouped=True, plot_func='plot', tags='drawdowns')), copy_kwargs=dict(copy_mode='deep'))


def subplots__of__Drawdowns(self):
    return self._subplots
