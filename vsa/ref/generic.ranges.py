"""Reviewed reference definitions of vectorbt.generic.ranges (functions as name__ref, methods as name__of__Class)."""
import numpy as np
import plotly.graph_objects as go
from vectorbt import _typing as tp
from vectorbt.base.array_wrapper import ArrayWrapper
from vectorbt.base.reshape_fns import to_pd_array, to_2d_array
from vectorbt.generic import dispatch
from vectorbt.generic.enums import RangeStatus, range_dt
from vectorbt.records.base import Records
from vectorbt.records.decorators import override_field_config, attach_fields
from vectorbt.records.mapped_array import MappedArray
from vectorbt.utils.colors import adjust_lightness
from vectorbt.utils.config import merge_dicts, Config
from vectorbt.utils.decorators import cached_property, cached_method
from vectorbt.utils.figure import make_figure, get_domain
from vectorbt.generic.ranges import ranges_field_config, ranges_attach_field_config, RangesT, Ranges


def ranges_field_config__decl():
    return Config(dict(dtype=range_dt, settings=dict(id=dict(title='Range Id'), idx=dict(name='end_idx'), start_idx=dict(title='Start Timestamp', mapping='index'), end_idx=dict(title='End Timestamp', mapping='index'), status=dict(title='Status', mapping=RangeStatus))), readonly=True, as_attrs=False)


def ranges_attach_field_config__decl():
    return Config(dict(status=dict(attach_filters=True)), readonly=True, as_attrs=False)


def field_config__of__Ranges(self):
    return self._field_config


def __init____of__Ranges(self, wrapper, records_arr, ts=None, **kwargs):
    Records.__init__(self, wrapper, records_arr, ts=ts, **kwargs)
    self._ts = ts


def indexing_func__of__Ranges(self, pd_indexing_func, **kwargs):
    new_wrapper, new_records_arr, _, col_idxs = Records.indexing_func_meta(self, pd_indexing_func, **kwargs)
    if self.ts is not None:
        new_ts = new_wrapper.wrap(self.ts.values[:, col_idxs], group_by=False)
    else:
        new_ts = None
    return self.replace(wrapper=new_wrapper, records_arr=new_records_arr, ts=new_ts)


@classmethod
def from_ts__of__Ranges(cls, ts, gap_value=None, attach_ts=True, wrapper_kwargs=None, engine=None, **kwargs):
    if wrapper_kwargs is None:
        wrapper_kwargs = {}
    ts_pd = to_pd_array(ts)
    ts_arr = to_2d_array(ts_pd)
    if gap_value is None:
        if np.issubdtype(ts_arr.dtype, np.bool_):
            gap_value = False
        elif np.issubdtype(ts_arr.dtype, np.integer):
            gap_value = -1
        else:
            gap_value = np.nan
    records_arr = dispatch.find_ranges(ts_arr, gap_value, engine=engine)
    wrapper = ArrayWrapper.from_obj(ts_pd, **wrapper_kwargs)
    return cls(wrapper, records_arr, ts=ts_pd if attach_ts else None, engine=engine, **kwargs)


def ts__of__Ranges(self):
    return self._ts


def to_mask__of__Ranges(self, group_by=None, wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    col_map = self.col_mapper.get_col_map(group_by=group_by)
    mask = dispatch.ranges_to_mask(self.get_field_arr('start_idx'), self.get_field_arr('end_idx'), self.get_field_arr('status'), col_map, len(self.wrapper.index), engine=engine)
    return self.wrapper.wrap(mask, group_by=group_by, **merge_dicts({}, wrap_kwargs))


def duration__of__Ranges(self):
    duration = dispatch.range_duration(self.get_field_arr('start_idx'), self.get_field_arr('end_idx'), self.get_field_arr('status'), engine=self.engine)
    return self.map_array(duration)


def avg_duration__of__Ranges(self, group_by=None, wrap_kwargs=None, **kwargs):
    wrap_kwargs = merge_dicts(dict(to_timedelta=True, name_or_index='avg_duration'), wrap_kwargs)
    return self.duration.mean(group_by=group_by, wrap_kwargs=wrap_kwargs, **kwargs)


def max_duration__of__Ranges(self, group_by=None, wrap_kwargs=None, **kwargs):
    wrap_kwargs = merge_dicts(dict(to_timedelta=True, name_or_index='max_duration'), wrap_kwargs)
    return self.duration.max(group_by=group_by, wrap_kwargs=wrap_kwargs, **kwargs)


def coverage__of__Ranges(self, overlapping=False, normalize=True, group_by=None, wrap_kwargs=None, engine=None):
    engine = engine if engine is not None else self.engine
    col_map = self.col_mapper.get_col_map(group_by=group_by)
    index_lens = self.wrapper.grouper.get_group_lens(group_by=group_by) * self.wrapper.shape[0]
    coverage = dispatch.range_coverage(self.get_field_arr('start_idx'), self.get_field_arr('end_idx'), self.get_field_arr('status'), col_map, index_lens, overlapping=overlapping, normalize=normalize, engine=engine)
    wrap_kwargs = merge_dicts(dict(name_or_index='coverage'), wrap_kwargs)
    return self.wrapper.wrap_reduced(coverage, group_by=group_by, **wrap_kwargs)


def stats_defaults__of__Ranges(self):
    from vectorbt._settings import settings
    ranges_stats_cfg = settings['ranges']['stats']
    return merge_dicts(Records.stats_defaults.__get__(self), ranges_stats_cfg)


def _metrics__decl__of__Ranges():
    return Config(dict(start=dict(title='Start', calc_func=lambda self: self.wrapper.index[0], agg_func=None, tags='wrapper'), end=dict(title='End', calc_func=lambda self: self.wrapper.index[-1], agg_func=None, tags='wrapper'), period=dict(title='Period', calc_func=lambda self: len(self.wrapper.index), apply_to_timedelta=True, agg_func=None, tags='wrapper'), coverage=dict(title='Coverage', calc_func='coverage', overlapping=False, normalize=False, apply_to_timedelta=True, tags=['ranges', 'coverage']), overlap_coverage=dict(title='Overlap Coverage', calc_func='coverage', overlapping=True, normalize=False, apply_to_timedelta=True, tags=['ranges', 'coverage']), total_records=dict(title='Total Records', calc_func='count', tags='records'), duration=dict(title='Duration', calc_func='duration.describe', post_calc_func=lambda self, out, settings: {'Min': out.loc['min'], 'Median': out.loc['50%'], 'Max': out.loc['max'], 'Mean': out.loc['mean'], 'Std': out.loc['std']}, apply_to_timedelta=True, tags=['ranges', 'duration'])), copy_kwargs=dict(copy_mode='deep'))


def metrics__of__Ranges(self):
    return self._metrics


def plot__of__Ranges(self, column=None, top_n=5, plot_zones=True, ts_trace_kwargs=None, start_trace_kwargs=None, end_trace_kwargs=None, open_shape_kwargs=None, closed_shape_kwargs=None, add_trace_kwargs=None, xref='x', yref='y', fig=None, **layout_kwargs):
    from vectorbt._settings import settings
    plotting_cfg = settings['plotting']
    self_col = self.select_one(column=column, group_by=False)
    if top_n is not None:
        self_col = self_col.apply_mask(self_col.duration.top_n_mask(top_n))
    if ts_trace_kwargs is None:
        ts_trace_kwargs = {}
    ts_trace_kwargs = merge_dicts(dict(line=dict(color=plotting_cfg['color_schema']['blue'])), ts_trace_kwargs)
    if start_trace_kwargs is None:
        start_trace_kwargs = {}
    if end_trace_kwargs is None:
        end_trace_kwargs = {}
    if open_shape_kwargs is None:
        open_shape_kwargs = {}
    if closed_shape_kwargs is None:
        closed_shape_kwargs = {}
    if add_trace_kwargs is None:
        add_trace_kwargs = {}
    if fig is None:
        fig = make_figure()
    fig.update_layout(**layout_kwargs)
    y_domain = get_domain(yref, fig)
    if self_col.ts is not None:
        fig = self_col.ts.vbt.plot(trace_kwargs=ts_trace_kwargs, add_trace_kwargs=add_trace_kwargs, fig=fig)
    if self_col.count() > 0:
        id_ = self_col.get_field_arr('id')
        id_title = self_col.get_field_title('id')
        start_idx = self_col.get_map_field_to_index('start_idx')
        start_idx_title = self_col.get_field_title('start_idx')
        if self_col.ts is not None:
            start_val = self_col.ts.loc[start_idx]
        else:
            start_val = np.full(len(start_idx), 0)
        end_idx = self_col.get_map_field_to_index('end_idx')
        end_idx_title = self_col.get_field_title('end_idx')
        if self_col.ts is not None:
            end_val = self_col.ts.loc[end_idx]
        else:
            end_val = np.full(len(end_idx), 0)
        duration = np.vectorize(str)(self_col.wrapper.to_timedelta(self_col.duration.values, to_pd=True, silence_warnings=True))
        status = self_col.get_field_arr('status')
        start_customdata = id_[:, None]
        start_scatter = go.Scatter(x=start_idx, y=start_val, mode='markers', marker=dict(symbol='diamond', color=plotting_cfg['contrast_color_schema']['blue'], size=7, line=dict(width=1, color=adjust_lightness(plotting_cfg['contrast_color_schema']['blue']))), name='Start', customdata=start_customdata, hovertemplate=f'{id_title}: %{{customdata[0]}}<br>{start_idx_title}: %{{x}}')
        start_scatter.update(**start_trace_kwargs)
        fig.add_trace(start_scatter, **add_trace_kwargs)
        closed_mask = status == RangeStatus.Closed
        if closed_mask.any():
            closed_end_customdata = np.stack((id_[closed_mask], duration[closed_mask]), axis=1)
            closed_end_scatter = go.Scatter(x=end_idx[closed_mask], y=end_val[closed_mask], mode='markers', marker=dict(symbol='diamond', color=plotting_cfg['contrast_color_schema']['green'], size=7, line=dict(width=1, color=adjust_lightness(plotting_cfg['contrast_color_schema']['green']))), name='Closed', customdata=closed_end_customdata, hovertemplate=f'{id_title}: %{{customdata[0]}}<br>{end_idx_title}: %{{x}}<br>Duration: %{{customdata[1]}}')
            closed_end_scatter.update(**end_trace_kwargs)
            fig.add_trace(closed_end_scatter, **add_trace_kwargs)
            if plot_zones:
                for i in range(len(id_[closed_mask])):
                    fig.add_shape(**merge_dicts(dict(type='rect', xref=xref, yref='paper', x0=start_idx[closed_mask][i], y0=y_domain[0], x1=end_idx[closed_mask][i], y1=y_domain[1], fillcolor='teal', opacity=0.2, layer='below', line_width=0), closed_shape_kwargs))
        open_mask = status == RangeStatus.Open
        if open_mask.any():
            open_end_customdata = np.stack((id_[open_mask], duration[open_mask]), axis=1)
            open_end_scatter = go.Scatter(x=end_idx[open_mask], y=end_val[open_mask], mode='markers', marker=dict(symbol='diamond', color=plotting_cfg['contrast_color_schema']['orange'], size=7, line=dict(width=1, color=adjust_lightness(plotting_cfg['contrast_color_schema']['orange']))), name='Open', customdata=open_end_customdata, hovertemplate=f'{id_title}: %{{customdata[0]}}<br>{end_idx_title}: %{{x}}<br>Duration: %{{customdata[1]}}')
            open_end_scatter.update(**end_trace_kwargs)
            fig.add_trace(open_end_scatter, **add_trace_kwargs)
            if plot_zones:
                for i in range(len(id_[open_mask])):
                    fig.add_shape(**merge_dicts(dict(type='rect', xref=xref, yref='paper', x0=start_idx[open_mask][i], y0=y_domain[0], x1=end_idx[open_mask][i], y1=y_domain[1], fillcolor='orange', opacity=0.2, layer='below', line_width=0), open_shape_kwargs))
    return fig


def plots_defaults__of__Ranges(self):
    from vectorbt._settings import settings
    ranges_plots_cfg = settings['ranges']['plots']
    return merge_dicts(Records.plots_defaults.__get__(self), ranges_plots_cfg)


def _subplots__decl__of__Ranges():
    return Config(dict(plot=dict(title='Ranges', check_is_not_grouped=True, plot_func='plot', tags='ranges')), copy_kwargs=dict(copy_mode='deep'))


def subplots__of__Ranges(self):
    return self._subplots
