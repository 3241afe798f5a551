"""Reviewed reference definitions of vectorbt.generic.plotting (functions as name__ref, methods as name__of__Class)."""
import math
import numpy as np
import pandas as pd
import plotly.graph_objects as go
from plotly.basedatatypes import BaseTraceType
from vectorbt import _typing as tp
from vectorbt.base import reshape_fns
from vectorbt.utils import checks
from vectorbt.utils.array_ import renormalize
from vectorbt.utils.colors import rgb_from_cmap
from vectorbt.utils.config import Configured, resolve_dict
from vectorbt.utils.figure import make_figure
from vectorbt.generic.plotting import clean_labels, TraceUpdater, Gauge, Bar, Scatter, Histogram, Box, Heatmap, Volume


def clean_labels__ref(labels):
    if isinstance(labels, pd.MultiIndex):
        labels = labels.to_flat_index()
    if len(labels) > 0 and isinstance(labels[0], tuple):
        labels = list(map(str, labels))
    return labels


def __init____of__TraceUpdater(self, fig, traces):
    self._fig = fig
    self._traces = traces


def fig__of__TraceUpdater(self):
    return self._fig


def traces__of__TraceUpdater(self):
    return self._traces


def update__of__TraceUpdater(self, *args, **kwargs):
    raise NotImplementedError


def __init____of__Gauge(self, value=None, label=None, value_range=None, cmap_name='Spectral', trace_kwargs=None, add_trace_kwargs=None, fig=None, **layout_kwargs):
    Configured.__init__(self, value=value, label=label, value_range=value_range, cmap_name=cmap_name, trace_kwargs=trace_kwargs, add_trace_kwargs=add_trace_kwargs, fig=fig, **layout_kwargs)
    from vectorbt._settings import settings
    layout_cfg = settings['plotting']['layout']
    if trace_kwargs is None:
        trace_kwargs = {}
    if add_trace_kwargs is None:
        add_trace_kwargs = {}
    if fig is None:
        fig = make_figure()
        if 'width' in layout_cfg:
            fig.update_layout(width=layout_cfg['width'] * 0.7, height=layout_cfg['width'] * 0.5, margin=dict(t=80))
    fig.update_layout(**layout_kwargs)
    indicator = go.Indicator(domain=dict(x=[0, 1], y=[0, 1]), mode='gauge+number+delta', title=dict(text=label))
    indicator.update(**trace_kwargs)
    fig.add_trace(indicator, **add_trace_kwargs)
    TraceUpdater.__init__(self, fig, (fig.data[-1],))
    self._value_range = value_range
    self._cmap_name = cmap_name
    if value is not None:
        self.update(value)


def value_range__of__Gauge(self):
    return self._value_range


def cmap_name__of__Gauge(self):
    return self._cmap_name


def update__of__Gauge(self, value):
    if self.value_range is None:
        self._value_range = (value, value)
    else:
        self._value_range = (min(self.value_range[0], value), max(self.value_range[1], value))
    with self.fig.batch_update():
        if self.value_range is not None:
            self.traces[0].gauge.axis.range = self.value_range
            if self.cmap_name is not None:
                self.traces[0].gauge.bar.color = rgb_from_cmap(self.cmap_name, value, self.value_range)
        self.traces[0].delta.reference = self.traces[0].value
        self.traces[0].value = value


def __init____of__Bar(self, data=None, trace_names=None, x_labels=None, trace_kwargs=None, add_trace_kwargs=None, fig=None, **layout_kwargs):
    Configured.__init__(self, data=data, trace_names=trace_names, x_labels=x_labels, trace_kwargs=trace_kwargs, add_trace_kwargs=add_trace_kwargs, fig=fig, **layout_kwargs)
    if trace_kwargs is None:
        trace_kwargs = {}
    if add_trace_kwargs is None:
        add_trace_kwargs = {}
    if data is not None:
        data = reshape_fns.to_2d_array(data)
        if trace_names is not None:
            checks.assert_shape_equal(data, trace_names, (1, 0))
    elif trace_names is None:
        raise ValueError('At least data or trace_names must be passed')
    if trace_names is None:
        trace_names = [None] * data.shape[1]
    if isinstance(trace_names, str):
        trace_names = [trace_names]
    if x_labels is not None:
        x_labels = clean_labels(x_labels)
    if fig is None:
        fig = make_figure()
    fig.update_layout(**layout_kwargs)
    for i, trace_name in enumerate(trace_names):
        _trace_kwargs = resolve_dict(trace_kwargs, i=i)
        trace_name = _trace_kwargs.pop('name', trace_name)
        if trace_name is not None:
            trace_name = str(trace_name)
        bar = go.Bar(x=x_labels, name=trace_name, showlegend=trace_name is not None)
        bar.update(**_trace_kwargs)
        fig.add_trace(bar, **add_trace_kwargs)
    TraceUpdater.__init__(self, fig, fig.data[-len(trace_names):])
    if data is not None:
        self.update(data)


def update__of__Bar(self, data):
    data = reshape_fns.to_2d_array(data)
    with self.fig.batch_update():
        for i, bar in enumerate(self.traces):
            bar.y = data[:, i]
            if bar.marker.colorscale is not None:
                bar.marker.color = data[:, i]


def __init____of__Scatter(self, data=None, trace_names=None, x_labels=None, trace_kwargs=None, add_trace_kwargs=None, fig=None, **layout_kwargs):
    Configured.__init__(self, data=data, trace_names=trace_names, x_labels=x_labels, trace_kwargs=trace_kwargs, add_trace_kwargs=add_trace_kwargs, fig=fig, **layout_kwargs)
    if trace_kwargs is None:
        trace_kwargs = {}
    if add_trace_kwargs is None:
        add_trace_kwargs = {}
    if data is not None:
        data = reshape_fns.to_2d_array(data)
        if trace_names is not None:
            checks.assert_shape_equal(data, trace_names, (1, 0))
    elif trace_names is None:
        raise ValueError('At least data or trace_names must be passed')
    if trace_names is None:
        trace_names = [None] * data.shape[1]
    if isinstance(trace_names, str):
        trace_names = [trace_names]
    if x_labels is not None:
        x_labels = clean_labels(x_labels)
    if fig is None:
        fig = make_figure()
    fig.update_layout(**layout_kwargs)
    for i, trace_name in enumerate(trace_names):
        _trace_kwargs = resolve_dict(trace_kwargs, i=i)
        trace_name = _trace_kwargs.pop('name', trace_name)
        if trace_name is not None:
            trace_name = str(trace_name)
        scatter = go.Scatter(x=x_labels, name=trace_name, showlegend=trace_name is not None)
        scatter.update(**_trace_kwargs)
        fig.add_trace(scatter, **add_trace_kwargs)
    TraceUpdater.__init__(self, fig, fig.data[-len(trace_names):])
    if data is not None:
        self.update(data)


def update__of__Scatter(self, data):
    data = reshape_fns.to_2d_array(data)
    with self.fig.batch_update():
        for i, trace in enumerate(self.traces):
            trace.y = data[:, i]


def __init____of__Histogram(self, data=None, trace_names=None, horizontal=False, remove_nan=True, from_quantile=None, to_quantile=None, trace_kwargs=None, add_trace_kwargs=None, fig=None, **layout_kwargs):
    Configured.__init__(self, data=data, trace_names=trace_names, horizontal=horizontal, remove_nan=remove_nan, from_quantile=from_quantile, to_quantile=to_quantile, trace_kwargs=trace_kwargs, add_trace_kwargs=add_trace_kwargs, fig=fig, **layout_kwargs)
    if trace_kwargs is None:
        trace_kwargs = {}
    if add_trace_kwargs is None:
        add_trace_kwargs = {}
    if data is not None:
        data = reshape_fns.to_2d_array(data)
        if trace_names is not None:
            checks.assert_shape_equal(data, trace_names, (1, 0))
    elif trace_names is None:
        raise ValueError('At least data or trace_names must be passed')
    if trace_names is None:
        trace_names = [None] * data.shape[1]
    if isinstance(trace_names, str):
        trace_names = [trace_names]
    if fig is None:
        fig = make_figure()
        fig.update_layout(barmode='overlay')
    fig.update_layout(**layout_kwargs)
    for i, trace_name in enumerate(trace_names):
        _trace_kwargs = resolve_dict(trace_kwargs, i=i)
        trace_name = _trace_kwargs.pop('name', trace_name)
        if trace_name is not None:
            trace_name = str(trace_name)
        hist = go.Histogram(opacity=0.75 if len(trace_names) > 1 else 1, name=trace_name, showlegend=trace_name is not None)
        hist.update(**_trace_kwargs)
        fig.add_trace(hist, **add_trace_kwargs)
    TraceUpdater.__init__(self, fig, fig.data[-len(trace_names):])
    self._horizontal = horizontal
    self._remove_nan = remove_nan
    self._from_quantile = from_quantile
    self._to_quantile = to_quantile
    if data is not None:
        self.update(data)


def horizontal__of__Histogram(self):
    return self._horizontal


def remove_nan__of__Histogram(self):
    return self._remove_nan


def from_quantile__of__Histogram(self):
    return self._from_quantile


def to_quantile__of__Histogram(self):
    return self._to_quantile


def update__of__Histogram(self, data):
    data = reshape_fns.to_2d_array(data)
    with self.fig.batch_update():
        for i, trace in enumerate(self.traces):
            d = data[:, i]
            if self.remove_nan:
                d = d[~np.isnan(d)]
            mask = np.full(d.shape, True)
            if self.from_quantile is not None:
                mask &= d >= np.quantile(d, self.from_quantile)
            if self.to_quantile is not None:
                mask &= d <= np.quantile(d, self.to_quantile)
            d = d[mask]
            if self.horizontal:
                trace.x = None
                trace.y = d
            else:
                trace.x = d
                trace.y = None


def __init____of__Box(self, data=None, trace_names=None, horizontal=False, remove_nan=True, from_quantile=None, to_quantile=None, trace_kwargs=None, add_trace_kwargs=None, fig=None, **layout_kwargs):
    Configured.__init__(self, data=data, trace_names=trace_names, horizontal=horizontal, remove_nan=remove_nan, from_quantile=from_quantile, to_quantile=to_quantile, trace_kwargs=trace_kwargs, add_trace_kwargs=add_trace_kwargs, fig=fig, **layout_kwargs)
    if trace_kwargs is None:
        trace_kwargs = {}
    if add_trace_kwargs is None:
        add_trace_kwargs = {}
    if data is not None:
        data = reshape_fns.to_2d_array(data)
        if trace_names is not None:
            checks.assert_shape_equal(data, trace_names, (1, 0))
    elif trace_names is None:
        raise ValueError('At least data or trace_names must be passed')
    if trace_names is None:
        trace_names = [None] * data.shape[1]
    if isinstance(trace_names, str):
        trace_names = [trace_names]
    if fig is None:
        fig = make_figure()
    fig.update_layout(**layout_kwargs)
    for i, trace_name in enumerate(trace_names):
        _trace_kwargs = resolve_dict(trace_kwargs, i=i)
        trace_name = _trace_kwargs.pop('name', trace_name)
        if trace_name is not None:
            trace_name = str(trace_name)
        box = go.Box(name=trace_name, showlegend=trace_name is not None)
        box.update(**_trace_kwargs)
        fig.add_trace(box, **add_trace_kwargs)
    TraceUpdater.__init__(self, fig, fig.data[-len(trace_names):])
    self._horizontal = horizontal
    self._remove_nan = remove_nan
    self._from_quantile = from_quantile
    self._to_quantile = to_quantile
    if data is not None:
        self.update(data)


def horizontal__of__Box(self):
    return self._horizontal


def remove_nan__of__Box(self):
    return self._remove_nan


def from_quantile__of__Box(self):
    return self._from_quantile


def to_quantile__of__Box(self):
    return self._to_quantile


def update__of__Box(self, data):
    data = reshape_fns.to_2d_array(data)
    with self.fig.batch_update():
        for i, trace in enumerate(self.traces):
            d = data[:, i]
            if self.remove_nan:
                d = d[~np.isnan(d)]
            mask = np.full(d.shape, True)
            if self.from_quantile is not None:
                mask &= d >= np.quantile(d, self.from_quantile)
            if self.to_quantile is not None:
                mask &= d <= np.quantile(d, self.to_quantile)
            d = d[mask]
            if self.horizontal:
                trace.x = d
                trace.y = None
            else:
                trace.x = None
                trace.y = d


def __init____of__Heatmap(self, data=None, x_labels=None, y_labels=None, is_x_category=False, is_y_category=False, trace_kwargs=None, add_trace_kwargs=None, fig=None, **layout_kwargs):
    Configured.__init__(self, data=data, x_labels=x_labels, y_labels=y_labels, trace_kwargs=trace_kwargs, add_trace_kwargs=add_trace_kwargs, fig=fig, **layout_kwargs)
    from vectorbt._settings import settings
    layout_cfg = settings['plotting']['layout']
    if trace_kwargs is None:
        trace_kwargs = {}
    if add_trace_kwargs is None:
        add_trace_kwargs = {}
    if data is not None:
        data = reshape_fns.to_2d_array(data)
        if x_labels is not None:
            checks.assert_shape_equal(data, x_labels, (1, 0))
        if y_labels is not None:
            checks.assert_shape_equal(data, y_labels, (0, 0))
    elif x_labels is None or y_labels is None:
        raise ValueError('At least data, or x_labels and y_labels must be passed')
    if x_labels is not None:
        x_labels = clean_labels(x_labels)
    if y_labels is not None:
        y_labels = clean_labels(y_labels)
    if fig is None:
        fig = make_figure()
        if 'width' in layout_cfg:
            max_width = layout_cfg['width']
            if data is not None:
                x_len = data.shape[1]
                y_len = data.shape[0]
            else:
                x_len = len(x_labels)
                y_len = len(y_labels)
            width = math.ceil(renormalize(x_len / (x_len + y_len), (0, 1), (0.3 * max_width, max_width)))
            width = min(width + 150, max_width)
            height = math.ceil(renormalize(y_len / (x_len + y_len), (0, 1), (0.3 * max_width, max_width)))
            height = min(height, max_width * 0.7)
            fig.update_layout(width=width, height=height)
    heatmap = go.Heatmap(hoverongaps=False, colorscale='Plasma', x=x_labels, y=y_labels)
    heatmap.update(**trace_kwargs)
    fig.add_trace(heatmap, **add_trace_kwargs)
    axis_kwargs = dict()
    if is_x_category:
        if fig.data[-1]['xaxis'] is not None:
            axis_kwargs['xaxis' + fig.data[-1]['xaxis'][1:]] = dict(type='category')
        else:
            axis_kwargs['xaxis'] = dict(type='category')
    if is_y_category:
        if fig.data[-1]['yaxis'] is not None:
            axis_kwargs['yaxis' + fig.data[-1]['yaxis'][1:]] = dict(type='category')
        else:
            axis_kwargs['yaxis'] = dict(type='category')
    fig.update_layout(**axis_kwargs)
    fig.update_layout(**layout_kwargs)
    TraceUpdater.__init__(self, fig, (fig.data[-1],))
    if data is not None:
        self.update(data)


def update__of__Heatmap(self, data):
    data = reshape_fns.to_2d_array(data)
    with self.fig.batch_update():
        self.traces[0].z = data


def __init____of__Volume(self, data=None, x_labels=None, y_labels=None, z_labels=None, trace_kwargs=None, add_trace_kwargs=None, scene_name='scene', fig=None, **layout_kwargs):
    Configured.__init__(self, data=data, x_labels=x_labels, y_labels=y_labels, z_labels=z_labels, trace_kwargs=trace_kwargs, add_trace_kwargs=add_trace_kwargs, scene_name=scene_name, fig=fig, **layout_kwargs)
    from vectorbt._settings import settings
    layout_cfg = settings['plotting']['layout']
    if trace_kwargs is None:
        trace_kwargs = {}
    if add_trace_kwargs is None:
        add_trace_kwargs = {}
    if data is not None:
        checks.assert_ndim(data, 3)
        data = np.asarray(data)
        x_len, y_len, z_len = data.shape
        if x_labels is not None:
            checks.assert_shape_equal(data, x_labels, (0, 0))
        if y_labels is not None:
            checks.assert_shape_equal(data, y_labels, (1, 0))
        if z_labels is not None:
            checks.assert_shape_equal(data, z_labels, (2, 0))
    else:
        if x_labels is None or y_labels is None or z_labels is None:
            raise ValueError('At least data, or x_labels, y_labels and z_labels must be passed')
        x_len = len(x_labels)
        y_len = len(y_labels)
        z_len = len(z_labels)
    if x_labels is None:
        x_labels = np.arange(x_len)
    else:
        x_labels = clean_labels(x_labels)
    if y_labels is None:
        y_labels = np.arange(y_len)
    else:
        y_labels = clean_labels(y_labels)
    if z_labels is None:
        z_labels = np.arange(z_len)
    else:
        z_labels = clean_labels(z_labels)
    x_labels = np.asarray(x_labels)
    y_labels = np.asarray(y_labels)
    z_labels = np.asarray(z_labels)
    if fig is None:
        fig = make_figure()
        if 'width' in layout_cfg:
            fig.update_layout(width=layout_cfg['width'], height=0.7 * layout_cfg['width'])
    more_layout = dict()
    if not np.issubdtype(x_labels.dtype, np.number):
        x_ticktext = x_labels
        x_labels = np.arange(x_len)
        more_layout[scene_name] = dict(xaxis=dict(ticktext=x_ticktext, tickvals=x_labels, tickmode='array'))
    if not np.issubdtype(y_labels.dtype, np.number):
        y_ticktext = y_labels
        y_labels = np.arange(y_len)
        more_layout[scene_name] = dict(yaxis=dict(ticktext=y_ticktext, tickvals=y_labels, tickmode='array'))
    if not np.issubdtype(z_labels.dtype, np.number):
        z_ticktext = z_labels
        z_labels = np.arange(z_len)
        more_layout[scene_name] = dict(zaxis=dict(ticktext=z_ticktext, tickvals=z_labels, tickmode='array'))
    fig.update_layout(**more_layout)
    fig.update_layout(**layout_kwargs)
    x = np.repeat(x_labels, len(y_labels) * len(z_labels))
    y = np.tile(np.repeat(y_labels, len(z_labels)), len(x_labels))
    z = np.tile(z_labels, len(x_labels) * len(y_labels))
    volume = go.Volume(x=x, y=y, z=z, opacity=0.2, surface_count=15, colorscale='Plasma')
    volume.update(**trace_kwargs)
    fig.add_trace(volume, **add_trace_kwargs)
    TraceUpdater.__init__(self, fig, (fig.data[-1],))
    if data is not None:
        self.update(data)


def update__of__Volume(self, data):
    data = np.asarray(data).flatten()
    with self.fig.batch_update():
        self.traces[0].value = data
