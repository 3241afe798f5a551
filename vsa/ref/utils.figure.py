"""Reviewed reference definitions of vectorbt.utils.figure (functions as name__ref, methods as name__of__Class)."""
from plotly.graph_objects import Figure as _Figure, FigureWidget as _FigureWidget
from plotly.subplots import make_subplots as _make_subplots
from vectorbt import _typing as tp
from vectorbt.utils.config import merge_dicts
from vectorbt.utils.figure import get_domain, FigureMixin, Figure, FigureWidget, make_figure, make_subplots


def get_domain__ref(ref, fig):
    axis = ref[0] + 'axis' + ref[1:]
    if axis in fig.layout:
        if 'domain' in fig.layout[axis]:
            if fig.layout[axis]['domain'] is not None:
                return fig.layout[axis]['domain']
    return (0, 1)


def show__of__FigureMixin(self, *args, **kwargs):
    raise NotImplementedError


def show_png__of__FigureMixin(self, **kwargs):
    self.show(renderer='png', **kwargs)


def show_svg__of__FigureMixin(self, **kwargs):
    self.show(renderer='svg', **kwargs)


def __init____of__Figure(self, *args, **kwargs):
    from vectorbt._settings import settings
    plotting_cfg = settings['plotting']
    layout = kwargs.pop('layout', {})
    super().__init__(*args, **kwargs)
    self.update_layout(**merge_dicts(plotting_cfg['layout'], layout))


def show__of__Figure(self, *args, **kwargs):
    from vectorbt._settings import settings
    plotting_cfg = settings['plotting']
    fig_kwargs = dict(width=self.layout.width, height=self.layout.height)
    show_kwargs = merge_dicts(fig_kwargs, plotting_cfg['show_kwargs'], kwargs)
    _Figure.show(self, *args, **show_kwargs)


def __init____of__FigureWidget(self, *args, **kwargs):
    from vectorbt._settings import settings
    plotting_cfg = settings['plotting']
    layout = kwargs.pop('layout', {})
    super().__init__(*args, **kwargs)
    self.update_layout(**merge_dicts(plotting_cfg['layout'], layout))


def show__of__FigureWidget(self, *args, **kwargs):
    from vectorbt._settings import settings
    plotting_cfg = settings['plotting']
    fig_kwargs = dict(width=self.layout.width, height=self.layout.height)
    show_kwargs = merge_dicts(fig_kwargs, plotting_cfg['show_kwargs'], kwargs)
    _Figure.show(self, *args, **show_kwargs)


def make_figure__ref(*args, **kwargs):
    from vectorbt._settings import settings
    plotting_cfg = settings['plotting']
    if plotting_cfg['use_widgets']:
        return FigureWidget(*args, **kwargs)
    return Figure(*args, **kwargs)


def make_subplots__ref(*args, **kwargs):
    return make_figure(_make_subplots(*args, **kwargs))
