"""Reviewed reference definitions of vectorbt.labels.generators (functions as name__ref, methods as name__of__Class)."""
from vectorbt import _typing as tp
from vectorbt.indicators.configs import flex_elem_param_config
from vectorbt.indicators.factory import IndicatorFactory
from vectorbt.labels import dispatch
from vectorbt.labels.enums import TrendMode
from vectorbt.labels.generators import FMEAN, FSTD, FMIN, FMAX, _plot, FIXLB, _FIXLB, MEANLB, _MEANLB, LEXLB, _LEXLB, TRENDLB, _TRENDLB, BOLB, _BOLB


def FMEAN__decl():
    return IndicatorFactory(class_name='FMEAN', module_name=__name__, input_names=['close'], param_names=['window', 'ewm'], output_names=['fmean']).from_apply_func(dispatch.future_mean_apply, kwargs_to_args=['wait', 'adjust'], ewm=False, wait=1, adjust=False)


def FSTD__decl():
    return IndicatorFactory(class_name='FSTD', module_name=__name__, input_names=['close'], param_names=['window', 'ewm'], output_names=['fstd']).from_apply_func(dispatch.future_std_apply, kwargs_to_args=['wait', 'adjust', 'ddof'], ewm=False, wait=1, adjust=False, ddof=0)


def FMIN__decl():
    return IndicatorFactory(class_name='FMIN', module_name=__name__, input_names=['close'], param_names=['window'], output_names=['fmin']).from_apply_func(dispatch.future_min_apply, kwargs_to_args=['wait'], wait=1)


def FMAX__decl():
    return IndicatorFactory(class_name='FMAX', module_name=__name__, input_names=['close'], param_names=['window'], output_names=['fmax']).from_apply_func(dispatch.future_max_apply, kwargs_to_args=['wait'], wait=1)


def _plot__ref(self, column=None, **kwargs):
    self_col = self.select_one(column=column, group_by=False)
    return self_col.close.rename('close').vbt.overlay_with_heatmap(self_col.labels.rename('labels'), **kwargs)


def FIXLB__decl():
    return IndicatorFactory(class_name='FIXLB', module_name=__name__, input_names=['close'], param_names=['n'], output_names=['labels']).from_apply_func(dispatch.fixed_labels_apply)


def plot__decl__of___FIXLB():
    return _plot


def MEANLB__decl():
    return IndicatorFactory(class_name='MEANLB', module_name=__name__, input_names=['close'], param_names=['window', 'ewm'], output_names=['labels']).from_apply_func(dispatch.mean_labels_apply, kwargs_to_args=['wait', 'adjust'], ewm=False, wait=1, adjust=False)


def plot__decl__of___MEANLB():
    return _plot


def LEXLB__decl():
    return IndicatorFactory(class_name='LEXLB', module_name=__name__, input_names=['close'], param_names=['pos_th', 'neg_th'], output_names=['labels']).from_apply_func(dispatch.local_extrema_apply, param_settings=dict(pos_th=flex_elem_param_config, neg_th=flex_elem_param_config), pass_flex_2d=True)


def plot__decl__of___LEXLB():
    return _plot


def TRENDLB__decl():
    return IndicatorFactory(class_name='TRENDLB', module_name=__name__, input_names=['close'], param_names=['pos_th', 'neg_th', 'mode'], output_names=['labels']).from_apply_func(dispatch.trend_labels_apply, param_settings=dict(pos_th=flex_elem_param_config, neg_th=flex_elem_param_config, mode=dict(dtype=TrendMode)), pass_flex_2d=True, mode=TrendMode.Binary)


def plot__decl__of___TRENDLB():
    return _plot


def BOLB__decl():
    return IndicatorFactory(class_name='BOLB', module_name=__name__, input_names=['close'], param_names=['window', 'pos_th', 'neg_th'], output_names=['labels']).from_apply_func(dispatch.breakout_labels, param_settings=dict(pos_th=flex_elem_param_config, neg_th=flex_elem_param_config), pass_flex_2d=True, kwargs_to_args=['wait'], pos_th=0.0, neg_th=0.0, wait=1)


def plot__decl__of___BOLB():
    return _plot
