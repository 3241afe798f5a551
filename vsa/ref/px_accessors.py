"""Reviewed reference definitions of vectorbt.px_accessors (functions as name__ref, methods as name__of__Class)."""
from inspect import getmembers, isfunction
import pandas as pd
import plotly.express as px
from vectorbt import _typing as tp
from vectorbt.base.accessors import BaseAccessor, BaseDFAccessor, BaseSRAccessor
from vectorbt.base.reshape_fns import to_2d_array
from vectorbt.generic.plotting import clean_labels
from vectorbt.root_accessors import register_dataframe_vbt_accessor, register_series_vbt_accessor
from vectorbt.utils import checks
from vectorbt.utils.config import merge_dicts
from vectorbt.utils.figure import make_figure
from vectorbt.px_accessors import attach_px_methods, PXAccessor, PXSRAccessor, PXDFAccessor


def attach_px_methods__ref(cls):
    for px_func_name, px_func in getmembers(px, isfunction):
        if checks.func_accepts_arg(px_func, 'data_frame') or px_func_name == 'imshow':

            def plot_func(self, *args, _px_func_name=px_func_name, _px_func=px_func, **kwargs):
                from vectorbt._settings import settings
                layout_cfg = settings['plotting']['layout']
                layout_kwargs = dict(template=kwargs.pop('template', layout_cfg['template']), width=kwargs.pop('width', layout_cfg['width']), height=kwargs.pop('height', layout_cfg['height']))
                if 'color' in kwargs:
                    if isinstance(kwargs['color'], str):
                        if isinstance(self.obj, pd.DataFrame):
                            if kwargs['color'] in self.obj.columns:
                                category_orders = dict()
                                category_orders[kwargs['color']] = sorted(self.obj[kwargs['color']].unique())
                                kwargs = merge_dicts(dict(category_orders=category_orders), kwargs)
                obj = self.obj.copy(deep=False)
                if isinstance(obj, pd.Series):
                    if obj.name is not None:
                        obj = obj.rename(str(obj.name))
                else:
                    obj.columns = clean_labels(obj.columns)
                obj.index = clean_labels(obj.index)
                if _px_func_name == 'imshow':
                    return make_figure(_px_func(to_2d_array(obj), *args, **layout_kwargs, **kwargs), layout=layout_kwargs)
                return make_figure(_px_func(obj, *args, **layout_kwargs, **kwargs), layout=layout_kwargs)
            setattr(cls, px_func_name, plot_func)
    return cls


def __init____of__PXAccessor(self, obj, **kwargs):
    BaseAccessor.__init__(self, obj, **kwargs)


def __init____of__PXSRAccessor(self, obj, **kwargs):
    BaseSRAccessor.__init__(self, obj, **kwargs)
    PXAccessor.__init__(self, obj, **kwargs)


def __init____of__PXDFAccessor(self, obj, **kwargs):
    BaseDFAccessor.__init__(self, obj, **kwargs)
    PXAccessor.__init__(self, obj, **kwargs)
