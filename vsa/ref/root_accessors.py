"""Reviewed reference definitions of vectorbt.root_accessors (functions as name__ref, methods as name__of__Class)."""
import warnings
import pandas as pd
from pandas.core.accessor import DirNamesMixin
from vectorbt import _typing as tp
from vectorbt.generic.accessors import GenericSRAccessor, GenericDFAccessor
from vectorbt.utils.config import Configured
from vectorbt.root_accessors import ParentAccessorT, AccessorT, Accessor, register_accessor, register_series_accessor, register_dataframe_accessor, Vbt_SRAccessor, Vbt_DFAccessor, register_series_vbt_accessor, register_dataframe_vbt_accessor


def __init____of__Accessor(self, name, accessor):
    self._name = name
    self._accessor = accessor


def __get____of__Accessor(self, obj, cls):
    if obj is None:
        return self._accessor
    if isinstance(obj, (pd.Series, pd.DataFrame)):
        accessor_obj = self._accessor(obj)
    elif isinstance(obj, Configured):
        accessor_obj = obj.replace(cls_=self._accessor)
    else:
        accessor_obj = self._accessor(obj.obj)
    return accessor_obj


def register_accessor__ref(name, cls):

    def decorator(accessor):
        if hasattr(cls, name):
            warnings.warn(f'registration of accessor {repr(accessor)} under name {repr(name)} for type {repr(cls)} is overriding a preexisting attribute with the same name.', UserWarning, stacklevel=2)
        setattr(cls, name, Accessor(name, accessor))
        cls._accessors.add(name)
        return accessor
    return decorator


def register_series_accessor__ref(name):
    return register_accessor(name, pd.Series)


def register_dataframe_accessor__ref(name):
    return register_accessor(name, pd.DataFrame)


def __init____of__Vbt_SRAccessor(self, obj, **kwargs):
    self._obj = obj
    DirNamesMixin.__init__(self)
    GenericSRAccessor.__init__(self, obj, **kwargs)


def __init____of__Vbt_DFAccessor(self, obj, **kwargs):
    self._obj = obj
    DirNamesMixin.__init__(self)
    GenericDFAccessor.__init__(self, obj, **kwargs)


def register_series_vbt_accessor__ref(name, parent=Vbt_SRAccessor):
    return register_accessor(name, parent)


def register_dataframe_vbt_accessor__ref(name, parent=Vbt_DFAccessor):
    return register_accessor(name, parent)
