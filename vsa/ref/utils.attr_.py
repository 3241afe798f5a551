"""Reviewed reference definitions of vectorbt.utils.attr_ (functions as name__ref, methods as name__of__Class)."""
import inspect
from collections.abc import Iterable
from vectorbt import _typing as tp
from vectorbt.utils import checks
from vectorbt.utils.config import merge_dicts, get_func_arg_names
from vectorbt.utils.attr_ import get_dict_attr, default_getattr_func, deep_getattr, AttrResolverT, AttrResolver


def get_dict_attr__ref(obj, attr):
    if inspect.isclass(obj):
        cls = obj
    else:
        cls = obj.__class__
    for obj in [obj] + cls.mro():
        if attr in obj.__dict__:
            return obj.__dict__[attr]
    raise AttributeError


def default_getattr_func__ref(obj, attr, args=None, kwargs=None, call_attr=True):
    if args is None:
        args = ()
    if kwargs is None:
        kwargs = {}
    out = getattr(obj, attr)
    if callable(out) and call_attr:
        return out(*args, **kwargs)
    return out


def deep_getattr__ref(obj, attr_chain, getattr_func=default_getattr_func, call_last_attr=True):
    checks.assert_instance_of(attr_chain, (str, tuple, Iterable))
    if isinstance(attr_chain, str):
        if '.' in attr_chain:
            return deep_getattr(obj, attr_chain.split('.'), getattr_func=getattr_func, call_last_attr=call_last_attr)
        return getattr_func(obj, attr_chain, call_attr=call_last_attr)
    if isinstance(attr_chain, tuple):
        if len(attr_chain) == 1 and isinstance(attr_chain[0], str):
            return getattr_func(obj, attr_chain[0])
        if len(attr_chain) == 2 and isinstance(attr_chain[0], str) and isinstance(attr_chain[1], tuple):
            return getattr_func(obj, attr_chain[0], args=attr_chain[1])
        if len(attr_chain) == 3 and isinstance(attr_chain[0], str) and isinstance(attr_chain[1], tuple) and isinstance(attr_chain[2], dict):
            return getattr_func(obj, attr_chain[0], args=attr_chain[1], kwargs=attr_chain[2])
    result = obj
    for i, attr in enumerate(attr_chain):
        if i < len(attr_chain) - 1:
            result = deep_getattr(result, attr, getattr_func=getattr_func, call_last_attr=True)
        else:
            result = deep_getattr(result, attr, getattr_func=getattr_func, call_last_attr=call_last_attr)
    return result


def self_aliases__of__AttrResolver(self):
    return {'self'}


def resolve_self__of__AttrResolver(self, cond_kwargs=None, custom_arg_names=None, impacts_caching=True, silence_warnings=False):
    return self


def pre_resolve_attr__of__AttrResolver(self, attr, final_kwargs=None):
    return attr


def post_resolve_attr__of__AttrResolver(self, attr, out, final_kwargs=None):
    return out


def resolve_attr__of__AttrResolver(self, attr, args=None, cond_kwargs=None, kwargs=None, custom_arg_names=None, cache_dct=None, use_caching=True, passed_kwargs_out=None):
    if custom_arg_names is None:
        custom_arg_names = list()
    if cache_dct is None:
        cache_dct = {}
    if args is None:
        args = ()
    if kwargs is None:
        kwargs = {}
    if passed_kwargs_out is None:
        passed_kwargs_out = {}
    final_kwargs = merge_dicts(cond_kwargs, kwargs)
    cls = type(self)
    _attr = self.pre_resolve_attr(attr, final_kwargs=final_kwargs)
    if 'get_' + attr in dir(cls):
        _attr = 'get_' + attr
    if inspect.ismethod(getattr(cls, _attr)) or inspect.isfunction(getattr(cls, _attr)):
        attr_func = getattr(self, _attr)
        attr_func_kwargs = dict()
        attr_func_arg_names = get_func_arg_names(attr_func)
        custom_k = False
        for k, v in final_kwargs.items():
            if k in attr_func_arg_names or k in kwargs:
                if k in custom_arg_names:
                    custom_k = True
                attr_func_kwargs[k] = v
                passed_kwargs_out[k] = v
        if use_caching and (not custom_k) and (attr in cache_dct):
            out = cache_dct[attr]
        else:
            out = attr_func(*args, **attr_func_kwargs)
            if use_caching and (not custom_k):
                cache_dct[attr] = out
    elif use_caching and attr in cache_dct:
        out = cache_dct[attr]
    else:
        out = getattr(self, _attr)
        if use_caching:
            cache_dct[attr] = out
    out = self.post_resolve_attr(attr, out, final_kwargs=final_kwargs)
    return out


def deep_getattr__of__AttrResolver(self, *args, **kwargs):
    return deep_getattr(self, *args, **kwargs)
