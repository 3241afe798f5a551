"""Reviewed reference definitions of vectorbt.utils.decorators (functions as name__ref, methods as name__of__Class)."""
import inspect
from functools import wraps, lru_cache
from threading import RLock
import numpy as np
from vectorbt import _typing as tp
from vectorbt.utils import checks
from vectorbt.utils.config import Config
from vectorbt.utils.decorators import class_or_instancemethod, classproperty, class_or_instanceproperty, custom_propertyT, custom_property, CacheCondition, should_cache, _NOT_FOUND, cached_property, custom_methodT, custom_method, cached_methodT, cached_method, WrapperFuncT, binary_magic_config, BinaryTranslateFuncT, attach_binary_magic_methods, unary_magic_config, UnaryTranslateFuncT, attach_unary_magic_methods


def __get____of__class_or_instancemethod(self, instance, owner=None):
    descr_get = super().__get__ if instance is None else self.__func__.__get__
    return descr_get(instance, owner)


def __init____of__classproperty(self, func):
    self.func = func
    self.__doc__ = getattr(func, '__doc__')


def __get____of__classproperty(self, instance, owner=None):
    return self.func(owner)


def __set____of__classproperty(self, instance, value):
    raise AttributeError("can't set attribute")


def __init____of__class_or_instanceproperty(self, func):
    self.func = func
    self.__doc__ = getattr(func, '__doc__')


def __get____of__class_or_instanceproperty(self, instance, owner=None):
    if instance is None:
        return self.func(owner)
    return self.func(instance)


def __set____of__class_or_instanceproperty(self, instance, value):
    raise AttributeError("can't set attribute")


def __new____of__custom_property(cls, *args, **flags):
    if len(args) == 0:
        return lambda func: cls(func, **flags)
    elif len(args) == 1:
        return super().__new__(cls)
    raise ValueError('Either function or keyword arguments must be passed')


def __init____of__custom_property(self, func, **flags):
    self.func = func
    self.name = func.__name__
    self.flags = flags
    self.__doc__ = getattr(func, '__doc__')


def __get____of__custom_property(self, instance, owner=None):
    if instance is None:
        return self
    return self.func(instance)


def __set____of__custom_property(self, instance, value):
    raise AttributeError("can't set attribute")


def __call____of__custom_property(self, *args, **kwargs):
    pass


def instance__decl__of__CacheCondition():
    return None


def func__decl__of__CacheCondition():
    return None


def cls__decl__of__CacheCondition():
    return None


def base_cls__decl__of__CacheCondition():
    return None


def flags__decl__of__CacheCondition():
    return None


def rank__decl__of__CacheCondition():
    return None


def should_cache__ref(func_name, instance, func=None, **flags):
    from vectorbt._settings import settings
    caching_cfg = settings['caching']
    start_rank = 100

    def _get_condition_rank(cond):
        checks.assert_instance_of(cond, CacheCondition)
        if cond.instance is not None:
            if instance is not cond.instance:
                return start_rank
        if cond.func is not None:
            if isinstance(cond.func, cached_property):
                if func != cond.func.func:
                    return start_rank
            elif callable(cond.func) and hasattr(func, 'func') and hasattr(cond.func, 'func'):
                if func.func != cond.func.func:
                    return start_rank
            elif isinstance(cond.func, str):
                if func_name != cond.func:
                    return start_rank
            else:
                raise TypeError(f'Caching condition {cond}: func must be either a callable or a string')
        if cond.cls is not None:
            if inspect.isclass(cond.cls):
                if type(instance) != cond.cls:
                    return start_rank
            elif isinstance(cond.cls, str):
                if type(instance).__name__ != cond.cls:
                    return start_rank
            else:
                raise TypeError(f'Caching condition {cond}: cls must be either a class or a string')
        if cond.base_cls is not None:
            if inspect.isclass(cond.base_cls) or isinstance(cond.base_cls, str):
                if not checks.is_instance_of(instance, cond.base_cls):
                    return start_rank
            else:
                raise TypeError(f'Caching condition {cond}: base_cls must be either a class or a string')
        if cond.flags is not None:
            if not isinstance(cond.flags, dict):
                raise TypeError(f'Caching condition {cond}: flags must be a dict')
            for k, v in cond.flags.items():
                if k not in flags or flags[k] != v:
                    return start_rank
        if cond.rank is not None:
            if not isinstance(cond.rank, int):
                raise TypeError(f'Caching condition {cond}: rank must be an integer')
            ranks = [cond.rank for _ in range(12)]
        else:
            ranks = list(range(12))
        if cond.instance is not None and cond.func is not None:
            return ranks[0]
        if cond.instance is not None and cond.flags is not None:
            return ranks[1]
        if cond.instance is not None:
            return ranks[2]
        if cond.cls is not None and cond.func is not None:
            return ranks[3]
        if cond.cls is not None and cond.flags is not None:
            return ranks[4]
        if cond.cls is not None:
            return ranks[5]
        if cond.base_cls is not None and cond.func is not None:
            return ranks[6]
        if cond.base_cls is not None and cond.flags is not None:
            return ranks[7]
        if cond.base_cls is not None:
            return ranks[8]
        if cond.func is not None and cond.flags is not None:
            return ranks[9]
        if cond.func is not None:
            return ranks[10]
        if cond.flags is not None:
            return ranks[11]
        return start_rank
    white_rank = start_rank
    if len(caching_cfg['whitelist']) > 0:
        for cond in caching_cfg['whitelist']:
            white_rank = min(white_rank, _get_condition_rank(cond))
    black_rank = start_rank
    if len(caching_cfg['blacklist']) > 0:
        for cond in caching_cfg['blacklist']:
            black_rank = min(black_rank, _get_condition_rank(cond))
    if white_rank == black_rank:
        return caching_cfg['enabled']
    return white_rank < black_rank


def __init____of__cached_property(self, func, **flags):
    super().__init__(func, **flags)
    self.lock = RLock()


def clear_cache__of__cached_property(self, instance):
    if hasattr(instance, self.attrname):
        delattr(instance, self.attrname)


def attrname__of__cached_property(self):
    return '__cached_' + self.name


def __set_name____of__cached_property(self, owner, name):
    self.name = name


def __get____of__cached_property(self, instance, owner=None):
    if instance is None:
        return self
    if not should_cache(self.name, instance, func=self.func, **self.flags):
        return super().__get__(instance, owner=owner)
    cache = instance.__dict__
    val = cache.get(self.attrname, _NOT_FOUND)
    if val is _NOT_FOUND:
        with self.lock:
            val = cache.get(self.attrname, _NOT_FOUND)
            if val is _NOT_FOUND:
                val = self.func(instance)
                cache[self.attrname] = val
    return val


def __call____of__cached_property(self, *args, **kwargs):
    ...


def __call____of__custom_methodT(self, *args, **kwargs):
    ...


def custom_method__ref(*args, **flags):

    def decorator(func):

        @wraps(func)
        def wrapper(*args, **kwargs):
            return func(*args, **kwargs)
        wrapper.func = func
        wrapper.flags = flags
        return wrapper
    if len(args) == 0:
        return decorator
    elif len(args) == 1:
        return decorator(args[0])
    raise ValueError('Either function or keyword arguments must be passed')


def __call____of__cached_methodT(self, *args, **kwargs):
    ...


def cached_method__ref(*args, maxsize=128, typed=True, **flags):

    def decorator(func):

        @wraps(func)
        def wrapper(instance, *args, **kwargs):

            def partial_func(*args, **kwargs):
                return func(instance, *args, **kwargs)
            _func = None
            if hasattr(instance, wrapper.name):
                _func = getattr(instance, wrapper.name)
            if not should_cache(wrapper.name, instance, func=_func, **wrapper.flags):
                return func(instance, *args, **kwargs)
            cache = instance.__dict__
            cached_func = cache.get(wrapper.attrname, _NOT_FOUND)
            if cached_func is _NOT_FOUND:
                with wrapper.lock:
                    cached_func = cache.get(wrapper.attrname, _NOT_FOUND)
                    if cached_func is _NOT_FOUND:
                        cached_func = lru_cache(maxsize=wrapper.maxsize, typed=wrapper.typed)(partial_func)
                        cache[wrapper.attrname] = cached_func
            hashable = True
            for arg in args:
                if not checks.is_hashable(arg):
                    hashable = False
                    break
            for k, v in kwargs.items():
                if not checks.is_hashable(v):
                    hashable = False
                    break
            if not hashable:
                return func(instance, *args, **kwargs)
            return cached_func(*args, **kwargs)

        def clear_cache(instance):
            if hasattr(instance, wrapper.attrname):
                delattr(instance, wrapper.attrname)
        wrapper.func = func
        wrapper.flags = flags
        wrapper.maxsize = maxsize
        wrapper.typed = typed
        wrapper.name = func.__name__
        wrapper.attrname = '__cached_' + func.__name__
        wrapper.lock = RLock()
        wrapper.clear_cache = clear_cache
        return wrapper
    if len(args) == 0:
        return decorator
    elif len(args) == 1:
        return decorator(args[0])
    raise ValueError('Either function or keyword arguments must be passed')


def binary_magic_config__decl():
    return Config({'__eq__': dict(func=np.equal), '__ne__': dict(func=np.not_equal), '__lt__': dict(func=np.less), '__gt__': dict(func=np.greater), '__le__': dict(func=np.less_equal), '__ge__': dict(func=np.greater_equal), '__add__': dict(func=np.add), '__sub__': dict(func=np.subtract), '__mul__': dict(func=np.multiply), '__pow__': dict(func=np.power), '__mod__': dict(func=np.mod), '__floordiv__': dict(func=np.floor_divide), '__truediv__': dict(func=np.true_divide), '__radd__': dict(func=lambda x, y: np.add(y, x)), '__rsub__': dict(func=lambda x, y: np.subtract(y, x)), '__rmul__': dict(func=lambda x, y: np.multiply(y, x)), '__rpow__': dict(func=lambda x, y: np.power(y, x)), '__rmod__': dict(func=lambda x, y: np.mod(y, x)), '__rfloordiv__': dict(func=lambda x, y: np.floor_divide(y, x)), '__rtruediv__': dict(func=lambda x, y: np.true_divide(y, x)), '__and__': dict(func=np.bitwise_and), '__or__': dict(func=np.bitwise_or), '__xor__': dict(func=np.bitwise_xor), '__rand__': dict(func=lambda x, y: np.bitwise_and(y, x)), '__ror__': dict(func=lambda x, y: np.bitwise_or(y, x)), '__rxor__': dict(func=lambda x, y: np.bitwise_xor(y, x))}, readonly=True, as_attrs=False)


def attach_binary_magic_methods__ref(translate_func, config=None):
    if config is None:
        config = binary_magic_config

    def wrapper(cls):
        for target_name, settings in config.items():
            func = settings['func']

            def new_method(self, other, _translate_func=translate_func, _func=func):
                return _translate_func(self, other, _func)
            new_method.__qualname__ = f'{cls.__name__}.{target_name}'
            new_method.__name__ = target_name
            setattr(cls, target_name, new_method)
        return cls
    return wrapper


def unary_magic_config__decl():
    return Config({'__neg__': dict(func=np.negative), '__pos__': dict(func=np.positive), '__abs__': dict(func=np.absolute), '__invert__': dict(func=np.invert)}, readonly=True, as_attrs=False)


def attach_unary_magic_methods__ref(translate_func, config=None):
    if config is None:
        config = unary_magic_config

    def wrapper(cls):
        for target_name, settings in config.items():
            func = settings['func']

            def new_method(self, _translate_func=translate_func, _func=func):
                return _translate_func(self, _func)
            new_method.__qualname__ = f'{cls.__name__}.{target_name}'
            new_method.__name__ = target_name
            setattr(cls, target_name, new_method)
        return cls
    return wrapper
