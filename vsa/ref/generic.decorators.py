"""Reviewed reference definitions of vectorbt.generic.decorators (functions as name__ref, methods as name__of__Class)."""
import inspect
from vectorbt import _typing as tp
from vectorbt.utils import checks
from vectorbt.utils.config import merge_dicts, Config, get_func_arg_names
from vectorbt.generic.decorators import WrapperFuncT, attach_nb_methods, attach_transform_methods


def attach_nb_methods__ref(config):

    def wrapper(cls):
        from vectorbt.base.array_wrapper import Wrapping
        checks.assert_subclass_of(cls, Wrapping)
        for target_name, settings in config.items():
            func = settings['func']
            is_reducing = settings.get('is_reducing', False)
            path = settings.get('path', func.__name__)
            replace_signature = settings.get('replace_signature', True)
            default_wrap_kwargs = settings.get('wrap_kwargs', dict(name_or_index=target_name) if is_reducing else None)

            def new_method(self, *args, _target_name=target_name, _func=func, _is_reducing=is_reducing, _default_wrap_kwargs=default_wrap_kwargs, wrap_kwargs=None, **kwargs):
                if 'engine' not in kwargs and 'engine' in inspect.signature(_func).parameters:
                    kwargs['engine'] = getattr(self, 'engine', None)
                args = (self.to_2d_array(),) + args
                inspect.signature(_func).bind(*args, **kwargs)
                a = _func(*args, **kwargs)
                wrap_kwargs = merge_dicts(_default_wrap_kwargs, wrap_kwargs)
                if _is_reducing:
                    return self.wrapper.wrap_reduced(a, **wrap_kwargs)
                return self.wrapper.wrap(a, **wrap_kwargs)
            if replace_signature:
                source_sig = inspect.signature(func)
                new_method_params = tuple(inspect.signature(new_method).parameters.values())
                self_arg = new_method_params[0]
                wrap_kwargs_arg = new_method_params[-2]
                source_sig = source_sig.replace(parameters=(self_arg,) + tuple(source_sig.parameters.values())[1:] + (wrap_kwargs_arg,))
                new_method.__signature__ = source_sig
            new_method.__doc__ = f'See `{path}`.'
            new_method.__qualname__ = f'{cls.__name__}.{target_name}'
            new_method.__name__ = target_name
            setattr(cls, target_name, new_method)
        return cls
    return wrapper


def attach_transform_methods__ref(config):

    def wrapper(cls):
        from vectorbt.generic.accessors import TransformerT
        checks.assert_subclass_of(cls, 'GenericAccessor')
        for target_name, settings in config.items():
            transformer = settings['transformer']
            docstring = settings.get('docstring', f'See `{transformer.__name__}`.')
            replace_signature = settings.get('replace_signature', True)

            def new_method(self, _target_name=target_name, _transformer=transformer, **kwargs):
                if inspect.isclass(_transformer):
                    arg_names = get_func_arg_names(_transformer.__init__)
                    transformer_kwargs = dict()
                    for arg_name in arg_names:
                        if arg_name in kwargs:
                            transformer_kwargs[arg_name] = kwargs.pop(arg_name)
                    return self.transform(_transformer(**transformer_kwargs), **kwargs)
                return self.transform(_transformer, **kwargs)
            if replace_signature:
                source_sig = inspect.signature(transformer.__init__)
                new_method_params = tuple(inspect.signature(new_method).parameters.values())
                if inspect.isclass(transformer):
                    transformer_params = tuple(source_sig.parameters.values())
                    source_sig = inspect.Signature((new_method_params[0],) + transformer_params[1:] + (new_method_params[-1],))
                    new_method.__signature__ = source_sig
                else:
                    source_sig = inspect.Signature((new_method_params[0],) + (new_method_params[-1],))
                    new_method.__signature__ = source_sig
            new_method.__doc__ = docstring
            new_method.__qualname__ = f'{cls.__name__}.{target_name}'
            new_method.__name__ = target_name
            setattr(cls, target_name, new_method)
        return cls
    return wrapper
