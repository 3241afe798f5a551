"""Reviewed reference definitions of vectorbt.portfolio.decorators (functions as name__ref, methods as name__of__Class)."""
from vectorbt import _typing as tp
from vectorbt.utils import checks
from vectorbt.utils.config import Config
from vectorbt.utils.decorators import cached_method
from vectorbt.portfolio.decorators import WrapperFuncT, attach_returns_acc_methods


def attach_returns_acc_methods__ref(config):

    def wrapper(cls):
        checks.assert_subclass_of(cls, 'Portfolio')
        for target_name, settings in config.items():
            source_name = settings.get('source_name', target_name)
            docstring = settings.get('docstring', f'See `vectorbt.returns.accessors.ReturnsAccessor.{source_name}`.')

            def new_method(self, *, group_by=None, benchmark_rets=None, freq=None, year_freq=None, use_asset_returns=False, _source_name=source_name, **kwargs):
                returns_acc = self.get_returns_acc(group_by=group_by, benchmark_rets=benchmark_rets, freq=freq, year_freq=year_freq, use_asset_returns=use_asset_returns)
                return getattr(returns_acc, _source_name)(**kwargs)
            new_method.__name__ = target_name
            new_method.__qualname__ = f'{cls.__name__}.{target_name}'
            new_method.__doc__ = docstring
            setattr(cls, target_name, cached_method(new_method))
        return cls
    return wrapper
