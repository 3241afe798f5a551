"""Reviewed reference definitions of vectorbt.returns.qs_adapter (functions as name__ref, methods as name__of__Class)."""
from inspect import getmembers, isfunction, signature, Parameter
import pandas as pd
import quantstats as qs
from vectorbt import _typing as tp
from vectorbt.returns.accessors import ReturnsAccessor
from vectorbt.utils import checks
from vectorbt.utils.config import merge_dicts, get_func_arg_names, Configured
from vectorbt.returns.qs_adapter import attach_qs_methods, QSAdapterT, QSAdapter


def attach_qs_methods__ref(cls, replace_signature=True):
    checks.assert_subclass_of(cls, 'QSAdapter')
    for module_name in ['utils', 'stats', 'plots', 'reports']:
        for qs_func_name, qs_func in getmembers(getattr(qs, module_name), isfunction):
            if not qs_func_name.startswith('_') and checks.func_accepts_arg(qs_func, 'returns'):
                if module_name == 'plots':
                    new_method_name = 'plot_' + qs_func_name
                elif module_name == 'reports':
                    new_method_name = qs_func_name + '_report'
                else:
                    new_method_name = qs_func_name

                def new_method(self, *, _func=qs_func, **kwargs):
                    returns = self.returns_accessor.obj
                    if isinstance(returns, pd.DataFrame):
                        null_mask = returns.isnull().any(axis=1)
                    else:
                        null_mask = returns.isnull()
                    func_arg_names = get_func_arg_names(_func)
                    defaults = self.defaults
                    pass_kwargs = dict()
                    for arg_name in func_arg_names:
                        if arg_name not in kwargs:
                            if arg_name in defaults:
                                pass_kwargs[arg_name] = defaults[arg_name]
                            elif arg_name == 'benchmark':
                                if self.returns_accessor.benchmark_rets is not None:
                                    pass_kwargs['benchmark'] = self.returns_accessor.benchmark_rets
                            elif arg_name == 'periods':
                                pass_kwargs['periods'] = int(self.returns_accessor.ann_factor)
                            elif arg_name == 'periods_per_year':
                                pass_kwargs['periods_per_year'] = int(self.returns_accessor.ann_factor)
                        else:
                            pass_kwargs[arg_name] = kwargs[arg_name]
                    if 'benchmark' in pass_kwargs:
                        if isinstance(pass_kwargs['benchmark'], pd.DataFrame):
                            bm_null_mask = pass_kwargs['benchmark'].isnull().any(axis=1)
                        else:
                            bm_null_mask = pass_kwargs['benchmark'].isnull()
                        null_mask = null_mask | bm_null_mask
                        pass_kwargs['benchmark'] = pass_kwargs['benchmark'].loc[~null_mask]
                    returns = returns.loc[~null_mask]
                    signature(_func).bind(returns=returns, **pass_kwargs)
                    return _func(returns=returns, **pass_kwargs)
                if replace_signature:
                    source_sig = signature(qs_func)
                    new_method_params = tuple(signature(new_method).parameters.values())
                    self_arg = new_method_params[0]
                    other_args = [p.replace(kind=Parameter.KEYWORD_ONLY) if p.kind in (Parameter.POSITIONAL_ONLY, Parameter.POSITIONAL_OR_KEYWORD) else p for p in list(source_sig.parameters.values())[1:]]
                    source_sig = source_sig.replace(parameters=(self_arg,) + tuple(other_args))
                    new_method.__signature__ = source_sig
                new_method.__doc__ = f'See `quantstats.{module_name}.{qs_func_name}`.'
                new_method.__qualname__ = f'{cls.__name__}.{new_method_name}'
                new_method.__name__ = new_method_name
                setattr(cls, new_method_name, new_method)
    return cls


def __init____of__QSAdapter(self, returns_accessor, defaults=None, **kwargs):
    checks.assert_instance_of(returns_accessor, ReturnsAccessor)
    Configured.__init__(self, returns_accessor=returns_accessor, defaults=defaults, **kwargs)
    self._returns_accessor = returns_accessor
    self._defaults = defaults


def __call____of__QSAdapter(self, **kwargs):
    return self.replace(**kwargs)


def returns_accessor__of__QSAdapter(self):
    return self._returns_accessor


def defaults_mapping__of__QSAdapter(self):
    return dict(rf='risk_free')


def defaults__of__QSAdapter(self):
    from vectorbt._settings import settings
    qs_adapter_defaults_cfg = settings['qs_adapter']['defaults']
    mapped_defaults = dict()
    for k, v in self.defaults_mapping.items():
        if v in self.returns_accessor.defaults:
            mapped_defaults[k] = self.returns_accessor.defaults[v]
    return merge_dicts(qs_adapter_defaults_cfg, mapped_defaults, self._defaults)
