"""Reviewed reference definitions of vectorbt.generic.stats_builder (functions as name__ref, methods as name__of__Class)."""
import inspect
import string
import warnings
from collections import Counter
import numpy as np
import pandas as pd
from vectorbt import _typing as tp
from vectorbt.base.array_wrapper import Wrapping
from vectorbt.utils import checks
from vectorbt.utils.attr_ import get_dict_attr
from vectorbt.utils.config import Config, merge_dicts, get_func_arg_names
from vectorbt.utils.tags import match_tags
from vectorbt.utils.template import deep_substitute
from vectorbt.generic.stats_builder import MetaStatsBuilderMixin, StatsBuilderMixin


def metrics__of__MetaStatsBuilderMixin(cls):
    return cls._metrics


def __init____of__StatsBuilderMixin(self):
    checks.assert_instance_of(self, Wrapping)
    self._metrics = self.__class__._metrics.copy()


def writeable_attrs__of__StatsBuilderMixin(self):
    return {'_metrics'}


def stats_defaults__of__StatsBuilderMixin(self):
    from vectorbt._settings import settings
    stats_builder_cfg = settings['stats_builder']
    return merge_dicts(stats_builder_cfg, dict(settings=dict(freq=self.wrapper.freq)))


def _metrics__decl__of__StatsBuilderMixin():
    return Config(dict(start=dict(title='Start', calc_func=lambda self: self.wrapper.index[0], agg_func=None, tags='wrapper'), end=dict(title='End', calc_func=lambda self: self.wrapper.index[-1], agg_func=None, tags='wrapper'), period=dict(title='Period', calc_func=lambda self: len(self.wrapper.index), apply_to_timedelta=True, agg_func=None, tags='wrapper')), copy_kwargs=dict(copy_mode='deep'))


def metrics__of__StatsBuilderMixin(self):
    return self._metrics


def stats__of__StatsBuilderMixin(self, metrics=None, tags=None, column=None, group_by=None, agg_func=np.mean, silence_warnings=None, template_mapping=None, settings=None, filters=None, metric_settings=None):
    if silence_warnings is None:
        silence_warnings = self.stats_defaults.get('silence_warnings', False)
    template_mapping = merge_dicts(self.stats_defaults.get('template_mapping', {}), template_mapping)
    filters = merge_dicts(self.stats_defaults.get('filters', {}), filters)
    settings = merge_dicts(self.stats_defaults.get('settings', {}), settings)
    metric_settings = merge_dicts(self.stats_defaults.get('metric_settings', {}), metric_settings)
    if len(template_mapping) > 0:
        sub_settings = deep_substitute(settings, mapping=template_mapping)
    else:
        sub_settings = settings
    reself = self.resolve_self(cond_kwargs=sub_settings, impacts_caching=False, silence_warnings=silence_warnings)
    if metrics is None:
        metrics = reself.stats_defaults.get('metrics', 'all')
    if metrics == 'all':
        metrics = reself.metrics
    if isinstance(metrics, dict):
        metrics = list(metrics.items())
    if isinstance(metrics, (str, tuple)):
        metrics = [metrics]
    if tags is None:
        tags = reself.stats_defaults.get('tags', 'all')
    if isinstance(tags, str) and tags == 'all':
        tags = None
    if isinstance(tags, (str, tuple)):
        tags = [tags]
    new_metrics = []
    for i, metric in enumerate(metrics):
        if isinstance(metric, str):
            metric = (metric, reself.metrics[metric])
        if not isinstance(metric, tuple):
            raise TypeError(f'Metric at index {i} must be either a string or a tuple')
        new_metrics.append(metric)
    metrics = new_metrics
    metric_counts = Counter(list(map(lambda x: x[0], metrics)))
    metric_i = {k: -1 for k in metric_counts.keys()}
    metrics_dct = {}
    for i, (metric_name, _metric_settings) in enumerate(metrics):
        if metric_counts[metric_name] > 1:
            metric_i[metric_name] += 1
            metric_name = metric_name + '_' + str(metric_i[metric_name])
        metrics_dct[metric_name] = _metric_settings
    missed_keys = set(metric_settings.keys()).difference(set(metrics_dct.keys()))
    if len(missed_keys) > 0:
        raise ValueError(f'Keys {missed_keys} in metric_settings could not be matched with any metric')
    opt_arg_names_dct = {}
    custom_arg_names_dct = {}
    resolved_self_dct = {}
    mapping_dct = {}
    for metric_name, _metric_settings in list(metrics_dct.items()):
        opt_settings = merge_dicts({name: reself for name in reself.self_aliases}, dict(column=column, group_by=group_by, metric_name=metric_name, agg_func=agg_func, silence_warnings=silence_warnings, to_timedelta=None), settings)
        _metric_settings = _metric_settings.copy()
        passed_metric_settings = metric_settings.get(metric_name, {})
        merged_settings = merge_dicts(opt_settings, _metric_settings, passed_metric_settings)
        metric_template_mapping = merged_settings.pop('template_mapping', {})
        template_mapping_merged = merge_dicts(template_mapping, metric_template_mapping)
        template_mapping_merged = deep_substitute(template_mapping_merged, mapping=merged_settings)
        mapping = merge_dicts(template_mapping_merged, merged_settings)
        merged_settings = deep_substitute(merged_settings, mapping=mapping)
        if tags is not None:
            in_tags = merged_settings.get('tags', None)
            if in_tags is None or not match_tags(tags, in_tags):
                metrics_dct.pop(metric_name, None)
                continue
        custom_arg_names = set(_metric_settings.keys()).union(set(passed_metric_settings.keys()))
        opt_arg_names = set(opt_settings.keys())
        custom_reself = reself.resolve_self(cond_kwargs=merged_settings, custom_arg_names=custom_arg_names, impacts_caching=True, silence_warnings=merged_settings['silence_warnings'])
        metrics_dct[metric_name] = merged_settings
        custom_arg_names_dct[metric_name] = custom_arg_names
        opt_arg_names_dct[metric_name] = opt_arg_names
        resolved_self_dct[metric_name] = custom_reself
        mapping_dct[metric_name] = mapping
    for metric_name, _metric_settings in list(metrics_dct.items()):
        custom_reself = resolved_self_dct[metric_name]
        mapping = mapping_dct[metric_name]
        _silence_warnings = _metric_settings.get('silence_warnings')
        metric_filters = set()
        for k in _metric_settings.keys():
            filter_name = None
            if k.startswith('check_'):
                filter_name = k[len('check_'):]
            elif k.startswith('inv_check_'):
                filter_name = k[len('inv_check_'):]
            if filter_name is not None:
                if filter_name not in filters:
                    raise ValueError(f"Metric '{metric_name}' requires filter '{filter_name}'")
                metric_filters.add(filter_name)
        for filter_name in metric_filters:
            filter_settings = filters[filter_name]
            _filter_settings = deep_substitute(filter_settings, mapping=mapping)
            filter_func = _filter_settings['filter_func']
            warning_message = _filter_settings.get('warning_message', None)
            inv_warning_message = _filter_settings.get('inv_warning_message', None)
            to_check = _metric_settings.get('check_' + filter_name, False)
            inv_to_check = _metric_settings.get('inv_check_' + filter_name, False)
            if to_check or inv_to_check:
                whether_true = filter_func(custom_reself, _metric_settings)
                to_remove = to_check and (not whether_true) or (inv_to_check and whether_true)
                if to_remove:
                    if to_check and warning_message is not None and (not _silence_warnings):
                        warnings.warn(warning_message)
                    if inv_to_check and inv_warning_message is not None and (not _silence_warnings):
                        warnings.warn(inv_warning_message)
                    metrics_dct.pop(metric_name, None)
                    custom_arg_names_dct.pop(metric_name, None)
                    opt_arg_names_dct.pop(metric_name, None)
                    resolved_self_dct.pop(metric_name, None)
                    mapping_dct.pop(metric_name, None)
                    break
    if len(metrics_dct) == 0:
        if not silence_warnings:
            warnings.warn('No metrics to calculate', stacklevel=2)
        return None
    arg_cache_dct = {}
    stats_dct = {}
    used_agg_func = False
    for i, (metric_name, _metric_settings) in enumerate(metrics_dct.items()):
        try:
            final_kwargs = _metric_settings.copy()
            opt_arg_names = opt_arg_names_dct[metric_name]
            custom_arg_names = custom_arg_names_dct[metric_name]
            custom_reself = resolved_self_dct[metric_name]
            for k, v in list(final_kwargs.items()):
                if k.startswith('check_') or k.startswith('inv_check_') or k in ('tags',):
                    final_kwargs.pop(k, None)
            _column = final_kwargs.get('column')
            _group_by = final_kwargs.get('group_by')
            _agg_func = final_kwargs.get('agg_func')
            _silence_warnings = final_kwargs.get('silence_warnings')
            if final_kwargs['to_timedelta'] is None:
                final_kwargs['to_timedelta'] = custom_reself.wrapper.freq is not None
            to_timedelta = final_kwargs.get('to_timedelta')
            title = final_kwargs.pop('title', metric_name)
            calc_func = final_kwargs.pop('calc_func')
            resolve_calc_func = final_kwargs.pop('resolve_calc_func', True)
            post_calc_func = final_kwargs.pop('post_calc_func', None)
            use_caching = final_kwargs.pop('use_caching', True)
            fill_wrap_kwargs = final_kwargs.pop('fill_wrap_kwargs', False)
            if fill_wrap_kwargs:
                final_kwargs['wrap_kwargs'] = merge_dicts(dict(to_timedelta=to_timedelta, silence_warnings=_silence_warnings), final_kwargs.get('wrap_kwargs', None))
            apply_to_timedelta = final_kwargs.pop('apply_to_timedelta', False)
            if resolve_calc_func:
                if not callable(calc_func):
                    passed_kwargs_out = {}

                    def _getattr_func(obj, attr, args=None, kwargs=None, call_attr=True, _final_kwargs=final_kwargs, _opt_arg_names=opt_arg_names, _custom_arg_names=custom_arg_names, _arg_cache_dct=arg_cache_dct):
                        if attr in final_kwargs:
                            return final_kwargs[attr]
                        if args is None:
                            args = ()
                        if kwargs is None:
                            kwargs = {}
                        if obj is custom_reself and _final_kwargs.pop('resolve_path_' + attr, True):
                            if call_attr:
                                return custom_reself.resolve_attr(attr, args=args, cond_kwargs={k: v for k, v in _final_kwargs.items() if k in _opt_arg_names}, kwargs=kwargs, custom_arg_names=_custom_arg_names, cache_dct=_arg_cache_dct, use_caching=use_caching, passed_kwargs_out=passed_kwargs_out)
                            return getattr(obj, attr)
                        out = getattr(obj, attr)
                        if callable(out) and call_attr:
                            return out(*args, **kwargs)
                        return out
                    calc_func = custom_reself.deep_getattr(calc_func, getattr_func=_getattr_func, call_last_attr=False)
                    if 'group_by' in passed_kwargs_out:
                        if 'pass_group_by' not in final_kwargs:
                            final_kwargs.pop('group_by', None)
                if callable(calc_func):
                    func_arg_names = get_func_arg_names(calc_func)
                    for k in func_arg_names:
                        if k not in final_kwargs:
                            if final_kwargs.pop('resolve_' + k, False):
                                try:
                                    arg_out = custom_reself.resolve_attr(k, cond_kwargs=final_kwargs, custom_arg_names=custom_arg_names, cache_dct=arg_cache_dct, use_caching=use_caching)
                                except AttributeError:
                                    continue
                                final_kwargs[k] = arg_out
                    for k in list(final_kwargs.keys()):
                        if k in opt_arg_names:
                            if 'pass_' + k in final_kwargs:
                                if not final_kwargs.get('pass_' + k):
                                    final_kwargs.pop(k, None)
                            elif k not in func_arg_names:
                                final_kwargs.pop(k, None)
                    for k in list(final_kwargs.keys()):
                        if k.startswith('pass_') or k.startswith('resolve_'):
                            final_kwargs.pop(k, None)
                    out = calc_func(**final_kwargs)
                else:
                    out = calc_func
            else:
                out = calc_func(custom_reself, _metric_settings)
            if post_calc_func is not None:
                out = post_calc_func(custom_reself, out, _metric_settings)
            multiple = True
            if not isinstance(out, dict):
                multiple = False
                out = {None: out}
            for k, v in out.items():
                if multiple:
                    if title is None:
                        t = str(k)
                    else:
                        t = title + ': ' + str(k)
                else:
                    t = title
                if checks.is_any_array(v) and (not checks.is_series(v)):
                    raise TypeError(f'calc_func must return either a scalar for one column/group, pd.Series for multiple columns/groups, or a dict of such. Not {type(v)}.')
                if apply_to_timedelta and to_timedelta:
                    v = custom_reself.wrapper.to_timedelta(v, silence_warnings=_silence_warnings)
                if checks.is_series(v):
                    if _column is not None:
                        v = custom_reself.select_one_from_obj(v, custom_reself.wrapper.regroup(_group_by), column=_column)
                    elif _agg_func is not None and agg_func is not None:
                        v = _agg_func(v)
                        used_agg_func = True
                    elif _agg_func is None and agg_func is not None:
                        if not _silence_warnings:
                            warnings.warn(f"Metric '{metric_name}' returned multiple values despite having no aggregation function", stacklevel=2)
                        continue
                if t in stats_dct:
                    if not _silence_warnings:
                        warnings.warn(f"Duplicate metric title '{t}'", stacklevel=2)
                stats_dct[t] = v
        except Exception as e:
            warnings.warn(f"Metric '{metric_name}' raised an exception", stacklevel=2)
            raise e
    if reself.wrapper.get_ndim(group_by=group_by) == 1:
        return pd.Series(stats_dct, name=reself.wrapper.get_name(group_by=group_by))
    if column is not None:
        return pd.Series(stats_dct, name=column)
    if agg_func is not None:
        if used_agg_func and (not silence_warnings):
            warnings.warn(f'Object has multiple columns. Aggregating using {agg_func}. Pass column to select a single column/group.', stacklevel=2)
        return pd.Series(stats_dct, name='agg_func_' + agg_func.__name__)
    new_index = reself.wrapper.grouper.get_columns(group_by=group_by)
    stats_df = pd.DataFrame(stats_dct, index=new_index)
    return stats_df


@classmethod
def build_metrics_doc__of__StatsBuilderMixin(cls, source_cls=None):
    if source_cls is None:
        source_cls = StatsBuilderMixin
    return string.Template(inspect.cleandoc(get_dict_attr(source_cls, 'metrics').__doc__)).substitute({'metrics': cls.metrics.to_doc(), 'cls_name': cls.__name__})


@classmethod
def override_metrics_doc__of__StatsBuilderMixin(cls, __pdoc__, source_cls=None):
    __pdoc__[cls.__name__ + '.metrics'] = cls.build_metrics_doc(source_cls=source_cls)
