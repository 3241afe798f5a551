"""Reviewed reference definitions of vectorbt.utils.template (functions as name__ref, methods as name__of__Class)."""
from copy import copy
from string import Template
from vectorbt import _typing as tp
from vectorbt.utils import checks
from vectorbt.utils.config import set_dict_item, get_func_arg_names, merge_dicts
from vectorbt.utils.docs import SafeToStr, prepare_for_doc
from vectorbt.utils.template import Sub, Rep, RepEval, RepFunc, has_templates, deep_substitute


def __init____of__Sub(self, template, mapping=None):
    self._template = template
    self._mapping = mapping


def template__of__Sub(self):
    if not isinstance(self._template, Template):
        return Template(self._template)
    return self._template


def mapping__of__Sub(self):
    if self._mapping is None:
        return {}
    return self._mapping


def substitute__of__Sub(self, mapping=None):
    mapping = merge_dicts(self.mapping, mapping)
    return self.template.substitute(mapping)


def __str____of__Sub(self):
    return f'{self.__class__.__name__}(template="{self.template.template}", mapping={prepare_for_doc(self.mapping)})'


def __init____of__Rep(self, key, mapping=None):
    self._key = key
    self._mapping = mapping


def key__of__Rep(self):
    return self._key


def mapping__of__Rep(self):
    if self._mapping is None:
        return {}
    return self._mapping


def replace__of__Rep(self, mapping=None):
    mapping = merge_dicts(self.mapping, mapping)
    return mapping[self.key]


def __str____of__Rep(self):
    return f"{self.__class__.__name__}(key='{self.key}', mapping={prepare_for_doc(self.mapping)})"


def __init____of__RepEval(self, expression, mapping=None):
    self._expression = expression
    self._mapping = mapping


def expression__of__RepEval(self):
    return self._expression


def mapping__of__RepEval(self):
    if self._mapping is None:
        return {}
    return self._mapping


def eval__of__RepEval(self, mapping=None):
    mapping = merge_dicts(self.mapping, mapping)
    return eval(self.expression, {}, mapping)


def __str____of__RepEval(self):
    return f'{self.__class__.__name__}(expression="{self.expression}", mapping={prepare_for_doc(self.mapping)})'


def __init____of__RepFunc(self, func, mapping=None):
    self._func = func
    self._mapping = mapping


def func__of__RepFunc(self):
    return self._func


def mapping__of__RepFunc(self):
    if self._mapping is None:
        return {}
    return self._mapping


def call__of__RepFunc(self, mapping=None):
    mapping = merge_dicts(self.mapping, mapping)
    func_arg_names = get_func_arg_names(self.func)
    func_kwargs = dict()
    for k, v in mapping.items():
        if k in func_arg_names:
            func_kwargs[k] = v
    return self.func(**func_kwargs)


def __str____of__RepFunc(self):
    return f'{self.__class__.__name__}(func={self.func}, mapping={prepare_for_doc(self.mapping)})'


def has_templates__ref(obj):
    if isinstance(obj, RepFunc):
        return True
    if isinstance(obj, RepEval):
        return True
    if isinstance(obj, Rep):
        return True
    if isinstance(obj, Sub):
        return True
    if isinstance(obj, Template):
        return True
    if isinstance(obj, dict):
        for k, v in obj.items():
            if has_templates(v):
                return True
    if isinstance(obj, (tuple, list, set, frozenset)):
        for v in obj:
            if has_templates(v):
                return True
    return False


def deep_substitute__ref(obj, mapping=None, safe=False, make_copy=True):
    if mapping is None:
        mapping = {}
    if not has_templates(obj):
        return obj
    try:
        if isinstance(obj, RepFunc):
            return obj.call(mapping)
        if isinstance(obj, RepEval):
            return obj.eval(mapping)
        if isinstance(obj, Rep):
            return obj.replace(mapping)
        if isinstance(obj, Sub):
            return obj.substitute(mapping)
        if isinstance(obj, Template):
            return obj.substitute(mapping)
        if isinstance(obj, dict):
            if make_copy:
                obj = copy(obj)
            for k, v in obj.items():
                set_dict_item(obj, k, deep_substitute(v, mapping=mapping, safe=safe), force=True)
            return obj
        if isinstance(obj, list):
            if make_copy:
                obj = copy(obj)
            for i in range(len(obj)):
                obj[i] = deep_substitute(obj[i], mapping=mapping, safe=safe)
            return obj
        if isinstance(obj, (tuple, set, frozenset)):
            result = []
            for o in obj:
                result.append(deep_substitute(o, mapping=mapping, safe=safe))
            if checks.is_namedtuple(obj):
                return type(obj)(*result)
            return type(obj)(result)
    except Exception as e:
        if not safe:
            raise e
    return obj
