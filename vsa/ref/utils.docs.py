"""Reviewed reference definitions of vectorbt.utils.docs (functions as name__ref, methods as name__of__Class)."""
import json
import numpy as np
from vectorbt import _typing as tp
from vectorbt.utils.docs import Documented, SafeToStr, prepare_for_doc, to_doc


def to_doc__of__Documented(self, **kwargs):
    raise NotImplementedError


def __str____of__Documented(self):
    try:
        return self.to_doc()
    except NotImplementedError:
        return repr(self)


def prepare_for_doc__ref(obj, replace=None, path=None):
    if isinstance(obj, SafeToStr):
        return str(obj)
    if isinstance(obj, np.dtype) and hasattr(obj, 'fields'):
        return dict(zip(dict(obj.fields).keys(), list(map(lambda x: str(x[0]), dict(obj.fields).values()))))
    if isinstance(obj, tuple) and hasattr(obj, '_asdict'):
        return prepare_for_doc(obj._asdict(), replace, path)
    if isinstance(obj, (tuple, list)):
        return [prepare_for_doc(v, replace, path) for v in obj]
    if isinstance(obj, dict):
        if replace is None:
            replace = {}
        new_obj = dict()
        for k, v in obj.items():
            if path is None:
                new_path = k
            else:
                new_path = path + '.' + k
            if new_path in replace:
                new_obj[k] = replace[new_path]
            else:
                new_obj[k] = prepare_for_doc(v, replace, new_path)
        return new_obj
    if hasattr(obj, 'shape') and isinstance(obj.shape, tuple):
        if len(obj.shape) == 0:
            return obj.item()
        return '{} of shape {}'.format(object.__repr__(obj), obj.shape)
    return obj


def to_doc__ref(obj, replace=None, path=None, **kwargs):
    kwargs = {**dict(indent=4, default=str), **kwargs}
    return json.dumps(prepare_for_doc(obj, replace, path), **kwargs)
