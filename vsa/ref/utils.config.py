"""Reviewed reference definitions of vectorbt.utils.config (functions as name__ref, methods as name__of__Class)."""
import inspect
import pickle
from collections import namedtuple
from copy import copy, deepcopy
import dill
from vectorbt import _typing as tp
from vectorbt.utils import checks
from vectorbt.utils.docs import Documented, to_doc
from vectorbt.utils.config import Default, resolve_dict, get_func_kwargs, get_func_arg_names, atomic_dict, InConfigLikeT, OutConfigLikeT, convert_to_dict, set_dict_item, copy_dict, update_dict, merge_dicts, _RaiseKeyError, DumpTuple, PickleableT, Pickleable, PickleableDictT, PickleableDict, ConfigT, Config, AtomicConfig, ConfiguredT, Configured


def __init____of__Default(self, value):
    self.value = value


def __repr____of__Default(self):
    return 'Default(' + self.value.__repr__() + ')'


def __str____of__Default(self):
    return self.__repr__()


def resolve_dict__ref(dct, i=None):
    if dct is None:
        dct = {}
    if isinstance(dct, dict):
        return dict(dct)
    if i is not None:
        _dct = dct[i]
        if _dct is None:
            _dct = {}
        return dict(_dct)
    raise ValueError('Cannot resolve dict')


def get_func_kwargs__ref(func):
    signature = inspect.signature(func)
    return {k: v.default for k, v in signature.parameters.items() if v.default is not inspect.Parameter.empty}


def get_func_arg_names__ref(func, arg_kind=None):
    signature = inspect.signature(func)
    if arg_kind is not None and isinstance(arg_kind, int):
        arg_kind = (arg_kind,)
    if arg_kind is None:
        return [p.name for p in signature.parameters.values() if p.kind != p.VAR_POSITIONAL and p.kind != p.VAR_KEYWORD]
    return [p.name for p in signature.parameters.values() if p.kind in arg_kind]


def convert_to_dict__ref(dct, nested=True):
    if dct is None:
        dct = {}
    if isinstance(dct, atomic_dict):
        dct = atomic_dict(dct)
    else:
        dct = dict(dct)
    if not nested:
        return dct
    for k, v in dct.items():
        if isinstance(v, dict):
            dct[k] = convert_to_dict(v, nested=nested)
        else:
            dct[k] = v
    return dct


def set_dict_item__ref(dct, k, v, force=False):
    if isinstance(dct, Config):
        dct.__setitem__(k, v, force=force)
    else:
        dct[k] = v


def copy_dict__ref(dct, copy_mode='shallow', nested=True):
    if dct is None:
        dct = {}
    checks.assert_instance_of(copy_mode, str)
    copy_mode = copy_mode.lower()
    if copy_mode not in ['shallow', 'hybrid', 'deep']:
        raise ValueError(f"Copy mode '{copy_mode}' not supported")
    if copy_mode == 'deep':
        return deepcopy(dct)
    if isinstance(dct, Config):
        return dct.copy(copy_mode=copy_mode, nested=nested)
    dct_copy = copy(dct)
    for k, v in dct_copy.items():
        if nested and isinstance(v, dict):
            _v = copy_dict(v, copy_mode=copy_mode, nested=nested)
        elif copy_mode == 'hybrid':
            _v = copy(v)
        else:
            _v = v
        set_dict_item(dct_copy, k, _v, force=True)
    return dct_copy


def update_dict__ref(x, y, nested=True, force=False, same_keys=False):
    if x is None:
        return
    if y is None:
        return
    checks.assert_instance_of(x, dict)
    checks.assert_instance_of(y, dict)
    for k, v in y.items():
        if nested and k in x and isinstance(x[k], dict) and isinstance(v, dict) and (not isinstance(v, atomic_dict)):
            if isinstance(x, Config) and (not isinstance(x[k], Config)) and (not force) and x.readonly_:
                raise TypeError('Config is read-only')
            update_dict(x[k], v, nested=nested, force=force, same_keys=same_keys)
        else:
            if same_keys and k not in x:
                continue
            set_dict_item(x, k, v, force=force)


def merge_dicts__ref(*dicts, to_dict=True, copy_mode='shallow', nested=True, same_keys=False):
    if to_dict:
        dicts = tuple([convert_to_dict(dct, nested=nested) for dct in dicts])
    if copy_mode is not None:
        if not to_dict or copy_mode != 'shallow':
            dicts = tuple([copy_dict(dct, copy_mode=copy_mode, nested=nested) for dct in dicts])
    x, y = (dicts[0], dicts[1])
    should_update = True
    if x.__class__ is dict and y.__class__ is dict and (len(x) == 0) and (not same_keys):
        x = y
        should_update = False
    if isinstance(x, atomic_dict) or isinstance(y, atomic_dict):
        x = y
        should_update = False
    if should_update:
        update_dict(x, y, nested=nested, force=True, same_keys=same_keys)
    if len(dicts) > 2:
        return merge_dicts(x, *dicts[2:], to_dict=False, copy_mode=None, nested=nested, same_keys=same_keys)
    return x


def _RaiseKeyError__decl():
    return object()


def DumpTuple__decl():
    return namedtuple('DumpTuple', ('cls', 'dumps'))


def dumps__of__Pickleable(self, **kwargs):
    return pickle.dumps(self, protocol=pickle.HIGHEST_PROTOCOL)


@classmethod
def loads__of__Pickleable(cls, dumps, **kwargs):
    return pickle.loads(dumps)


def save__of__Pickleable(self, fname, **kwargs):
    dumps = self.dumps(**kwargs)
    with open(fname, 'wb') as f:
        f.write(dumps)


@classmethod
def load__of__Pickleable(cls, fname, **kwargs):
    with open(fname, 'rb') as f:
        dumps = f.read()
    return cls.loads(dumps, **kwargs)


def dumps__of__PickleableDict(self, **kwargs):
    dct = dict()
    for k, v in self.items():
        if isinstance(v, Pickleable):
            dct[k] = DumpTuple(cls=v.__class__, dumps=v.dumps(**kwargs))
        else:
            dct[k] = v
    return dill.dumps(dct, **kwargs)


@classmethod
def loads__of__PickleableDict(cls, dumps, **kwargs):
    config = dill.loads(dumps, **kwargs)
    for k, v in config.items():
        if isinstance(v, DumpTuple):
            config[k] = v.cls.loads(v.dumps, **kwargs)
    return cls(**config)


def load_update__of__PickleableDict(self, fname, **kwargs):
    self.clear()
    self.update(self.load(fname, **kwargs))


def __init____of__Config(self, dct=None, copy_kwargs=None, reset_dct=None, reset_dct_copy_kwargs=None, frozen_keys=None, readonly=None, nested=None, convert_dicts=None, as_attrs=None):
    try:
        from vectorbt._settings import settings
        configured_cfg = settings['config']
    except ImportError:
        configured_cfg = {}
    if dct is None:
        dct = dict()

    def _resolve_param(pname, p, default, merge=False):
        cfg_default = configured_cfg.get(pname, None)
        dct_p = getattr(dct, pname + '_') if isinstance(dct, Config) else None
        if merge and isinstance(default, dict):
            return merge_dicts(default, cfg_default, dct_p, p)
        if p is not None:
            return p
        if dct_p is not None:
            return dct_p
        if cfg_default is not None:
            return cfg_default
        return default
    reset_dct = _resolve_param('reset_dct', reset_dct, None)
    frozen_keys = _resolve_param('frozen_keys', frozen_keys, False)
    readonly = _resolve_param('readonly', readonly, False)
    nested = _resolve_param('nested', nested, False)
    convert_dicts = _resolve_param('convert_dicts', convert_dicts, False)
    as_attrs = _resolve_param('as_attrs', as_attrs, frozen_keys or readonly)
    reset_dct_copy_kwargs = merge_dicts(copy_kwargs, reset_dct_copy_kwargs)
    copy_kwargs = _resolve_param('copy_kwargs', copy_kwargs, dict(copy_mode='shallow' if readonly else 'hybrid', nested=nested), merge=True)
    reset_dct_copy_kwargs = _resolve_param('reset_dct_copy_kwargs', reset_dct_copy_kwargs, dict(copy_mode='shallow' if readonly else 'hybrid', nested=nested), merge=True)
    dct = copy_dict(dict(dct), **copy_kwargs)
    if convert_dicts:
        if not nested:
            raise ValueError('convert_dicts requires nested to be True')
        for k, v in dct.items():
            if isinstance(v, dict) and (not isinstance(v, Config)):
                if isinstance(convert_dicts, bool):
                    config_cls = self.__class__
                elif issubclass(convert_dicts, Config):
                    config_cls = convert_dicts
                else:
                    raise TypeError('convert_dicts must be either boolean or a subclass of Config')
                dct[k] = config_cls(v, copy_kwargs=copy_kwargs, reset_dct_copy_kwargs=reset_dct_copy_kwargs, frozen_keys=frozen_keys, readonly=readonly, nested=nested, convert_dicts=convert_dicts, as_attrs=as_attrs)
    if reset_dct is None:
        reset_dct = dct
    reset_dct = copy_dict(dict(reset_dct), **reset_dct_copy_kwargs)
    dict.__init__(self, dct)
    checks.assert_instance_of(copy_kwargs, dict)
    checks.assert_instance_of(reset_dct, dict)
    checks.assert_instance_of(reset_dct_copy_kwargs, dict)
    checks.assert_instance_of(frozen_keys, bool)
    checks.assert_instance_of(readonly, bool)
    checks.assert_instance_of(nested, bool)
    checks.assert_instance_of(convert_dicts, (bool, type))
    checks.assert_instance_of(as_attrs, bool)
    self.__dict__['_copy_kwargs_'] = copy_kwargs
    self.__dict__['_reset_dct_'] = reset_dct
    self.__dict__['_reset_dct_copy_kwargs_'] = reset_dct_copy_kwargs
    self.__dict__['_frozen_keys_'] = frozen_keys
    self.__dict__['_readonly_'] = readonly
    self.__dict__['_nested_'] = nested
    self.__dict__['_convert_dicts_'] = convert_dicts
    self.__dict__['_as_attrs_'] = as_attrs
    if as_attrs:
        for k, v in self.items():
            if k in self.__dir__():
                raise ValueError(f"Cannot set key '{k}' as attribute of the config. Disable as_attrs.")
            self.__dict__[k] = v


def copy_kwargs___of__Config(self):
    return self._copy_kwargs_


def reset_dct___of__Config(self):
    return self._reset_dct_


def reset_dct_copy_kwargs___of__Config(self):
    return self._reset_dct_copy_kwargs_


def frozen_keys___of__Config(self):
    return self._frozen_keys_


def readonly___of__Config(self):
    return self._readonly_


def nested___of__Config(self):
    return self._nested_


def convert_dicts___of__Config(self):
    return self._convert_dicts_


def as_attrs___of__Config(self):
    return self._as_attrs_


def __setattr____of__Config(self, k, v):
    if self.as_attrs_:
        self.__setitem__(k, v)


def __setitem____of__Config(self, k, v, force=False):
    if not force and self.readonly_:
        raise TypeError('Config is read-only')
    if not force and self.frozen_keys_:
        if k not in self:
            raise KeyError(f"Config keys are frozen: key '{k}' not found")
    dict.__setitem__(self, k, v)
    if self.as_attrs_:
        self.__dict__[k] = v


def __delattr____of__Config(self, k):
    if self.as_attrs_:
        self.__delitem__(k)


def __delitem____of__Config(self, k, force=False):
    if not force and self.readonly_:
        raise TypeError('Config is read-only')
    if not force and self.frozen_keys_:
        raise KeyError('Config keys are frozen')
    dict.__delitem__(self, k)
    if self.as_attrs_:
        del self.__dict__[k]


def _clear_attrs__of__Config(self, prior_keys):
    if self.as_attrs_:
        for k in set(prior_keys).difference(self.keys()):
            del self.__dict__[k]


def pop__of__Config(self, k, v=_RaiseKeyError, force=False):
    if not force and self.readonly_:
        raise TypeError('Config is read-only')
    if not force and self.frozen_keys_:
        raise KeyError('Config keys are frozen')
    prior_keys = list(self.keys())
    if v is _RaiseKeyError:
        result = dict.pop(self, k)
    else:
        result = dict.pop(self, k, v)
    self._clear_attrs(prior_keys)
    return result


def popitem__of__Config(self, force=False):
    if not force and self.readonly_:
        raise TypeError('Config is read-only')
    if not force and self.frozen_keys_:
        raise KeyError('Config keys are frozen')
    prior_keys = list(self.keys())
    result = dict.popitem(self)
    self._clear_attrs(prior_keys)
    return result


def clear__of__Config(self, force=False):
    if not force and self.readonly_:
        raise TypeError('Config is read-only')
    if not force and self.frozen_keys_:
        raise KeyError('Config keys are frozen')
    prior_keys = list(self.keys())
    dict.clear(self)
    self._clear_attrs(prior_keys)


def update__of__Config(self, *args, nested=None, force=False, **kwargs):
    other = dict(*args, **kwargs)
    if nested is None:
        nested = self.nested_
    update_dict(self, other, nested=nested, force=force)


def __ior____of__Config(self, other):
    self.update(other, nested=False)
    return self


def setdefault__of__Config(self, k, v=None, force=False):
    if k not in self:
        self.__setitem__(k, v, force=force)
    return self[k]


def __copy____of__Config(self):
    cls = self.__class__
    self_copy = cls.__new__(cls)
    for k, v in self.__dict__.items():
        if k not in self_copy:
            self_copy.__dict__[k] = v
    self_copy.clear(force=True)
    self_copy.update(copy(dict(self)), nested=False, force=True)
    return self_copy


def __deepcopy____of__Config(self, memo=None):
    if memo is None:
        memo = {}
    cls = self.__class__
    self_copy = cls.__new__(cls)
    memo[id(self)] = self_copy
    for k, v in self.__dict__.items():
        if k not in self_copy:
            self_copy.__dict__[k] = deepcopy(v, memo)
    self_copy.clear(force=True)
    self_copy.update(deepcopy(dict(self), memo), nested=False, force=True)
    return self_copy


def copy__of__Config(self, reset_dct_copy_kwargs=None, **copy_kwargs):
    self_copy = self.__copy__()
    reset_dct_copy_kwargs = merge_dicts(self.reset_dct_copy_kwargs_, copy_kwargs, reset_dct_copy_kwargs)
    reset_dct = copy_dict(dict(self.reset_dct_), **reset_dct_copy_kwargs)
    self.__dict__['_reset_dct_'] = reset_dct
    copy_kwargs = merge_dicts(self.copy_kwargs_, copy_kwargs)
    dct = copy_dict(dict(self), **copy_kwargs)
    self_copy.update(dct, nested=False, force=True)
    return self_copy


def merge_with__of__Config(self, other, nested=None, **kwargs):
    if nested is None:
        nested = self.nested_
    return merge_dicts(self, other, nested=nested, **kwargs)


def to_dict__of__Config(self, nested=None):
    return convert_to_dict(self, nested=nested)


def reset__of__Config(self, force=False, **reset_dct_copy_kwargs):
    if not force and self.readonly_:
        raise TypeError('Config is read-only')
    reset_dct_copy_kwargs = merge_dicts(self.reset_dct_copy_kwargs_, reset_dct_copy_kwargs)
    reset_dct = copy_dict(dict(self.reset_dct_), **reset_dct_copy_kwargs)
    self.clear(force=True)
    self.update(self.reset_dct_, nested=False, force=True)
    self.__dict__['_reset_dct_'] = reset_dct


def make_checkpoint__of__Config(self, force=False, **reset_dct_copy_kwargs):
    if not force and self.readonly_:
        raise TypeError('Config is read-only')
    reset_dct_copy_kwargs = merge_dicts(self.reset_dct_copy_kwargs_, reset_dct_copy_kwargs)
    reset_dct = copy_dict(dict(self), **reset_dct_copy_kwargs)
    self.__dict__['_reset_dct_'] = reset_dct


def dumps__of__Config(self, **kwargs):
    return dill.dumps(dict(dct=PickleableDict(self).dumps(**kwargs), copy_kwargs=self.copy_kwargs_, reset_dct=PickleableDict(self.reset_dct_).dumps(**kwargs), reset_dct_copy_kwargs=self.reset_dct_copy_kwargs_, frozen_keys=self.frozen_keys_, readonly=self.readonly_, nested=self.nested_, convert_dicts=self.convert_dicts_, as_attrs=self.as_attrs_), **kwargs)


@classmethod
def loads__of__Config(cls, dumps, **kwargs):
    obj = dill.loads(dumps, **kwargs)
    return cls(dct=PickleableDict.loads(obj['dct'], **kwargs), copy_kwargs=obj['copy_kwargs'], reset_dct=PickleableDict.loads(obj['reset_dct'], **kwargs), reset_dct_copy_kwargs=obj['reset_dct_copy_kwargs'], frozen_keys=obj['frozen_keys'], readonly=obj['readonly'], nested=obj['nested'], convert_dicts=obj['convert_dicts'], as_attrs=obj['as_attrs'])


def load_update__of__Config(self, fname, **kwargs):
    loaded = self.load(fname, **kwargs)
    self.clear(force=True)
    self.__dict__.clear()
    self.__dict__.update(loaded.__dict__)
    self.update(loaded, nested=False, force=True)


def __eq____of__Config(self, other):
    return checks.is_deep_equal(dict(self), dict(other))


def to_doc__of__Config(self, with_params=False, **kwargs):
    doc = self.__class__.__name__ + '(' + to_doc(dict(self), **kwargs) + ')'
    if with_params:
        doc += ' with params ' + to_doc(dict(copy_kwargs=self.copy_kwargs_, reset_dct=self.reset_dct_, reset_dct_copy_kwargs=self.reset_dct_copy_kwargs_, frozen_keys=self.frozen_keys_, readonly=self.readonly_, nested=self.nested_, convert_dicts=self.convert_dicts_, as_attrs=self.as_attrs_), **kwargs)
    return doc


def __init____of__Configured(self, **config):
    from vectorbt._settings import settings
    configured_cfg = settings['configured']
    self._config = Config(config, **configured_cfg['config'])


def config__of__Configured(self):
    return self._config


def writeable_attrs__of__Configured(self):
    return {base_cls.writeable_attrs.__get__(self) for base_cls in self.__class__.__bases__ if isinstance(base_cls, Configured)}


def replace__of__Configured(self, copy_mode_='shallow', nested_=None, cls_=None, **new_config):
    if cls_ is None:
        cls_ = self.__class__
    new_config = self.config.merge_with(new_config, copy_mode=copy_mode_, nested=nested_)
    new_instance = cls_(**new_config)
    for attr in self.writeable_attrs:
        attr_obj = getattr(self, attr)
        if isinstance(attr_obj, Config):
            attr_obj = attr_obj.copy(copy_mode=copy_mode_, nested=nested_)
        elif copy_mode_ is not None:
            if copy_mode_ == 'hybrid':
                attr_obj = copy(attr_obj)
            elif copy_mode_ == 'deep':
                attr_obj = deepcopy(attr_obj)
        setattr(new_instance, attr, attr_obj)
    return new_instance


def copy__of__Configured(self, copy_mode='shallow', nested=None, cls=None):
    return self.replace(copy_mode_=copy_mode, nested_=nested, cls_=cls)


def dumps__of__Configured(self, **kwargs):
    config_dumps = self.config.dumps(**kwargs)
    attr_dct = PickleableDict({attr: getattr(self, attr) for attr in self.writeable_attrs})
    attr_dct_dumps = attr_dct.dumps(**kwargs)
    return dill.dumps((config_dumps, attr_dct_dumps), **kwargs)


@classmethod
def loads__of__Configured(cls, dumps, **kwargs):
    config_dumps, attr_dct_dumps = dill.loads(dumps, **kwargs)
    config = Config.loads(config_dumps, **kwargs)
    attr_dct = PickleableDict.loads(attr_dct_dumps, **kwargs)
    new_instance = cls(**config)
    for attr, obj in attr_dct.items():
        setattr(new_instance, attr, obj)
    return new_instance


def __eq____of__Configured(self, other):
    if type(self) != type(other):
        return False
    if self.writeable_attrs != other.writeable_attrs:
        return False
    for attr in self.writeable_attrs:
        if not checks.is_deep_equal(getattr(self, attr), getattr(other, attr)):
            return False
    return self.config == other.config


def update_config__of__Configured(self, *args, **kwargs):
    self.config.update(*args, **kwargs, force=True)


def to_doc__of__Configured(self, **kwargs):
    return self.__class__.__name__ + '(**' + self.config.to_doc(**kwargs) + ')'
