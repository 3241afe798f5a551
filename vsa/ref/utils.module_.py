"""Reviewed reference definitions of vectorbt.utils.module_ (functions as name__ref, methods as name__of__Class)."""
import importlib
import inspect
import pkgutil
import sys
from types import ModuleType
from vectorbt import _typing as tp
from vectorbt.utils.module_ import is_from_module, list_module_keys, import_submodules


def is_from_module__ref(obj, module):
    mod = inspect.getmodule(inspect.unwrap(obj))
    return mod is None or mod.__name__ == module.__name__


def list_module_keys__ref(module_name, whitelist=None, blacklist=None):
    if whitelist is None:
        whitelist = []
    if blacklist is None:
        blacklist = []
    module = sys.modules[module_name]
    return [name for name, obj in inspect.getmembers(module) if not name.startswith('_') and is_from_module(obj, module) and (inspect.isroutine(obj) and callable(obj) or inspect.isclass(obj)) and (name not in blacklist) or name in whitelist]


def import_submodules__ref(package):
    if isinstance(package, str):
        package = importlib.import_module(package)
    blacklist = []
    if hasattr(package, '__blacklist__'):
        blacklist = package.__blacklist__
    results = {}
    for _, name, is_pkg in pkgutil.walk_packages(package.__path__, package.__name__ + '.'):
        if '.'.join(name.split('.')[:-1]) != package.__name__:
            continue
        if name.split('.')[-1] in blacklist:
            continue
        results[name] = importlib.import_module(name)
        if is_pkg:
            results.update(import_submodules(name))
    return results
