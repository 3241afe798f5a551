"""Reviewed reference definitions of vectorbt.base.combine_fns (functions as name__ref, methods as name__of__Class)."""
import numpy as np
from numba import njit, literal_unroll
from tqdm.auto import tqdm
from vectorbt import _typing as tp
from vectorbt.base import reshape_fns
from vectorbt.base.combine_fns import apply_and_concat_none, apply_and_concat_none_nb, apply_and_concat_one, to_2d_one_nb, apply_and_concat_one_nb, apply_and_concat_multiple, to_2d_multiple_nb, apply_and_concat_multiple_nb, select_and_combine, combine_and_concat, select_and_combine_nb, combine_and_concat_nb, combine_multiple, combine_multiple_nb, ray_apply, apply_and_concat_one_ray, apply_and_concat_multiple_ray, combine_and_concat_ray


def apply_and_concat_none__ref(n, apply_func, *args, show_progress=False, tqdm_kwargs=None, **kwargs):
    if tqdm_kwargs is None:
        tqdm_kwargs = {}
    for i in tqdm(range(n), disable=not show_progress, **tqdm_kwargs):
        apply_func(i, *args, **kwargs)


def apply_and_concat_none_nb__ref(n, apply_func_nb, *args):
    for i in range(n):
        apply_func_nb(i, *args)


def apply_and_concat_one__ref(n, apply_func, *args, show_progress=False, tqdm_kwargs=None, **kwargs):
    if tqdm_kwargs is None:
        tqdm_kwargs = {}
    outputs = []
    for i in tqdm(range(n), disable=not show_progress, **tqdm_kwargs):
        outputs.append(reshape_fns.to_2d(apply_func(i, *args, **kwargs)))
    return np.column_stack(outputs)


def to_2d_one_nb__ref(a):
    if a.ndim > 1:
        return a
    return np.expand_dims(a, axis=1)


def apply_and_concat_one_nb__ref(n, apply_func_nb, *args):
    output_0 = to_2d_one_nb(apply_func_nb(0, *args))
    output = np.empty((output_0.shape[0], n * output_0.shape[1]), dtype=output_0.dtype)
    for i in range(n):
        if i == 0:
            outputs_i = output_0
        else:
            outputs_i = to_2d_one_nb(apply_func_nb(i, *args))
        output[:, i * outputs_i.shape[1]:(i + 1) * outputs_i.shape[1]] = outputs_i
    return output


def apply_and_concat_multiple__ref(n, apply_func, *args, show_progress=False, tqdm_kwargs=None, **kwargs):
    if tqdm_kwargs is None:
        tqdm_kwargs = {}
    outputs = []
    for i in tqdm(range(n), disable=not show_progress, **tqdm_kwargs):
        outputs.append(tuple(map(reshape_fns.to_2d, apply_func(i, *args, **kwargs))))
    return list(map(np.column_stack, list(zip(*outputs))))


def to_2d_multiple_nb__ref(a):
    lst = list()
    for _a in literal_unroll(a):
        lst.append(to_2d_one_nb(_a))
    return lst


def apply_and_concat_multiple_nb__ref(n, apply_func_nb, *args):
    outputs = list()
    outputs_0 = to_2d_multiple_nb(apply_func_nb(0, *args))
    for j in range(len(outputs_0)):
        outputs.append(np.empty((outputs_0[j].shape[0], n * outputs_0[j].shape[1]), dtype=outputs_0[j].dtype))
    for i in range(n):
        if i == 0:
            outputs_i = outputs_0
        else:
            outputs_i = to_2d_multiple_nb(apply_func_nb(i, *args))
        for j in range(len(outputs_i)):
            outputs[j][:, i * outputs_i[j].shape[1]:(i + 1) * outputs_i[j].shape[1]] = outputs_i[j]
    return outputs


def select_and_combine__ref(i, obj, others, combine_func, *args, **kwargs):
    return combine_func(obj, others[i], *args, **kwargs)


def combine_and_concat__ref(obj, others, combine_func, *args, **kwargs):
    return apply_and_concat_one(len(others), select_and_combine, obj, others, combine_func, *args, **kwargs)


def select_and_combine_nb__ref(i, obj, others, combine_func_nb, *args):
    return combine_func_nb(obj, others[i], *args)


def combine_and_concat_nb__ref(obj, others, combine_func_nb, *args):
    return apply_and_concat_one_nb(len(others), select_and_combine_nb, obj, others, combine_func_nb, *args)


def combine_multiple__ref(objs, combine_func, *args, **kwargs):
    result = objs[0]
    for i in range(1, len(objs)):
        result = combine_func(result, objs[i], *args, **kwargs)
    return result


def combine_multiple_nb__ref(objs, combine_func_nb, *args):
    first = True
    result = objs[0]
    for obj in literal_unroll(objs):
        if first:
            first = False
        else:
            result = combine_func_nb(result, obj, *args)
    return result


def ray_apply__ref(n, apply_func, *args, ray_force_init=False, ray_func_kwargs=None, ray_init_kwargs=None, ray_shutdown=False, **kwargs):
    import ray
    if ray_init_kwargs is None:
        ray_init_kwargs = {}
    if ray_func_kwargs is None:
        ray_func_kwargs = {}
    if ray_force_init:
        if ray.is_initialized():
            ray.shutdown()
    if not ray.is_initialized():
        ray.init(**ray_init_kwargs)
    if len(ray_func_kwargs) > 0:
        apply_func = ray.remote(**ray_func_kwargs)(apply_func)
    else:
        apply_func = ray.remote(apply_func)
    arg_refs = ()
    for v in args:
        arg_refs += (ray.put(v),)
    kwarg_refs = {}
    for k, v in kwargs.items():
        kwarg_refs[k] = ray.put(v)
    futures = [apply_func.remote(i, *arg_refs, **kwarg_refs) for i in range(n)]
    results = ray.get(futures)
    if ray_shutdown:
        ray.shutdown()
    return results


def apply_and_concat_one_ray__ref(*args, **kwargs):
    results = ray_apply(*args, **kwargs)
    return np.column_stack(list(map(reshape_fns.to_2d, results)))


def apply_and_concat_multiple_ray__ref(*args, **kwargs):
    results = ray_apply(*args, **kwargs)
    return list(map(np.column_stack, list(zip(*results))))


def combine_and_concat_ray__ref(obj, others, combine_func, *args, **kwargs):
    return apply_and_concat_one_ray(len(others), select_and_combine, obj, others, combine_func, *args, **kwargs)
