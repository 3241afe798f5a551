"""Reviewed reference definitions of vectorbt.utils.params (functions as name__ref, methods as name__of__Class)."""
import itertools
from collections.abc import Callable
from numba.typed import List
from vectorbt import _typing as tp
from vectorbt.utils import checks
from vectorbt.utils.params import to_typed_list, flatten_param_tuples, create_param_combs, broadcast_params, create_param_product


def to_typed_list__ref(lst):
    nb_lst = List()
    for elem in lst:
        nb_lst.append(elem)
    return nb_lst


def flatten_param_tuples__ref(param_tuples):
    param_list = []
    unzipped_tuples = zip(*param_tuples)
    for i, unzipped in enumerate(unzipped_tuples):
        unzipped = list(unzipped)
        if isinstance(unzipped[0], tuple):
            param_list.extend(flatten_param_tuples(unzipped))
        else:
            param_list.append(unzipped)
    return param_list


def create_param_combs__ref(op_tree, depth=0):
    checks.assert_instance_of(op_tree, tuple)
    checks.assert_instance_of(op_tree[0], Callable)
    new_op_tree: tp.Tuple = (op_tree[0],)
    for elem in op_tree[1:]:
        if isinstance(elem, tuple) and isinstance(elem[0], Callable):
            new_op_tree += (create_param_combs(elem, depth=depth + 1),)
        else:
            new_op_tree += (elem,)
    out = list(new_op_tree[0](*new_op_tree[1:]))
    if depth == 0:
        return flatten_param_tuples(out)
    return out


def broadcast_params__ref(param_list, to_n=None):
    if to_n is None:
        to_n = max(list(map(len, param_list)))
    new_param_list = []
    for i in range(len(param_list)):
        params = param_list[i]
        if len(params) in [1, to_n]:
            if len(params) < to_n:
                new_param_list.append([p for _ in range(to_n) for p in params])
            else:
                new_param_list.append(list(params))
        else:
            raise ValueError(f'Parameters at index {i} have length {len(params)} that cannot be broadcast to {to_n}')
    return new_param_list


def create_param_product__ref(param_list):
    return list(map(list, zip(*list(itertools.product(*param_list)))))
