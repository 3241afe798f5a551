"""Reference definitions of shared helpers: grouping, broadcasting lookup, combination, scaling, tolerant comparison."""
import random
import numpy as np
from numba import njit, literal_unroll
from scipy.stats import norm
from vectorbt.generic import nb as generic_nb
from vectorbt.utils import math_
from vectorbt.utils.math_ import rel_tol, abs_tol


def get_group_lens_nb(groups):
    result = np.empty(groups.shape[0], dtype=np.int64)
    j = 0
    last_group = -1
    group_len = 0
    for i in range(groups.shape[0]):
        cur_group = groups[i]
        if cur_group < last_group:
            raise ValueError('Groups must be coherent and sorted (such as [0, 0, 1, 2, 2, ...])')
        if cur_group != last_group:
            if last_group != -1:
                result[j] = group_len
                j += 1
                group_len = 0
            last_group = cur_group
        group_len += 1
        if i == groups.shape[0] - 1:
            result[j] = group_len
            j += 1
            group_len = 0
    return result[:j]


def _align_index_to_nb(a, b):
    idxs = np.empty(b.shape[0], dtype=np.int64)
    g = 0
    for i in range(b.shape[0]):
        for j in range(a.shape[0]):
            if b[i] == a[j]:
                idxs[g] = j
                g += 1
                break
    return idxs


def flex_choose_i_and_col_nb(a, flex_2d=True):
    i = -1
    col = -1
    if a.ndim == 0:
        i = 0
        col = 0
    elif a.ndim == 1:
        if flex_2d:
            i = 0
            if a.shape[0] == 1:
                col = 0
        else:
            col = 0
            if a.shape[0] == 1:
                i = 0
    else:
        if a.shape[0] == 1:
            i = 0
        if a.shape[1] == 1:
            col = 0
    return (i, col)


def flex_select_nb(a, i, col, flex_i, flex_col, flex_2d=True):
    if flex_i == -1:
        flex_i = i
    if flex_col == -1:
        flex_col = col
    if a.ndim == 0:
        return a.item()
    if a.ndim == 1:
        if flex_2d:
            return a[flex_col]
        return a[flex_i]
    return a[flex_i, flex_col]


def flex_select_auto_nb(a, i, col, flex_2d=True):
    flex_i, flex_col = flex_choose_i_and_col_nb(a, flex_2d)
    return flex_select_nb(a, i, col, flex_i, flex_col, flex_2d)


def apply_and_concat_none_nb(n, apply_func_nb, *args):
    for i in range(n):
        apply_func_nb(i, *args)


def to_2d_one_nb(a):
    if a.ndim > 1:
        return a
    return np.expand_dims(a, axis=1)


def apply_and_concat_one_nb(n, apply_func_nb, *args):
    output_0 = to_2d_one_nb(apply_func_nb(0, *args))
    output = np.empty((output_0.shape[0], n * output_0.shape[1]), dtype=output_0.dtype)
    for i in range(n):
        if i == 0:
            outputs_i = output_0
        else:
            outputs_i = to_2d_one_nb(apply_func_nb(i, *args))
        output[:, i * outputs_i.shape[1]:(i + 1) * outputs_i.shape[1]] = outputs_i
    return output


def to_2d_multiple_nb(a):
    lst = list()
    for _a in literal_unroll(a):
        lst.append(to_2d_one_nb(_a))
    return lst


def apply_and_concat_multiple_nb(n, apply_func_nb, *args):
    outputs = list()
    outputs_0 = to_2d_multiple_nb(apply_func_nb(0, *args))
    for j in range(len(outputs_0)):
        outputs.append(np.empty((outputs_0[j].shape[0], n * outputs_0[j].shape[1]), dtype=outputs_0[j].dtype))
    for i in range(n):
        if i == 0:
            outputs_i = outputs_0
        else:
            outputs_i = to_2d_multiple_nb(apply_func_nb(i, *args))
        for j in range(len(outputs_i)):
            outputs[j][:, i * outputs_i[j].shape[1]:(i + 1) * outputs_i[j].shape[1]] = outputs_i[j]
    return outputs


def select_and_combine_nb(i, obj, others, combine_func_nb, *args):
    return combine_func_nb(obj, others[i], *args)


def combine_and_concat_nb(obj, others, combine_func_nb, *args):
    return apply_and_concat_one_nb(len(others), select_and_combine_nb, obj, others, combine_func_nb, *args)


def combine_multiple_nb(objs, combine_func_nb, *args):
    first = True
    result = objs[0]
    for obj in literal_unroll(objs):
        if first:
            first = False
        else:
            result = combine_func_nb(result, obj, *args)
    return result


def is_sorted(a):
    return np.all(a[:-1] <= a[1:])


def is_sorted_nb(a):
    for i in range(a.size - 1):
        if a[i + 1] < a[i]:
            return False
    return True


def insert_argsort_nb(A, I):
    for j in range(1, len(A)):
        A_j = A[j]
        I_j = I[j]
        i = j - 1
        while i >= 0 and (A[i] > A_j or np.isnan(A[i])):
            A[i + 1] = A[i]
            I[i + 1] = I[i]
            i = i - 1
        A[i + 1] = A_j
        I[i + 1] = I_j


def get_ranges_arr(starts, ends):
    starts_arr = np.asarray(starts)
    if starts_arr.ndim == 0:
        starts_arr = np.array([starts_arr])
    ends_arr = np.asarray(ends)
    if ends_arr.ndim == 0:
        ends_arr = np.array([ends_arr])
    starts_arr, ends_arr = np.broadcast_arrays(starts_arr, ends_arr)
    counts = ends_arr - starts_arr
    counts_csum = counts.cumsum()
    id_arr = np.ones(counts_csum[-1], dtype=int)
    id_arr[0] = starts_arr[0]
    id_arr[counts_csum[:-1]] = starts_arr[1:] - ends_arr[:-1] + 1
    return id_arr.cumsum()


def uniform_summing_to_one_nb(n):
    rand_floats = np.empty(n + 1, dtype=np.float64)
    rand_floats[0] = 0.0
    rand_floats[1] = 1.0
    rand_floats[2:] = np.random.uniform(0, 1, n - 1)
    rand_floats = np.sort(rand_floats)
    rand_floats = rand_floats[1:] - rand_floats[:-1]
    return rand_floats


def renormalize(a, from_range, to_range):
    from_delta = from_range[1] - from_range[0]
    to_delta = to_range[1] - to_range[0]
    return to_delta * (a - from_range[0]) / from_delta + to_range[0]


def min_rel_rescale(a, to_range):
    a_min = np.min(a)
    a_max = np.max(a)
    if a_max - a_min == 0:
        return np.full(a.shape, to_range[0])
    from_range = (a_min, a_max)
    from_range_ratio = np.inf
    if a_min != 0:
        from_range_ratio = a_max / a_min
    to_range_ratio = to_range[1] / to_range[0]
    if from_range_ratio < to_range_ratio:
        to_range = (to_range[0], to_range[0] * from_range_ratio)
    return renormalize(a, from_range, to_range)


def max_rel_rescale(a, to_range):
    a_min = np.min(a)
    a_max = np.max(a)
    if a_max - a_min == 0:
        return np.full(a.shape, to_range[1])
    from_range = (a_min, a_max)
    from_range_ratio = np.inf
    if a_min != 0:
        from_range_ratio = a_max / a_min
    to_range_ratio = to_range[1] / to_range[0]
    if from_range_ratio < to_range_ratio:
        to_range = (to_range[1] / from_range_ratio, to_range[1])
    return renormalize(a, from_range, to_range)


def rescale_float_to_int_nb(floats, int_range, total):
    ints = np.floor(renormalize(floats, [0.0, 1.0], int_range))
    leftover = int(total - ints.sum())
    for i in range(leftover):
        ints[np.random.choice(len(ints))] += 1
    return ints


def is_close_nb(a, b, rel_tol=rel_tol, abs_tol=abs_tol):
    if np.isnan(a) or np.isnan(b):
        return False
    if np.isinf(a) or np.isinf(b):
        return False
    if a == b:
        return True
    return abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol)


def is_close_or_less_nb(a, b, rel_tol=rel_tol, abs_tol=abs_tol):
    if math_.is_close_nb(a, b, rel_tol=rel_tol, abs_tol=abs_tol):
        return True
    return a < b


def is_less_nb(a, b, rel_tol=rel_tol, abs_tol=abs_tol):
    if math_.is_close_nb(a, b, rel_tol=rel_tol, abs_tol=abs_tol):
        return False
    return a < b


def is_addition_zero_nb(a, b, rel_tol=rel_tol, abs_tol=abs_tol):
    if np.sign(a) != np.sign(b):
        return math_.is_close_nb(abs(a), abs(b), rel_tol=rel_tol, abs_tol=abs_tol)
    return math_.is_close_nb(a + b, 0.0, rel_tol=rel_tol, abs_tol=abs_tol)


def add_nb(a, b, rel_tol=rel_tol, abs_tol=abs_tol):
    if math_.is_addition_zero_nb(a, b, rel_tol=rel_tol, abs_tol=abs_tol):
        return 0.0
    return a + b


def set_seed_nb(seed):
    np.random.seed(seed)


def set_seed(seed):
    random.seed(seed)
    np.random.seed(seed)
    set_seed_nb(seed)


def approx_exp_max_sharpe(mean_sharpe, var_sharpe, nb_trials):
    return mean_sharpe + np.sqrt(var_sharpe) * ((1 - np.euler_gamma) * norm.ppf(1 - 1 / nb_trials) + np.euler_gamma * norm.ppf(1 - 1 / (nb_trials * np.e)))


def deflated_sharpe_ratio(*, est_sharpe, var_sharpe, nb_trials, backtest_horizon, skew, kurtosis):
    SR0 = approx_exp_max_sharpe(0, var_sharpe, nb_trials)
    return norm.cdf((est_sharpe - SR0) * np.sqrt(backtest_horizon - 1) / np.sqrt(1 - skew * est_sharpe + (kurtosis - 1) / 4 * est_sharpe ** 2))


def i_group_any_reduce_nb(i, group, a):
    return np.any(a)


def position_mask_grouped_nb(position_mask, group_lens):
    return generic_nb.squeeze_grouped_nb(position_mask, group_lens, i_group_any_reduce_nb).astype(np.bool_)


def group_mean_reduce_nb(group, a):
    return np.mean(a)


def position_coverage_grouped_nb(position_mask, group_lens):
    return generic_nb.reduce_grouped_nb(position_mask, group_lens, group_mean_reduce_nb)

