"""Reviewed reference definitions of vectorbt.utils.array_ (functions as name__ref, methods as name__of__Class)."""
import numpy as np
from numba import njit
from vectorbt import _typing as tp
from vectorbt.utils.array_ import is_sorted, is_sorted_nb, insert_argsort_nb, get_ranges_arr, uniform_summing_to_one_nb, renormalize, renormalize_nb, min_rel_rescale, max_rel_rescale, rescale_float_to_int_nb


def is_sorted__ref(a):
    return np.all(a[:-1] <= a[1:])


def is_sorted_nb__ref(a):
    for i in range(a.size - 1):
        if a[i + 1] < a[i]:
            return False
    return True


def insert_argsort_nb__ref(A, I):
    for j in range(1, len(A)):
        A_j = A[j]
        I_j = I[j]
        i = j - 1
        while i >= 0 and (A[i] > A_j or np.isnan(A[i])):
            A[i + 1] = A[i]
            I[i + 1] = I[i]
            i = i - 1
        A[i + 1] = A_j
        I[i + 1] = I_j


def get_ranges_arr__ref(starts, ends):
    starts_arr = np.asarray(starts)
    if starts_arr.ndim == 0:
        starts_arr = np.array([starts_arr])
    ends_arr = np.asarray(ends)
    if ends_arr.ndim == 0:
        ends_arr = np.array([ends_arr])
    starts_arr, ends_arr = np.broadcast_arrays(starts_arr, ends_arr)
    counts = ends_arr - starts_arr
    counts_csum = counts.cumsum()
    id_arr = np.ones(counts_csum[-1], dtype=int)
    id_arr[0] = starts_arr[0]
    id_arr[counts_csum[:-1]] = starts_arr[1:] - ends_arr[:-1] + 1
    return id_arr.cumsum()


def uniform_summing_to_one_nb__ref(n):
    rand_floats = np.empty(n + 1, dtype=np.float64)
    rand_floats[0] = 0.0
    rand_floats[1] = 1.0
    rand_floats[2:] = np.random.uniform(0, 1, n - 1)
    rand_floats = np.sort(rand_floats)
    rand_floats = rand_floats[1:] - rand_floats[:-1]
    return rand_floats


def renormalize__ref(a, from_range, to_range):
    from_delta = from_range[1] - from_range[0]
    to_delta = to_range[1] - to_range[0]
    return to_delta * (a - from_range[0]) / from_delta + to_range[0]


def renormalize_nb__decl():
    return njit(cache=True)(renormalize)


def min_rel_rescale__ref(a, to_range):
    a_min = np.min(a)
    a_max = np.max(a)
    if a_max - a_min == 0:
        return np.full(a.shape, to_range[0])
    from_range = (a_min, a_max)
    from_range_ratio = np.inf
    if a_min != 0:
        from_range_ratio = a_max / a_min
    to_range_ratio = to_range[1] / to_range[0]
    if from_range_ratio < to_range_ratio:
        to_range = (to_range[0], to_range[0] * from_range_ratio)
    return renormalize(a, from_range, to_range)


def max_rel_rescale__ref(a, to_range):
    a_min = np.min(a)
    a_max = np.max(a)
    if a_max - a_min == 0:
        return np.full(a.shape, to_range[1])
    from_range = (a_min, a_max)
    from_range_ratio = np.inf
    if a_min != 0:
        from_range_ratio = a_max / a_min
    to_range_ratio = to_range[1] / to_range[0]
    if from_range_ratio < to_range_ratio:
        to_range = (to_range[1] / from_range_ratio, to_range[1])
    return renormalize(a, from_range, to_range)


def rescale_float_to_int_nb__ref(floats, int_range, total):
    ints = np.floor(renormalize_nb(floats, [0.0, 1.0], int_range))
    leftover = int(total - ints.sum())
    for i in range(leftover):
        ints[np.random.choice(len(ints))] += 1
    return ints
