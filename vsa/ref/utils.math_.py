"""Reviewed reference definitions of vectorbt.utils.math_ (functions as name__ref, methods as name__of__Class)."""
import numpy as np
from numba import njit
from vectorbt.utils.math_ import rel_tol, abs_tol, is_close_nb, is_close_or_less_nb, is_less_nb, is_addition_zero_nb, add_nb


def rel_tol__decl():
    return 1e-09


def abs_tol__decl():
    return 1e-12


def is_close_nb__ref(a, b, rel_tol=rel_tol, abs_tol=abs_tol):
    if np.isnan(a) or np.isnan(b):
        return False
    if np.isinf(a) or np.isinf(b):
        return False
    if a == b:
        return True
    return abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol)


def is_close_or_less_nb__ref(a, b, rel_tol=rel_tol, abs_tol=abs_tol):
    if is_close_nb(a, b, rel_tol=rel_tol, abs_tol=abs_tol):
        return True
    return a < b


def is_less_nb__ref(a, b, rel_tol=rel_tol, abs_tol=abs_tol):
    if is_close_nb(a, b, rel_tol=rel_tol, abs_tol=abs_tol):
        return False
    return a < b


def is_addition_zero_nb__ref(a, b, rel_tol=rel_tol, abs_tol=abs_tol):
    if np.sign(a) != np.sign(b):
        return is_close_nb(abs(a), abs(b), rel_tol=rel_tol, abs_tol=abs_tol)
    return is_close_nb(a + b, 0.0, rel_tol=rel_tol, abs_tol=abs_tol)


def add_nb__ref(a, b, rel_tol=rel_tol, abs_tol=abs_tol):
    if is_addition_zero_nb(a, b, rel_tol=rel_tol, abs_tol=abs_tol):
        return 0.0
    return a + b
