"""Reviewed reference definitions of vectorbt.utils.random_ (functions as name__ref, methods as name__of__Class)."""
import random
import numpy as np
from numba import njit
from vectorbt.utils.random_ import set_seed_nb, set_seed


def set_seed_nb__ref(seed):
    np.random.seed(seed)


def set_seed__ref(seed):
    random.seed(seed)
    np.random.seed(seed)
    set_seed_nb(seed)
