"""Reviewed reference definitions of vectorbt.generic.splitters (functions as name__ref, methods as name__of__Class)."""
import math
import numpy as np
import pandas as pd
from vectorbt import _typing as tp
from vectorbt.base.index_fns import find_first_occurrence
from vectorbt.base.reshape_fns import to_any_array
from vectorbt.utils import checks
from vectorbt.generic.splitters import RangesT, split_ranges_into_sets, SplitterT, BaseSplitter, RangeSplitter, RollingSplitter, ExpandingSplitter


def split_ranges_into_sets__ref(start_idxs, end_idxs, set_lens=(), left_to_right=True):
    start_idxs = np.asarray(start_idxs)
    end_idxs = np.asarray(end_idxs)
    checks.assert_len_equal(start_idxs, end_idxs)
    for i in range(len(start_idxs)):
        start_idx = start_idxs[i]
        end_idx = end_idxs[i]
        range_len = end_idx - start_idx + 1
        new_set_lens = []
        if len(set_lens) == 0:
            yield (np.arange(start_idx, end_idx + 1),)
        else:
            if checks.is_sequence(set_lens[0]):
                _set_lens = set_lens[i]
            else:
                _set_lens = set_lens
            if checks.is_sequence(left_to_right):
                _left_to_right = left_to_right[i]
            else:
                _left_to_right = left_to_right
            for j, set_len in enumerate(_set_lens):
                if 0 < set_len < 1:
                    set_len = math.floor(set_len * range_len)
                if set_len <= 0:
                    raise ValueError(f'Set {j} in the range {i} is empty')
                new_set_lens.append(set_len)
            if sum(new_set_lens) < range_len:
                if _left_to_right:
                    new_set_lens = new_set_lens + [range_len - sum(new_set_lens)]
                else:
                    new_set_lens = [range_len - sum(new_set_lens)] + new_set_lens
            else:
                raise ValueError(f'Range of length {range_len} too short to split into {len(_set_lens) + 1} sets')
            idx_offset = 0
            set_ranges = []
            for set_len in new_set_lens:
                new_idx_offset = idx_offset + set_len
                set_ranges.append(np.arange(start_idx + idx_offset, start_idx + new_idx_offset))
                idx_offset = new_idx_offset
            yield tuple(set_ranges)


def split__of__SplitterT(self, X, **kwargs):
    ...


def split__of__BaseSplitter(self, X, **kwargs):
    raise NotImplementedError


def split__of__RangeSplitter(self, X, n=None, range_len=None, min_len=1, start_idxs=None, end_idxs=None, **kwargs):
    X = to_any_array(X)
    if isinstance(X, (pd.Series, pd.DataFrame)):
        index = X.index
    else:
        index = pd.Index(np.arange(X.shape[0]))
    if start_idxs is None and end_idxs is None:
        if range_len is None and n is None:
            raise ValueError('At least n, range_len, or start_idxs and end_idxs must be set')
        if range_len is None:
            range_len = len(index) // n
        if 0 < range_len < 1:
            range_len = math.floor(range_len * len(index))
        start_idxs = np.arange(len(index) - range_len + 1)
        end_idxs = np.arange(range_len - 1, len(index))
    elif start_idxs is None or end_idxs is None:
        raise ValueError('Both start_idxs and end_idxs must be set')
    else:
        if isinstance(start_idxs, pd.Index):
            start_idxs = np.asarray([find_first_occurrence(idx, index) for idx in start_idxs])
        else:
            start_idxs = np.asarray(start_idxs)
        if isinstance(end_idxs, pd.Index):
            end_idxs = np.asarray([find_first_occurrence(idx, index) for idx in end_idxs])
        else:
            end_idxs = np.asarray(end_idxs)
    start_idxs, end_idxs = np.broadcast_arrays(start_idxs, end_idxs)
    range_lens = end_idxs - start_idxs + 1
    min_len_mask = range_lens >= min_len
    if not np.any(min_len_mask):
        raise ValueError(f'There are no ranges that meet range_len>={min_len}')
    start_idxs = start_idxs[min_len_mask]
    end_idxs = end_idxs[min_len_mask]
    if n is not None:
        if n > len(start_idxs):
            raise ValueError(f'n cannot be bigger than the maximum number of ranges {len(start_idxs)}')
        idxs = np.round(np.linspace(0, len(start_idxs) - 1, n)).astype(int)
        start_idxs = start_idxs[idxs]
        end_idxs = end_idxs[idxs]
    return split_ranges_into_sets(start_idxs, end_idxs, **kwargs)


def split__of__RollingSplitter(self, X, n=None, window_len=None, min_len=1, **kwargs):
    X = to_any_array(X)
    if isinstance(X, (pd.Series, pd.DataFrame)):
        index = X.index
    else:
        index = pd.Index(np.arange(X.shape[0]))
    if window_len is None and n is None:
        raise ValueError('At least n or window_len must be set')
    if window_len is None:
        window_len = len(index) // n
    if 0 < window_len < 1:
        window_len = math.floor(window_len * len(index))
    start_idxs = np.arange(len(index) - window_len + 1)
    end_idxs = np.arange(window_len - 1, len(index))
    window_lens = end_idxs - start_idxs + 1
    min_len_mask = window_lens >= min_len
    if not np.any(min_len_mask):
        raise ValueError(f'There are no ranges that meet window_len>={min_len}')
    start_idxs = start_idxs[min_len_mask]
    end_idxs = end_idxs[min_len_mask]
    if n is not None:
        if n > len(start_idxs):
            raise ValueError(f'n cannot be bigger than the maximum number of windows {len(start_idxs)}')
        idxs = np.round(np.linspace(0, len(start_idxs) - 1, n)).astype(int)
        start_idxs = start_idxs[idxs]
        end_idxs = end_idxs[idxs]
    return split_ranges_into_sets(start_idxs, end_idxs, **kwargs)


def split__of__ExpandingSplitter(self, X, n=None, min_len=1, **kwargs):
    X = to_any_array(X)
    if isinstance(X, (pd.Series, pd.DataFrame)):
        index = X.index
    else:
        index = pd.Index(np.arange(X.shape[0]))
    start_idxs = np.full(len(index), 0)
    end_idxs = np.arange(len(index))
    window_lens = end_idxs - start_idxs + 1
    min_len_mask = window_lens >= min_len
    if not np.any(min_len_mask):
        raise ValueError(f'There are no ranges that meet window_len>={min_len}')
    start_idxs = start_idxs[min_len_mask]
    end_idxs = end_idxs[min_len_mask]
    if n is not None:
        if n > len(start_idxs):
            raise ValueError(f'n cannot be bigger than the maximum number of windows {len(start_idxs)}')
        idxs = np.round(np.linspace(0, len(start_idxs) - 1, n)).astype(int)
        start_idxs = start_idxs[idxs]
        end_idxs = end_idxs[idxs]
    return split_ranges_into_sets(start_idxs, end_idxs, **kwargs)
