import numpy as np
from numba import njit
from numba.extending import overload
from numba.np.numpy_support import as_dtype
from vectorbt import _typing as tp

def col_range_nb(col_arr, n_cols):
    col_range = np.full((n_cols, 2), -1, dtype=np.int64)
    last_col = -1
    for r in range(col_arr.shape[0]):
        col = col_arr[r]
        if col < last_col:
            raise ValueError('col_arr must be in ascending order')
        if col != last_col:
            if last_col != -1:
                col_range[last_col, 1] = r
            col_range[col, 0] = r
            last_col = col
        if r == col_arr.shape[0] - 1:
            col_range[col, 1] = r + 1
    return col_range

def col_range_select_nb(col_range, new_cols):
    col_range = col_range[new_cols]
    new_n = np.sum(col_range[:, 1] - col_range[:, 0])
    indices_out = np.empty(new_n, dtype=np.int64)
    col_arr_out = np.empty(new_n, dtype=np.int64)
    j = 0
    for c in range(new_cols.shape[0]):
        from_r = col_range[c, 0]
        to_r = col_range[c, 1]
        if from_r == -1 or to_r == -1:
            continue
        rang = np.arange(from_r, to_r)
        indices_out[j:j + rang.shape[0]] = rang
        col_arr_out[j:j + rang.shape[0]] = c
        j += rang.shape[0]
    return (indices_out, col_arr_out)

def record_col_range_select_nb(records, col_range, new_cols):
    col_range = col_range[new_cols]
    new_n = np.sum(col_range[:, 1] - col_range[:, 0])
    out = np.empty(new_n, dtype=records.dtype)
    j = 0
    for c in range(new_cols.shape[0]):
        from_r = col_range[c, 0]
        to_r = col_range[c, 1]
        if from_r == -1 or to_r == -1:
            continue
        col_records = np.copy(records[from_r:to_r])
        col_records['col'][:] = c
        out[j:j + col_records.shape[0]] = col_records
        j += col_records.shape[0]
    return out

def col_map_nb(col_arr, n_cols):
    col_lens_out = np.full(n_cols, 0, dtype=np.int64)
    for r in range(col_arr.shape[0]):
        col = col_arr[r]
        col_lens_out[col] += 1
    col_start_idxs = np.cumsum(col_lens_out) - col_lens_out
    col_idxs_out = np.empty((col_arr.shape[0],), dtype=np.int64)
    col_i = np.full(n_cols, 0, dtype=np.int64)
    for r in range(col_arr.shape[0]):
        col = col_arr[r]
        col_idxs_out[col_start_idxs[col] + col_i[col]] = r
        col_i[col] += 1
    return (col_idxs_out, col_lens_out)

def col_map_select_nb(col_map, new_cols):
    col_idxs, col_lens = col_map
    col_start_idxs = np.cumsum(col_lens) - col_lens
    total_count = np.sum(col_lens[new_cols])
    idxs_out = np.empty(total_count, dtype=np.int64)
    col_arr_out = np.empty(total_count, dtype=np.int64)
    j = 0
    for new_col_i in range(len(new_cols)):
        new_col = new_cols[new_col_i]
        col_len = col_lens[new_col]
        if col_len == 0:
            continue
        col_start_idx = col_start_idxs[new_col]
        idxs = col_idxs[col_start_idx:col_start_idx + col_len]
        idxs_out[j:j + col_len] = idxs
        col_arr_out[j:j + col_len] = new_col_i
        j += col_len
    return (idxs_out, col_arr_out)

def record_col_map_select_nb(records, col_map, new_cols):
    col_idxs, col_lens = col_map
    col_start_idxs = np.cumsum(col_lens) - col_lens
    out = np.empty(np.sum(col_lens[new_cols]), dtype=records.dtype)
    j = 0
    for new_col_i in range(len(new_cols)):
        new_col = new_cols[new_col_i]
        col_len = col_lens[new_col]
        if col_len == 0:
            continue
        col_start_idx = col_start_idxs[new_col]
        ridxs = col_idxs[col_start_idx:col_start_idx + col_len]
        col_records = np.copy(records[ridxs])
        col_records['col'][:] = new_col_i
        out[j:j + col_len] = col_records
        j += col_len
    return out

def is_col_sorted_nb(col_arr):
    for i in range(len(col_arr) - 1):
        if col_arr[i + 1] < col_arr[i]:
            return False
    return True

def is_col_idx_sorted_nb(col_arr, id_arr):
    for i in range(len(col_arr) - 1):
        if col_arr[i + 1] < col_arr[i]:
            return False
        if col_arr[i + 1] == col_arr[i] and id_arr[i + 1] < id_arr[i]:
            return False
    return True

def mapped_to_mask_nb(mapped_arr, col_map, inout_map_func_nb, *args):
    col_idxs, col_lens = col_map
    col_start_idxs = np.cumsum(col_lens) - col_lens
    inout = np.full(mapped_arr.shape[0], False, dtype=np.bool_)
    for col in range(col_lens.shape[0]):
        col_len = col_lens[col]
        if col_len == 0:
            continue
        col_start_idx = col_start_idxs[col]
        ridxs = col_idxs[col_start_idx:col_start_idx + col_len]
        inout_map_func_nb(inout, ridxs, col, mapped_arr[ridxs], *args)
    return inout

def top_n_inout_map_nb(inout, idxs, col, mapped_arr, n):
    if n <= 0:
        return
    col_len = mapped_arr.shape[0]
    if n >= col_len:
        inout[idxs] = True
        return
    n_valid = 0
    for i in range(col_len):
        if mapped_arr[i] == mapped_arr[i]:
            n_valid += 1
    if n_valid == 0:
        n_remaining = n
        for i in range(col_len - 1, -1, -1):
            inout[idxs[i]] = True
            n_remaining -= 1
            if n_remaining == 0:
                break
        return
    valid_mapped_arr = np.empty(n_valid, dtype=mapped_arr.dtype)
    j = 0
    for i in range(col_len):
        if mapped_arr[i] == mapped_arr[i]:
            valid_mapped_arr[j] = mapped_arr[i]
            j += 1
    if n > n_valid:
        for i in range(col_len):
            if mapped_arr[i] == mapped_arr[i]:
                inout[idxs[i]] = True
        n_remaining = n - n_valid
        for i in range(col_len - 1, -1, -1):
            if mapped_arr[i] != mapped_arr[i]:
                inout[idxs[i]] = True
                n_remaining -= 1
                if n_remaining == 0:
                    break
        return
    n_partition = n_valid - n
    pivot = np.partition(valid_mapped_arr, n_partition)[n_partition]
    n_greater = 0
    for i in range(col_len):
        if mapped_arr[i] == mapped_arr[i] and mapped_arr[i] > pivot:
            n_greater += 1
            inout[idxs[i]] = True
    n_remaining = n - n_greater
    if n_remaining <= 0:
        return
    for i in range(col_len - 1, -1, -1):
        if mapped_arr[i] == mapped_arr[i] and mapped_arr[i] == pivot:
            inout[idxs[i]] = True
            n_remaining -= 1
            if n_remaining == 0:
                break

def bottom_n_inout_map_nb(inout, idxs, col, mapped_arr, n):
    if n <= 0:
        return
    col_len = mapped_arr.shape[0]
    if n >= col_len:
        inout[idxs] = True
        return
    n_valid = 0
    for i in range(col_len):
        if mapped_arr[i] == mapped_arr[i]:
            n_valid += 1
    if n_valid == 0:
        n_remaining = n
        for i in range(col_len):
            inout[idxs[i]] = True
            n_remaining -= 1
            if n_remaining == 0:
                break
        return
    valid_mapped_arr = np.empty(n_valid, dtype=mapped_arr.dtype)
    j = 0
    for i in range(col_len):
        if mapped_arr[i] == mapped_arr[i]:
            valid_mapped_arr[j] = mapped_arr[i]
            j += 1
    if n > n_valid:
        for i in range(col_len):
            if mapped_arr[i] == mapped_arr[i]:
                inout[idxs[i]] = True
        n_remaining = n - n_valid
        for i in range(col_len):
            if mapped_arr[i] != mapped_arr[i]:
                inout[idxs[i]] = True
                n_remaining -= 1
                if n_remaining == 0:
                    break
        return
    pivot = np.partition(valid_mapped_arr, n - 1)[n - 1]
    n_less = 0
    for i in range(col_len):
        if mapped_arr[i] == mapped_arr[i] and mapped_arr[i] < pivot:
            n_less += 1
            inout[idxs[i]] = True
    n_remaining = n - n_less
    if n_remaining <= 0:
        return
    for i in range(col_len):
        if mapped_arr[i] == mapped_arr[i] and mapped_arr[i] == pivot:
            inout[idxs[i]] = True
            n_remaining -= 1
            if n_remaining == 0:
                break

def apply_on_mapped_nb(mapped_arr, col_map, apply_func_nb, *args):
    col_idxs, col_lens = col_map
    col_start_idxs = np.cumsum(col_lens) - col_lens
    out = np.empty(mapped_arr.shape[0], dtype=np.float64)
    for col in range(col_lens.shape[0]):
        col_len = col_lens[col]
        if col_len == 0:
            continue
        col_start_idx = col_start_idxs[col]
        ridxs = col_idxs[col_start_idx:col_start_idx + col_len]
        out[ridxs] = apply_func_nb(ridxs, col, mapped_arr[ridxs], *args)
    return out

def apply_on_records_nb(records, col_map, apply_func_nb, *args):
    col_idxs, col_lens = col_map
    col_start_idxs = np.cumsum(col_lens) - col_lens
    out = np.empty(records.shape[0], dtype=np.float64)
    for col in range(col_lens.shape[0]):
        col_len = col_lens[col]
        if col_len == 0:
            continue
        col_start_idx = col_start_idxs[col]
        ridxs = col_idxs[col_start_idx:col_start_idx + col_len]
        out[ridxs] = apply_func_nb(records[ridxs], *args)
    return out

def map_records_nb(records, map_func_nb, *args):
    out = np.empty(records.shape[0], dtype=np.float64)
    for r in range(records.shape[0]):
        out[r] = map_func_nb(records[r], *args)
    return out

def is_mapped_expandable_nb(col_arr, idx_arr, target_shape):
    temp = np.zeros(target_shape)
    for i in range(len(col_arr)):
        if temp[idx_arr[i], col_arr[i]] > 0:
            return False
        temp[idx_arr[i], col_arr[i]] = 1
    return True

def _expand_mapped_nb(mapped_arr, col_arr, idx_arr, target_shape, fill_value):
    mapped_arr_dtype = mapped_arr.dtype
    fill_value_dtype = np.array(fill_value).dtype
    dtype = np.promote_types(mapped_arr_dtype, fill_value_dtype)
    out = np.full(target_shape, fill_value, dtype=dtype)
    for r in range(mapped_arr.shape[0]):
        out[idx_arr[r], col_arr[r]] = mapped_arr[r]
    return out

def expand_mapped_nb(mapped_arr, col_arr, idx_arr, target_shape, fill_value):
    return _expand_mapped_nb(mapped_arr, col_arr, idx_arr, target_shape, fill_value)

def _stack_expand_mapped_nb(mapped_arr, col_map, fill_value):
    mapped_arr_dtype = mapped_arr.dtype
    fill_value_dtype = np.array(fill_value).dtype
    dtype = np.promote_types(mapped_arr_dtype, fill_value_dtype)
    col_idxs, col_lens = col_map
    col_start_idxs = np.cumsum(col_lens) - col_lens
    out = np.full((np.max(col_lens), col_lens.shape[0]), fill_value, dtype=dtype)
    for col in range(col_lens.shape[0]):
        col_len = col_lens[col]
        if col_len == 0:
            continue
        col_start_idx = col_start_idxs[col]
        idxs = col_idxs[col_start_idx:col_start_idx + col_len]
        out[:col_len, col] = mapped_arr[idxs]
    return out

def stack_expand_mapped_nb(mapped_arr, col_map, fill_value):
    return _stack_expand_mapped_nb(mapped_arr, col_map, fill_value)

def reduce_mapped_nb(mapped_arr, col_map, fill_value, reduce_func_nb, *args):
    col_idxs, col_lens = col_map
    col_start_idxs = np.cumsum(col_lens) - col_lens
    out = np.full(col_lens.shape[0], fill_value, dtype=np.float64)
    for col in range(col_lens.shape[0]):
        col_len = col_lens[col]
        if col_len == 0:
            continue
        col_start_idx = col_start_idxs[col]
        ridxs = col_idxs[col_start_idx:col_start_idx + col_len]
        out[col] = reduce_func_nb(col, mapped_arr[ridxs], *args)
    return out

def reduce_mapped_to_idx_nb(mapped_arr, col_map, idx_arr, fill_value, reduce_func_nb, *args):
    col_idxs, col_lens = col_map
    col_start_idxs = np.cumsum(col_lens) - col_lens
    out = np.full(col_lens.shape[0], fill_value, dtype=np.float64)
    for col in range(col_lens.shape[0]):
        col_len = col_lens[col]
        if col_len == 0:
            continue
        col_start_idx = col_start_idxs[col]
        ridxs = col_idxs[col_start_idx:col_start_idx + col_len]
        col_out = reduce_func_nb(col, mapped_arr[ridxs], *args)
        out[col] = idx_arr[ridxs][col_out]
    return out

def reduce_mapped_to_array_nb(mapped_arr, col_map, fill_value, reduce_func_nb, *args):
    col_idxs, col_lens = col_map
    col_start_idxs = np.cumsum(col_lens) - col_lens
    for col in range(col_lens.shape[0]):
        col_len = col_lens[col]
        if col_len > 0:
            col_start_idx = col_start_idxs[col]
            col0, idxs0 = (col, col_idxs[col_start_idx:col_start_idx + col_len])
            break
    col_out = reduce_func_nb(col0, mapped_arr[idxs0], *args)
    out = np.full((col_out.shape[0], col_lens.shape[0]), fill_value, dtype=np.float64)
    out[:, col0] = col_out
    for col in range(col0 + 1, col_lens.shape[0]):
        col_len = col_lens[col]
        if col_len == 0:
            continue
        col_start_idx = col_start_idxs[col]
        ridxs = col_idxs[col_start_idx:col_start_idx + col_len]
        out[:, col] = reduce_func_nb(col, mapped_arr[ridxs], *args)
    return out

def reduce_mapped_to_idx_array_nb(mapped_arr, col_map, idx_arr, fill_value, reduce_func_nb, *args):
    col_idxs, col_lens = col_map
    col_start_idxs = np.cumsum(col_lens) - col_lens
    for col in range(col_lens.shape[0]):
        col_len = col_lens[col]
        if col_len > 0:
            col_start_idx = col_start_idxs[col]
            col0, idxs0 = (col, col_idxs[col_start_idx:col_start_idx + col_len])
            break
    col_out = reduce_func_nb(col0, mapped_arr[idxs0], *args)
    out = np.full((col_out.shape[0], col_lens.shape[0]), fill_value, dtype=np.float64)
    out[:, col0] = idx_arr[idxs0][col_out]
    for col in range(col0 + 1, col_lens.shape[0]):
        col_len = col_lens[col]
        if col_len == 0:
            continue
        col_start_idx = col_start_idxs[col]
        ridxs = col_idxs[col_start_idx:col_start_idx + col_len]
        col_out = reduce_func_nb(col, mapped_arr[ridxs], *args)
        out[:, col] = idx_arr[ridxs][col_out]
    return out

def mapped_value_counts_nb(codes, n_uniques, col_map):
    col_idxs, col_lens = col_map
    col_start_idxs = np.cumsum(col_lens) - col_lens
    out = np.full((n_uniques, col_lens.shape[0]), 0, dtype=np.int64)
    for col in range(col_lens.shape[0]):
        col_len = col_lens[col]
        if col_len == 0:
            continue
        col_start_idx = col_start_idxs[col]
        for c in range(col_len):
            out[codes[col_idxs[col_start_idx + c]], col] += 1
    return out
