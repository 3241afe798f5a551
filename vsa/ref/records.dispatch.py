"""Reviewed reference definitions of vectorbt.records.dispatch (functions as name__ref, methods as name__of__Class)."""
import numpy as np
from vectorbt import _typing as tp
from vectorbt._engine import array_compatible_with_rust, prepare_array_for_rust, col_map_compatible_with_rust, col_range_compatible_with_rust, combine_rust_support, resolve_engine, RustSupport, scalar_compatible_with_rust
from vectorbt.records.dispatch import col_range, col_range_select, record_col_range_select, col_map, record_array_compatible_with_rust, col_map_select, record_col_map_select, is_col_sorted, is_col_idx_sorted, is_mapped_expandable, expand_mapped, stack_expand_mapped, mapped_value_counts, top_n_mapped_mask, bottom_n_mapped_mask


def col_range__ref(col_arr, n_cols, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(col_arr, dtype=np.int64))
    if eng == 'rust':
        from vectorbt_rust.records import col_range_rs
        col_arr = prepare_array_for_rust(col_arr, dtype=np.int64)
        return col_range_rs(col_arr, n_cols)
    from vectorbt.records.nb import col_range_nb
    return col_range_nb(col_arr, n_cols)


def col_range_select__ref(col_range, new_cols, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(col_range_compatible_with_rust(col_range), array_compatible_with_rust(new_cols, dtype=np.int64)))
    if eng == 'rust':
        from vectorbt_rust.records import col_range_select_rs
        col_range = prepare_array_for_rust(col_range, dtype=np.int64)
        new_cols = prepare_array_for_rust(new_cols, dtype=np.int64)
        return col_range_select_rs(col_range, new_cols)
    from vectorbt.records.nb import col_range_select_nb
    return col_range_select_nb(col_range, new_cols)


def record_col_range_select__ref(records, col_range, new_cols, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(record_array_compatible_with_rust(records), col_range_compatible_with_rust(col_range), array_compatible_with_rust(new_cols, dtype=np.int64)))
    if eng == 'rust':
        from vectorbt_rust.records import record_col_range_select_rs
        col_range = prepare_array_for_rust(col_range, dtype=np.int64)
        new_cols = prepare_array_for_rust(new_cols, dtype=np.int64)
        return record_col_range_select_rs(records, col_range, new_cols)
    from vectorbt.records.nb import record_col_range_select_nb
    return record_col_range_select_nb(records, col_range, new_cols)


def col_map__ref(col_arr, n_cols, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(col_arr, dtype=np.int64))
    if eng == 'rust':
        from vectorbt_rust.records import col_map_rs
        col_arr = prepare_array_for_rust(col_arr, dtype=np.int64)
        return col_map_rs(col_arr, n_cols)
    from vectorbt.records.nb import col_map_nb
    return col_map_nb(col_arr, n_cols)


def record_array_compatible_with_rust__ref(records):
    if not isinstance(records, np.ndarray):
        return RustSupport(False, 'Rust engine requires `records` to be a NumPy array.')
    if records.dtype.names is None:
        return RustSupport(False, 'Rust engine requires `records` to be a structured array.')
    names = records.dtype.names
    if 'id' not in names or 'col' not in names:
        return RustSupport(False, 'Rust engine requires `records` to have `id` and `col` fields.')
    id_dtype = records.dtype.fields['id'][0]
    col_dtype = records.dtype.fields['col'][0]
    if id_dtype != np.dtype(np.int64) or col_dtype != np.dtype(np.int64):
        return RustSupport(False, 'Rust engine requires `id` and `col` record fields to be int64.')
    return RustSupport(True)


def col_map_select__ref(col_map, new_cols, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(col_map_compatible_with_rust(col_map), array_compatible_with_rust(new_cols, dtype=np.int64)))
    if eng == 'rust':
        from vectorbt_rust.records import col_map_select_rs
        col_idxs, col_lens = col_map
        col_idxs = prepare_array_for_rust(col_idxs, dtype=np.int64)
        col_lens = prepare_array_for_rust(col_lens, dtype=np.int64)
        new_cols = prepare_array_for_rust(new_cols, dtype=np.int64)
        return col_map_select_rs(col_idxs, col_lens, new_cols)
    from vectorbt.records.nb import col_map_select_nb
    return col_map_select_nb(col_map, new_cols)


def record_col_map_select__ref(records, col_map, new_cols, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(record_array_compatible_with_rust(records), col_map_compatible_with_rust(col_map), array_compatible_with_rust(new_cols, dtype=np.int64)))
    if eng == 'rust':
        from vectorbt_rust.records import record_col_map_select_rs
        col_idxs, col_lens = col_map
        col_idxs = prepare_array_for_rust(col_idxs, dtype=np.int64)
        col_lens = prepare_array_for_rust(col_lens, dtype=np.int64)
        new_cols = prepare_array_for_rust(new_cols, dtype=np.int64)
        return record_col_map_select_rs(records, col_idxs, col_lens, new_cols)
    from vectorbt.records.nb import record_col_map_select_nb
    return record_col_map_select_nb(records, col_map, new_cols)


def is_col_sorted__ref(col_arr, engine=None):
    eng = resolve_engine(engine, supports_rust=array_compatible_with_rust(col_arr, dtype=np.int64))
    if eng == 'rust':
        from vectorbt_rust.records import is_col_sorted_rs
        col_arr = prepare_array_for_rust(col_arr, dtype=np.int64)
        return is_col_sorted_rs(col_arr)
    from vectorbt.records.nb import is_col_sorted_nb
    return is_col_sorted_nb(col_arr)


def is_col_idx_sorted__ref(col_arr, id_arr, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(col_arr, dtype=np.int64), array_compatible_with_rust(id_arr, dtype=np.int64)))
    if eng == 'rust':
        from vectorbt_rust.records import is_col_idx_sorted_rs
        col_arr = prepare_array_for_rust(col_arr, dtype=np.int64)
        id_arr = prepare_array_for_rust(id_arr, dtype=np.int64)
        return is_col_idx_sorted_rs(col_arr, id_arr)
    from vectorbt.records.nb import is_col_idx_sorted_nb
    return is_col_idx_sorted_nb(col_arr, id_arr)


def is_mapped_expandable__ref(col_arr, idx_arr, target_shape, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(col_arr, dtype=np.int64), array_compatible_with_rust(idx_arr, dtype=np.int64)))
    if eng == 'rust':
        from vectorbt_rust.records import is_mapped_expandable_rs
        col_arr = prepare_array_for_rust(col_arr, dtype=np.int64)
        idx_arr = prepare_array_for_rust(idx_arr, dtype=np.int64)
        return is_mapped_expandable_rs(col_arr, idx_arr, target_shape)
    from vectorbt.records.nb import is_mapped_expandable_nb
    return is_mapped_expandable_nb(col_arr, idx_arr, target_shape)


def expand_mapped__ref(mapped_arr, col_arr, idx_arr, target_shape, fill_value, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(mapped_arr), array_compatible_with_rust(col_arr, dtype=np.int64), array_compatible_with_rust(idx_arr, dtype=np.int64), scalar_compatible_with_rust('fill_value', fill_value)))
    if eng == 'rust':
        from vectorbt_rust.records import expand_mapped_rs
        mapped_arr = prepare_array_for_rust(mapped_arr, dtype=np.float64)
        col_arr = prepare_array_for_rust(col_arr, dtype=np.int64)
        idx_arr = prepare_array_for_rust(idx_arr, dtype=np.int64)
        return expand_mapped_rs(mapped_arr, col_arr, idx_arr, target_shape, fill_value)
    from vectorbt.records.nb import expand_mapped_nb
    return expand_mapped_nb(mapped_arr, col_arr, idx_arr, target_shape, fill_value)


def stack_expand_mapped__ref(mapped_arr, col_map, fill_value, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(mapped_arr), col_map_compatible_with_rust(col_map), scalar_compatible_with_rust('fill_value', fill_value)))
    if eng == 'rust':
        from vectorbt_rust.records import stack_expand_mapped_rs
        col_idxs, col_lens = col_map
        mapped_arr = prepare_array_for_rust(mapped_arr, dtype=np.float64)
        col_idxs = prepare_array_for_rust(col_idxs, dtype=np.int64)
        col_lens = prepare_array_for_rust(col_lens, dtype=np.int64)
        return stack_expand_mapped_rs(mapped_arr, col_idxs, col_lens, fill_value)
    from vectorbt.records.nb import stack_expand_mapped_nb
    return stack_expand_mapped_nb(mapped_arr, col_map, fill_value)


def mapped_value_counts__ref(codes, n_uniques, col_map, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(codes, dtype=np.int64), col_map_compatible_with_rust(col_map)))
    if eng == 'rust':
        from vectorbt_rust.records import mapped_value_counts_rs
        col_idxs, col_lens = col_map
        codes = prepare_array_for_rust(codes, dtype=np.int64)
        col_idxs = prepare_array_for_rust(col_idxs, dtype=np.int64)
        col_lens = prepare_array_for_rust(col_lens, dtype=np.int64)
        return mapped_value_counts_rs(codes, n_uniques, col_idxs, col_lens)
    from vectorbt.records.nb import mapped_value_counts_nb
    return mapped_value_counts_nb(codes, n_uniques, col_map)


def top_n_mapped_mask__ref(mapped_arr, col_map, n, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(mapped_arr), col_map_compatible_with_rust(col_map)))
    if eng == 'rust':
        from vectorbt_rust.records import top_n_mapped_mask_rs
        col_idxs, col_lens = col_map
        mapped_arr = prepare_array_for_rust(mapped_arr, dtype=np.float64)
        col_idxs = prepare_array_for_rust(col_idxs, dtype=np.int64)
        col_lens = prepare_array_for_rust(col_lens, dtype=np.int64)
        return top_n_mapped_mask_rs(mapped_arr, col_idxs, col_lens, n)
    from vectorbt.records.nb import mapped_to_mask_nb, top_n_inout_map_nb
    return mapped_to_mask_nb(mapped_arr, col_map, top_n_inout_map_nb, n)


def bottom_n_mapped_mask__ref(mapped_arr, col_map, n, engine=None):
    eng = resolve_engine(engine, supports_rust=combine_rust_support(array_compatible_with_rust(mapped_arr), col_map_compatible_with_rust(col_map)))
    if eng == 'rust':
        from vectorbt_rust.records import bottom_n_mapped_mask_rs
        col_idxs, col_lens = col_map
        mapped_arr = prepare_array_for_rust(mapped_arr, dtype=np.float64)
        col_idxs = prepare_array_for_rust(col_idxs, dtype=np.int64)
        col_lens = prepare_array_for_rust(col_lens, dtype=np.int64)
        return bottom_n_mapped_mask_rs(mapped_arr, col_idxs, col_lens, n)
    from vectorbt.records.nb import bottom_n_inout_map_nb, mapped_to_mask_nb
    return mapped_to_mask_nb(mapped_arr, col_map, bottom_n_inout_map_nb, n)
