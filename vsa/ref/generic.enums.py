"""Reviewed reference definitions of vectorbt.generic.enums (functions as name__ref, methods as name__of__Class)."""
import numpy as np
from vectorbt import _typing as tp
from vectorbt.utils.docs import to_doc
from vectorbt.generic.enums import RangeStatusT, RangeStatus, DrawdownStatusT, DrawdownStatus, range_dt, drawdown_dt


def RangeStatus__decl():
    return RangeStatusT(*range(2))


def DrawdownStatus__decl():
    return DrawdownStatusT(*range(2))


def range_dt__decl():
    return np.dtype([('id', np.int64), ('col', np.int64), ('start_idx', np.int64), ('end_idx', np.int64), ('status', np.int64)], align=True)


def drawdown_dt__decl():
    return np.dtype([('id', np.int64), ('col', np.int64), ('peak_idx', np.int64), ('start_idx', np.int64), ('valley_idx', np.int64), ('end_idx', np.int64), ('peak_val', np.float64), ('valley_val', np.float64), ('end_val', np.float64), ('status', np.int64)], align=True)
