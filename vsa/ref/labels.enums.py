"""Reviewed reference definitions of vectorbt.labels.enums (functions as name__ref, methods as name__of__Class)."""
from vectorbt import _typing as tp
from vectorbt.utils.docs import to_doc
from vectorbt.labels.enums import TrendModeT, TrendMode


def Binary__decl__of__TrendModeT():
    return 0


def BinaryCont__decl__of__TrendModeT():
    return 1


def BinaryContSat__decl__of__TrendModeT():
    return 2


def PctChange__decl__of__TrendModeT():
    return 3


def PctChangeNorm__decl__of__TrendModeT():
    return 4


def TrendMode__decl():
    return TrendModeT()
