"""Reviewed reference definitions of vectorbt.signals.enums (functions as name__ref, methods as name__of__Class)."""
from vectorbt import _typing as tp
from vectorbt.utils.docs import to_doc
from vectorbt.signals.enums import StopTypeT, StopType, FactoryModeT, FactoryMode


def StopLoss__decl__of__StopTypeT():
    return 0


def TrailStop__decl__of__StopTypeT():
    return 1


def TakeProfit__decl__of__StopTypeT():
    return 2


def StopType__decl():
    return StopTypeT()


def Entries__decl__of__FactoryModeT():
    return 0


def Exits__decl__of__FactoryModeT():
    return 1


def Both__decl__of__FactoryModeT():
    return 2


def Chain__decl__of__FactoryModeT():
    return 3


def FactoryMode__decl():
    return FactoryModeT()
